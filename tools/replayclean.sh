#!/bin/bash
# replayclean.sh [PROP...]: development only: run the replay harness on /repo
# as it is; it must find no failing input there.
. /verif/tools/env.sh
bash /verif/tools/build.sh || exit 2
for p in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18}; do /verif/.cache/bin/sha1vc replay $p; done
