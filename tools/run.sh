#!/bin/bash
# run.sh <property>: build the verifier from the committed source if it is not
# there, and run one check against /repo's working tree.
cd "$(dirname "$0")/.." || exit 2
bash tools/build.sh >&2 || exit 2
exec .cache/bin/sha1vc check "$1"
