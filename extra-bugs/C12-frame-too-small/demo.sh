#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
repo=$(pwd)
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go", "%s/zz_demo_decl.go": "%s/demo_decl.go", "%s/zz_demo_amd64.s": "%s/demo_amd64.s"}}' "$repo" "$here" "$repo" "$here" "$repo" "$here" > "$ov"
go test -vet=off -count=1 -timeout 250s -overlay "$ov" -run '^TestZZDemo$' .
