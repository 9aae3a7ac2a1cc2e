#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOARCH=arm64 CGO_ENABLED=0 GODEBUG=asyncpreemptoff=1
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
repo=$(pwd)
printf '{"Replace": {"%s/./zz_demo_test.go": "%s/demo_test.go"}}' "$repo" "$here" > "$ov"
go test -vet=off -count=1 -timeout 250s -overlay "$ov" -exec "qemu-aarch64 -cpu max" -run '^TestZZDemo$' ./.
