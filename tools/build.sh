#!/bin/bash
# build.sh: build the verifier into .cache/bin (only when its source changed).
cd "$(dirname "$0")/.." || exit 2
. tools/env.sh
export GOCACHE="$PWD/.cache/go" GOPROXY=off GOSUMDB=off GOENV=off GOWORK=off HOME="${HOME:-/root}"
unset GOOS GOARCH CC CGO_ENABLED
mkdir -p .cache/bin || exit 2
h=$(find engine -name '*.go' -o -name go.mod -path 'engine/*' | LC_ALL=C sort | xargs cat | sha256sum | cut -c1-64)
if [ -x .cache/bin/sha1vc ] && [ "$(cat .cache/bin/hash 2>/dev/null)" = "$h" ]; then exit 0; fi
(cd engine && CGO_ENABLED=0 go build -trimpath -ldflags='-s -w' -o ../.cache/bin/sha1vc.new ./cmd/sha1vc) || exit 2
mv .cache/bin/sha1vc.new .cache/bin/sha1vc
echo "$h" > .cache/bin/hash
