#!/bin/bash
# builds cmd/inner with the C code of /repo's working tree instrumented: build-inner.sh OUT
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
MC_SUBJECT=$(go list -m -f '{{.Dir}}' github.com/LazarenkoA/1c-language-parser) || exit 2
export MC_SUBJECT CC=$PWD/cc-points
export CGO_CFLAGS="-O2 -g -DCC_POINTS=0x$(sha256sum < cc-points | cut -c1-8)" # a changed compiler script compiles everything anew
exec ./build.sh "$1" ./cmd/inner
