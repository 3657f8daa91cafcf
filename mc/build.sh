#!/bin/bash
# builds a checker from /repo's working tree: build.sh OUT [package] [go build flags]
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
out=$1; pkg=${2:-./cmd/mc}; shift 2 2>/dev/null
exec go build -tags verif "$@" -o "$out" "$pkg"
