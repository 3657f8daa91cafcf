#!/bin/bash
# decides one property: check.sh ID   (VERIF_TIER=thorough for the deep exploration)
# check.sh -replay FILE runs a recorded violation again
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/mcbuild.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
id=$1
[ "$id" = -replay ] && id=$(sed -n 's/.*"Property": *"\([^"]*\)".*/\1/p' "$2" | head -1)
pkg=./cmd/mc flags=()
[ "$id" = C21 ] && pkg=./cmd/low flags=(-asan)
"$here/mc/build.sh" "$tmp/mc" "$pkg" "${flags[@]}" || { echo "the checker does not build" >&2; exit 2; }
if [ "$id" = C18 ]; then
  "$here/mc/build.sh" "$tmp/race" ./cmd/race -race || { echo "the race build fails" >&2; exit 2; }
  export MC_RACE=$tmp/race
fi
if [ "$id" = C21 ]; then
  "$here/mc/build-inner.sh" "$tmp/inner" && export MC_INNER=$tmp/inner # without it that space is left out, and the evidence says so
fi
export TMPDIR=$tmp
if [ "$1" = -replay ]; then "$tmp/mc" -replay "$2"; else "$tmp/mc" -prop "$id" -dir "$here"; fi
