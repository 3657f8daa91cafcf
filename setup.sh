#!/bin/bash
# builds the explorers once, to see that they build
cd "$(dirname "$0")" || exit 1
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
mc/build.sh "$tmp/mc" ./cmd/mc && mc/build.sh "$tmp/low" ./cmd/low -asan && mc/build.sh "$tmp/race" ./cmd/race -race && mc/build-inner.sh "$tmp/inner"
