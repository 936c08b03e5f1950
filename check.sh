#!/bin/bash
# usage: check.sh ID [quick|thorough]   builds the analyser from the committed
# sources when it is not there and runs the rules of one property on /repo.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" GOPROXY=off GOTOOLCHAIN=local
[ -n "$2" ] && export VERIF_TIER="$2"
out="${VERIF_BIN:-/tmp/verif-bin.$(id -u)}"
mkdir -p "$out" || exit 2
if [ ! -x "$out/checker" ] || [ -n "$(find checker -newer "$out/checker" -name '*.go' -print -quit)" ]; then
  (cd checker && GOFLAGS=-mod=mod go build -o "$out/checker.$$" . && mv "$out/checker.$$" "$out/checker") || exit 2
fi
[ "$1" = setup ] && exit 0
exec "$out/checker" check "$1"
