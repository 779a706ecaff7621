#!/bin/bash
# Decides one property from the source under /repo. Usage: check.sh <property> ; the tier comes from VERIF_TIER.
cd "$(dirname "$0")" || exit 3
here=$(pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 HOME="${HOME:-/root}"
unset GOFLAGS
bin="$here/bin/godeepcheck"
if [ ! -x "$bin" ] || [ -n "$(find analyzer -name '*.go' -newer "$bin" -print -quit)" ]; then
  mkdir -p bin
  (cd analyzer && go build -mod=vendor -o "$bin.$$" . && mv "$bin.$$" "$bin") || exit 3
fi
[ "$1" = build ] && exit 0
exec "$bin" check -repo /repo -verif "$here" -property "$1"
