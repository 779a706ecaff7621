#!/bin/bash
# Runs the demonstration program beside this script against the godeep tree in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS= GOPROXY=off GOWORK=off GOTOOLCHAIN=local
cp "$here/demo.go.txt" "$tmp/main.go"
cat > "$tmp/go.mod" <<EOF
module demo

go 1.20

require github.com/julioguillermo/godeep v0.0.0

replace github.com/julioguillermo/godeep => $repo
EOF
cp "$repo/go.sum" "$tmp/go.sum"
cd "$tmp" || exit 3
GOFLAGS=-mod=mod go build -o demo . || exit 2
timeout 120 ./demo
