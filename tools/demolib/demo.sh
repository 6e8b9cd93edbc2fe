#!/bin/bash
# run in the repository: exits 0 if the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
d=$(mktemp -d); trap 'rm -r -- "$d"' EXIT
cp "$here"/*.go "$d"/
printf 'module demo\n\ngo 1.24\n\nrequire github.com/go-stomp/stomp/v3 v3.0.0\n\nreplace github.com/go-stomp/stomp/v3 => %s\n' "$repo" > "$d/go.mod"
cd "$d" && go build -o demo . && timeout 100 ./demo
