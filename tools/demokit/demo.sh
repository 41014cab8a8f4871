#!/bin/bash
# Runs the demonstration against the repository in the working directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
for g in /opt/veriftools/go1.26.10/bin; do [ -x $g/go ] && export PATH=$g:$PATH; done
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
tar xzf "$here/kit.tgz" -C "$tmp"
python3 "$tmp/kit/mkmod.py" "$repo" "$tmp/mod" "$tmp/kit"
cat > "$tmp/overlay.json" <<J
{"Replace": {"$repo/internal/zzdemo/demo_test.go": "$here/demo_test.go", "$repo/internal/zzdemo/zz_kit_test.go": "$tmp/kit/zz_kit_test.go"}}
J
timeout 240 go test -ldflags=-checklinkname=0 -c -vet=off -o "$tmp/demo.test" -modfile "$tmp/mod/go.mod" -overlay "$tmp/overlay.json" ./internal/zzdemo
cd "$tmp"
timeout 60 ./demo.test -test.timeout 50s -test.v
