#!/bin/bash
# Builds the verifier from the committed sources into /verif/bin (ignored by git).
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/bin"
cd "$here/govc"
export GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local GOFLAGS=-mod=vendor
[ -n "$HOME" ] || export HOME=/root
go build -o "$here/bin/govc.tmp.$$" .
mv -f "$here/bin/govc.tmp.$$" "$here/bin/govc"
