#!/bin/bash
# builds govdump into $1 (default /verif/.cache/govdump)
out=${1:-/verif/.cache/govdump}
mkdir -p "$(dirname "$out")"
cd /verif/gov/dump || exit 1
env -u GOROOT -u GOFLAGS GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off HOME=/root \
  /opt/veriftools/go1.27.3/bin/go build -o "$out" .
