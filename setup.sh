#!/bin/bash
# Builds the analyser once, so that the build cache is warm.
here="$(cd "$(dirname "$0")" && pwd)"
for d in /opt/veriftools/go1.27.3/bin /opt/veriftools/go/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && PATH="$d:$PATH" && break
done
export PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
cp -r "$here/analyzer" "$tmp/src" && cd "$tmp/src" && go build -o "$tmp/az" . && echo built
