#!/bin/bash
# Builds the engine from the committed sources.
root=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
mkdir -p "$root/bin" "$root/evidence"
cd "$root/engine" && go build -o "$root/bin/zz" .
