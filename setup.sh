#!/bin/bash
# Builds the analyser once, offline, to show that the committed files suffice.
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 GONOSUMDB='*' GOWORK=off
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
cd "$here/tool" && go build -o /dev/null .
