#!/bin/bash
# usage: check.sh PROPERTY|all [quick|thorough]
# Builds the analyser and runs one property's rules on the source in /repo.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 GONOSUMDB='*' GONOSUMCHECK=1 GOWORK=off
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
tmp="$(mktemp -d /tmp/verif.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
if ! (cd "$here/tool" && go build -o "$tmp/vt" .) >"$tmp/build.log" 2>&1; then
  cat "$tmp/build.log"
  echo "the analyser does not build"
  exit 2
fi
export VERIF_DIR="$here"
"$tmp/vt" check "$id" "$tier"
