#!/bin/bash
# Runs the demonstration as an in-package test of PKGDIR in /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=0
mod=MOD; pkg=PKGDIR
tmp="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp" HOME="$tmp" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
sep=""
{
  printf '{"Replace":{'
  for f in "$here"/*_test.go; do
    printf '%s"%s/%s/%s/vdemo_%s":"%s"' "$sep" "$PWD" "$mod" "$pkg" "$(basename "$f")" "$f"
    sep=","
  done
  printf '}}'
} > "$tmp/overlay.json"
cd "$PWD/$mod" && timeout 240 go test -overlay "$tmp/overlay.json" -count=1 -vet=off -run '^TestDemo' "./$pkg"
