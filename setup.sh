#!/bin/bash
# Warms the build cache, so that the checks only rebuild what changed in /repo.
cd "$(dirname "$0")/harness" || exit 1
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp go.mod go.sum "$tmp/"
mkdir "$tmp/plain" "$tmp/race"
go test -c -vet=off -buildvcs=false -modfile="$tmp/go.mod" -o "$tmp/plain/" ./props/... || exit 1
go test -c -race -vet=off -buildvcs=false -modfile="$tmp/go.mod" -o "$tmp/race/" ./props/... || exit 1
go test -c -race -tags=verif -vet=off -buildvcs=false -modfile="$tmp/go.mod" -o "$tmp/race/" ./props/c26
exit 0
