#!/bin/bash
# Warms the build cache: the checks build themselves from /repo's tree on every run.
set -e
cd "$(dirname "$0")/harness"
export PATH=/usr/local/go/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOENV=off GOWORK=off CGO_ENABLED=0
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp go.mod go.sum "$tmp/"
go test -c -vet=off -modfile "$tmp/go.mod" -o "$tmp/checks.test" ./checks
cp /repo/go.mod "$tmp/repo.go.mod"; cp /repo/go.sum "$tmp/repo.go.sum"
cd /repo && go build -modfile "$tmp/repo.go.mod" -o "$tmp/yisp" .
