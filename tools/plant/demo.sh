#!/bin/bash
# run in the repository after its build: exits 0 unless the demonstration fails
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
w="$(mktemp -d)" || exit 2
trap 'rm -rf "$w"' EXIT
printf '{"Replace":{"%s/evaluation/zz_demo_test.go":"%s/demo.go"}}' "$PWD" "$here" > "$w/overlay.json"
go test RACE -vet=off -count=1 -timeout 250s -overlay "$w/overlay.json" -run '^TestPlanted$' ./evaluation
