#!/bin/bash
# Warms the Go build cache; nothing else is needed. Checks work without it.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
B=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
(cd go && go build -ldflags=-checklinkname=0 -o "$B/" ./cmd/instr ./cmd/mcheck) || exit 2
mkdir "$B/w" && "$B/instr" -repo /repo -out "$B/w" -verif "$V" || exit 2
(cd /repo && go test -vet=off -ldflags=-checklinkname=0 -c -overlay "$B/w/overlay.json" -modfile "$B/w/go.mod" -o "$B/worker" .) || exit 2
(cd /repo && go test -race -vet=off -ldflags=-checklinkname=0 -c -overlay "$B/w/overlay.json" -modfile "$B/w/go.mod" -o "$B/worker" .) || exit 2
exit 0
