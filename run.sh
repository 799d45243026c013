#!/bin/bash
# run.sh PROPERTY [quick|thorough] [more mcheck options]   or   run.sh -replay FILE
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
B=$(mktemp -d /tmp/verif-bin-XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
(cd go && go build -ldflags=-checklinkname=0 -o "$B/" ./cmd/instr ./cmd/mcheck) || exit 2
if [ "$1" = -replay ]; then
	"$B/mcheck" -verif "$V" "$@"
	exit $?
fi
P=$1; T=${2:-quick}; shift; shift
"$B/mcheck" -verif "$V" -prop "$P" -tier "$T" "$@"
