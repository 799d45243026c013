#!/bin/bash
# Builds sinksmtp from the current directory with the small smtpd beside this
# script, and runs demo.py against it in a scratch directory.
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d /tmp/demo-XXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
mkdir "$D/src" "$D/smtpd" "$D/run"
cp ./*.go "$D/src/" && rm -f "$D"/src/*_test.go
cp "$H/smtpd.go.txt" "$D/smtpd/smtpd.go"
cp "$H/dns.go.txt" "$D/src/zz_dns_demo.go"
printf 'module github.com/siebenmann/smtpd\n\ngo 1.21\n' > "$D/smtpd/go.mod"
printf 'module github.com/siebenmann/sinksmtp\n\ngo 1.17\n\nrequire github.com/siebenmann/smtpd v0.0.0\n\nreplace github.com/siebenmann/smtpd => ../smtpd\n' > "$D/src/go.mod"
(cd "$D/src" && go build -o "$D/sinksmtp" .) || exit 3
cd "$D/run" && timeout 200 python3 "$H/demo.py" "$D/sinksmtp" "$H"
