#!/bin/bash
# tryseed.sh ID...: is the planted bug valid, and do the quick checks see it?
# Works in a scratch clone of /repo.
# Prints: id property valid=... caught=...   (-n: do not run the check)
NOCHECK=; [ "$1" = -n ] && { NOCHECK=1; shift; }
. /opt/vp/env.sh
C=$(mktemp -d /tmp/try-XXXXXX); trap 'rm -rf "$C"' EXIT
git clone -q /repo $C/r
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  ok=1; why=
  (cd $C/r && bash $d/demo.sh >$C/out 2>&1) || { ok=0; why="demo fails unpatched: $(tail -1 $C/out)"; }
  git -C $C/r apply $d/patch.diff || { echo "$id does not apply"; continue; }
  (cd /opt/vp/typecheck && go build -o $C/typecheck . && $C/typecheck $C/r) >$C/build 2>&1 || { ok=0; why="$why build"; }
  (cd $C/r && go test -vet=off -count=1 rlex*.go $PART) >$C/test 2>&1 || { ok=0; why="$why tests"; }
  (cd $C/r && bash $d/demo.sh >$C/out 2>&1) && { ok=0; why="$why demo passes patched"; }
  msg=$(tail -1 $C/out)
  caught=skipped
  if [ -z "$NOCHECK" ]; then
    s=$(date +%s)
    timeout 900 /verif/run.sh $p quick -repo $C/r >/tmp/tryseed.$id.check 2>&1; rc=$?
    caught="rc=$rc $(grep -m1 VIOLATION /tmp/tryseed.$id.check) ($(( $(date +%s)-s ))s)"
  fi
  git -C $C/r checkout -q -- .
  echo "$id $p valid=$ok $why | $msg | $caught"
done
