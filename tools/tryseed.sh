#!/bin/bash
# tryseed.sh [-q] ID...   confirm planted bugs in scratch copies of /repo and run the checks against them.
#   for each ID: the patch applies, builds, passes the tests; demo.sh passes without it and fails with it;
#   then the property's quick check (and any further checks given in ALSO="C08 C10") is run against the changed copy.
#   -q: skip the checks.
here=$(cd "$(dirname "$0")/.." && pwd)
skip=; [ "$1" = -q ] && { skip=1; shift; }
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
for id in "$@"; do
  d=$here/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo "$w/repo"; mkdir -p "$w/demo" "$w/out/evidence"; cp -r "$d"/. "$w/demo"
  rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
  say() { printf '%-26s %s\n' "$id" "$*"; }
  (cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh") > "$w/clean.log" 2>&1; rc=$?
  if [ $rc != 0 ]; then say "BAD: demo fails on the clean tree (rc $rc)"; tail -5 "$w/clean.log"; rm -rf "$w"; continue; fi
  if ! git -C "$w/repo" apply "$d/patch.diff"; then say "BAD: patch does not apply"; rm -rf "$w"; continue; fi
  if ! (cd "$w/repo" && go build ./... && go vet ./tensor/... ./component/... >/dev/null 2>&1; go test ./... ) > "$w/test.log" 2>&1; then say "BAD: tests fail"; grep -v '^ok' "$w/test.log" | head -8; rm -rf "$w"; continue; fi
  (cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh") > "$w/bug.log" 2>&1; rc=$?
  if [ $rc = 0 ]; then say "BAD: demo passes with the change"; rm -rf "$w"; continue; fi
  [ -n "$(git -C "$w/repo" status --short | grep -v '^ M')" ] && say "note: untracked files left"
  res=
  if [ -z "$skip" ]; then
    for p in $prop ${ALSO:-}; do
      s=$(date +%s)
      VERIF_REPO=$w/repo MC_OUT=$w/out timeout 900 "$here/check.sh" $p quick > "$w/check.log" 2>&1; rc=$?
      e=$(( $(date +%s) - s ))
      if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " "$w/check.log"; then res="$res $p:CAUGHT(${e}s)"; else res="$res $p:missed(rc$rc,${e}s)"; fi
    done
  fi
  say "ok demo rc$rc;$res"
  rm -rf "$w"
done
