#!/bin/bash
# check.sh <ID> [quick|thorough]     explore the property on /repo's current working tree
# check.sh <ID> replay <file>        re-run the case of a replay file, verbosely
# VERIF_REPO=<dir> runs against another copy of the repository (used only to try planted changes in scratch copies).
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh ID [quick|thorough|replay FILE]}
mode=${2:-${VERIF_TIER:-quick}}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
repo=${VERIF_REPO:-/repo}
out=${MC_OUT:-$here}
tmp=$(mktemp -d /tmp/mcbuild.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
sed "s#=> /repo#=> $repo#" "$here/mc/go.mod" > "$tmp/go.mod"
cp "$here/mc/go.sum" "$tmp/go.sum"
if ! (cd "$here/mc" && go build -modfile="$tmp/go.mod" -o "$tmp/mc" ./cmd/mc) > "$tmp/build.log" 2>&1; then
  echo "check.sh: building the harness against $repo failed" >&2
  cat "$tmp/build.log" >&2
  exit 2
fi
if [ "$id" = C20 ]; then # the runner of concurrent programs, with the exploration runtime in place of ThreadSanitizer
  root=$(go env GOROOT)
  printf '{"Replace":{"%s/src/runtime/race/internal/amd64v1/race_linux.syso":"","%s/src/sync/pool.go":"%s/mc/sched/overlay/pool.go.txt"}}\n' "$root" "$root" "$here" > "$tmp/overlay.json"
  if ! { gcc -O2 -c "$here/mc/sched/rt/vrt.c" -o "$tmp/vrt.o" &&
    (cd "$here/mc" && CGO_ENABLED=1 go build -race -overlay "$tmp/overlay.json" -modfile="$tmp/go.mod" -ldflags="-linkmode=external -extldflags=$tmp/vrt.o" -o "$tmp/c20run" ./cmd/c20run); } > "$tmp/build.log" 2>&1; then
    echo "check.sh: building the concurrent runner against $repo failed" >&2
    cat "$tmp/build.log" >&2
    exit 2
  fi
fi
export MC_HOME="$here" MC_VERIF="$out" MC_SRC="$here/mc" MC_REPO="$repo" MC_BUILD="$tmp"
if [ "$mode" = replay ]; then
  "$tmp/mc" replay "$id" "${3:?replay file}"
else
  VERIF_TIER=$mode "$tmp/mc" check "$id"
fi
