#!/bin/bash
# run.sh PROPERTY [TIER]: builds the checker when that is needed and decides one property from the source in /repo.
# exit 0: the property held on everything analysed; exit 1: a VIOLATION line was printed.
cd "$(dirname "$0")" || exit 1
here=$PWD
. /opt/vp/env.sh 2>/dev/null
bin="$here/bin/checker"
stale() {
  [ -x "$bin" ] || return 0
  [ -n "$(find "$here/checker" -type f -newer "$bin" -print -quit)" ]
}
if stale; then
  mkdir -p "$here/bin"
  (cd "$here/checker" && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || {
    echo "the checker does not build"
    [ -n "$1" ] && echo "VIOLATION property=$1 replay=$here/run.sh"
    exit 1
  }
fi
[ -n "$1" ] || exit 0
exec "$bin" -prop "$1" -tier "${2:-quick}" -repo "${VERIF_REPO:-/repo}" -verif "$here"
