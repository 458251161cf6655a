#!/bin/sh
# run.sh <property> [quick|thorough]: builds the analyser (cached) and decides one property on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin${PATH:+:$PATH}
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
mkdir -p "$here/bin" "$here/evidence"
( cd "$here/checker" && go build -o "$here/bin/gv.$$" . ) || { echo "the analyser does not build" >&2; exit 2; }
mv -f "$here/bin/gv.$$" "$here/bin/gv"
[ -n "$1" ] || exit 0
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
exec "$here/bin/gv" -repo "${GV_REPO:-/repo}" -verif "$here" "$1"
