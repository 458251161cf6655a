#!/bin/bash
# Runs the *_test.go files beside this script inside the package named in pkg.txt (module dir + package).
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
sed -E "s#^([[:space:]]*)(use[[:space:]]+)?(\./)?src/#\1\2$repo/src/#" "$repo/go.work" > "$W/go.work"
cat "$repo/go.work.sum" /opt/vp/gowork/base.sum /opt/vp/gowork/go.work.sum 2>/dev/null | LC_ALL=C sort -u > "$W/go.work.sum"
export GOWORK=$W/go.work
read -r mod pkg < "$here/pkg.txt"
{
  echo '{"Replace": {'
  sep=
  for f in "$here"/*_test.go; do
    echo "$sep\"$repo/src/$mod/$pkg/$(basename "$f")\": \"$f\""
    sep=,
  done
  echo '}}'
} > "$W/overlay.json"
cd "$repo/src/$mod" || exit 3
timeout 280 go test -overlay "$W/overlay.json" -vet=off -count=1 -run '^TestVerif' "./$pkg"
