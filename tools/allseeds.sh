#!/bin/bash
# Runs the check of every planted bug (or of those whose name matches $1) on scratch copies of /repo.
. /verif/tools/env.sh
(cd /verif/checker && go build -o /tmp/gv.as .) || exit 2
pat="${1:-.}"
one() {
  id=$1; d=/tmp/as.$id
  rm -rf "$d"; mkdir -p "$d"; cp -a /repo/src "$d/src"; cp -a /repo/.git "$d/.git" 2>/dev/null
  (cd "$d" && git apply "/verif/seeded/$id/patch.diff") || { echo "$id: patch does not apply"; rm -rf "$d"; return; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  mkdir -p /tmp/as.$id.out; cp /verif/known_findings.txt /tmp/as.$id.out/
  /tmp/gv.as -repo "$d" -verif /tmp/as.$id.out "$p" > "/tmp/as.$id.log" 2>&1; rc=$?
  [ $rc = 1 ] && grep -q "VIOLATION property=$p" "/tmp/as.$id.log" && echo "$id: caught" || echo "$id: MISSED rc=$rc"
  rm -rf "$d" "/tmp/as.$id.out"
}
export -f one
ls /verif/seeded | grep -E "$pat" | xargs -P 6 -I{} bash -c 'one {}'
