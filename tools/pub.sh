#!/bin/bash
# publish: regenerate everything, commit, run vcheck in the background
cd /verif/tools; python3-vt meta.py || exit 1
./chk all > /tmp/chkall.txt 2>&1; grep "violations;" /tmp/chkall.txt | grep -v " 0 violations"; grep undecided /tmp/chkall.txt
python3 design.py; gofmt -l ../checker; cd ..; git add -A; git commit -qm "$1"
git -C /repo status --short | head -3
(vcheck > /tmp/vcheck.log 2>&1; echo done >> /tmp/vcheck.log) &
