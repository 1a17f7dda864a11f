#!/bin/bash
# trybug.sh <id> [check...]: demo on the clean tree, then apply, build, demo, given checks, revert, rebuild
id=$1; shift; D=/verif/seeded/$id; cd /repo; git diff --quiet || { echo dirty; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD-FAIL; bash $D/demo.sh >/tmp/d0.log 2>&1; echo "clean demo rc=$?"
git apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD-FAIL; tail -5 /tmp/b.log; }
bash $D/demo.sh >/tmp/d1.log 2>&1; echo "bug demo rc=$?"; tail -2 /tmp/d1.log
for c in "$@"; do (cd /verif; ./check $c 2>&1 | grep -E "VIOLATION|tier=|harness|Error" | cut -c1-260 | head -6); done
git apply -R $D/patch.diff; git diff --stat; bash /opt/vp/build.sh >/dev/null 2>&1
