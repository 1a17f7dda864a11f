#!/usr/bin/env python3
"""newbug.py <id> <property> <bus 0|1> : finish a planted bug. Takes the patch from /repo's working tree (git diff), demo.c from stdin,
meta 'needs' and 'what_it_breaks' from argv 4,5; then restores /repo. Verifies nothing; use trybug.sh."""
import sys, os, json, subprocess
bid, prop, bus, needs, breaks = sys.argv[1:6]
d = "/verif/seeded/" + bid
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "diff"], capture_output=True, text=True).stdout
assert diff.strip()
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.c", "w").write(sys.stdin.read())
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
sh = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); B=$PWD/_build
W=$(mktemp -d /var/tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
gcc -g -Iinclude -Isrc/core -Isrc/rtmessage -Isrc/rbus "$D/demo.c" -o "$W/demo" -L$B/src/rbus -L$B/src/core -L$B/src/rtmessage -lrbus -lrbuscore -lrtMessage -lpthread -lm || exit 3
export LD_LIBRARY_PATH=$B/src/rbus:$B/src/core:$B/src/rtmessage
'''
if bus == "1":
    sh += '''export W B
timeout 120 unshare -Urm bash -c 'mount -t tmpfs tmpfs /tmp || exit 3
  $B/src/rtmessage/rtrouted -f -l ERROR >/dev/null 2>&1 & R=$!
  $B/src/session_manager/rbus_session_mgr >/dev/null 2>&1 & M=$!
  sleep 1
  cd /tmp; "$W/demo"; rc=$?
  kill -9 $R $M; exit $rc' || { echo "demo failed"; exit 1; }
echo ok
'''
else:
    sh += 'timeout 60 "$W/demo" || { echo "demo failed"; exit 1; }\necho ok\n'
open(d + "/demo.sh", "w").write(sh)
os.chmod(d + "/demo.sh", 0o755)
subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "checkout", "--", "."])
