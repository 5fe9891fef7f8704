#!/bin/bash
# seedtry.sh ID [PROP..]: in a private mount namespace with copies of /repo and /verif: demo on the clean tree, patch, build, tests, demo again, checks.
set -u
id=$1; shift
S=$(mktemp -d /tmp/seedXXXX)
cp -a /repo "$S/repo"; mkdir "$S/verif"; cp -a /verif/. "$S/verif/"; cp -a "/verif/seeded/$id" "$S/demo"
cat > "$S/go.sh" <<G
mount --bind $S/repo /repo; mount --bind $S/verif /verif
cd /repo; git checkout -q -- . 
bash /opt/vp/build.sh >$S/b0 2>&1 || { tail -5 $S/b0; echo "$id CLEAN BUILD FAILS"; }
timeout 300 bash $S/demo/demo.sh >$S/d0 2>&1; echo "$id clean demo rc=\$?"
git apply $S/demo/patch.diff || echo "$id NO APPLY"
bash /opt/vp/build.sh >$S/b1 2>&1 || { tail -5 $S/b1; echo "$id BUILD FAILS"; }
bash /opt/vp/test.sh $S/t.json >/dev/null 2>&1; python3 - <<P
import json; t=json.load(open("$S/t.json")); b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
print("$id tests", "ok" if not set(b)-set(t["passed"]) else "FAIL %s" % (set(b)-set(t["passed"])))
P
timeout 300 bash $S/demo/demo.sh >$S/d1 2>&1; echo "$id patched demo rc=\$? (\$(tail -1 $S/d1 | cut -c1-150))"
cd /verif
for p in $*; do timeout 900 ./check \$p quick >$S/c 2>&1; echo "$id check \$p rc=\$? \$(grep -m1 'VIOLATION prop\|^ERROR' $S/c | cut -c1-200)"; grep -m1 'violation \[' $S/c | cut -c1-400; done
G
unshare -Urm bash "$S/go.sh"
rm -rf "$S"
