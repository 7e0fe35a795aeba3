#!/usr/bin/env python3
"""seedtest.py [--fast] ID...: validates planted bugs of /verif/seeded in private mount namespaces.
For each: demo on the unchanged tree, apply, build, stable tests (skipped with --fast), demo again,
then the property's quick check.  Nothing is written to /repo, /verif/build or /verif/evidence."""
import sys, os, subprocess, json, concurrent.futures, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRIPT = r'''
set -e
mount --bind "$W/repo" /repo
mkdir -p "$W/v/build" "$W/v/evidence" "$W/v/replays"
for d in build evidence replays; do mount --bind "$W/v/$d" /verif/$d; done
cp -a "/verif/seeded/$ID" "$W/demo"; rm -f "$W/demo/patch.diff"
cd /repo
bash /opt/vp/build.sh >"$W/build0.log" 2>&1 || { echo "BUILD0 FAILED"; exit 3; }
timeout 300 bash "$W/demo/demo.sh" >"$W/demo0.log" 2>&1 && echo "demo unchanged: ok" || { echo "DEMO FAILS ON UNCHANGED TREE"; tail -5 "$W/demo0.log"; }
git -C /repo apply "/verif/seeded/$ID/patch.diff"
if [ "$FAST" = 1 ]; then bash /opt/vp/build.sh >"$W/build1.log" 2>&1 || { echo "BUILD FAILED"; tail -5 "$W/build1.log"; exit 3; }
else bash /opt/vp/test.sh "$W/out.json" >"$W/test.log" 2>&1 || true
python3 - "$W/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
want=set(b['passed'] if 'passed' in b else b['stable']); got=set(o['passed'])
miss=sorted(want-got); print('stable tests: ok' if not miss else 'STABLE TESTS FAIL: %s'%miss[:5])
P
fi
cd /repo
timeout 300 bash "$W/demo/demo.sh" >"$W/demo1.log" 2>&1 && echo "DEMO PASSES WITH THE PATCH" || echo "demo patched: fails as wanted"
cd /verif
VERIF_SEED=1 VERIF_TIER=quick ./run $PROP --tier quick >"$W/check.log" 2>&1 && echo "CHECK MISSES IT" || { grep -m1 VIOLATION "$W/check.log" || { echo "CHECK ERROR"; tail -5 "$W/check.log"; }; grep -m1 -A1 -i "fail\|violation" "$W/check.log" | tail -1 | cut -c1-200; }
'''
def one(id, fast):
    W = "/tmp/seedw/" + id
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
    m = json.load(open(V + "/seeded/%s/meta.json" % id))
    r = subprocess.run(["unshare", "-m", "bash", "-c", SCRIPT], env=dict(os.environ, W=W, ID=id, PROP=m["property"], FAST="1" if fast else "0"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(W + "/repo", ignore_errors=True); shutil.rmtree(W + "/v", ignore_errors=True)
    return "== %s (%s)\n%s" % (id, m["property"], r.stdout)
args = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
fast = "--fast" in sys.argv
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for t in ex.map(lambda i: one(i, fast), args): print(t, flush=True)
