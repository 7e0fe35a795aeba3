"""Helper to write /verif/seeded/<id>: mk(id, prop, [(file, old, new)...], needs, breaks, demo C text [, extra cflags])."""
import difflib, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch; run in /repo after build.sh
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
gcc -std=gnu99 -O1 -w -I"$PWD" "$here/demo.c" -L"$PWD/bin/glnxa64" -lvl -lm -lpthread -o "$w/demo" || exit 2
cd "$w" && LD_LIBRARY_PATH="%s/bin/glnxa64" timeout 120 ./demo
'''
DEMO = DEMO.replace("cd \"$w\" &&", "repo=$PWD; cd \"$w\" &&").replace("%s/bin", "$repo/bin")
OCT = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export LD_LIBRARY_PATH="$PWD/bin/glnxa64"
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
cd "$w" && VLREPO="$repo" timeout 200 octave-cli --norc --no-history "$here/demo.m" </dev/null
'''
def mk(id, prop, edits, needs, breaks, demo, octave=False, sh=None):
    d = V + "/seeded/" + id; os.makedirs(d, exist_ok=True)
    out = ""; files = {}
    for f, old, new in edits:
        s = files.get(f) or open("/repo/" + f, encoding="latin1").read()
        n = 1
        if isinstance(old, tuple): old, k = old       # (text, occurrence index)
        else: k = 0; assert s.count(old) == 1, (id, s.count(old), old)
        pos = -1
        for _ in range(k + 1): pos = s.index(old, pos + 1)
        files[f] = s[:pos] + new + s[pos + len(old):]
    for f, s in files.items():
        a = open("/repo/" + f, encoding="latin1").read()
        out += "".join(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n" for l in
                       difflib.unified_diff(a.splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w", encoding="latin1").write(out)
    subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], check=True)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if octave: open(d + "/demo.m", "w").write(demo); open(d + "/demo.sh", "w").write(OCT)
    elif sh: open(d + "/demo.sh", "w").write(sh); demo and open(d + "/demo.c", "w").write(demo)
    else: open(d + "/demo.c", "w").write(demo); open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
