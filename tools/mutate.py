#!/usr/bin/env python3
"""mutate.py [--n N] [--seed S] [--lines A-B] FILE CHECK[,CHECK...] ...: plants random one-token mutants of FILE (relative to /repo) in
private copies of /repo, each mounted at /repo in a mount namespace of its own, and runs the quick checks until one
reports a violation.  Prints one line per mutant; survivors show the change.  A development aid: nothing registered uses it."""
import sys, os, re, random, subprocess, shutil, concurrent.futures, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = r'''
mount --bind "$W/repo" /repo
for d in build evidence replays; do mkdir -p "$W/$d"; mount --bind "$W/$d" /verif/$d; done
cd /verif
for c in $CHECKS; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run $c --tier quick >"$W/log" 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q '^VIOLATION' "$W/log"; then echo "KILLED $c"; exit 0; fi
  if [ $rc != 0 ]; then echo "ERROR $c rc=$rc $(tail -1 $W/log | cut -c1-100)"; exit 0; fi
done
echo SURVIVED
'''
def mask(text, m):            # code positions (not comments / strings / preprocessor)
    ok = bytearray(b"\1" * len(text)); rx = r'%[^\n]*' if m else r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|^[ \t]*#[^\n]*'
    for k in re.finditer(rx, text, re.S | re.M):
        for i in range(*k.span()): ok[i] = 0
    return ok
OPS = [(r'<=', ['<', '>=']), (r'>=', ['>', '<=']), (r'==', ['!=']), (r'!=', ['==']), (r'(?<![<>=\-!])<(?![<=])', ['<=', '>']), (r'(?<![<>=\-!])>(?![>=])', ['>=', '<']),
       (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<![+\w])\+(?![+=])|(?<=[\w)\]]) ?\+(?![+=]) ?', ['-']), (r'(?<=[\w)\] ])-(?![-=>])', ['+']), (r'(?<=[\w)\]]) \* (?=[\w(])', [' / ']), (r'(?<=[\w)\]]) / (?=[\w(])', [' * ']),
       (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])2(?![\w.])', ['1', '3']), (r'\b\d+\.\d+', ['@scale']),
       (r'(?<![\w.])!(?!=)', ['']), (r'^[ \t]+[\w\->.\[\]*]+ ?[+\-*/]?= [^;{}\n]*;', ['@del']), (r'^[ \t]+(?:break|continue|return[^;\n]*) ?;', ['@del']), (r'^[ \t]+\w+ ?\([^;{}\n]*\) ?;', ['@del']),
       (r'\bVL_MIN\b', ['VL_MAX']), (r'\bVL_MAX\b', ['VL_MIN']), (r'\bif ?\((?=.)', ['if (0 && ', 'if (1 || ']), (r'(?<=[\[(, ])([ij]|x|y)(?=[\]), ])', ['@xy']), (r'\bfloat\b(?= [a-z]\w* =)', ['int'])]
FILT = re.compile(os.environ.get('MUTRX', ''))
SKIP = re.compile(os.environ.get('MUTSKIP', r'assert|abort|vl_free|verb|VL_PRINT|mexPrintf'))
def mutants(text, m, rng, n, lines):
    ok = mask(text, m); c = []
    for rx, rep in OPS:
        for k in re.finditer(rx, text, re.M):
            if not all(ok[k.start():k.end()]): continue
            ln = text.count("\n", 0, k.start()) + 1
            l0 = text.rfind('\n', 0, k.start()) + 1; l = text[l0:text.find('\n', k.end())]
            if not FILT.search(l) or SKIP.search(l): continue
            if lines and not lines[0] <= ln <= lines[1]: continue
            for r in rep:
                t = k.group(0)
                if r == '@del': r = re.match(r'\s*', t).group(0) + ('' if m else ';')
                elif r == '@scale': r = repr(float(t) * 1.25)
                elif r == '@xy': r = {'i': 'j', 'j': 'i', 'x': 'y', 'y': 'x'}[t]
                if m and '||' in r: continue
                c.append((rx, k.start(), k.end(), r))
    by = {}
    for x in c: by.setdefault(x[0], []).append(x)
    out = []; ks = list(by)
    while ks and len(out) < n:
        q = rng.choices(ks, [len(by[z]) ** .5 for z in ks])[0]
        x = by[q].pop(rng.randrange(len(by[q]))); out.append(x)
        if not by[q]: ks.remove(q)
    return out
lock = threading.Lock(); free = []
def one(f, checks, text, mu):
    with lock: w = free.pop()
    W = "/tmp/mutw/%d" % w
    try:
        _, a, b, r = mu; new = text[:a] + r + text[b:]
        ln = text.count("\n", 0, a) + 1; o = text.splitlines()[ln - 1].strip(); nn = new.splitlines()[ln - 1].strip()
        p = W + "/repo/" + f
        open(p, "w", encoding="latin1").write(new); t = time.time()
        if f.endswith((".c", ".h", ".tc")) and f.startswith("vl/") and f.endswith(".c"):
            k = subprocess.run(["gcc", "-std=c99", "-w", "-fsyntax-only", "-mavx", "-I" + W + "/repo", p], capture_output=True)
            if k.returncode: return
        r = subprocess.run(["unshare", "-m", "bash", "-c", SCR], env=dict(os.environ, W=W, CHECKS=" ".join(checks)), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.strip()
        print("%-22s %s:%d %.0fs\n     - %s\n     + %s" % (r, f, ln, time.time() - t, o, nn) if not r.startswith("KILLED") else "%s %s:%d %.0fs" % (r, f, ln, time.time() - t), flush=True)
    finally:
        open(W + "/repo/" + f, "w", encoding="latin1").write(text)
        with lock: free.append(w)
def main():
    a = sys.argv[1:]; n = 10; seed = 1; lines = None; par = 2; pos = []
    while a:
        x = a.pop(0)
        if x == "--n": n = int(a.pop(0))
        elif x == "--seed": seed = int(a.pop(0))
        elif x == "--par": par = int(a.pop(0))
        elif x == "--lines": lines = tuple(int(q) for q in a.pop(0).split("-"))
        else: pos.append(x)
    off = int(os.environ.get("MUTW", "0"))
    for w in range(off, off + par):
        shutil.rmtree("/tmp/mutw/%d" % w, ignore_errors=True); os.makedirs("/tmp/mutw/%d" % w)
        subprocess.run(["cp", "-a", "/repo", "/tmp/mutw/%d/repo" % w], check=True); free.append(w)
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        fs = []
        for f, c in zip(pos[::2], pos[1::2]):
            text = open("/repo/" + f, encoding="latin1").read()
            for mu in mutants(text, f.endswith(".m"), random.Random("%s %d" % (f, seed)), n, lines): fs.append(ex.submit(one, f, c.split(","), text, mu))
        for q in fs: q.result()
    for w in range(off, off + par): shutil.rmtree("/tmp/mutw/%d" % w, ignore_errors=True)
main()
