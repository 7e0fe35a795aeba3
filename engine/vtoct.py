"""Property-based testing engine for checks in Python, most of which drive the
toolbox in a persistent octave-cli: tape recording, forked workers, shrinking,
replay.  Counterpart of vt.h; same command line."""
import argparse, hashlib, json, math, os, queue, re, select, shutil, signal, struct, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
M64 = (1 << 64) - 1
def splitmix(s):
    s = (s + 0x9E3779B97F4A7C15) & M64; z = s
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64; z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return s, z ^ (z >> 31)

class Fail(Exception): pass
class Known(Exception):
    def __init__(self, id, msg): self.id = id; self.msg = msg; Exception.__init__(self, msg)
class Discard(Exception): pass
class Dead(Exception): pass            # octave died or does not answer
class OctError(Exception): pass        # an error raised by the called function

# ------------------------------------------------------------------ Octave
_T = {np.dtype(k): i + 1 for i, k in enumerate(("f8", "f4", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"))}
_N = {v: k for k, v in _T.items()}
class Ref:                             # output `out` (1-based) of the call `call` (1-based) of the same batch
    def __init__(self, call, out=1): self.v = (call, out)
class Fn:                              # function handle
    def __init__(self, s): self.s = s
class Sparse:
    def __init__(self, a): self.a = a
class Complex:
    def __init__(self, re, im): self.v = (re, im)
class Cell:                            # cell array of a given shape, column-major
    def __init__(self, items, shape): self.items = items; self.shape = shape
def _hd(t, dims): return struct.pack("<ii%di" % len(dims), t, len(dims), *dims)
def enc(v):
    if isinstance(v, str):
        b = v.encode("latin1"); return _hd(12, (1 if b else 0, len(b))) + b
    if isinstance(v, (bool, np.bool_)): return _hd(11, (1, 1)) + bytes([bool(v)])
    if isinstance(v, (int, float)): return _hd(1, (1, 1)) + struct.pack("<d", v)
    if isinstance(v, np.ndarray) or isinstance(v, np.generic):
        a = np.asarray(v)
        if a.ndim == 0: a = a.reshape(1, 1)
        if a.ndim == 1: a = a.reshape(1, -1)
        if a.dtype == bool: return _hd(11, a.shape) + a.astype("u1").tobytes(order="F")
        return _hd(_T[a.dtype], a.shape) + a.tobytes(order="F")
    if isinstance(v, (list, tuple)): return _hd(13, (1 if len(v) else 0, len(v))) + b"".join(enc(x) for x in v)
    if isinstance(v, Cell): return _hd(13, v.shape) + b"".join(enc(x) for x in v.items)
    if isinstance(v, dict): return _hd(14, (1, len(v))) + b"".join(enc(k) + enc(x) for k, x in v.items())
    if isinstance(v, Ref): return _hd(15, (1, 1)) + enc(np.array(v.v, float))
    if isinstance(v, Fn): return _hd(16, (1, 1)) + enc(v.s)
    if isinstance(v, Complex): return _hd(18, (1, 1)) + enc(v.v[0]) + enc(v.v[1])
    if isinstance(v, Sparse): return _hd(17, (1, 1)) + enc(v.a)
    raise TypeError(type(v))
def dec(b, p):
    t, nd = struct.unpack_from("<ii", b, p); p += 8; d = struct.unpack_from("<%di" % nd, b, p); p += 4 * nd; m = 1
    for x in d: m *= x
    if t <= 10:
        w = _N[t].itemsize; a = np.frombuffer(b, _N[t], m, p).reshape(d, order="F").copy(order="F"); return a, p + w * m
    if t == 11: return np.frombuffer(b, "u1", m, p).reshape(d, order="F").astype(bool), p + m
    if t == 12:
        raw = b[p:p + m]
        if nd == 2 and d[0] > 1: raw = bytes(np.frombuffer(raw, "u1").reshape(d, order="F").tobytes(order="C"))
        return raw.decode("latin1"), p + m
    if t == 13:
        r = []
        for _ in range(m): x, p = dec(b, p); r.append(x)
        return r, p
    if t == 14:
        nf, p = dec(b, p); nf = int(nf[0, 0]); names = []
        for _ in range(nf): x, p = dec(b, p); names.append(x)
        r = []
        for _ in range(m):
            s = {}
            for n in names: s[n], p = dec(b, p)
            r.append(s)
        return (r[0] if m == 1 else r), p
    if t == 18: x, p = dec(b, p); y, p = dec(b, p); return x + 1j * y, p
    raise ValueError("type %d" % t)

class Octave:
    """a persistent octave-cli with the toolbox on its path"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vt-oct-"); self.p = None; self.age = 0
    def start(self):
        env = dict(os.environ, MALLOC_PERTURB_="165", HOME=self.dir, GNUTERM="dumb", LC_ALL="C")
        dbg = "/usr/lib/x86_64-linux-gnu/libc_malloc_debug.so.0"
        if os.environ.get("VT_ASAN"):
            env["LD_PRELOAD"] = os.path.realpath(os.environ["VT_ASAN"]); env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=24:handle_segv=1:handle_abort=1:detect_stack_use_after_return=0:verify_asan_link_order=0:max_allocation_size_mb=1024:hard_rss_limit_mb=3000"
        elif os.path.exists(dbg): env["LD_PRELOAD"] = dbg; env["MALLOC_CHECK_"] = "3"
        self.log = open(self.dir + "/log", "w+b")
        self.p = subprocess.Popen(["octave-cli", "--norc", "--no-history", "--no-line-editing", "--quiet", "--no-gui"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.log, env=env, cwd=self.dir, start_new_session=True)
        ds = []
        for w, dd, ff in os.walk(REPO + "/toolbox"):
            dd[:] = sorted(x for x in dd if x not in ("mex", "noprefix", "xtest", "demo", "@private") and not x.startswith("."))
            if any(f.endswith(".m") for f in ff): ds.append(w)
        paths = [os.environ["VT_MEX"]] if os.environ.get("VT_MEX") else []
        q = ",".join("'%s'" % x for x in [HERE + "/oct", HERE + "/oct/stubs"] + paths + ds)
        self.buf = b""; self.age = 0
        self._send("warning('off','all'); more off; page_screen_output(false); crash_dumps_octave_core(false); addpath(%s); printf('\\n@@DONE\\n'); fflush(stdout);\n" % q)
        self._wait(120)
    def _send(self, s):
        try: self.p.stdin.write(s.encode()); self.p.stdin.flush()
        except (BrokenPipeError, OSError): self._dead("octave ended")
    def _wait(self, secs):
        fd = self.p.stdout.fileno(); end = time.time() + secs
        while b"\n@@DONE\n" not in self.buf:
            r, _, _ = select.select([fd], [], [], max(0, min(2, end - time.time())))
            if not r:
                if os.fstat(self.log.fileno()).st_size > 1 << 20: self._dead("endless messages")
                if time.time() >= end: self._dead("no answer after %d s" % secs)
                continue
            x = os.read(fd, 65536)
            if not x: self._dead("octave ended")
            self.buf += x
        self.buf = b""
    def _dead(self, why):
        time.sleep(.1 if os.environ.get("VT_ASAN") else 0); self.log.flush(); self.log.seek(0); tail = self.log.read(1 << 20).decode("latin1"); k = tail.find("ERROR: AddressSanitizer")
        if k >= 0:
            e = tail.find("is located", k); l = tail[k:].split("\n"); tail = "\n".join([l[0]] + [x for x in l if re.match(r"\s+#[0-9] ", x) and ("/repo/" in x or "vl_" in x)][:6] + ([tail[e - 20:e + 60].strip()] if e >= 0 else []))
        else: tail = tail[-600:]
        out = self.buf[-300:].decode("latin1"); self.stop()
        raise Dead("%s: %s %s" % (why, tail.strip().replace("\n", " / "), out.strip()))
    def stop(self):
        if self.p:
            try: os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            self.p.wait(); self.p.stdin.close() if not self.p.stdin.closed else None; self.p.stdout.close(); self.log.close(); self.p = None
    def close(self): self.stop(); shutil.rmtree(self.dir, ignore_errors=True)
    def calls(self, cs, secs=100):
        if self.p is None: self.start()
        b = struct.pack("<i", len(cs)) + b"".join(enc(fn) + enc(int(nout)) + enc(list(args)) for fn, args, nout in cs)
        with open(self.dir + "/req", "wb") as f: f.write(b)
        try: os.unlink(self.dir + "/rsp")
        except FileNotFoundError: pass
        self._send("vt_step('%s');\n" % self.dir); self._wait(secs)
        with open(self.dir + "/rsp", "rb") as f: b = f.read()
        p = 0; res = []
        for _ in cs:
            (ok, v), p = dec(b, p); res.append(v if bool(np.all(ok)) else OctError(v))
        return res

# ------------------------------------------------------------------ cases
class Ctx:
    def __init__(self, oc, tape=None, seed=0):
        self._oc = oc; self.tape = list(tape) if tape is not None else []; self.replaying = tape is not None; self.pos = 0; self._s = seed
        self.nontriv = False; self.labels = []; self.notes = ""; self.is_thorough = TIER == "thorough"; self.rec = []
    def draw(self, n):
        """uniform in [0, n); n == 0 means 64 bits"""
        if self.replaying:
            v = self.tape[self.pos] if self.pos < len(self.tape) else 0
        else: self._s, v = splitmix(self._s)
        self.pos += 1
        if n: v %= n
        self.rec.append(v); return v
    def i(self, lo, hi): return lo + self.draw(hi - lo + 1)
    def small(self, lo, hi):
        span = hi - lo + 1; bits = max(span - 1, 1).bit_length(); b = self.draw(bits + 1); return lo + self.draw(min(span, 1 << b))
    def b(self): return bool(self.draw(2))
    def chance(self, num, den): return self.draw(den) >= den - num
    def uni(self): return self.draw(1 << 53) / 9007199254740992.0
    def real(self, a, b): return a + (b - a) * self.uni()
    def pick(self, l): return l[self.draw(len(l))]
    def rng(self): return np.random.default_rng(self.draw(1 << 32))
    def nontrivial(self): self.nontriv = True
    def label(self, s): self.labels.append(s)
    def note(self, s):
        if len(self.notes) < 4000: self.notes += str(s) + " "
    def fail(self, s): raise Fail(s)
    def known(self, id, s): raise Known(id, s)
    def discard(self): raise Discard()
    def check(self, cond, s):
        if not cond: raise Fail(s() if callable(s) else s)
    def calls(self, cs, secs=100): return self._oc().calls(cs, secs)
    def call(self, fn, *args, nout=1):
        """outputs of one call (the value itself when nout is 1); raises OctError"""
        r = self.calls([(fn, args, nout)])[0]
        if isinstance(r, OctError): raise r
        return r[0] if nout == 1 else r
    def ok(self, r, what):
        if isinstance(r, OctError): raise Fail("%s: unexpected error: %s" % (what, r))
        return r

CHECKS = []; TIER = "quick"
def check(name, quick, thorough, rule):
    def deco(f): CHECKS.append((name, quick, thorough, rule, f)); return f
    return deco

def include(module, names, scale=1.0):
    """registers sub-checks of another property's check file (same code, smaller quick counts)"""
    import importlib
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
    n = len(CHECKS); importlib.import_module(module); new = CHECKS[n:]; del CHECKS[n:]
    assert set(names) <= {x[0] for x in new}, names
    CHECKS.extend((x[0], max(60, int(x[1] * scale)),) + x[2:] for x in new if x[0] in names)

_octave = None
def _get():
    global _octave
    if _octave is None: _octave = Octave()
    return _octave
def _fresh():
    if _octave is not None: _octave.stop()
def run_case(f, tape=None, seed=0):
    c = Ctx(_get, tape, seed); kid = None
    try: f(c); out = "ok"; msg = ""
    except Discard: out = "discard"; msg = ""
    except Known as k: msg = k.msg; kid = k.id; out = "known" if k.id in KNOWN else "fail"
    except Fail as e: out = "fail"; msg = str(e)
    except Dead as e: out = "fail"; msg = "the interpreter died: " + str(e)
    except OctError as e: out = "fail"; msg = "unexpected error: " + str(e)
    except Exception as e: out = "fail"; msg = "exception in the check: " + "".join(traceback.format_exc()[-900:])
    return out, msg, kid, c

def fails(f, tape, history):
    _fresh()
    for t in history: run_case(f, t)
    out, msg, kid, c = run_case(f, tape); return out == "fail", msg, c

def shrink(f, tape, history, budget):
    end = time.time() + budget; best = list(tape); n = 0
    def test(t):
        nonlocal n; n += 1
        out, msg, kid, c = run_case(f, t) if not history else (None,) * 4
        if history:
            bad, msg, c = fails(f, t, history); out = "fail" if bad else "ok"
        if out == "fail": return c.rec[:]
        return None
    improved = True
    while improved and time.time() < end:
        improved = False
        k = max(1, len(best) // 2)
        while k >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                t = best[:i] + best[i + k:]; r = test(t)
                if r is not None and (len(r), r) < (len(best), best): best = r; improved = True
                else: i += k
            k //= 2
        for i in range(len(best)):
            if i >= len(best) or time.time() > end: break
            for v in (0, best[i] // 2, best[i] - 1):
                if i < len(best) and 0 <= v < best[i]:
                    t = best[:]; t[i] = v; r = test(t)
                    if r is not None and (len(r), r) < (len(best), best): best = r; improved = True; break
    return best

def case_seed(seed, name, idx, prop):
    return int.from_bytes(hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, name, idx)).encode()).digest()[:8], "little")

def worker(w, W, a, ck, total, stop, q, end):
    global _octave
    name, _, _, rule, f = ck; signal.signal(signal.SIGINT, signal.SIG_IGN); st = dict(evals=0, disc=0, distinct=set(), labels={}, samples=[], knowns={}, trunc=False); hist = []; unrepro = 0
    try:
        for idx in range(w, total, W):
            if stop.value: break
            if time.time() > end: st["trunc"] = True; break
            if len(hist) >= 400: _fresh(); hist = []
            out, msg, kid, c = run_case(f, None, case_seed(a.seed, name, idx, a.prop)); st["evals"] += 1
            if out == "discard": st["disc"] += 1; hist.append(c.rec); continue
            if out == "known": st["knowns"][kid] = msg; c.labels.append("known:" + kid)
            if c.nontriv: st["distinct"].add(hashlib.md5(repr(c.rec).encode()).digest()[:8])
            for l in c.labels: st["labels"][l] = st["labels"].get(l, 0) + 1
            if c.nontriv and c.notes and len(st["samples"]) < 2: st["samples"].append(c.notes[:1500])
            if out == "fail":
                h = []; bad, m2, c2 = fails(f, c.rec, [])
                if not bad: bad, m2, c2 = fails(f, c.rec, hist); h = hist[:]
                if not bad:
                    unrepro += 1; print("[%s/%s] case %d failed once and not again: %s" % (a.prop, name, idx, msg), flush=True); _fresh(); hist = []
                    if unrepro > 5: break
                    continue
                with stop.get_lock():
                    first = not stop.value; stop.value = 1
                if first:
                    best = shrink(f, c.rec, h, 40.0); bad, m3, c3 = fails(f, best, h)
                    if not bad: best, m3, c3 = c.rec, m2, c2
                    q.put(("V", idx, best, m3, c3.notes, h))
                break
            hist.append(c.rec)
    finally:
        q.put(("S", st))
        if _octave is not None: _octave.close()

KNOWN = set()
def main():
    global TIER
    ap = argparse.ArgumentParser()
    for o in ("prop", "tier", "evidence", "replays", "only", "replay"): ap.add_argument("--" + o)
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--workers", type=int, default=8); ap.add_argument("--scale", type=float, default=1.0); ap.add_argument("--soft", type=float, default=300)
    ap.add_argument("--known", action="append", default=[]); a = ap.parse_args(); TIER = a.tier or "quick"; KNOWN.update(a.known); t0 = time.time()
    if a.replay:
        r = json.load(open(a.replay)); f = [x for x in CHECKS if x[0] == r["check"]]
        if not f: print("no such check", r["check"]); return 3
        bad, msg, c = fails(f[0][4], r["tape"], r.get("history", [])); _get().close()
        print("case:", c.notes)
        if bad: print("FAILED:", msg); print("VIOLATION property=%s replay=%s" % (a.prop, a.replay)); return 1
        print("replay: outcome ok"); return 0
    rc = 0; subs = []; allev = 0; alldist = 0; rules = []; samples = []; nv = 0; knownhit = {}
    sel = [x for x in CHECKS if not a.only or x[0] == a.only]; ctx = mp.get_context("fork"); soft_end = t0 + a.soft
    for n, ck in enumerate(sel):
        name, quick, thorough, rule, f = ck; total = max(1, int((quick if TIER == "quick" else thorough) * a.scale)); tc = time.time(); end = tc + max(3.0, (soft_end - tc) / (len(sel) - n))
        stop = ctx.Value("i", 0); q = ctx.Queue(); W = max(1, min(a.workers, total)); ps = [ctx.Process(target=worker, args=(w, W, a, ck, total, stop, q, end)) for w in range(W)]
        for p in ps: p.start()
        st = []; viol = None
        while len(st) < W:
            try: m = q.get(timeout=5)
            except queue.Empty:
                if not any(p.is_alive() for p in ps):
                    try: m = q.get(timeout=2)
                    except queue.Empty: print("worker ended without a report"); return 3
                else: continue
            if m[0] == "S": st.append(m[1])
            elif viol is None: viol = m
        for p in ps: p.join()
        ev = sum(s["evals"] for s in st); disc = sum(s["disc"] for s in st); dist = set().union(*(s["distinct"] for s in st)); labels = {}; trunc = any(s["trunc"] for s in st)
        for s in st:
            for k, v in s["labels"].items(): labels[k] = labels.get(k, 0) + v
            knownhit.update(s["knowns"])
        if viol:
            _, idx, tape, msg, notes, h = viol; hsh = hashlib.sha256(repr((name, tape, h)).encode()).hexdigest()[:8]; rp = "%s/%s-%s-%s.json" % (a.replays, a.prop, name, hsh)
            json.dump({"property": a.prop, "check": name, "tape": tape, "history": h, "message": msg}, open(rp, "w")); nv += 1; rc = 1
            print("[%s/%s] case %d (shrunk to %d choices%s): %s\n  case: %s" % (a.prop, name, idx, len(tape), ", after %d other cases in the same interpreter" % len(h) if h else "", msg, notes)); print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        print("[%s/%s] %d cases, %d distinct non-trivial, %d discarded, %.1f s%s%s" % (a.prop, name, ev, len(dist), disc, time.time() - tc, " (time budget)" if trunc else "", " VIOLATED" if viol else ""), flush=True)
        if os.environ.get("VT_LABELS"):
            for k in sorted(labels): print("    %-40s %d" % (k, labels[k]))
        subs.append(dict(name=name, evaluations=ev, distinct_nontrivial=len(dist), discarded=disc, stopped_at_time_budget=trunc, wall_s=round(time.time() - tc, 2), rule=rule, classes=labels))
        allev += ev; alldist += len(dist); rules.append(name + ": " + rule)
        for s in st:
            if s["samples"] and len([x for x in samples if x.startswith(name + ": ")]) < 2: samples.append(name + ": " + s["samples"][0])
        if viol: break
    for k in sorted(KNOWN): print("KNOWN-FINDING: property=%s %s%s" % (a.prop, k, ": " + knownhit[k][:300] if k in knownhit else ""))
    if a.evidence:
        json.dump({"property": a.prop, "tier": TIER, "seed": a.seed, "level": "exploration", "coverage": {"evaluations": allev, "distinct_nontrivial": alldist,
                   "rule": "Cases are decoded from a tape of random choices derived from VERIF_SEED; distinct = distinct tapes. Non-trivial, per sub-check: " + " | ".join(rules), "samples": samples, "sub_checks": subs},
                   "wall_s": round(time.time() - t0, 2), "violations": nv}, open(a.evidence, "w"), indent=1)
    return rc
