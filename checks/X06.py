# X06: data helpers: natural sorting, column subsets, option parsing, cumulative maxima, numeric derivatives, directories, mosaics, patterns, special functions
# VT-MEX: vl_cummax vl_imsmooth vl_twister
import sys, os, re, math, tempfile, shutil, numpy as np
from vtoct import *
def same(a, b): a = np.asarray(a, float); b = np.asarray(b, float); return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
def near(a, b, tol): a = np.asarray(a, float); b = np.asarray(b, float); return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))

@check("natural sort", 6000, 120000, "two different strings with numbers")
def alphanum(c):
    def num(): k = c.i(0, 5); return str(c.i(0, 30)) if k < 3 else "0" * c.i(1, 3) + str(c.i(0, 12)) if k == 3 else str(c.draw(0) % 10 ** c.i(8, 18)) if k == 4 else "".join(str(c.i(0, 9)) for _ in range(c.i(15, 40)))
    def txt(): return c.pick(["a", "b", "A", " ", "-", "x_", "img", "Alpha ", ".", "a.b", "(", "~"])
    n = c.small(0, 9); S = []
    for _ in range(n): S.append("".join(num() if (k + f) % 2 else txt() for f in [c.i(0, 1)] for k in range(c.small(0, 4))))
    if S and c.chance(1, 3): S.append(c.pick(S))
    # numbers by value, everything else by character; where a number meets a character the number counts as a digit
    def key(s): return "".join("%06d%s" % (len(t.lstrip("0")), t.lstrip("0")) if t.isdigit() else t for t in re.findall(r"\d+|\D+", s))
    c.note(S); perm = sorted(range(len(S)), key=lambda k: key(S[k])); col = c.b(); out, p = c.call("vl_alphanum", Cell(S, (len(S), 1) if col else (1, len(S))), nout=2)
    out = [("" if np.size(x) == 0 else x) for x in (out if isinstance(out, list) else list(np.ravel(out)))]
    if len({s for s in S if re.search(r"\d", s)}) > 1: c.nontrivial()
    c.check(out == [S[k] for k in perm], lambda: "sorted as %s, expected %s" % (out, [S[k] for k in perm])); c.check(same(np.ravel(p), [k + 1 for k in perm]), lambda: "permutation %s" % np.ravel(p))

@check("column subset", 8000, 150000, "a proper subset of at least two columns")
def colsubset(c):
    r = c.rng(); m = c.small(0, 12); d = c.i(1, 3); cl = c.pick(["f8", "f4", "i4", "u1"]); X = r.integers(0, c.pick([3, 100]), (d, m)).astype(cl); mode = c.pick([None, "random", "beginning", "ending", "uniform", "largest", "smallest"]); k = c.i(0, 3)
    n = float(c.small(0, 14)) if k < 2 else np.inf if k == 2 else c.uni(); f = m * n
    if n <= 1 and n != round(n):
        if abs(f - np.floor(f) - .5) < 1e-9: return c.discard()
        want = min(m, np.floor(f + .5))
    else: want = min(m, n)
    want = int(want); c.note("n %s mode %s X %s" % (n, mode, X.tolist())); a = [] if mode is None else [mode if c.b() else mode.capitalize()]; Y, sel = c.call("vl_colsubset", X, n, *a, nout=2); s = np.ravel(sel).astype(int)
    if 2 <= want < m: c.nontrivial()
    c.check(s.size == want, lambda: "%d columns selected instead of %d" % (s.size, want)); c.check(((s >= 1) & (s <= m)).all() and (np.diff(s) > 0).all(), lambda: "selection %s" % s)
    c.check(Y.dtype == np.dtype(cl) and np.size(Y) == d * want and np.array_equal(np.asarray(Y).reshape(d, want), X[:, s - 1]), "the columns are not those selected")
    if not want: return
    if mode == "beginning": c.check((s == np.arange(1, want + 1)).all(), lambda: "not the first columns: %s" % s)
    if mode == "ending": c.check((s == np.arange(m - want + 1, m + 1)).all(), lambda: "not the last columns: %s" % s)
    if mode == "uniform": e = np.linspace(1, m, want) if want > 1 else None; c.check(want == 1 or np.abs(s - e).max() <= .5 + 1e-9, lambda: "not uniformly spaced: %s" % s)
    if mode in ("largest", "smallest"):
        cols = sorted(map(tuple, X.T.tolist())); w = cols[-want:] if mode == "largest" else cols[:want]; g = sorted(map(tuple, X[:, s - 1].T.tolist())); c.check(g == w, lambda: "%s columns are %s, selected %s" % (mode, w, g))

# ---------------------------------------------------------------- option parsing
NAMES = ["alpha", "beta", "sub", "Gamma", "x1", "opt", "list"]
def value(c, depth=0):
    k = c.i(0, 5 if depth < 2 else 3)
    return float(c.i(-5, 5)) if k == 0 else c.pick(["abc", "on", "q"]) if k == 1 else np.arange(1., 1 + c.i(2, 4)).reshape(1, -1) if k == 2 else bool(c.i(0, 1)) if k == 3 else struct(c, depth + 1)
def struct(c, depth=0, lo=0): return {k: value(c, depth) for k in c.pick([NAMES, NAMES[::-1]])[:c.i(lo, 4)]} if c.b() else {c.pick(NAMES): value(c, depth)}
def canon(v):                       # decoded value -> comparable
    if isinstance(v, dict): return {k: canon(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [canon(x) for x in v]
    if isinstance(v, str): return v
    return np.asarray(v, float).ravel().tolist()
class Bad(Exception): pass
def merge(a, b):                    # b into the structure a, unknown fields added
    a = dict(a)
    for k, v in b.items():
        m = [n for n in a if n.lower() == k.lower()]; k = m[0] if m else k
        if k in a and isinstance(a[k], dict) and a[k]:
            if not isinstance(v, dict): raise Bad
            a[k] = merge(a[k], v)
        else: a[k] = v
    return a
def parse(opts, args, rec, mrg, two):
    orig = opts; opts = dict(opts); rest = []; k = 0
    while k < len(args):
        if rec and isinstance(args[k], dict):
            opts, q = parse(opts, [x for kv in args[k].items() for x in kv], rec, mrg, two); rest += q; k += 1; continue
        if not isinstance(args[k], str): raise Bad
        name, val = args[k], args[k + 1]; pr = name
        if "." in name:
            ps = name.split("."); pr = ps[0]
            for q in reversed(ps[1:]): val = {q: val}
        m = [n for n in orig if n.lower() == pr.lower()]
        if len(m) != 1:
            if mrg: f = pr
            elif not two: raise Bad
            else: rest += [name, args[k + 1]]; k += 2; continue
        else: f = m[0]
        if not rec: opts[f] = val
        elif isinstance(orig.get(f), dict) and orig[f]:
            if not isinstance(val, dict): raise Bad
            opts[f], q = parse(opts[f], [val], rec, mrg, two)
            if q: rest += [f, dict(zip(q[::2], q[1::2]))]
        else: opts[f] = merge(opts[f], val) if isinstance(val, dict) and isinstance(opts.get(f), dict) else val
        k += 2
    return opts, rest

@check("option parsing", 8000, 250000, "a nested, dotted, merged or unknown parameter")
def argparse(c):
    opts = {k: (value(c) if not c.chance(1, 3) else struct(c, 1)) for k in NAMES[:c.i(1, 6)]}; rec = not c.chance(1, 4); mrg = c.chance(1, 3); two = c.b(); args = []; nt = False
    for _ in range(c.small(0, 4)):
        if c.chance(1, 5) and rec: args.append(struct(c)); nt = True; continue
        n = c.pick(list(opts) + ["unknown", c.pick(NAMES)]) if c.chance(3, 4) else c.pick(NAMES); sub = opts.get(n)
        if isinstance(sub, dict) and sub and c.chance(3, 4):
            f = c.pick(list(sub) + ["other"]); nt = True
            if c.b(): args += [n + "." + f, value(c, 2)]
            else: args += [n, {f: value(c, 2)}]
        else:
            if c.chance(1, 10): n = n + ".deep.er"; nt = True
            args += [n.upper() if c.chance(1, 5) else n, value(c, 1)]
        nt = nt or n not in opts
    c.note("opts %s args %s %s" % (opts, args, [rec, mrg, two])); ex = ([] if rec else [c.pick(["nonrecursive", "NonRecursive"])]) + (["merge"] if mrg else [])
    try: want = parse(opts, args, rec, mrg, two)
    except Bad: want = None
    if nt: c.nontrivial()
    # names that differ only by case or that turn from a value into a structure within one list are not judged
    for lv in [opts] + [v for v in opts.values() if isinstance(v, dict)]:
        if len({k.lower() for k in lv}) < len(lv): c.discard()
    one = len(args) == 1 and c.b(); R = c.calls([("vl_argparse", [opts, args[0] if one else Cell(args, (1, len(args)))] + ex, 2 if two else 1)])[0]
    if want is None: c.check(isinstance(R, OctError), lambda: "accepted, giving %s" % (R,)); c.label("rejected"); return
    c.ok(R, "parsing"); c.check(canon(R[0]) == canon(want[0]), lambda: "options %s, expected %s" % (R[0], want[0]))
    if two:
        g = R[1] if isinstance(R[1], list) else [] if np.size(R[1]) == 0 else [R[1]]; c.check(canon(g) == canon(want[1]), lambda: "unknown parameters %s, expected %s" % (g, want[1]))

def override(conf, upd, skip, casei, err):
    if not isinstance(conf, dict) or not isinstance(upd, dict): return upd
    conf = dict(conf)
    for k, v in upd.items():
        m = [n for n in conf if (n.lower() == k.lower() if casei else n == k)]
        if m: conf[m[-1]] = override(conf[m[-1]], v, skip, casei, err)
        elif skip: continue
        else: conf[k] = v
    return conf
@check("override", 4000, 80000, "a field of a nested structure is replaced")
def ovr(c):
    a, b = struct(c, 0, 1), struct(c, 0, 1)
    if c.chance(2, 3): k = c.pick(NAMES); a[k] = struct(c, 1, 1); b[k] = {**(struct(c, 1, 0)), c.pick(list(a[k])): value(c, 1)}
    skip, casei = c.b(), c.b()
    if casei: b = {(k.upper() if c.b() else k): v for k, v in b.items()}
    if casei and len({k.lower() for k in b}) < len(b): c.discard()
    if any(isinstance(a.get(k), dict) and isinstance(v, dict) and set(a[k]) & set(v) for k, v in b.items()): c.nontrivial()
    c.note("config %s update %s skip %s casei %s" % (a, b, skip, casei)); g = c.call("vl_override", a, b, *((["skip"] if skip else []) + (["CaseI"] if casei else []))); w = override(a, b, skip, casei, False)
    c.check(canon(g) == canon(w), lambda: "gives %s, expected %s" % (g, w))

# ---------------------------------------------------------------- numeric helpers
@check("cumulative maximum", 6000, 120000, "an array of at least two dimensions longer than one")
def cummax(c):
    r = c.rng(); nd = c.i(2, 4); sh = [c.small(0 if c.chance(1, 12) else 1, 6) if c.b() else c.i(1, 5) for _ in range(nd)]; cl = np.dtype(c.pick(["f8", "f4", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"])); X = r.integers(0 if cl.kind == "u" else -60, 61, sh).astype(cl)
    while X.ndim > 2 and X.shape[-1] == 1: X = X[..., 0]
    if cl.kind == "f" and X.size and c.chance(1, 4): X.flat[r.integers(X.size)] = c.pick([np.inf, -np.inf, .5])
    if sum(s > 1 for s in X.shape) > 1: c.nontrivial()
    a = []; d = next((k for k, s in enumerate(X.shape) if s != 1), X.ndim - 1)
    if c.b(): d = c.i(1, X.ndim) - 1; a = [float(d + 1)]
    c.note("X %s %s" % (X.tolist(), a)); g = c.call("vl_cummax", X, *a); w = np.maximum.accumulate(X, d) if X.size else X; c.check(g.dtype == cl and same(g, w), lambda: "gives %s" % g.tolist())

@check("derivatives", 1200, 50000, "always")
def deriv(c):
    r = c.rng(); c.nontrivial(); n = c.i(1, 5); x = r.uniform(-2.5, 2.5, (n, 1) if c.b() else (1, n)); v = x.ravel(); ph = lambda t: np.exp(-t * t / 2) / math.sqrt(2 * math.pi); sg = 1 / (1 + np.exp(-v)); c.note(x.tolist())
    R = c.calls([("vl_gaussian", [x], 1), ("vl_dgaussian", [x], 1), ("vl_ddgaussian", [x], 1), ("vl_sigmoid", [x], 1), ("vl_dsigmoid", [x], 1), ("vl_numder", [Fn("vl_gaussian"), x], 1), ("vl_numder", [Fn("vl_dgaussian"), x], 1), ("vl_numder", [Fn("vl_sigmoid"), x], 1), ("vl_numder2", [Fn("vl_gaussian"), x], 1)])
    for k, w in enumerate([ph(v), -v * ph(v), (v * v - 1) * ph(v), sg, sg * (1 - sg)]): c.ok(R[k], "special function"); c.check(near(R[k][0], w.reshape(x.shape), 1e-12), lambda: "special function %d gives %s, expected %s" % (k, R[k][0], w))
    for k, w in ((5, -v * ph(v)), (6, (v * v - 1) * ph(v)), (7, sg * (1 - sg))): c.ok(R[k], "vl_numder"); c.check(near(R[k][0], np.diag(w), 1e-5), lambda: "numeric derivative %s, expected %s" % (R[k][0], w))
    c.ok(R[8], "vl_numder2"); H = np.zeros((n, n, n))
    for k in range(n): H[k, k, k] = ((v * v - 1) * ph(v))[k]
    H = H.reshape((1, 1)) if n == 1 else H; c.check(near(R[8][0], H, 1e-3), lambda: "numeric second derivative %s" % R[8][0])
    A = r.integers(-4, 5, (c.i(1, 3), n)).astype(float); t = r.normal(size=(A.shape[0], 1)); X = v.reshape(-1, 1); D = c.call("vl_numder", Fn("@(x,A,t) A*x+t"), X, A, t); c.check(near(D, A, 1e-5), lambda: "derivative of an affine map %s: %s" % (A, D))
    Q = A.T @ A; D = c.call("vl_numder2", Fn("@(x,Q) x'*Q*x"), X, Q); D = np.asarray(D).reshape(n, n); c.check(near(D, 2 * Q, 2e-5 * (10 + n * float(np.abs(v) @ np.abs(Q) @ np.abs(v)))), lambda: "second derivative of a quadratic form %s: %s" % (2 * Q, D))
    rr = c.pick([0., .25, .5, 1.]); y = c.call("vl_rcos", rr, x); a = np.abs(v); w = np.where(a > 1, 0., np.where(a < 1 - rr, 1., .5 * (1 + np.cos(np.pi * (a - (1 - rr)) / rr)) if rr else 1.)); c.check(near(y, w.reshape(x.shape), 1e-12), lambda: "raised cosine %s" % y)
    om = r.integers(-9, 10, (3, 1)).astype(float); z = r.normal(size=(3, 1)); H = c.call("vl_hat", om); c.check(near(H @ z, np.cross(om.ravel(), z.ravel()).reshape(3, 1), 1e-10) and same(c.call("vl_ihat", H), om), "the hat operator is not the vector product")
    I = r.normal(size=(c.i(2, 7), c.i(2, 7))); ty = c.pick(["central", "forward", "backward"]); gx, gy = c.call("vl_grad", I, "type", ty, nout=2); ux, uy = c.call("vl_imgrad", I, "Type", ty, nout=2); c.check(near(gx, ux, 1e-12) and near(gy, uy, 1e-12), "vl_grad differs from vl_imgrad")
    q = np.gradient(I); (ty == "central") and c.check(near(gx, q[1], 1e-12) and near(gy, q[0], 1e-12), "central gradient")

@check("Harris strength", 1200, 20000, "always")
def harris(c):
    r = c.rng(); c.nontrivial(); I = r.normal(size=(c.i(3, 12), c.i(3, 12))); si = c.pick([.5, 1., 2.]); al = c.pick([None, .04, .1]); a = [] if al is None else [al]; H, d = c.call("vl_harris", I, si, *a, nout=2); gy, gx = np.gradient(I); T = [c.call("vl_imsmooth", q, si) for q in (gx * gx, gx * gy, gy * gy)]; tr = T[0] + T[2]; dt = T[0] * T[2] - T[1] ** 2
    W = 2 * dt / (tr + 2.2e-16) if al is None else dt - al * tr ** 2; s = 1e-9 * (1 + np.abs(W).max()); c.check(near(H, W, s), "the Harris strength is not that of the structure tensor"); sp, rho = np.asarray(d["sigmap"], float), np.asarray(d["rho"], float)
    E = np.stack([[np.linalg.eigvalsh([[T[0][i, j], T[1][i, j]], [T[1][i, j], T[2][i, j]]])[1] for j in range(I.shape[1])] for i in range(I.shape[0])]); c.check(near(sp, E, 1e-7 * (1 + E.max())), "the largest eigenvalue"); c.check(near((sp if al is None else sp ** 2) * rho, W, 1e-6 * (1 + np.abs(W).max())), "the strength is not the product of its two factors")

@check("directories", 500, 8000, "at least two directories are created")
def xmkdir(c):
    top = tempfile.mkdtemp(prefix="vt-x06-")
    try:
        n = c.i(1, 4); names = [c.pick(["a", "b.c", "d e", "x", "y.z.w"]) for _ in range(n)]; have = c.i(0, n); cur = top; exist = set()
        for k in names[:have]: cur = cur + "/" + k; os.mkdir(cur)
        before = {os.path.relpath(os.path.join(w, d), top) for w, ds, fs in os.walk(top) for d in ds}; path = top + "/" + "/".join(names) + ("/" if c.chance(1, 3) else ""); pre = c.chance(1, 4); ver = c.chance(1, 4); a = (["pretend", True] if pre else []) + (["verbose", True] if ver else [])
        if n - have >= 2 and not pre: c.nontrivial()
        c.note("%s existing %d %s" % (names, have, a)); c.call("vl_xmkdir", path, *a, nout=0); after = {os.path.relpath(os.path.join(w, d), top) for w, ds, fs in os.walk(top) for d in ds}; want = before if pre else {"/".join(names[:k]) for k in range(1, n + 1)}
        c.check(after == want and not any(fs for w, ds, fs in os.walk(top)), lambda: "directories %s, expected %s" % (sorted(after), sorted(want)))
    finally: shutil.rmtree(top, ignore_errors=True)

# ---------------------------------------------------------------- mosaics and patterns
@check("mosaic", 5000, 100000, "at least two images, with a border, layout or colour")
def mosaic(c):
    r = c.rng(); h, w = c.i(1, 4), c.i(1, 4); n = c.i(1, 7); kind = c.i(0, 2); cl = np.dtype(c.pick(["f8", "f4", "u1"])); C = 3 if kind else 1
    if kind == 2 and n == 3 or kind and n == 1: n += 1
    A = r.integers(0, 200, (h, w, n, C)).astype(cl); arg = A[..., 0] if C == 1 else (A if kind == 2 else A.transpose(0, 1, 3, 2)); a = []; sp = 0; fill = np.zeros(C); lay = None; rev = False
    if kind == 2 and n in (1, 3): c.discard()
    if c.b(): sp = c.i(0, 3); a += ["spacing", float(sp)]
    if c.b(): fill = np.full(C, float(c.i(0, 99))) if C == 1 or c.b() else r.integers(0, 99, 3).astype(float); a += ["fillValue", float(fill[0]) if C == 1 or (fill == fill[0]).all() else fill.reshape(1, -1)]
    if c.chance(1, 3): lay = (c.i(1, 4), c.i(1, 4)); a += ["layout", np.array([lay], float)]
    if c.chance(1, 4): rev = True; a += ["reverse", True]
    if n > 1 and a: c.nontrivial()
    c.note("images %s options %s" % (A.shape, a)); N = math.ceil(math.sqrt(n)) if lay is None else lay[1]; M = math.ceil(n / N) if lay is None else lay[0]; W = np.empty((h * M + sp * (M - 1), w * N + sp * (N - 1), C)); W[:] = fill
    for k in range(min(n, M * N)):
        i, j = divmod(k, N); i = M - 1 - i if rev else i; W[i * (h + sp):i * (h + sp) + h, j * (w + sp):j * (w + sp) + w] = A[:, :, k]
    W = W[:, :, 0] if C == 1 else W; J = c.call("vl_imarray", arg, *a); c.check(J.dtype == cl, "class of the mosaic"); c.check(same(J, W), lambda: "mosaic %s, expected %s" % (np.asarray(J).tolist(), W.tolist()))
    if kind < 2 and cl.kind == "f":            # scaled to the colour map or to [0,1]
        L = c.i(2, 9); S = c.call("vl_imarraysc", arg, "cmap", r.random((L, 3)), *a); B = A.astype(float); lo, hi = B.min((0, 1, 3), keepdims=True), B.max((0, 1, 3), keepdims=True)
        T = (B - lo) / np.maximum(hi - lo, 1e-300); T = np.where(hi > lo, T, 0); V = np.clip(np.floor(T * L) + 1, 1, L) if C == 1 else T; S = np.asarray(S, float)
        for k in range(min(n, M * N)):
            i, j = divmod(k, N); i = M - 1 - i if rev else i; g = S[i * (h + sp):i * (h + sp) + h, j * (w + sp):j * (w + sp) + w].reshape(h, w, C); t = V[:, :, k]
            if C == 1: e = np.abs(T[:, :, k] * L - np.round(T[:, :, k] * L)) < 1e-4; c.check(((g == t) | e & (np.abs(g - t) <= 1)).all(), lambda: "scaled tile %d is %s, expected %s" % (k, g[..., 0].tolist(), t[..., 0].tolist()))
            else: c.check(near(g, t, 1e-4), lambda: "scaled tile %d is %s, expected %s" % (k, g.tolist(), t.tolist()))
    F = A.astype(float)[:, :, 0, 0] if C == 1 else A.astype(float)[:, :, 0]
    if F.max() > F.min():
        s = c.call("vl_imsc", F); c.check(near(s, (F - F.min()) / (F.max() - F.min()), 1e-12), "scaling an image to [0,1]")

@check("patterns", 800, 10000, "a size with different width and height")
def patterns(c):
    p = c.pick(["wedge", "cone", "smoothChecker", "threeDotsSquare", "uniformNoise", "blob", "blobs", "blobs1"]); w, h = c.i(4, 40), c.i(4, 40); a = ["size", np.array([[w, h]], float)]
    if w != h: c.nontrivial()
    c.note("%s %dx%d" % (p, w, h)); st = c.call("vl_twister", "state"); I = c.call("vl_impattern", p, *a); c.check(I.shape == (h, w), lambda: "size %s of a pattern of width %d and height %d" % (I.shape, w, h)); c.check(I.dtype == np.float64 and np.isfinite(I).all() and I.min() >= -1e-9 and I.max() <= 1 + 1e-9, lambda: "class %s range %g %g" % (I.dtype, I.min(), I.max()))
    if p != "smoothChecker" or True: c.check(np.array_equal(c.call("vl_impattern", p, *a), I), "the pattern is not deterministic")
    c.check(np.array_equal(c.call("vl_twister", "state"), st), "the pattern disturbs the random number generator")

if __name__ == "__main__": sys.exit(main())
