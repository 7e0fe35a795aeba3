# X01: bins, weighted histograms, integral histograms
# VT-MEX: vl_binsearch vl_binsum vl_inthist vl_sampleinthist
import sys, numpy as np
from vtoct import *
CL = ["f8", "f4", "i8", "u8", "i4", "u4", "i2", "u2", "i1", "u1"]
def shape(c, nd=None, hi=5, lo=1):
    nd = nd or c.pick([2, 2, 3, 4]); return tuple(c.i(lo, hi) for _ in range(nd))
def canon(s):                       # shape as the interpreter stores it
    s = list(s)
    while len(s) > 2 and s[-1] == 1: s.pop()
    return tuple(s)
def same(a, b): b = np.asarray(b); b = b.reshape(canon(b.shape), order="F"); return np.array_equal(np.asarray(a, float), b.astype(float), equal_nan=True)

@check("binsearch", 6000, 150000, "a value equal to an edge or infinite")
def binsearch(c):
    r = c.rng(); n = c.small(0, 12); kind = c.i(0, 2); ed = np.sort(r.integers(-5, 6, n).astype(float) if kind == 0 else r.normal(size=n))
    if n and c.chance(1, 3): ed[0] = -np.inf
    if n and c.chance(1, 3): ed[-1] = np.inf
    sh = shape(c, None, 4, 0 if c.chance(1, 10) else 1); x = r.integers(-7, 8, sh).astype(float) if kind == 0 else r.normal(size=sh) * 1.5
    for _ in range(c.small(0, 5)):
        if x.size: x.flat[r.integers(x.size)] = c.pick([np.inf, -np.inf, 0.0] + list(ed))
    if c.b(): ed = ed.reshape(-1, 1)
    c.note("edges %s x %s" % (ed.ravel(), x.ravel()[:20])); got = c.call("vl_binsearch", ed, x)
    if np.isinf(x).any() or np.isin(x, ed).any(): c.nontrivial()
    want = (x[..., None] >= ed.ravel()).sum(-1); c.check(same(got, want), lambda: "bins %s, number of edges not above the value is %s" % (got.ravel(), want.ravel()))

def model(H, X, B, dim):            # None: must be rejected
    H = H.copy(order="F"); B = B.astype(float)
    if X.size != 1 and X.size != B.size: return None
    if not dim:
        h = H.ravel(order="F"); x = X.ravel(order="F"); b = B.ravel(order="F")
        if (b < 0).any() or (b > h.size).any(): return None
        with np.errstate(all="ignore"):
            for k in range(b.size):
                if b[k]: h[int(b[k]) - 1] += x[0 if x.size == 1 else k]
        return h.reshape(H.shape, order="F")
    d = dim - 1
    if d >= H.ndim: return None
    bs = list(B.shape); xs = list(X.shape)
    if len(bs) != H.ndim and not (len(bs) == H.ndim - 1 and d == H.ndim - 1): return None
    if X.size != 1 and bs != xs: return None
    full = bs + [1] * (H.ndim - len(bs))
    if any(full[k] != H.shape[k] for k in range(H.ndim) if k != d): return None
    B = B.reshape(full, order="F")
    if (B < 0).any() or (B > H.shape[d]).any(): return None
    Xf = X.reshape(full, order="F") if X.size != 1 else None
    with np.errstate(all="ignore"):
        for ix in sorted(np.ndindex(*full), key=lambda t: t[::-1]):
            b = int(B[ix])
            if b: j = list(ix); j[d] = b - 1; H[tuple(j)] += X.flat[0] if Xf is None else Xf[ix]
    return H

@check("binsum", 16000, 400000, "accepted, with some bin summed at least twice or the accumulation along a dimension")
def binsum(c):
    r = c.rng(); vt = np.dtype(c.pick(CL)); it = np.dtype(c.pick(CL)); mode = c.i(0, 2); hs = canon(shape(c, None, 4)); K = int(np.prod(hs)); dim = None; args = []
    if mode == 0: bs = canon(shape(c, None, 4)); top = K
    else:
        dim = c.i(1, len(hs)); bs = list(hs); bs[dim - 1] = c.i(1, 6); bs = canon(bs); top = hs[dim - 1]
        if c.chance(1, 8): bs = canon(shape(c, None, 4))
        if c.chance(1, 20): dim = len(hs) + c.i(1, 2)
    if mode == 0 and c.chance(1, 10): dim = c.pick([0, -1])
    lo = 0; B = r.integers(lo, top + 1, bs)
    if c.chance(1, 3): B = np.minimum(B, 1 + B % 2)
    sc = c.chance(1, 4); xs = (1, 1) if sc else bs
    if c.chance(1, 12): xs = canon(shape(c, None, 4, 0))
    if vt.kind == "f": H = r.integers(-50, 50, hs).astype(vt); X = r.integers(-50, 50, xs).astype(vt)
    else:
        ii = np.iinfo(vt); small = c.b(); a, b = (max(ii.min, -100), min(ii.max, 100)) if small else (ii.min, ii.max)
        H = r.integers(a, b, hs, dtype=vt, endpoint=True); X = r.integers(a, b, xs, dtype=vt, endpoint=True)
    B = B.astype(it)
    if c.chance(1, 8) and B.size:
        bad = c.pick([top + 1, top + 1, top + 7, -1, -3]); bad = bad if it.kind != "u" or bad > 0 else np.iinfo(it).max; 
        if it.kind == "f" or bad <= np.iinfo(it).max: B.flat[r.integers(B.size)] = bad
    if c.chance(1, 40): B = B.astype("f8"); B.flat[0] = c.pick([1e30, -1e30, np.inf, -np.inf, 2.0**63])
    args = [H, X, B] + ([float(dim)] if dim is not None else []); eff = dim if dim and dim > 0 else None; want = model(H, X, B, eff)
    c.note("H %s %s X %s B %s %s dim %s max index %s" % (vt, H.shape, X.shape, B.dtype, B.shape, dim, B.max() if B.size else None)); c.label("rejected" if want is None else "all dimensions" if eff is None else "along dimension %d%s" % (eff, ", scalar value" if X.size == 1 else ""))
    if c.chance(1, 25): args[1] = X.astype("i4" if vt != np.dtype("i4") else "f8"); want = None
    got = c.calls([("vl_binsum", args, 1)])[0]
    if want is None: c.check(isinstance(got, OctError), lambda: "accepted: result %s" % got[0].ravel()[:20]); return
    got = c.ok(got, "vl_binsum")[0]
    if eff or (np.unique(B[B > 0]).size < (B > 0).sum()): c.nontrivial()
    c.check(got.dtype == vt and same(got, want) and np.array_equal(got, want.reshape(got.shape, order="F")), lambda: "class %s result %s expected %s" % (got.dtype, got.ravel(order="F")[:30], want.ravel(order="F")[:30]))

@check("whistc", 6000, 150000, "NaN among samples or weights, or a sample on an edge")
def whistc(c):
    r = c.rng(); sh = canon(shape(c, c.pick([2, 2, 3]), 6)); n = c.i(1, 7); kind = c.i(0, 1); ed = np.sort(r.integers(-4, 5, n).astype(float) if kind == 0 else r.normal(size=n))
    if c.chance(1, 4): ed[0] = -np.inf
    if c.chance(1, 4): ed[-1] = np.inf
    x = r.integers(-6, 7, sh).astype(float) if kind == 0 else r.normal(size=sh); w = r.integers(-9, 10, sh).astype(float); scal = c.chance(1, 6)
    for _ in range(c.small(0, 4)): x.flat[r.integers(x.size)] = c.pick([np.nan, np.inf, -np.inf, float(ed[-1]), float(ed[0])])
    for _ in range(c.small(0, 3)): w.flat[r.integers(w.size)] = np.nan
    if scal: w = np.array([[3.0]])
    dim = c.pick([None, None] + list(range(1, len(sh) + 1))); args = [x, w, ed] + ([float(dim)] if dim else [])
    d = dim or next((k + 1 for k in range(len(sh)) if sh[k] > 1), 2)
    if n == 1 and d == len(sh) and d > 2: c.discard()      # trailing dimension of one edge vanishes
    want = np.zeros([n if k == d - 1 else sh[k] for k in range(len(sh))])
    for ix in np.ndindex(*sh):
        v = x[ix]; u = w[0, 0] if scal else w[ix]
        if np.isnan(v) or np.isnan(u): continue
        b = int((v >= ed).sum())
        if b == 0 or v > ed[-1]: continue
        j = list(ix); j[d - 1] = b - 1; want[tuple(j)] += u
    c.note("x %s w %s edges %s dim %s" % (x.ravel()[:12], w.ravel()[:12], ed, dim)); got = c.call("vl_whistc", *args)
    if np.isnan(x).any() or np.isnan(w).any() or np.isin(x, ed).any(): c.nontrivial()
    c.check(same(got, want), lambda: "got %s (%s) expected %s (%s)" % (got.ravel(), got.shape, want.ravel(), want.shape))

@check("inthist", 5000, 120000, "at least two labels present and a non-empty box")
def inthist(c):
    r = c.rng(); M, N, L = c.i(1, 9), c.i(1, 9), c.pick([1, 1, 2, 3]); K = c.small(1, 8); sh = canon((M, N, L)); lab = r.integers(0, K + 1, sh).astype("u4"); args = [lab]; kk = int(lab.max()); mass = None; bad = False
    if c.b(): kk = c.i(max(1, kk - 1), kk + 3); args += ["NumLabels", float(kk)]; bad = bool((lab > kk).any())
    if c.b(): mass = r.integers(0, 50, sh).astype("u4") if c.b() else r.integers(-20, 20, sh).astype("f8"); args += ["Mass", mass]
    c.note("labels %s max %d numlabels %d mass %s" % (sh, lab.max(), kk, None if mass is None else mass.dtype)); got = c.calls([("vl_inthist", args, 1)])[0]
    if bad: c.check(isinstance(got, OctError), "a label above NUMLABELS was accepted"); c.label("rejected"); return
    got = c.ok(got, "vl_inthist")[0]; l3 = lab.reshape(M, N, L); m3 = np.ones((M, N, L)) if mass is None else mass.reshape(M, N, L).astype(float); ind = np.zeros((M, N, kk))
    for q in range(L):
        for k in range(kk): ind[:, :, k] += (l3[:, :, q] == k + 1) * m3[:, :, q]
    want = ind.cumsum(0).cumsum(1); c.check(got.dtype == (np.dtype("u4") if mass is None else mass.dtype), "class %s" % got.dtype)
    if kk == 0: c.check(got.size == 0, "labels without pixels"); return
    c.check(np.array_equal(got.reshape(want.shape, order="F").astype(float), want) if got.size == want.size else False, lambda: "integral histogram of %s: got %s expected %s" % (sh, got.ravel()[:40], want.ravel()[:40]))
    nb = c.i(1, 6); boxes = []; oob = False
    for _ in range(nb):
        a, b = c.i(1, M), c.i(1, N); e, f = c.i(a, M), c.i(b, N)
        if c.chance(1, 8): e = a - 1 if a > 1 else 0
        if c.chance(1, 30): (a, b, e, f) = c.pick([(0, 1, M, N), (1, 0, M, N), (1, 1, M + 1, N), (1, 1, M, N + 1)])
        boxes.append((a, b, e, f)); oob |= a <= e and b <= f and (a < 1 or b < 1 or e > M or f > N)
    h = c.calls([("vl_sampleinthist", [got, np.array(boxes, "u4").T], 1)])[0]
    if oob: c.check(isinstance(h, OctError), "a box out of bounds was accepted"); c.label("box rejected"); return
    h = c.ok(h, "vl_sampleinthist")[0]; w = np.array([ind[a - 1:e, b - 1:f].sum((0, 1)) if a <= e and b <= f else np.zeros(kk) for a, b, e, f in boxes]).T
    if np.unique(lab).size > 2: c.nontrivial()
    c.check(h.dtype == got.dtype and h.shape == w.shape and np.array_equal(h.astype(float), w), lambda: "boxes %s: got %s expected %s" % (boxes, h, w))

@check("histmarg", 3000, 60000, "at least two dimensions kept")
def histmarg(c):
    r = c.rng(); sh = canon(shape(c, c.pick([2, 3, 4]), 4)); H = r.integers(-9, 10, sh).astype(float); n = c.i(1, len(sh)); dims = [int(d) for d in r.permutation(len(sh))[:n] + 1]
    if c.b(): dims.sort()
    c.note("%s onto %s" % (sh, dims)); got = c.call("vl_histmarg", H, np.array(dims, float).reshape(1, -1) if c.b() else np.array(dims, float).reshape(-1, 1))
    if n > 1: c.nontrivial()
    other = tuple(k for k in range(len(sh)) if k + 1 not in dims); w = np.transpose(H, [d - 1 for d in dims] + list(other)); w = w.sum(tuple(range(n, len(sh))))
    if n == 1: w = w.reshape(-1, 1)
    c.check(same(got, w), lambda: "got %s (%s) expected %s (%s)" % (got.ravel(), got.shape, w.ravel(), w.shape))
if __name__ == "__main__": sys.exit(main())
