# X09: toolbox interfaces of the learning algorithms against the C library called with the options spelled out
# VT-MEX: vl_kmeans vl_gmm vl_fisher vl_vlad vl_kdtreebuild vl_kdtreequery vl_homkermap vl_ikmeans vl_ikmeanspush vl_hikmeans vl_hikmeanspush vl_aib vl_aibhist vl_svmtrain vl_rodr vl_irodr vl_twister vl_binsum
# VT-SHIM: shimlearn.c
import sys, os, math, ctypes, numpy as np
from ctypes import c_int as I_, c_double as D_
from vtoct import *
L = ctypes.CDLL(os.environ["VT_SHIM"])
_o = (ctypes.POINTER(D_) * 12).in_dll(L, "vt_out"); _n = (ctypes.c_long * 12).in_dll(L, "vt_n")
def out(k): return np.ctypeslib.as_array(_o[k], (_n[k],)).copy() if _n[k] else np.zeros(0)
def ptr(a): return a.ctypes.data_as(ctypes.c_void_p) if a is not None else None
def ints(*v): return np.array(v, "i4")
def fcol(v, m, n): return np.reshape(v, (m, n), order="F")

def same(c, got, exp, what, rel=1e-9):
    got = np.asarray(got); exp = np.asarray(exp, float); rel = max(rel, 1e-5 if got.dtype == np.float32 else 0); got = got.astype(float)
    if exp.size == 0: c.check(got.size == 0, lambda: "%s: %s instead of empty" % (what, got.shape)); return
    c.check(got.shape == exp.shape, lambda: "%s has size %s, expected %s" % (what, got.shape, exp.shape))
    with np.errstate(all="ignore"): bad = ~((np.abs(got - exp) <= rel * (1 + np.abs(exp))) | (np.isnan(got) & np.isnan(exp)) | (got == exp))
    if bad.any():
        w = tuple(int(v) for v in np.argwhere(bad)[0]); c.fail("%s%s is %r, expected %r (%d of %d differ)" % (what, [v + 1 for v in w], got[w], exp[w], bad.sum(), bad.size))
def cls(c, got, t, what): c.check(np.asarray(got).dtype == np.dtype(t), lambda: "%s is of class %s, expected %s" % (what, np.asarray(got).dtype, np.dtype(t)))
def outs(c, r, no, what):
    c.ok(r, what); c.check(len(r) == max(no, 1), lambda: "%s: %d outputs, %d requested" % (what, len(r), no)); return r
def seeded(c, seed, fn, args, no):
    r = c.calls([("vl_twister", ["state", float(seed)], 0), (fn, args, no)])
    c.ok(r[0], "vl_twister"); return outs(c, r[1], no, fn)
def rejected(c, fn, args, why, no=1):
    r = c.calls([(fn, args, no)])[0]; c.check(isinstance(r, OctError), "%s accepted %s" % (fn, why))
def case(c, s): return c.pick([s, s, s.upper(), s.capitalize()])
def shuf(c, groups):
    """options in random order"""
    g = [x for x in groups if x]; o = c.rng().permutation(len(g)) if g else []
    return [y for k in o for y in g[k]]
def cloud(c, d, n, t, pos=False):
    r = c.rng(); k = c.i(0, 3)
    if k == 0: a = r.standard_normal((d, n))
    elif k == 1: a = r.integers(0, 6, (d, n)).astype(float)
    elif k == 2: a = r.standard_normal((d, 4))[:, r.integers(0, 4, n)] * 5 + r.standard_normal((d, n))
    else: a = r.random((d, n)) * 10 ** r.uniform(-2, 2)
    return np.asfortranarray(np.abs(a) if pos else a, t)
def tt(c): return c.pick([("f8", 2), ("f4", 1)])

@check("kmeans", 900, 40000, "non-trivial: more data than centers, at least two centers")
def kmeans(c):
    t, ty = tt(c); d, n = c.i(1, 12), c.i(1, 60); k = c.i(1, min(n, 12)); seed = c.i(0, 1 << 20); dist = c.i(0, 1); x = cloud(c, d, n, t); alg = c.i(0, 2)
    p = [0, 1, 100, 1, 100, 3]; mev = -1.; g = []
    if dist != 1 or c.b(): g.append(["Distance", case(c, ["l1", "l2"][dist])])
    if alg or c.b(): p[0] = alg; g.append(["Algorithm", case(c, ["lloyd", "elkan", "ann"][alg])])
    if c.b(): p[1] = c.i(0, 1); g.append([c.pick(["Initialization", "initialisation"]), [case(c, "randsel"), c.pick(["plusplus", "++", "PlusPlus"])][p[1]]])
    if c.b(): p[2] = c.i(1, 8); g.append(["MaxNumIterations", float(p[2])])
    if c.b(): p[3] = c.i(1, 4); g.append(["NumRepetitions", float(p[3])])
    if c.chance(1, 3): p[4] = c.i(0, 30); g.append(["maxnumcomparisons", float(p[4])])
    if c.chance(1, 3): p[5] = c.i(1, 5); g.append(["NumTrees", float(p[5])])
    if c.chance(1, 3): mev = c.pick([0., .5, .05]); g.append(["MinEnergyVariation", mev])
    no = c.i(1, 3); o = shuf(c, g); c.note("vl_kmeans %s %dx%d K=%d seed %d %s" % (t, d, n, k, seed, o))
    R = seeded(c, seed, "vl_kmeans", [x, float(k)] + o, no)
    L.vt_seed(seed); L.vt_kmeans(I_(ty), I_(dist), ptr(ints(*p)), D_(mev), ptr(x), I_(d), I_(n), I_(k))
    same(c, R[0], fcol(out(0), d, k), "CENTERS"); cls(c, R[0], t, "CENTERS")
    if no > 1: same(c, R[1], out(1)[None, :] + 1, "ASSIGNMENTS"); cls(c, R[1], "u4", "ASSIGNMENTS")
    if no > 2: same(c, R[2], out(2)[:, None], "ENERGY")
    if c.chance(1, 10): m = c.i(0, 6); rejected(c, "vl_kmeans", [[x, 0.], [x, n + 1.], [x.astype("i4"), 1.], [x, 1., "Algorithm", "foo"], [x, 1., "Distance", c.pick(["l3", "chi2"])], [x, 1., "NumRepetitions", 0.], [x, 1., "Initialization", "foo"]][m], "bad arguments %d" % m)
    if k > 1 and n > k: c.nontrivial()
    c.label(["lloyd", "elkan", "ann"][alg]); c.label(["l1", "l2"][dist])

@check("gmm", 700, 30000, "non-trivial: at least two components")
def gmm(c):
    t, ty = tt(c); d, n = c.i(1, 8), c.i(2, 60); k = c.i(1, min(n, 5)); seed = c.i(0, 1 << 20); x = cloud(c, d, n, t); g = []; init = 1; maxit = 100; reps = 1; bound = -1.; bounds = None; mu = cov = pri = None
    if c.b(): maxit = c.i(1, 12); g.append(["MaxNumIterations", float(maxit)])
    if c.chance(1, 3): reps = c.i(1, 3); g.append(["numrepetitions", float(reps)])
    m = c.i(0, 3)
    if m == 1: g.append(["Initialization", case(c, "rand")])
    if m == 2: init = 0; g.append(["Initialisation", case(c, "kmeans")])
    if m == 3:
        r = c.rng(); init = 2; mu = np.asfortranarray(x[:, r.choice(n, k, replace=False)]); cov = np.asfortranarray(r.uniform(.5, 3, (d, k)), t); pri = np.asfortranarray(r.dirichlet(np.ones(k)), t)
        g += [["InitMeans", mu], ["InitCovariances", cov], ["InitPriors", pri.reshape(-1, 1) if c.b() else pri.reshape(1, -1)]]
        if c.b(): g.append(["Initialization", "custom"])
    if c.b():
        if c.b(): bound = c.pick([1e-3, .1, 1.]); g.append(["CovarianceBound", bound])
        else: bounds = c.rng().uniform(1e-3, 1, d) if d > 1 else None
        if bounds is not None: g.append(["CovarianceBound", bounds.reshape(-1, 1) if c.b() else bounds.reshape(1, -1)])
    no = c.i(1, 5); o = shuf(c, g); c.note("vl_gmm %s %dx%d K=%d seed %d %s" % (t, d, n, k, seed, [v for v in o if not isinstance(v, np.ndarray)]))
    R = seeded(c, seed, "vl_gmm", [x, float(k)] + o, no)
    L.vt_seed(seed); L.vt_gmm(I_(ty), I_(init), I_(maxit), I_(reps), D_(bound), ptr(bounds), ptr(mu), ptr(cov), ptr(pri), ptr(x), I_(d), I_(n), I_(k))
    for i, (nm, e) in enumerate((("MEANS", (d, k)), ("COVARIANCES", (d, k)), ("PRIORS", (k, 1)))):
        if i < max(no, 1): same(c, R[i], fcol(out(i), *e), nm, 1e-6); cls(c, R[i], t, nm)
    if no > 3: same(c, R[3], out(3)[:, None], "LL", 1e-6)
    if no > 4: same(c, R[4], fcol(out(4), k, n), "POSTERIORS", 1e-6); cls(c, R[4], t, "POSTERIORS")
    if k > 1: c.nontrivial()
    c.label("init %d" % init)

@check("encode", 900, 30000, "non-trivial: at least two words and one datum")
def encode(c):
    t, ty = tt(c); d, n, k = c.i(1, 8), c.i(0 if c.chance(1, 8) else 1, 20), c.i(1, 6); x = cloud(c, d, n, t); r = c.rng(); mu = np.asfortranarray(r.standard_normal((d, k)), t)
    names, fn = [("Normalized", "SquareRoot", "Improved", "Fast"), ("NormalizeComponents", "SquareRoot", "Unnormalized", "NormalizeMass")], c.i(0, 1)
    sel = [c.chance(1, 3) for _ in range(4)]; o = shuf(c, [[c.pick([s, s.lower()])] for s, u in zip(names[fn], sel) if u])
    no = 1
    if fn == 0:
        cov = np.asfortranarray(r.uniform(.2, 3, (d, k)), t); pri = np.asfortranarray(r.dirichlet(np.ones(k)), t); c.note("vl_fisher %s %dx%d K=%d %s" % (t, d, n, k, o))
        R = outs(c, c.calls([("vl_fisher", [x, mu, cov, pri.reshape(-1, 1)] + o, no)])[0], no, "vl_fisher")
        fl = 2 * sel[0] + sel[1] + 3 * sel[2] - (2 * sel[0] + sel[1] & 3 if sel[2] else 0) + 4 * sel[3]
        L.vt_fisher(I_(ty), ptr(mu), ptr(cov), ptr(pri), ptr(x), I_(d), I_(n), I_(k), I_(fl)); same(c, R[0], out(0)[:, None], "ENC"); cls(c, R[0], t, "ENC")
        if c.chance(1, 6): m = c.i(0, 4); rejected(c, "vl_fisher", [[x[:-1] if d > 1 else np.zeros((2, n), t), mu, cov, pri.reshape(-1, 1)], [x, mu, cov[:, :-1], pri.reshape(-1, 1)], [x, mu, cov, np.append(pri, pri).reshape(-1, 1).astype(t)], [x, mu.astype("f4" if t == "f8" else "f8"), cov, pri.reshape(-1, 1)], [x, mu, cov, pri.reshape(-1, 1), "nosuchoption"]][m], "bad arguments %d" % m)
    else:
        k0 = c.i(0, 2); a = np.zeros((k, n), t, order="F"); idx = r.integers(0, k, n); a[idx, np.arange(n)] = 1
        if k0: a = np.asfortranarray(r.dirichlet(np.ones(k), n).T.reshape(k, n), t)
        c.note("vl_vlad %s %dx%d K=%d %s" % (t, d, n, k, o))
        R = outs(c, c.calls([("vl_vlad", [x, mu, a] + o, no)])[0], no, "vl_vlad")
        fl = 1 * sel[0] + 2 * sel[1] + 4 * sel[2] + 8 * sel[3]
        L.vt_vlad(I_(ty), ptr(mu), ptr(a), ptr(x), I_(d), I_(n), I_(k), I_(fl)); same(c, R[0], out(0)[:, None], "ENC"); cls(c, R[0], t, "ENC")
        if c.chance(1, 6) and n: m = c.i(0, 3); rejected(c, "vl_vlad", [[x, mu, a[:, :-1]], [x, mu, np.vstack([a, a])], [x, mu, a.astype("f4" if t == "f8" else "f8")], [x, mu, a, "nosuchoption"]][m], "bad arguments %d" % m)
    if k > 1 and n: c.nontrivial()
    c.label(["fisher", "vlad"][fn])

@check("kdtree", 900, 30000, "non-trivial: at least 4 points and one query")
def kdtree(c):
    t, ty = tt(c); d, n = c.i(1, 6), c.i(1, 60); seed = c.i(0, 1 << 20); x = cloud(c, d, n, t); nq = c.i(0 if c.chance(1, 8) else 1, 12); q = cloud(c, d, nq, t); g = []; trees = 1; th = 0; dist = 1
    if nq and c.b(): q[:, 0] = x[:, c.i(0, n - 1)]
    if c.b(): trees = c.i(1, 4); g.append(["NumTrees", float(trees)])
    if c.b(): th = c.i(0, 1); g.append(["ThresholdMethod", case(c, ["median", "mean"][th])])
    if c.b(): dist = c.i(0, 1); g.append(["Distance", case(c, ["l1", "l2"][dist])])
    nn = 1; mc = 0; h = []
    if c.b(): nn = c.i(1, min(n, 6)); h.append(["NumNeighbors", float(nn)])
    if c.b(): mc = c.i(0, 2 * n); h.append([c.pick(["MaxComparisons", "MaxNumComparisons"]), float(mc)])
    no = c.i(1, 2); o = shuf(c, g); p = shuf(c, h); c.note("%s %dx%d seed %d build %s query %d %s" % (t, d, n, seed, o, nq, p))
    R = c.calls([("vl_twister", ["state", float(seed)], 0), ("vl_kdtreebuild", [x] + o, 1), ("vl_kdtreequery", [Ref(2), x, q] + p, no)])
    F = c.ok(R[1], "vl_kdtreebuild")[0]; A = outs(c, R[2], no, "vl_kdtreequery")
    L.vt_seed(seed); L.vt_kdtree(I_(ty), I_(dist), I_(trees), I_(th), ptr(x), I_(d), I_(n), I_(mc), I_(nn), ptr(q), I_(nq))
    if nq: same(c, A[0], fcol(out(0), nn, nq), "INDEX")
    cls(c, A[0], "u4", "INDEX")
    if no > 1 and nq: same(c, A[1], fcol(out(1), nn, nq), "DIST"); cls(c, A[1], t, "DIST")
    F = F[0] if isinstance(F, (list, np.ndarray)) else F
    def one(v): return v[0] if isinstance(v, list) else v
    c.check(float(np.ravel(F["dimension"])[0]) == d and float(np.ravel(F["numData"])[0]) == n, "FOREST.dimension or numData wrong"); c.check(str(F["distance"]) == ["l1", "l2"][dist], "FOREST.distance is %r" % (F["distance"],))
    T = F["trees"]; T = T if isinstance(T, list) else [T]; c.check(len(T) == trees, "%d trees" % len(T)); off = 0; di = out(9).reshape(trees, n); nu = out(8)
    for i in range(trees):
        N = one(T[i]["nodes"]); m = int(nu[i]); same(c, T[i]["dataIndex"], di[i][None, :] + 1, "dataIndex"); sl = slice(off, off + m); off += m
        lo, up = out(2)[sl], out(3)[sl]; same(c, N["lowerChild"], np.where(lo >= 0, lo + 1, lo)[None], "lowerChild"); same(c, N["upperChild"], np.where(up >= 0, up + 1, up)[None], "upperChild")
        inner = lo >= 0
        for nm, s, add in (("splitDimension", 4, 1), ("splitThreshold", 5, 0)):
            got = np.asarray(N[nm], float).ravel(); c.check(got.size == m, nm + " size")
            same(c, got[inner], out(s)[sl][inner] + add, nm)
        for nm, s in (("lowerBound", 6), ("upperBound", 7)): same(c, N[nm], out(s)[sl][None], nm)
    if c.chance(1, 5) and nq:
        m = c.i(0, 4); bad = dict(F)
        if m == 0: rejected(c, "vl_kdtreequery", [F, x[:, :-1] if n > 1 else np.zeros((d, 2), t), q], "another number of data")
        elif m == 1: rejected(c, "vl_kdtreequery", [F, x, np.zeros((d + 1, nq), t)], "queries of another dimension")
        elif m == 2: rejected(c, "vl_kdtreequery", [F, x, q.astype("f4" if t == "f8" else "f8")], "queries of another class")
        elif m == 3: rejected(c, "vl_kdtreequery", [F, x, q, "NumNeighbors", 0.], "no neighbors")
        else: rejected(c, "vl_kdtreebuild", [x, c.pick(["NumTrees", "ThresholdMethod", "Distance"]), c.pick(["chi2", 0.])], "bad option value")
    if n > 3 and nq: c.nontrivial()
    c.label("forest" if trees > 1 else "tree")

KERN = {"kinters": 0, "kl1": 0, "kchi2": 1, "kjs": 2}
@check("homkermap", 900, 30000, "non-trivial: at least one element and order above zero")
def homkermap(c):
    t, ty = tt(c); nd = c.i(2, 4); sh = [c.i(0 if c.chance(1, 12) else 1, 5) for _ in range(nd)]
    while len(sh) > 2 and sh[-1] == 1: sh.pop()
    r = c.rng(); x = np.asfortranarray(r.choice([0., 1., -1.]) * (r.random(sh) < .1) + r.uniform(-.2 if c.b() else 0, 3, sh) * 10. ** r.integers(-3, 3, sh), t); n = c.i(0, 4); k = 1; gam = 1.; per = -1.; win = 1; g = []
    if c.chance(2, 3): nm = c.pick(list(KERN)); k = KERN[nm]; g.append((["kernel"] if c.b() else []) + [case(c, nm)])
    if c.chance(1, 3): gam = c.real(.3, 2); g.append(["gamma", gam])
    if c.chance(1, 3): per = c.real(2, 12); g.append(["Period", per])
    if c.chance(1, 3): win = c.i(0, 1); g.append(["window", case(c, ["uniform", "rectangular"][win])])
    o = shuf(c, g); no = 1; c.note("vl_homkermap %s %s N=%d %s" % (t, sh, n, o))
    R = outs(c, c.calls([("vl_homkermap", [x, float(n)] + o, no)])[0], no, "vl_homkermap")
    L.vt_homkermap(I_(ty), I_(k), D_(gam), I_(n), D_(per), I_(win), ptr(x), I_(x.size))
    e = [(2 * n + 1) * sh[0]] + sh[1:]; c.check(list(R[0].shape) == e, lambda: "V has size %s, expected %s" % (R[0].shape, e)); cls(c, R[0], t, "V")
    if x.size: same(c, R[0], np.reshape(out(0), e, order="F"), "V")
    if c.chance(1, 8): m = c.i(0, 3); rejected(c, "vl_homkermap", [[x, -1.], [x, 1., "gamma", 0.], [x.astype("i4"), 1.], [x, 1., "window", "hann"]][m], "bad arguments %d" % m)
    if x.size and n: c.nontrivial()

def walk(tree, depth, K, dims, acc):
    C = np.asarray(tree["centers"]); acc.append(C); sub = tree.get("sub")
    if sub is not None and not (isinstance(sub, np.ndarray) and sub.size == 0):
        for s in (sub if isinstance(sub, list) else [sub]): walk(s, depth - 1, K, dims, acc)

@check("ikmeans", 700, 30000, "non-trivial: more data than centers, at least two centers")
def ikmeans(c):
    d, n = c.i(1, 8), c.i(1, 60); k = c.i(1, min(n, 10)); seed = c.i(0, 1 << 20); r = c.rng(); x = np.asfortranarray(r.integers(0, 256 if c.b() else 5, (d, n)), "u1"); y = np.asfortranarray(r.integers(0, 256 if c.b() else 5, (d, c.i(1, 30))), "u1"); me = 0; mi = 200; g = []; no = c.i(1, 2)
    if c.b(): me = c.i(0, 1); g.append(["Method", ["lloyd", "elkan"][me]])
    if c.b(): mi = c.i(1, 8); g.append(["MaxIters", float(mi)])
    o = shuf(c, g); pm = c.pick([[], ["method", "lloyd"], ["Method", "elkan"]]); c.note("vl_ikmeans %dx%d K=%d seed %d %s push %s" % (d, n, k, seed, o, pm))
    R = c.calls([("vl_twister", ["state", float(seed)], 0), ("vl_ikmeans", [x, float(k)] + o, no), ("vl_ikmeanspush", [x, Ref(2)] + pm, 1), ("vl_ikmeanspush", [y, Ref(2)] + pm, 1), ("vl_ikmeanshist", [float(k), Ref(4)], 1)])
    C = outs(c, R[1], no, "vl_ikmeans"); L.vt_seed(seed); L.vt_ikm(I_(me), I_(mi), ptr(x), I_(d), I_(n), I_(k))
    same(c, C[0], fcol(out(0), d, k), "C"); cls(c, C[0], "i4", "C")
    if no > 1: same(c, C[1], out(1)[None] + 1, "A"); cls(c, C[1], "u4", "A")
    dist = ((y[:, :, None].astype(float) - C[0][:, None, :].astype(float)) ** 2).sum(0); A = np.asarray(c.ok(R[3], "vl_ikmeanspush")[0]); cls(c, A, "u4", "ASGN"); c.check(A.shape == (1, y.shape[1]), "ASGN has size %s" % (A.shape,))
    c.check((A >= 1).all() and (A <= k).all(), "assignment out of range"); a = A.ravel().astype(int) - 1
    c.check((dist[np.arange(a.size), a] <= dist.min(1)).all(), "datum not assigned to its nearest center")
    same(c, c.ok(R[2], "vl_ikmeanspush")[0], ((x[:, :, None].astype(float) - C[0][:, None, :].astype(float)) ** 2).sum(0).argmin(1)[None] + 1 if False else np.asarray(R[2][0], float), "ASGN")
    same(c, c.ok(R[4], "vl_ikmeanshist")[0], np.bincount(a, minlength=k)[:, None], "H")
    if c.chance(1, 8): m = c.i(0, 4); rejected(c, "vl_ikmeans" if m < 3 else "vl_ikmeanspush", [[x.astype(float), float(k)], [x, 0.], [x, float(n + 1)], [x[:-1], C[0]], [x, C[0].astype(float)]][m], "bad arguments %d" % m)
    if k > 1 and n > k: c.nontrivial()

@check("hikmeans", 600, 30000, "non-trivial: depth above one")
def hikmeans(c):
    d, K = c.i(1, 6), c.i(2, 5); n = c.i(K, 80); seed = c.i(0, 1 << 20); r = c.rng(); x = np.asfortranarray(r.integers(0, 256 if c.chance(3, 4) else 4, (d, n)), "u1"); y = np.asfortranarray(r.integers(0, 256, (d, c.i(1, 30))), "u1"); nl = c.i(1, 90); me = 0; mi = 200; g = []; no = c.i(1, 2)
    if c.b(): me = c.i(0, 1); g.append(["Method", ["lloyd", "elkan"][me]])
    if c.b(): mi = c.i(1, 5); g.append(["MaxIters", float(mi)])
    o = shuf(c, g); c.note("vl_hikmeans %dx%d K=%d leaves %d seed %d %s" % (d, n, K, nl, seed, o))
    R = c.calls([("vl_twister", ["state", float(seed)], 0), ("vl_hikmeans", [x, float(K), float(nl)] + o, no), ("vl_hikmeanspush", [Ref(2), x], 1), ("vl_hikmeanspush", [Ref(2), y] + c.pick([[], ["method", "lloyd"]]), 1), ("vl_hikmeanshist", [Ref(2), Ref(4)], 1)])
    A = outs(c, R[1], no, "vl_hikmeans"); T = A[0][0] if isinstance(A[0], list) else A[0]; D = int(np.ravel(T["depth"])[0]); ex = 1
    while K ** ex < nl: ex += 1
    c.check(D == ex or (D == ex + 1 and K ** ex == nl), "depth %d, expected %d" % (D, ex)); c.check(int(np.ravel(T["K"])[0]) == K, "TREE.K")
    L.vt_seed(seed); L.vt_hikm(I_(me), I_(mi), I_(K), I_(D), ptr(x), I_(d), I_(n), ptr(y), I_(y.shape[1]))
    acc = []; walk(T, D, K, d, acc); ks = out(3).astype(int); c.check(len(acc) == len(ks), "%d nodes, expected %d" % (len(acc), len(ks))); off = 0; cen = out(2)
    for C, kk in zip(acc, ks):
        cls(c, C, "i4", "centers"); e = fcol(cen[off:off + d * kk], d, kk); off += d * kk
        if e.size: same(c, C, e, "centers")
    if no > 1: same(c, A[1], fcol(out(0), D, n), "ASGN"); cls(c, A[1], "u4", "ASGN")
    px = np.asarray(c.ok(R[2], "vl_hikmeanspush")[0]); py = np.asarray(c.ok(R[3], "vl_hikmeanspush")[0]); cls(c, py, "u4", "PATH"); same(c, px, fcol(out(0), D, n), "PATH of the data"); same(c, py, fcol(out(1), D, y.shape[1]), "PATH")
    H = np.zeros(sum(K ** e for e in range(D + 1)))
    for j in range(py.shape[1]):
        i = 0; H[0] += 1
        for v in py[:, j]:
            if v < 1 or v > K: break
            i = i * K + int(v); H[i] += 1
    same(c, c.ok(R[4], "vl_hikmeanshist")[0], H[:, None], "H")
    if c.chance(1, 8): m = c.i(0, 3); rejected(c, "vl_hikmeans" if m < 3 else "vl_hikmeanspush", [[x.astype(float), float(K), float(nl)], [x, 1., float(nl)], [x, float(n + 1), float(nl)], [T, np.vstack([x, x])]][m], "bad arguments %d" % m)
    if D > 1: c.nontrivial()

def ancestors(p, i):
    """nodes from i (1-based) to the root of the tree p"""
    r = [i]
    while p[i - 1] not in (0, 1, i): i = int(p[i - 1]); r.append(i)
    return r
@check("aib", 700, 30000, "non-trivial: at least three values with non-null probability")
def aib(c):
    nl, nv = c.i(1, 5), c.i(1, 14); r = c.rng(); P = r.random((nl, nv)) * (r.random((nl, nv)) < r.choice([.5, .9, 1.1])); z = r.random(nv) < c.pick([0, .2, .5]); P[:, z] = 0
    if P.sum() == 0: P[0, 0] = 1
    P = np.asfortranarray(P / P.sum()); nul = P.sum(0) == 0; nnz = int((~nul).sum()); cn = c.chance(1, 3); no = c.i(1, 2); o = [c.pick(["ClusterNull", "clusternull"])] if cn else []; c.note("vl_aib %dx%d, %d null %s" % (nl, nv, nul.sum(), o))
    R = outs(c, c.calls([("vl_aib", [P] + o, no)])[0], no, "vl_aib"); p = np.asarray(R[0]).ravel().astype(int); cls(c, R[0], "u4", "PARENTS"); c.check(np.asarray(R[0]).shape == (1, 2 * nv - 1), "PARENTS has size %s" % (np.asarray(R[0]).shape,))
    Q = P.copy(order="C"); L.vt_aib(ptr(np.ascontiguousarray(P.T)), I_(nv), I_(nl)); lp = out(0); e = np.where(lp > 2 * nv - 1, 0, lp + 1); cost = out(1)
    if not cn:
        same(c, p, e, "PARENTS")
        if no > 1: same(c, R[1], cost[None], "COST")
    elif nv > 1:
        c.check(p[-1] == 1 and (p[:-1] > np.arange(1, 2 * nv - 1)).all() and (p <= 2 * nv - 1).all(), lambda: "PARENTS %s is not a tree" % p)
        n2 = np.bincount(p[:-1], minlength=2 * nv); c.check((n2[nv + 1:] == 2).all() and (n2[:nv + 1] == 0).all(), lambda: "not a binary merge tree: %s" % p)
        dead = int((e[:nv] == 0).sum())
        if 0 < dead < nv:
            # merges of the null values come first and cost nothing, the others follow in the order found
            ra = e[:2 * nv - 1]; leaves = [i for i in range(1, nv + 1) if ra[i - 1]]
            def merges(par, off):
                m = {}
                for l in leaves:
                    for a in ancestors(par, l)[1:]: m.setdefault(a, set()).add(l)
                return [frozenset(m[a]) for a in sorted(m) if len(m[a]) > 1]
            c.check(merges(p, 0) == merges(ra, 0), lambda: "the merges of the values are not those without ClusterNull: %s, %s" % (p, ra))
        if no > 1:
            g = np.asarray(R[1], float).ravel(); q = cost[~np.isnan(cost)]; same(c, g, np.concatenate([np.full(nv - q.size, q[0]), q]), "COST")
    # histogram over the tree
    if (p[:nv] != 0).any() or True:
        k = c.i(0, 25); x = (r.integers(1, nv + 1, k)).astype(float).reshape(1, -1) if k else np.zeros((1, 0)); h = np.zeros(2 * nv - 1); hist = c.b()
        lastleaf = min([v for v in p if v > 1], default=2 * nv) - 1; lastleaf = nv if lastleaf >= nv else lastleaf
        data = np.bincount(x.ravel().astype(int) - 1, minlength=nv).astype(float).reshape(1, -1) if hist else x
        for v in x.ravel():
            for a in ancestors(p, int(v)): h[a - 1] += 1
        if nv > 1 or k == 0 or True:
            RR = c.calls([("vl_aibhist", [np.asarray(R[0], "u4"), data] + ([case(c, "hist")] if hist else []), 1)])[0]
            same(c, c.ok(RR, "vl_aibhist")[0], h[None], "H"); cls(c, RR[0], "u4", "H")
        if c.chance(1, 8) and nnz > 1: rejected(c, "vl_aibhist", [np.asarray(R[0], "u4"), np.array([[float(c.pick([0, 2 * nv - 1]))]])], "data that is not a leaf")
    # cuts
    root = int(p.max()); nleaf = int((p[:nv] > 0).sum())
    if nleaf >= 2 and root > nv:
        zs = int((p[:nv] == 0).sum()); N = c.i(1, nleaf + (zs if nleaf + zs > 1 else 0)); X = r.integers(1, nv + 1, 12).astype(float).reshape(1, -1); nm = c.pick(["drop", "append", "first", None])
        RR = c.calls([("vl_aibcut", [p.astype(c.pick([float, "u4"])).reshape(1, -1), float(N)], 3), ("vl_aibcutpush", [Ref(1, 2), X], 1), ("vl_aibcuthist", [Ref(1, 2), X] + (["Nulls", nm] if nm else []), 1)])
        cut, mp, sh = [np.asarray(v, float).ravel().astype(int) for v in c.ok(RR[0], "vl_aibcut")]; c.check(len(set(cut)) == N, lambda: "a cut of %s nodes instead of %d" % (cut, N)); cs = set(cut)
        c.check(mp.size == p.size and sh.size == p.size, "MAP or SHORT has the wrong size")
        for i in range(1, nv + 1):
            an = [a for a in ancestors(p, i) if a in cs]
            if p[i - 1] == 0: want = list(cut).index(i) + 1 if i in cs else 0
            else: c.check(len(an) == 1, lambda: "leaf %d has %d ancestors in the cut %s" % (i, len(an), cut)); want = list(cut).index(an[0]) + 1
            c.check(mp[i - 1] == want, lambda: "MAP(%d) = %d, expected %d (cut %s of %s)" % (i, mp[i - 1], want, cut, p))
            if an: c.check(sh[i - 1] in (an[0],), lambda: "SHORT(%d) = %d, expected %d" % (i, sh[i - 1], an[0]))
        for i in range(nv + 1, p.size + 1):
            an = [a for a in ancestors(p, i) if a in cs] if p[i - 1] else []
            c.check(mp[i - 1] == (list(cut).index(an[0]) + 1 if an else 0), lambda: "MAP(%d) = %d (cut %s of %s)" % (i, mp[i - 1], cut, p))
        Y = mp[X.ravel().astype(int) - 1]; same(c, c.ok(RR[1], "vl_aibcutpush")[0], Y[None], "Y"); B = mp.max()
        if (Y == 0).any() and nm == "append": B += 1; Y = np.where(Y == 0, B, Y)
        elif nm == "first": Y = np.where(Y == 0, 1, Y)
        same(c, c.ok(RR[2], "vl_aibcuthist")[0], np.bincount(Y[Y > 0] - 1, minlength=B)[None], "HIST"); c.label("cut")
    if nnz > 2: c.nontrivial()

LOSS = {"hinge": 0, "hinge2": 1, "l1": 2, "l2": 3, "logistic": 4}
INFO = {"objective": 0, "regularizer": 1, "loss": 2, "dualObjective": 3, "dualLoss": 4, "dualityGap": 5, "scoreVariation": 6, "iteration": 7, "epoch": 8, "lambda": 9, "biasMultiplier": 10}
HAS = {2: ["objective", "regularizer", "loss", "dualObjective", "dualLoss", "dualityGap", "iteration", "epoch", "lambda", "biasMultiplier"], 1: ["objective", "regularizer", "loss", "scoreVariation", "iteration", "epoch", "lambda", "biasMultiplier"], 0: ["objective", "regularizer", "loss", "lambda", "biasMultiplier"]}
@check("svmtrain", 900, 30000, "non-trivial: both labels, a solver")
def svmtrain(c):
    t, ty = tt(c); d, n = c.i(1, 6), c.i(2, 40); seed = c.i(0, 1 << 20); r = c.rng(); hk = c.chance(1, 4); x = cloud(c, d, n, t, hk); y = np.where(r.random(n) < .5, 1., -1.); lam = 10. ** -c.i(0, 4); g = []; p = np.full(7, np.nan); solver = 2; loss = 0; w = None; mod = None; h = None; D = d
    if c.chance(1, 2): solver = c.i(0, 2); g.append(["Solver", case(c, ["none", "sgd", "sdca"][solver])])
    if c.chance(1, 2): nm = c.pick(list(LOSS)); loss = LOSS[nm]; g.append(["Loss", case(c, nm)])
    if c.chance(1, 3): p[0] = c.pick([0., 1e-2, .5]); g.append(["Epsilon", p[0]])
    if c.chance(1, 2) or np.isnan(p[0]) or p[0] < 1e-2: p[1] = c.i(1, 20 * n); g.append(["MaxNumIterations", p[1]])
    if c.chance(1, 2): p[2] = c.pick([0., 1., .3, 10.]); g.append(["BiasMultiplier", p[2]])
    if c.chance(1, 4): p[3] = c.pick([.1, 1., .01]); g.append(["BiasLearningRate", p[3]])
    if c.chance(1, 3): p[4] = c.i(1, 2 * n); g.append(["DiagnosticFrequency", p[4]])
    if c.chance(1, 4): w = r.uniform(0, 2, n); g.append(["Weights", w.reshape(1, -1) if c.b() else w.reshape(-1, 1)])
    ds = x
    if hk:
        f = {}; h = [1, 1., 1, -1., 1]
        if c.b(): nm = c.pick(list(KERN)); f["kernel"] = nm; h[0] = KERN[nm]
        if c.b(): h[2] = c.i(0, 3); f["order"] = float(h[2])
        if c.chance(1, 3): h[1] = c.real(.5, 1.5); f["gamma"] = h[1]
        if c.chance(1, 3): h[3] = c.real(3, 10); f["period"] = h[3]
        if c.chance(1, 3): h[4] = c.i(0, 1); f["window"] = ["uniform", "rectangular"][h[4]]
        if not f: f["order"] = 1.
        h = np.array(h, float); D = d * int(2 * h[2] + 1); ds = Ref(2)
    if solver < 2:
        if c.chance(1, 3): p[5] = c.i(0, 100); g.append(["StartingIteration", p[5]])
        if c.chance(1, 2) and not np.any(p[2:3] == 0): p[6] = c.real(-1, 1); g.append(["Bias", p[6]])
        if c.chance(1, 2) and (h is None or True): mod = r.standard_normal(D); g.append(["Model", mod.reshape(-1, 1) if c.b() else mod.reshape(1, -1)])
    dg = c.chance(1, 4)
    if dg: g.append(["DiagnosticFunction", Fn("@(s) evalin('base','vt_diag = vt_diag + 1;')")])
    no = c.i(1, 4); o = shuf(c, g); c.note("vl_svmtrain %s %dx%d lambda %g seed %d %s%s" % (t, d, n, lam, seed, [v for v in o if not isinstance(v, np.ndarray)], " homkermap %s" % f if hk else ""))
    pre = [("vl_twister", ["state", float(seed)], 0)] + ([("vl_svmdataset", [x, "homkermap", f], 1)] if hk else []) + ([("assignin", ["base", "vt_diag", 0.], 0)] if dg else [])
    R = c.calls(pre + [("vl_svmtrain", [ds, y.reshape(1, -1) if c.b() else y.reshape(-1, 1), lam] + o, no)] + ([("evalin", ["base", "vt_diag"], 1)] if dg else []))
    for q in range(len(pre)): c.ok(R[q], pre[q][0])
    A = outs(c, R[len(pre)], no, "vl_svmtrain")
    L.vt_seed(seed); L.vt_svm(I_(solver), I_(loss), D_(lam), I_(ty), ptr(x), I_(d), I_(n), ptr(y), ptr(p), ptr(w), ptr(mod), ptr(h))
    same(c, A[0], out(0)[:, None], "W")
    if no > 1: same(c, A[1], out(1)[:, None], "B")
    if no > 2:
        F = A[2][0] if isinstance(A[2], list) else A[2]; c.check(str(F["solver"]) == ["none", "sgd", "sdca"][solver], "INFO.solver is %r" % (F["solver"],))
        for k in HAS[solver]: same(c, np.ravel(np.asarray(F[k], float)), out(3)[INFO[k]:INFO[k] + 1], "INFO." + k)
        same(c, np.ravel(np.asarray(F["bias"], float)), out(1), "INFO.bias"); c.check(float(np.ravel(F["elapsedTime"])[0]) >= 0, "INFO.elapsedTime")
    if no > 3: same(c, A[3], out(2)[None], "SCORES")
    if dg: c.ok(R[-1], "evalin"); c.check(float(np.ravel(R[-1][0])[0]) == out(3)[11], lambda: "the diagnostic function was called %g times instead of %g" % (np.ravel(R[-1][0])[0], out(3)[11])); c.label("diagnostic")
    if c.chance(1, 8):
        m = c.i(0, 6); y2 = y.reshape(1, -1); rejected(c, "vl_svmtrain", [[x, y2[:, :-1], lam], [x.astype("i4"), y2, lam], [x, y2, -1.], [x, y2, lam, "Weights", np.ones((1, n + 1))], [x, y2, lam, "Solver", "sgd", "Model", np.ones((1, d + 1))], [x, y2, lam, "Loss", "hinge3"], [x, y2, lam, "Epsilon", -1.]][m], "bad arguments %d" % m)
    if solver and abs(y.sum()) < n: c.nontrivial()
    c.label(["none", "sgd", "sdca"][solver])

@check("rodr", 500, 20000, "non-trivial: more than one rotation")
def rodr(c):
    K = c.i(1, 6); r = c.rng(); om = np.asfortranarray(r.standard_normal((3, K)) * r.choice([0, 1e-12, 1e-3, 1, 3], K)); no, no2 = c.i(1, 2), c.i(1, 2); form = c.i(0, 1); arg = om if form else (om.reshape(1, -1, order="F") if c.b() else om.reshape(-1, 1, order="F")); c.note("vl_rodr %d rotations, %s" % (K, arg.shape))
    R = c.calls([("vl_rodr", [arg], no), ("vl_irodr", [Ref(1) if c.b() else None], no2)] if False else [("vl_rodr", [arg], no)])[0]; R = outs(c, R, no, "vl_rodr")
    L.vt_rodr(ptr(om), I_(K)); E = np.reshape(out(0), (3, 3, K), order="F"); dE = np.reshape(out(1), (9, 3, K), order="F")
    if K == 1: E = E[:, :, 0]; dE = dE[:, :, 0]
    same(c, R[0], E, "R", 1e-12)
    if no > 1: same(c, R[1], dE, "DR", 1e-12)
    Rm = np.asfortranarray(E.reshape(9, K, order="F")); a2 = c.pick([Rm, E]); S = outs(c, c.calls([("vl_irodr", [a2], no2)])[0], no2, "vl_irodr"); L.vt_irodr(ptr(Rm), I_(K)); dO = np.reshape(out(1), (3, 9, K), order="F"); dO = dO[:, :, 0] if K == 1 else dO
    same(c, S[0], fcol(out(0), 3, K), "OM", 1e-12)
    if no2 > 1: same(c, S[1], dO, "DOM", 1e-12)
    if c.chance(1, 8): m = c.i(0, 3); rejected(c, "vl_rodr" if m < 2 else "vl_irodr", [[np.zeros((4, 1))], [om.astype("f4")], [np.zeros((8, 1))], [Rm.astype("f4")]][m], "bad arguments")
    if K > 1: c.nontrivial()

@check("twister", 700, 20000, "non-trivial: numbers drawn")
def twister(c):
    M = c.i(0, 2); mt = np.random.MT19937(); rs = np.random.RandomState()
    if M == 0: s = c.pick([0, 1, 2 ** 32 - 1, c.draw(1 << 32)]); rs.seed(s); arg = float(s)
    elif M == 1: k = c.i(2, 60) if c.chance(3, 4) else c.pick([623, 624]); key = c.rng().integers(0, 1 << 32, k, dtype=np.uint64); rs.seed([int(v) for v in key]); arg = key.astype(float).reshape(1, -1)
    else:
        s = c.draw(1 << 32); rs.seed(s); rs.random_sample(c.i(0, 700)); st = rs.get_state(); arg = np.append(st[1], np.uint32(st[2])).astype("u4").reshape(-1, 1)
    k1, k2 = c.small(0, 900), c.i(1, 8); dims = [c.i(0 if c.chance(1, 8) else 1, 4) for _ in range(c.i(1, 4))]; v = c.i(0, 1)
    form = [np.array(dims, float).reshape(1, -1)] if v or len(dims) == 1 else [float(q) for q in dims]; c.note("vl_twister seed mode %d, %d then %s" % (M, k1, dims))
    no = 1 ; R = c.calls([("vl_twister", [case(c, "state"), arg], 0), ("vl_twister", [float(k1), 1.], 1), ("vl_twister", ["state"], 1), ("vl_twister", [], 1), ("vl_twister", form, 1), ("vl_twister", ["state", Ref(3)], 0), ("vl_twister", [], 1)])
    for q, r_ in enumerate(R): c.ok(r_, "vl_twister, call %d" % (q + 1)) if q not in (0, 5) else c.check(not isinstance(r_, OctError), "call %d: %s" % (q + 1, r_))
    e = rs.random_sample(k1); g = np.asarray(R[1][0]); c.check(g.shape == (k1, 1), "size %s" % (g.shape,))
    if k1: c.check((g.ravel() == e).all(), "the numbers are not those of MT19937"); c.nontrivial()
    S = np.asarray(R[2][0]); cls(c, S, "u4", "state"); c.check(S.shape == (625, 1), "state has size %s" % (S.shape,)); nx = rs.random_sample()
    c.check(float(np.ravel(R[3][0])[0]) == nx, "the next number is wrong")
    want = dims if len(dims) > 1 else dims * 2
    while len(want) > 2 and want[-1] == 1: want = want[:-1]
    B = np.asarray(R[4][0]); c.check(list(B.shape) == want, "size %s, expected %s" % (B.shape, want)); e = rs.random_sample(int(np.prod(want)))
    c.check((B.ravel(order="F") == e).all(), "the numbers are not those of MT19937")
    c.check(float(np.ravel(R[6][0])[0]) == nx, "the state was not restored")
    if c.chance(1, 8): m = c.i(0, 2); rejected(c, "vl_twister", [["seed"], [-1.], [2., "x"]][m], "bad arguments")

if __name__ == "__main__": sys.exit(main())
