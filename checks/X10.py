# X10: no toolbox call touches memory it does not own or ends the interpreter, whatever its arguments
# VT-MEX: vl_aib vl_aibhist vl_fisher vl_irodr vl_rodr vl_gmm vl_imdisttf vl_imintegral vl_imsmooth vl_imwbackwardmx vl_tpsumx vl_hikmeans vl_hikmeanspush vl_ikmeans vl_ikmeanspush vl_kmeans vl_alldist2 vl_binsearch vl_binsum vl_cummax vl_getpid vl_hog vl_homkermap vl_ihashfind vl_ihashsum vl_inthist vl_kdtreebuild vl_kdtreequery vl_lbp vl_localmax vl_sampleinthist vl_simdctrl vl_svmtrain vl_threads vl_twister vl_version vl_erfill vl_mser vl_quickshift vl_covdet vl_dsift vl_liop vl_sift vl_siftdescriptor vl_ubcmatch vl_slic vl_vlad
# VT-ASAN
import sys, math, numpy as np
from vtoct import *
F8, F4, U1, I4, U4 = "f8", "f4", "u1", "i4", "u4"
def fl(c): return c.pick([F8, F4])
def A(c, t, *sh):
    r = c.rng(); k = c.i(0, 2)
    if t in ("f8", "f4"): a = r.random(sh) if k == 0 else r.standard_normal(sh) * 3 if k == 1 else r.integers(-3, 9, sh)
    else: a = r.integers(0, 12 if k else 250, sh)
    return np.asfortranarray(a, t) if a.ndim > 1 else np.asarray(a, t)
def opts(c, *l):
    g = [x for x in l if c.chance(1, 3)]; r = []
    for k in c.rng().permutation(len(g)) if g else []:
        x = g[k]; r.append(c.pick([x[0], x[0].lower()])); r += [v(c) if callable(v) else v for v in x[1:]]
    return r
def R(lo, hi): return lambda c: c.real(lo, hi)
def N(lo, hi): return lambda c: float(c.i(lo, hi))
def P(*l): return lambda c: c.pick(list(l))
KS = ("kchi2", "kl1", "kjs", "kinters")
def g_aib(c): return [A(c, F8, c.i(1, 4), c.i(1, 10)).clip(0)] + opts(c, ("ClusterNull",))
def g_aibhist(c): return [np.array([[6, 6, 5, 7, 7, 7, 1]] if c.b() else [[4, 4, 5, 5, 1]], U4), np.array([[c.i(1, 3) for _ in range(c.i(0, 5))]], float)] + (["hist"] if c.chance(1, 3) else [])
def g_fisher(c): t = fl(c); d, n, k = c.i(1, 5), c.i(0, 9), c.i(1, 4); return [A(c, t, d, n), A(c, t, d, k), abs(A(c, t, d, k)) + t_(t, .1), abs(A(c, t, k, 1))] + opts(c, ("Normalized",), ("SquareRoot",), ("Improved",), ("Fast",))
def t_(t, v): return np.dtype(t).type(v)
def g_vlad(c): t = fl(c); d, n, k = c.i(1, 5), c.i(0, 9), c.i(1, 4); return [A(c, t, d, n), A(c, t, d, k), A(c, t, k, n)] + opts(c, ("Unnormalized",), ("NormalizeComponents",), ("NormalizeMass",), ("SquareRoot",))
def g_gmm(c):
    t = fl(c); d, n = c.i(1, 4), c.i(2, 20); k = c.i(1, 3); a = [A(c, t, d, n), float(k), "MaxNumIterations", float(c.i(0, 5))] + opts(c, ("NumRepetitions", N(1, 2)), ("Initialization", P("rand", "kmeans")), ("CovarianceBound", R(0, 1)))
    if c.chance(1, 3): a += ["InitMeans", A(c, t, d, k), "InitCovariances", abs(A(c, t, d, k)) + t_(t, .1), "InitPriors", abs(A(c, t, k, 1)) + t_(t, .1)]
    if c.chance(1, 4): a += ["CovarianceBound", abs(A(c, F8, d, 1))]
    return a
def g_imdisttf(c): return [A(c, fl(c), c.i(1, 8), c.i(1, 8))] + ([np.array([[c.real(.1, 3), c.real(-3, 3), c.real(.1, 3), c.real(-3, 3)]])] if c.b() else [])
def g_imintegral(c): return [A(c, c.pick([F8, F4, U4, I4]), c.i(0, 8), c.i(0, 8))]
def g_imsmooth(c): return [A(c, fl(c), c.i(1, 12), c.i(1, 12), c.i(1, 3)), c.real(0, 4)] + opts(c, ("Padding", P("continuity", "zero")), ("Kernel", P("gaussian", "triangular")), ("Subsample", N(1, 3)))
def g_imwb(c): n, m = c.i(1, 7), c.i(1, 7); p, q = c.i(1, 6), c.i(1, 6); return [np.arange(1., n + 1).reshape(1, -1) * c.pick([1, .5, 2]), np.arange(1., m + 1).reshape(1, -1), A(c, F8, m, n), A(c, F8, p, q) * c.pick([1, 5]), A(c, F8, p, q)]
def g_tpsumx(c): n = c.i(1, 6); p, q = c.i(1, 6), c.i(1, 6); return [A(c, F8, p, q) , A(c, F8, p, q), A(c, F8, 2, n), A(c, F8, n, n + 3)] if c.b() else [A(c, F8, p, q), A(c, F8, p, q), A(c, F8, 2, n), A(c, F8, n + 3, n)]
def g_ikmeans(c): n = c.i(1, 20); return [A(c, U1, c.i(1, 5), n), float(c.i(1, min(n, 5)))] + opts(c, ("MaxIters", N(1, 4)), ("Method", P("lloyd", "elkan")))
def g_ikmeanspush(c): d = c.i(1, 5); return [A(c, U1, d, c.i(0, 9)), A(c, I4, d, c.i(1, 5))] + opts(c, ("Method", P("lloyd", "elkan")))
def g_hikmeans(c): n = c.i(4, 30); return [A(c, U1, c.i(1, 5), n), float(c.i(2, 4)), float(c.i(1, 20))] + opts(c, ("MaxIters", N(1, 4)), ("Method", P("lloyd", "elkan")))
def node(c, d, K, dep):
    s = {"centers": A(c, I4, d, K)}
    if dep > 1: s["sub"] = [node(c, d, K, dep - 1) for _ in range(K)]
    return s
def g_hikmeanspush(c): d, K, dep = c.i(1, 4), c.i(2, 3), c.i(1, 1); t = {"K": float(K), "depth": float(dep), "centers": A(c, I4, d, K)}; return [t, A(c, U1, d, c.i(0, 9))] + opts(c, ("Method", P("lloyd", "elkan")))
def g_kmeans(c): n = c.i(1, 20); return [A(c, fl(c), c.i(1, 5), n), float(c.i(1, min(n, 5)))] + opts(c, ("MaxNumIterations", N(0, 4)), ("Algorithm", P("lloyd", "elkan", "ann")), ("Distance", P("l1", "l2", "chi2")), ("NumRepetitions", N(1, 2)), ("Initialization", P("randsel", "plusplus")), ("NumTrees", N(1, 3)), ("MaxNumComparisons", N(0, 20)), ("MinEnergyVariation", R(0, 1)))
def g_alldist2(c): t = c.pick([F8, F4, U1, "i1", "i2", "u2", I4, U4]); d = c.i(1, 5); x = A(c, t, d, c.i(0, 6)); return [x] + ([A(c, t, d, c.i(0, 6))] if c.b() else []) + ([c.pick(["linf", "l2", "l1", "l0", "chi2", "hell", "kl2", "kl1", "kchi2", "khell", "min"])] if c.b() else [])
def g_binsearch(c): return [np.sort(A(c, F8, 1, c.i(0, 6))), A(c, F8, c.i(0, 4), c.i(0, 4))]
def g_binsum(c):
    t = c.pick([F8, F4, U1, I4, U4]); n = c.i(1, 5)
    if c.b(): return [A(c, t, 1, n), A(c, t, 2, 3) if c.b() else A(c, t, 1, 1), c.rng().integers(0, n + 1, (2, 3)).astype(c.pick([t, "f8"]))]
    return [A(c, t, n, 3), A(c, t, 4, 3), c.rng().integers(0, n + 1, (4, 3)).astype(c.pick([t, "f8"])), 1.]
def g_cummax(c): return [A(c, c.pick([F8, F4, U1, I4]), *[c.i(0, 4) for _ in range(c.i(2, 3))])] + ([float(c.i(1, 4))] if c.b() else [])
def g_hog(c):
    if c.chance(1, 4): return [c.pick(["permutation", "render"])] + ([A(c, F4, 3, 3, 31)] if c.b() else []) + opts(c, ("NumOrientations", N(1, 12)), ("Variant", P("uoctti", "dalaltriggs")))
    a = A(c, F4, c.i(1, 20), c.i(1, 20), c.pick([1, 3]))
    if c.chance(1, 4): a = A(c, F4, c.i(1, 20), c.i(1, 20), 2); return [a, float(c.i(1, 9)), c.pick(["DirectedPolarField", "UndirectedPolarField"])]
    return [a, float(c.i(1, 9))] + opts(c, ("NumOrientations", N(1, 12)), ("Variant", P("uoctti", "dalaltriggs")), ("BilinearOrientations",))
def g_homkermap(c): return [A(c, fl(c), *[c.i(0, 3) for _ in range(c.i(2, 4))]), float(c.i(0, 4))] + opts(c, (P(*KS)(c),), ("kernel", P(*KS)), ("gamma", R(.3, 2)), ("period", R(1, 9)), ("window", P("uniform", "rectangular")))
def hash_(c): d, C = c.i(1, 3), c.i(1, 8); return d, C, c.i(1, C)
def nxt(c, C): return np.array([[0 if c.b() or j + 2 > C else c.i(j + 2, C) for j in range(C)]], U4)
def g_ihashfind(c): d, C, K = hash_(c); return [A(c, U1, d, C), nxt(c, C), float(K), A(c, U1, d, c.i(0, 6))]
def g_ihashsum(c): d, C, K = hash_(c); z = c.b(); return [A(c, U4, 1, C) * (not z), A(c, U1, d, C) * (not z), nxt(c, C), float(K), A(c, U1, d, c.i(0, 6))]
def cyclic(a):
    """a chain of overflow buckets that comes back on itself is followed for ever: not judged"""
    for v in a:
        if isinstance(v, np.ndarray) and v.dtype == np.uint32:
            x = v.ravel()
            if any(0 < x[j] <= j + 1 for j in range(x.size)): return True
    return False
def g_inthist(c): s = [c.i(0, 5), c.i(0, 5)] + ([c.i(1, 3)] if c.b() else []); return [A(c, U4, *s)] + opts(c, ("NumLabels", N(0, 15)), ("Mass", lambda c: A(c, c.pick([U4, F8]), *s)))
def g_sampleinthist(c): m, n = c.i(1, 5), c.i(1, 5); b = np.array([[c.i(1, m), c.i(1, n), c.i(0, m), c.i(0, n)] for _ in range(c.i(0, 4))], U4).reshape(-1, 4).T; return [A(c, c.pick([U4, F8]), m, n, c.i(1, 3)), np.asfortranarray(b)]
def g_lbp(c): return [A(c, F4, c.i(1, 20), c.i(1, 20)), float(c.i(1, 9))]
def g_localmax(c): return [A(c, F8, *[c.i(0, 5) for _ in range(c.i(2, 4))])] + ([c.real(-1, 1)] + ([float(c.i(0, 4))] if c.b() else []) if c.b() else [])
def g_kdbuild(c): return [A(c, fl(c), c.i(1, 4), c.i(1, 12))] + opts(c, ("NumTrees", N(1, 3)), ("ThresholdMethod", P("median", "mean")), ("Distance", P("l1", "l2")))
def g_kdquery(c):
    t = fl(c); d, n = c.i(1, 3), c.i(1, 6); x = A(c, t, d, n); m = max(1, 2 * n - 1); lc = np.full((1, m), -1, I4); uc = lc.copy(); 
    if n == 1: lc[0, 0], uc[0, 0] = -1, -2
    else:                               # a degenerate but well formed tree: points split off one after the other
        for i in range(n - 1): a = 2 * i; lc[0, a], uc[0, a] = a + 2, a + 3
        lf = [2 * i + 1 for i in range(n - 1)] + [2 * n - 2]
        for k, a in enumerate(lf): lc[0, a] = -k - 1; uc[0, a] = -k - 2
    nd = {"lowerChild": lc, "upperChild": uc, "splitDimension": np.ones((1, m), U4), "splitThreshold": A(c, F8, 1, m), "lowerBound": np.full((1, m), -1e300), "upperBound": np.full((1, m), 1e300)}
    T = {"nodes": nd, "dataIndex": np.arange(1, n + 1).reshape(1, -1).astype(U4)}
    F = {"dimension": float(d), "numData": float(n), "trees": T, "distance": c.pick(["l1", "l2"])}
    return [F, x, A(c, t, d, c.i(0, 5))] + opts(c, ("NumNeighbors", N(1, 5)), ("MaxComparisons", N(0, 9)))
def g_svm(c):
    t = fl(c); d, n = c.i(1, 4), c.i(1, 12); x = A(c, t, d, n); y = np.sign(c.rng().standard_normal((1, n))); s = x if c.chance(2, 3) else {"data": x, "homkermap": {"kernel": c.pick(KS), "order": float(c.i(0, 3)), "window": "uniform"}}
    return [s, y, 10. ** -c.i(0, 4), "MaxNumIterations", float(c.i(0, 60))] + opts(c, ("Epsilon", R(0, 1)), ("BiasMultiplier", R(0, 3)), ("DiagnosticFrequency", N(1, 9)), ("Loss", P("hinge", "hinge2", "l1", "l2", "logistic")), ("Solver", P("sgd", "sdca", "none")), ("Model", lambda c: A(c, F8, 1, d)), ("Bias", R(-1, 1)), ("Weights", lambda c: abs(A(c, F8, 1, n))), ("StartingIteration", N(0, 9)), ("BiasLearningRate", R(0, 1)), ("DiagnosticFunction", lambda c: Fn("@(s) 1")), ("ValidationSubset", N(0, 9)))
def g_twister(c): return c.pick([lambda: [], lambda: [float(c.i(0, 4)) for _ in range(c.i(1, 4))], lambda: [A(c, F8, 1, c.i(1, 4)).clip(0, 4)], lambda: ["state"], lambda: ["state", 5.], lambda: ["state", abs(A(c, F8, 1, c.i(0, 9)))], lambda: ["state", A(c, U4, 625, 1)]])()
def g_erfill(c): s = [c.i(1, 6), c.i(1, 6)] + ([c.i(1, 3)] if c.chance(1, 3) else []); return [A(c, U1, *s), float(c.i(-int(np.prod(s)), int(np.prod(s))))]
def g_mser(c): return [A(c, U1, *([c.i(1, 10), c.i(1, 10)] + ([c.i(1, 4)] if c.chance(1, 3) else [])))] + opts(c, ("Delta", N(0, 20)), ("MaxArea", R(0, 1)), ("MinArea", R(0, 1)), ("MaxVariation", R(0, 5)), ("MinDiversity", R(0, 1)), ("BrightOnDark", N(0, 1)), ("DarkOnBright", N(0, 1)))
def g_qs(c): return [A(c, F8, c.i(1, 9), c.i(1, 9), c.i(1, 3)), c.real(.3, 3)] + ([c.real(.5, 6)] if c.b() else []) + opts(c, ("Medoid",))
def frames(c, k, hi=24): r = c.rng(); return np.asfortranarray(np.vstack([r.uniform(-4, hi, k), r.uniform(-4, hi, k), r.uniform(.1, 9, k), r.uniform(-7, 7, k)]))
def g_sift(c): return [A(c, F4, c.i(1, 24), c.i(1, 24))] + opts(c, ("Octaves", N(-1, 4)), ("Levels", N(1, 5)), ("FirstOctave", N(-1, 2)), ("PeakThresh", R(0, 3)), ("EdgeThresh", R(1, 20)), ("NormThresh", R(0, 3)), ("Magnif", R(.5, 5)), ("WindowSize", R(.3, 4)), ("Frames", lambda c: frames(c, c.i(0, 5))), ("Orientations",), ("FloatDescriptors",))
def g_siftd(c): m, n = c.i(1, 20), c.i(1, 20); return [A(c, F4, 2, m, n), frames(c, c.i(0, 5))] + opts(c, ("Magnif", R(.5, 5)), ("FloatDescriptors",), ("NormThresh", R(0, 3)))
def g_dsift(c): return [A(c, F4, c.i(1, 24), c.i(1, 24))] + opts(c, ("Step", lambda c: float(c.i(1, 5)) if c.b() else np.array([[c.i(1, 5), c.i(1, 5)]], float)), ("Size", N(1, 6)), ("Bounds", lambda c: np.array([[c.i(-3, 5), c.i(-3, 5), c.i(3, 26), c.i(3, 26)]], float)), ("Fast",), ("Norm",), ("WindowSize", R(.2, 4)), ("FloatDescriptors",), ("Geometry", lambda c: np.array([[c.i(1, 5), c.i(1, 5), c.i(1, 9)]], float)))
def g_covdet(c):
    def fr(c):
        k = c.i(0, 4); r = c.rng(); n = c.i(2, 6); a = r.uniform(-3, 26, (n, k)); a[2:] = r.uniform(-4, 4, (n - 2, k)); return np.asfortranarray(a)
    return [A(c, F4, c.i(1, 22), c.i(1, 22))] + opts(c, ("Method", P("DoG", "Hessian", "HessianLaplace", "HarrisLaplace", "MultiscaleHessian", "MultiscaleHarris")), ("OctaveResolution", N(1, 4)), ("NumOctaves", N(1, 4)), ("DoubleImage", P(False, True)), ("PeakThreshold", R(0, 1)), ("EdgeThreshold", R(1, 20)), ("EstimateOrientation", P(False, True)), ("EstimateAffineShape", P(False, True)), ("Frames", fr), ("Descriptor", P("SIFT", "Patch", "LIOP", "None")), ("PatchResolution", N(1, 20)), ("PatchRelativeExtent", R(.1, 9)), ("PatchRelativeSmoothing", R(.1, 3)), ("LiopNumSpatialBins", N(1, 7)), ("LiopNumNeighbours", N(1, 5)), ("LiopRadius", R(.5, 8)), ("LiopIntensityThreshold", R(-1, 1)), ("AllowPaddedWarping", P(False, True)), ("MaxNumOrientations", N(1, 4)), ("BaseScale", R(.5, 3)), ("LaplacianPeakThreshold", R(0, 1)))
def g_liop(c): s = 2 * c.i(1, 12) + 1; return [A(c, F4, s, s, *([c.i(1, 3)] if c.b() else []))] + opts(c, ("NumNeighbours", N(1, 5)), ("NumSpatialBins", N(1, 7)), ("Radius", R(.5, 6)), ("IntensityThreshold", R(-1, 1)))
def g_ubcmatch(c): t = c.pick([F8, F4, U1, "i1"]); d = c.i(1, 9); return [A(c, t, d, c.i(0, 6)), A(c, t, d, c.i(0, 6))] + ([c.real(.5, 3)] if c.b() else [])
def g_slic(c): return [A(c, F4, c.i(1, 16), c.i(1, 16), c.i(1, 3)), float(c.i(1, 9)), c.real(0, 2)] + opts(c, ("MinRegionSize", N(0, 9)))
FN = {"vl_aib": (2, g_aib), "vl_aibhist": (1, g_aibhist), "vl_fisher": (1, g_fisher), "vl_vlad": (1, g_vlad), "vl_gmm": (5, g_gmm), "vl_imdisttf": (2, g_imdisttf), "vl_imintegral": (1, g_imintegral), "vl_imsmooth": (1, g_imsmooth),
      "vl_imwbackwardmx": (3, g_imwb), "vl_tpsumx": (3, g_tpsumx), "vl_ikmeans": (2, g_ikmeans), "vl_ikmeanspush": (1, g_ikmeanspush), "vl_hikmeans": (2, g_hikmeans), "vl_hikmeanspush": (1, g_hikmeanspush), "vl_kmeans": (3, g_kmeans),
      "vl_alldist2": (1, g_alldist2), "vl_binsearch": (1, g_binsearch), "vl_binsum": (1, g_binsum), "vl_cummax": (1, g_cummax), "vl_hog": (1, g_hog), "vl_homkermap": (1, g_homkermap), "vl_ihashfind": (1, g_ihashfind), "vl_ihashsum": (3, g_ihashsum),
      "vl_inthist": (1, g_inthist), "vl_sampleinthist": (1, g_sampleinthist), "vl_lbp": (1, g_lbp), "vl_localmax": (1, g_localmax), "vl_kdtreebuild": (1, g_kdbuild), "vl_kdtreequery": (2, g_kdquery), "vl_svmtrain": (4, g_svm), "vl_twister": (1, g_twister),
      "vl_erfill": (1, g_erfill), "vl_mser": (2, g_mser), "vl_quickshift": (3, g_qs), "vl_sift": (3, g_sift), "vl_siftdescriptor": (1, g_siftd), "vl_dsift": (2, g_dsift), "vl_covdet": (3, g_covdet), "vl_liop": (1, g_liop), "vl_ubcmatch": (2, g_ubcmatch), "vl_slic": (1, g_slic),
      "vl_rodr": (2, lambda c: [A(c, F8, 3, c.i(1, 4))]), "vl_irodr": (2, lambda c: [A(c, F8, 9, c.i(1, 4))]), "vl_simdctrl": (1, lambda c: [float(c.i(0, 1))]), "vl_threads": (1, lambda c: [float(c.i(0, 2))]), "vl_version": (1, lambda c: opts(c, ("verbose",))), "vl_getpid": (1, lambda c: [])}

CL = ["f8", "f4", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"]
def odd(c):
    """an argument of an unexpected kind"""
    k = c.i(0, 11)
    if k == 0: return A(c, c.pick(CL), c.i(0, 3), c.i(0, 3))
    if k == 1: return c.pick(["", "abc", "x" * 3000, "verbose"])
    if k == 2: return [1., "a"][:c.i(0, 2)]
    if k == 3: return {"a": 1.}
    if k == 4: return Fn("@(x) x")
    if k == 5: return Sparse((np.asarray(A(c, F8, c.i(1, 4), c.i(1, 4))) > 2).astype(float))
    if k == 6: return c.b()
    if k == 7: return c.pick([0., -1., .5, float("nan"), float("inf"), -float("inf"), 3., 1e6, 4294967296., 2147483648., -2147483649., 1e300])
    if k == 8: return Complex(A(c, F8, 2, 2), A(c, F8, 2, 2))
    if k == 9: return np.asfortranarray(A(c, c.pick(CL), *[c.i(0, 3) for _ in range(c.i(3, 5))]))
    if k == 10: return A(c, F8, 1, c.i(0, 5))
    return A(c, c.pick(CL), 0, c.i(0, 3))
def bend(c, v):
    """a variation of an argument"""
    if isinstance(v, str): return c.pick([v[:-1], v + "x", "x" * 2000, odd(c), v.encode().decode()[::-1]])
    if isinstance(v, dict):
        k = c.pick(list(v)); w = dict(v); m = c.i(0, 3)
        if m == 0: del w[k]
        elif m == 1: w[k] = odd(c)
        else: w[k] = bend(c, v[k])
        return w if w else 1.
    if isinstance(v, (bool, float, int)):
        with np.errstate(all="ignore"): f = np.float32(v)
        return c.pick([0., -1., .5, 1., 2., 3., float(v) + 1, float(v) * 3, -float(v), float("nan"), 100., odd(c), odd(c), f])
    if not isinstance(v, np.ndarray): return odd(c)
    k = c.i(0, 10)
    if k == 0: return odd(c)
    if k == 1:
        with np.errstate(all="ignore"): return v.astype(c.pick(CL))
    if k == 2: return np.asfortranarray(v.T) if v.ndim == 2 else np.asfortranarray(v.reshape(v.shape[0], int(np.prod(v.shape[1:])), order="F"))
    if k == 3: x = c.i(0, v.ndim - 1); return np.asfortranarray(np.take(v, range(max(0, v.shape[x] - 1)), x))
    if k == 4: x = c.i(0, v.ndim - 1); return np.asfortranarray(np.concatenate([v, v], x))
    if k == 5: return np.asfortranarray(np.stack([v] * c.i(1, 3), v.ndim))
    if k == 6:
        w = v.copy(order="F"); s = c.pick([0, 1, -1, 2, 1e6, float("nan"), float("inf"), -float("inf"), 255, 2 ** 31, -2 ** 31, 2 ** 32 - 1])
        if w.dtype.kind == "b": return ~w
        if w.size and w.dtype.kind != "f":
            if s != s or abs(s) == float("inf"): s = 0
            s = min(max(s, np.iinfo(w.dtype).min), np.iinfo(w.dtype).max)
        if w.size: w.__setitem__(np.unravel_index(c.i(0, w.size - 1), w.shape), s)
        return w
    if k == 7: return v[:0] if c.b() else np.asfortranarray(v[:, :0]) if v.ndim > 1 else v[:0]
    if k == 8 and v.ndim == 2 and v.dtype == np.float64: return Sparse(v)
    if k == 9 and v.dtype.kind == "f" and v.ndim == 2: return Complex(np.ascontiguousarray(v), np.ascontiguousarray(v))
    if k == 10: return v.astype(bool)
    return np.zeros_like(v)
def brief(v):
    if isinstance(v, np.ndarray): return "%s%s" % (v.dtype, list(v.shape)) + (str(v.tolist()) if v.size < 13 else "")
    if isinstance(v, Sparse): return "sparse" + brief(np.asarray(v.a))
    if isinstance(v, Complex): return "complex" + brief(np.asarray(v.v[0]))
    if isinstance(v, dict): return "{" + ", ".join("%s: %s" % (k, brief(x)) for k, x in v.items()) + "}"
    if isinstance(v, list): return "cell[" + ", ".join(map(brief, v)) + "]"
    if isinstance(v, Fn): return v.s
    return repr(v)[:60]

def run(c, names):
    fn = c.pick(names); mo, g = FN[fn]; a = g(c); m = 0
    if c.chance(3, 4):
        for _ in range(1 + c.small(0, 2)):
            k = c.i(0, 7); m += 1
            if k <= 3 and a: j = c.i(0, len(a) - 1); a[j] = bend(c, a[j])
            elif k == 4 and a: a[c.i(0, len(a) - 1)] = odd(c)
            elif k == 5 and a: del a[c.i(0, len(a) - 1)]
            elif k == 6: a.append(odd(c))
            elif a and k == 7: a = a[:c.i(0, len(a))]
    if fn.startswith("vl_ihash") and cyclic(a[-4 if fn == "vl_ihashfind" else 2:]): raise Discard()
    no = c.i(0, mo + (1 if c.chance(1, 6) else 0)); c.note("nargout %d: %s(%s)" % (no, fn, ", ".join(map(brief, a))))
    try: r = c.calls([(fn, a, no), ("vl_version", [], 1)], secs=8)
    except Dead as e:
        s = str(e)
        if s.startswith("no answer") or "allocation-size-too-big" in s or "out-of-memory" in s or "rss limit" in s or "out of memory" in s or "failed to allocate" in s: raise Discard()
        raise
    c.label(fn + (" rejected" if isinstance(r[0], OctError) else "")); c.check(not isinstance(r[1], OctError), "vl_version fails afterwards")
    if m: c.nontrivial()

def group(name, names, q, t):
    check(name, q, t, "non-trivial: at least one argument altered")(lambda c: run(c, names))
G = {"imop": ["vl_imdisttf", "vl_imintegral", "vl_imsmooth", "vl_imwbackwardmx", "vl_tpsumx", "vl_erfill", "vl_mser", "vl_quickshift", "vl_slic"],
     "features": ["vl_sift", "vl_siftdescriptor", "vl_dsift", "vl_covdet", "vl_liop", "vl_hog", "vl_lbp", "vl_ubcmatch"],
     "learning": ["vl_kmeans", "vl_gmm", "vl_fisher", "vl_vlad", "vl_ikmeans", "vl_ikmeanspush", "vl_hikmeans", "vl_hikmeanspush", "vl_aib", "vl_aibhist", "vl_svmtrain", "vl_kdtreebuild", "vl_kdtreequery", "vl_homkermap"],
     "misc": ["vl_alldist2", "vl_binsearch", "vl_binsum", "vl_cummax", "vl_ihashfind", "vl_ihashsum", "vl_inthist", "vl_sampleinthist", "vl_localmax", "vl_twister", "vl_rodr", "vl_irodr", "vl_simdctrl", "vl_threads", "vl_version", "vl_getpid"]}
for k, v in G.items(): group(k, v, 6000, 200000)
import os
if os.environ.get("X10_FN"): CHECKS.clear(); [group(f, [f], 600, 600) for f in (FN if os.environ["X10_FN"] == "all" else os.environ["X10_FN"].split())]
if __name__ == "__main__": sys.exit(main())
