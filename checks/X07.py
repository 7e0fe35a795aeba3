# X07: toolbox features against the C library on the transposed image, with the toolbox conventions
# VT-MEX: vl_sift vl_siftdescriptor vl_dsift vl_covdet vl_mser vl_erfill vl_hog vl_lbp vl_liop vl_slic vl_quickshift vl_imsmooth vl_binsum vl_localmax
# VT-SHIM: shim.c
import sys, os, math, ctypes, numpy as np
from ctypes import c_int as I_, c_double as D_
from vtoct import *
L = ctypes.CDLL(os.environ["VT_SHIM"])
_o = (ctypes.POINTER(D_) * 12).in_dll(L, "vt_out"); _n = (ctypes.c_long * 12).in_dll(L, "vt_n")
def out(k): return np.ctypeslib.as_array(_o[k], (_n[k],)).copy() if _n[k] else np.zeros(0)
def ptr(a): return a.ctypes.data_as(ctypes.c_void_p) if a is not None else None
def fa(a, t): return np.asfortranarray(np.asarray(a, t))
def ints(*v): return np.array(v, "i4")
def dbl(*v): return np.array(v, "f8")

def image(c, m, n, scale=255.):
    """something with structure: blobs, noise, edges"""
    r = c.rng(); k = c.i(0, 4)
    if k == 0: a = r.random((m, n))
    else:
        a = np.zeros((m, n)); y, x = np.mgrid[0:m, 0:n]
        for _ in range(r.integers(1, 9)):
            s = r.uniform(1, max(2, min(m, n) / 5)); e = r.uniform(.5, 2)
            a += r.uniform(-1, 1) * np.exp(-((x - r.uniform(0, n)) ** 2 / e + (y - r.uniform(0, m)) ** 2 * e) / 2 / s ** 2)
        if k == 2: a += .05 * r.standard_normal((m, n))
        if k == 3: a += (x + 2 * y > r.uniform(0, m + n))
        if k == 4: a = np.round(4 * a) / 4
        a -= a.min(); a /= max(a.max(), 1e-9)
    return a * scale
def same(c, got, exp, what, tol=1e-4, rel=1e-4):
    got = np.asarray(got, float); exp = np.asarray(exp, float)
    if exp.size == 0: c.check(got.size == 0, lambda: "%s: %s instead of empty" % (what, got.shape)); return
    c.check(got.shape == exp.shape, lambda: "%s has size %s, expected %s" % (what, got.shape, exp.shape))
    with np.errstate(invalid="ignore"): bad = ~((np.abs(got - exp) <= tol + rel * np.abs(exp)) | (np.isnan(got) & np.isnan(exp)) | (got == exp))
    if bad.any():
        w = tuple(int(v) for v in np.argwhere(bad)[0]); c.fail("%s%s is %r, expected %r (%d of %d differ)" % (what, [v + 1 for v in w], got[w], exp[w], bad.sum(), bad.size))
def cls(c, got, t, what): c.check(got.dtype == np.dtype(t), lambda: "%s is of class %s, expected %s" % (what, got.dtype, np.dtype(t)))
def flip(d): return d.reshape(-1, 4, 4, 8)[:, ::-1, :, (-np.arange(8)) % 8].reshape(-1, 128)
def quant(c, got, d, flt, what):
    """descriptors of the C library (rows) against toolbox columns"""
    d = 512 * d
    if flt: cls(c, got, "f4", what); same(c, got, d.T, what, 1e-3)
    else: cls(c, got, "u1", what); same(c, got, np.floor(np.minimum(d, 255)).T, what, 1, 0)
def sub(c, opts, num=1, den=3): return [o for o in opts if c.chance(num, den)]
def flat(o): return [x for p in o for x in p]

@check("sift", 1040, 40000, "non-trivial: at least one frame")
def sift(c):
    m, n = c.i(8, 40), c.i(8, 40); im = fa(image(c, m, n, c.pick([1., 255.])), "f4"); args = []; O, S, omin = -1, 3, 0; p = [-1.] * 5; fr = None; ori = False; flt = c.b()
    if c.chance(1, 3): O = c.i(1, 5); args += ["Octaves", O]
    if c.chance(1, 3): S = c.i(1, 5); args += ["Levels", S]
    if c.chance(1, 3): omin = c.i(-1, 2); args += ["FirstOctave", omin]
    for k, (nm, lo, hi) in enumerate((("PeakThresh", 0., 5.), ("EdgeThresh", 1., 20.), ("NormThresh", 0., 40.), ("Magnif", 1., 5.), ("WindowSize", .5, 4.))):
        if c.chance(1, 4): p[k] = c.real(lo, hi); args += [nm, p[k]]
    if flt: args += ["FloatDescriptors"]
    if c.chance(2, 5):
        k = c.small(0, 8); r = c.rng(); fr = np.vstack([r.uniform(-1, n + 2, k), r.uniform(-1, m + 2, k), r.uniform(.4, 8, k), r.uniform(-7, 7, k)]); ori = c.chance(1, 3); args += ["Frames", fr]
        if c.b(): fr = fr[:, np.argsort(fr[2])]; args[-1] = fr
        if ori: args += ["Orientations"]
    no = c.pick([1, 2, 2, 2]); c.note("vl_sift %dx%d %s" % (m, n, [a for a in args if not isinstance(a, np.ndarray)]))
    res = c.ok(c.calls([("vl_sift", [im] + args, no)])[0], "vl_sift"); F = res[0]
    cf = None
    if fr is not None: s = fr[:, np.argsort(fr[2], kind="stable")]; cf = np.ascontiguousarray(np.vstack([s[1] - 1, s[0] - 1, s[2], math.pi / 2 - s[3]]).T)
    L.vt_sift(ptr(im), m, n, O, S, omin, ptr(dbl(*p)), ptr(cf), -1 if fr is None else fr.shape[1], int(ori))
    K = out(0).reshape(-1, 4); d = out(1).reshape(-1, 128); e = np.vstack([K[:, 1] + 1, K[:, 0] + 1, K[:, 2], math.pi / 2 - K[:, 3]])
    cls(c, F, "f8", "FRAMES"); same(c, F, e, "FRAMES", 1e-4, 1e-5); c.check(F.shape[0] == 4 or F.size == 0, "FRAMES has %d rows" % F.shape[0])
    if no > 1: quant(c, res[1], flip(d), flt, "DESCRS")
    if len(K): c.nontrivial()
    c.label("frames" if fr is not None else "detect")

@check("descriptor", 800, 30000, "non-trivial: at least one frame")
def descriptor(c):
    m, n = c.i(8, 30), c.i(8, 30); r = c.rng(); mod = r.random((m, n)); ang = r.uniform(-7, 7, (m, n)) if c.b() else r.uniform(0, 2 * math.pi, (m, n)); args = []; mg = nt = -1.; flt = c.b()
    if c.chance(1, 3): mg = c.real(1, 5); args += ["Magnif", mg]
    if c.chance(1, 3): nt = c.real(0, 3); args += ["NormThresh", nt]
    if flt: args += ["FloatDescriptors"]
    k = c.small(0, 6); F = np.vstack([r.uniform(-1, n + 2, k), r.uniform(-1, m + 2, k), r.uniform(.4, 5, k), r.uniform(-7, 7, k)]); g = fa(np.stack([mod, ang]), "f4")
    c.note("vl_siftdescriptor %dx%d %d frames %s" % (m, n, k, args)); D = c.call("vl_siftdescriptor", g, F, *args)
    g2 = g.copy(order="F"); g2[1] = np.float32(math.pi / 2 - g[1].astype(float)); cf = np.ascontiguousarray(np.vstack([F[1] - 1, F[0] - 1, F[2], math.pi / 2 - F[3]]).T)
    L.vt_rawdesc(ptr(g2), m, n, D_(mg), D_(nt), ptr(cf), k); d = out(0).reshape(-1, 128)
    quant(c, D, flip(d), flt, "D"); c.check(D.shape == (128, k), "D is %s" % (D.shape,))
    if k: c.nontrivial()

def dsift_ref(im, args):
    """reference of vl_dsift from its options; returns frames 3xK and descriptors (before scaling) rows"""
    m, n = im.shape; a = dict(zip(args[::2], args[1::2])); st = a.get("Step", 1); sz = a.get("Size", 3); ge = a.get("Geometry", np.array([4, 4, 8.])).astype(int); st = np.ravel(st).astype(int); sz = np.ravel(sz).astype(int)
    sx, sy = (st[0], st[-1]); bx, by = (sz[0], sz[-1]); nx, ny, nt = ge; b = None
    if "Bounds" in a:
        q = a["Bounds"]; q = [q[0] - 1, q[1] - 1, min(q[2] - 1, n - 1), min(q[3] - 1, m - 1)]; b = ints(max(q[1], 0), max(q[0], 0), q[3], q[2])
    L.vt_dsift(ptr(im), m, n, ptr(ints(ny, nx, nt, by, bx, sy, sx, int(a.get("Fast", False)))), ptr(b), D_(a.get("WindowSize", -1.)))
    K = out(0).reshape(-1, 3); d = out(1).reshape(len(K), nx, ny, nt) if len(K) else np.zeros((0, nx, ny, nt)); t = (nt // 4 - np.arange(nt)) % nt; e = np.zeros((len(K), ny, nx, nt)); e[:, :, :, t] = d.transpose(0, 2, 1, 3)
    return np.vstack([K[:, 1] + 1, K[:, 0] + 1, K[:, 2]]), e.reshape(len(K), nx * ny * nt)
@check("dsift", 1040, 40000, "non-trivial: at least one frame")
def dsift(c):
    m, n = c.i(8, 34), c.i(8, 34); im = fa(image(c, m, n, c.pick([1., 255.])), "f4"); o = []
    if c.chance(1, 2): o.append(("Step", c.pick([float(c.i(1, 6)), dbl(c.i(1, 6), c.i(1, 6))])))
    if c.chance(1, 2): o.append(("Size", c.pick([float(c.i(1, 5)), dbl(c.i(1, 5), c.i(1, 5))])))
    if c.chance(1, 2): o.append(("Bounds", dbl(c.i(-3, n // 2), c.i(-3, m // 2), c.pick([np.inf, c.i(n // 2, n + 4)]), c.pick([np.inf, c.i(m // 2, m + 4)]))))
    if c.chance(1, 3): o.append(("WindowSize", c.real(.5, 4)))
    if c.chance(1, 3): o.append(("Geometry", dbl(c.i(1, 5), c.i(1, 5), c.pick([4, 8, 8, 12]))))
    fast, norm, flt = c.b(), c.b(), c.b(); kv = flat(o); args = kv + (["Fast"] if fast else []) + (["Norm"] if norm else []) + (["FloatDescriptors"] if flt else [])
    c.note("vl_dsift %dx%d %s" % (m, n, args)); F, D = c.call("vl_dsift", im, *args, nout=2); f, d = dsift_ref(im, kv + (["Fast", True] if fast else []))
    cls(c, F, "f8", "FRAMES"); same(c, F, f if norm else f[:2], "FRAMES", 1e-4, 1e-4)
    if flt: cls(c, D, "f4", "DESCRS"); same(c, D, np.minimum(512 * d, 255).T, "DESCRS", 1e-3)
    else: quant(c, D, d, False, "DESCRS")
    if f.shape[1]: c.nontrivial()
    c.label("fast" if fast else "exact")

def wrap(c, e): return np.vstack(e)
@check("covdet", 800, 30000, "non-trivial: at least one frame")
def covdet(c):
    m, n = c.i(12, 36), c.i(12, 36); im = fa(image(c, m, n, c.pick([1., 255.])), "f4"); ME = ["DoG", "Hessian", "HessianLaplace", "HarrisLaplace", "MultiscaleHessian", "MultiscaleHarris"]; args = []; k = c.i(0, 5); VAL = {"DoG": 1, "Hessian": 2, "HessianLaplace": 3, "HarrisLaplace": 4, "MultiscaleHessian": 5, "MultiscaleHarris": 6}
    if k or c.b(): args += ["Method", ME[k]]
    ip = [VAL[ME[k]], -1, 0, 0, 0, 0, 0, 2, 15, 6, 4]; dp = [-1., -1., -1., -1., 7.5, 1., 2., 6., math.nan]
    if c.chance(1, 3): v = c.b(); ip[1] = -1 if v else 0; args += ["DoubleImage", v]
    if c.chance(1, 4): ip[2] = c.i(1, 3); args += ["NumOctaves", ip[2]]
    if c.chance(1, 4): ip[3] = c.i(1, 4); args += ["OctaveResolution", ip[3]]
    if c.chance(1, 4): ip[4] = c.i(1, 4); args += ["MaxNumOrientations", ip[4]]
    if c.chance(1, 4): dp[0] = c.real(1, 2.5); args += ["BaseScale", dp[0]]
    if c.chance(1, 3): dp[1] = c.pick([0., c.real(0, .05), c.real(0, 5)]); args += ["PeakThreshold", dp[1]]
    if c.chance(1, 4): dp[2] = c.real(1, 20); args += ["EdgeThreshold", dp[2]]
    if c.chance(1, 4): dp[3] = c.real(0, .1); args += ["LaplacianPeakThreshold", dp[3]]
    if c.chance(1, 3): v = c.b(); ip[5] = int(v); args += ["EstimateAffineShape", v]
    if c.chance(1, 2): v = c.b(); ip[6] = int(v); args += ["EstimateOrientation", v]
    if c.chance(2, 3):
        ip[7] = c.i(0, 3); args += ["Descriptor", ["None", "Patch", "SIFT", "LIOP"][ip[7]]]
    ip[8], dp[4], dp[5] = {0: (5, 5., 1.), 1: (20, 6., 1.), 2: (15, 7.5, 1.), 3: (20, 4., .5)}[ip[7]]
    none = ip[7] == 0
    if c.chance(1, 3): ip[8] = c.i(7, 16) if ip[7] == 3 else c.i(2, 12); args += ["PatchResolution", ip[8]]
    elif none: ip[8] = 5
    ext = False
    if c.chance(1, 4): dp[4] = c.real(2, 8); args += ["PatchRelativeExtent", dp[4]]; ext = True
    if c.chance(1, 4): dp[5] = c.real(0, 2); args += ["PatchRelativeSmoothing", dp[5]]
    if ip[7] == 3:
        if c.chance(1, 3): ip[9] = c.i(1, 6); args += ["LiopNumSpatialBins", ip[9]]
        if c.chance(1, 3): ip[10] = c.i(2, 4); args += ["LiopNumNeighbours", ip[10]]
        if c.chance(1, 3): dp[7] = c.real(1, 6); args += ["LiopRadius", dp[7]]
        if c.chance(1, 3): dp[8] = c.pick([-.1, -.5, 0., 3.]); args += ["LiopIntensityThreshold", dp[8]]
    if c.chance(1, 4):
        v = c.b(); args += ["AllowPaddedWarping", v]
        if not v: dp[6] = dp[4] if (not none or ext) else -1.
    fr = None; cf = None
    if c.chance(1, 3):
        q = c.i(2, 6); K = c.small(0, 6); r = c.rng(); fr = [r.uniform(3, n - 2, K), r.uniform(3, m - 2, K)]; z = np.zeros(K); s = r.uniform(.8, 3, K); t = r.uniform(-4, 4, K)
        if q == 2: A = [z + 1, z, z, z + 1]
        if q == 3: fr += [s]; A = [s, z, z, s]
        if q == 4: fr += [s, t]; A = [s * np.cos(t), s * np.sin(t), -s * np.sin(t), s * np.cos(t)]
        if q == 5: a = r.uniform(.8, 3, K); b = r.uniform(-1, 1, K); d = r.uniform(.8, 3, K); fr += [a * a, a * b, b * b + d * d]; A = [a, b, z, d]
        if q == 6: A = [s + r.uniform(-.3, .3, K), r.uniform(-.5, .5, K), r.uniform(-.5, .5, K), s + r.uniform(-.3, .3, K)]; fr += A
        fr = np.vstack(fr); args += ["Frames", fr]; cf = np.ascontiguousarray(np.vstack([fr[1] - 1, fr[0] - 1, A[3], A[2], A[1], A[0]]).T)
    no = c.pick([1, 2, 3, 3]); c.note("vl_covdet %dx%d nout %d %s" % (m, n, no, [a if not isinstance(a, np.ndarray) else "%dx%d" % a.shape for a in args]))
    res = c.ok(c.calls([("vl_covdet", [im] + args, no)])[0], "vl_covdet"); F = res[0]
    L.vt_covdet(ptr(im), m, n, ptr(ints(*(ip if no > 1 else ip[:7] + [0] + ip[8:]))), ptr(dbl(*dp)), ptr(cf), -1 if fr is None else fr.shape[1])
    E = out(0).reshape(-1, 6).T; e = np.vstack([E[1] + 1, E[0] + 1, E[5], E[4], E[3], E[2]]); same(c, F, e, "FRAMES", 1e-4, 1e-4); c.check(F.shape[0] == 6, "FRAMES has %d rows" % F.shape[0])
    c.check(_n[8] == 0, "patch extraction failed"); K = E.shape[1]
    if no > 1:
        d = out(1).reshape(K, -1) if K else np.zeros((0, 0)); D = res[1]
        if ip[7] == 0: c.check(D.size == 0, "descriptors without a descriptor type")
        elif K: cls(c, D, "f4", "DESCRS"); same(c, D, (flip(d) if ip[7] == 2 else d).T, "DESCRS", 1e-4 if ip[7] == 2 else 1e-3, 1e-3)
    if no > 2:
        J = res[2]
        for k, nm in ((2, "peakScores"), (3, "edgeScores"), (6, "orientationScore"), (7, "laplacianScaleScore")): same(c, np.ravel(J[nm]), out(k), "INFO." + nm, 1e-4, 1e-3)
        for k, nm in ((4, "gss"), (5, "css")):
            v = out(k)
            if not len(v): c.check(np.size(J[nm]) == 0, "INFO.%s not empty" % nm); continue
            g = J[nm]; h = [float(np.ravel(g[f])[0]) for f in ("firstOctave", "lastOctave", "octaveResolution", "octaveFirstSubdivision", "octaveLastSubdivision", "sigma0")]
            same(c, h, v[:6], "header of INFO." + nm); c.check(len(g["data"]) == int(v[1] - v[0] + 1), "INFO.%s.data has %d octaves" % (nm, len(g["data"])))
            same(c, np.concatenate([x.ravel(order="F") for x in g["data"]]), v[6:], "INFO.%s.data" % nm, 1e-5)
    if K: c.nontrivial()
    c.label("frames" if fr is not None else ME[k])

@check("mser", 960, 40000, "non-trivial: at least one region")
def mser(c):
    nd = c.pick([2, 2, 2, 3]); dims = [c.i(2, 14) for _ in range(nd)] if nd == 2 else [c.i(2, 6) for _ in range(nd)]; r = c.rng(); k = c.i(0, 2)
    a = r.integers(0, 256, dims) if k == 0 else r.choice(r.integers(0, 256, 5), dims) if k == 1 else np.cumsum(r.integers(-9, 10, dims), 0).clip(0, 255)
    I = fa(a, "u1"); args = []; p = [-1.] * 5
    if c.b(): p[0] = float(c.i(0, 30)); args += ["Delta", p[0]]
    for j, nm, hi in ((1, "MaxArea", 1.), (2, "MinArea", .5), (3, "MaxVariation", 3.), (4, "MinDiversity", 1.)):
        if c.b(): p[j] = c.real(0, hi); args += [nm, p[j]]
    br = dk = True
    if c.chance(1, 3): br = c.b(); args += ["BrightOnDark", float(br)]
    if c.chance(1, 3): dk = c.b(); args += ["DarkOnBright", float(dk)]
    no = c.i(1, 2); c.note("vl_mser %s nout %d %s" % (dims, no, args)); res = c.ok(c.calls([("vl_mser", [I] + args, no)])[0], "vl_mser")
    seeds = []; ell = []; dv = ints(*dims); dof = nd * (nd + 1) // 2 + nd
    for inv in (0, 1):
        if (br if inv else dk):
            q = fa(255 - I if inv else I, "u1"); L.vt_mser(ptr(q), nd, ptr(dv), ptr(dbl(*p))); s = out(0) + 1; seeds += list(-s if inv else s); e = out(1).reshape(-1, dof).T.copy(); e[:nd] += 1; ell.append(e)
    R = res[0]; same(c, np.ravel(R), seeds, "R", 0, 0)
    if no > 1: E = np.hstack(ell) if ell else np.zeros((0, 0)); same(c, res[1], E, "F", 1e-3, 1e-4)
    if seeds:
        c.nontrivial(); j = c.i(0, len(seeds) - 1); s = int(seeds[j]); M = c.call("vl_erfill", I, float(s)); members(c, I, s, M)
        if no > 1:
            w = np.array(np.unravel_index(np.ravel(M).astype(int) - 1, dims, order="F"), float) + 1; mu = w.mean(1); f = res[1][:, j]; same(c, f[:nd], mu, "centre of the ellipsoid of region %d" % (j + 1), 1e-3, 1e-3)
            cv = np.cov(w, bias=True).reshape(nd, nd) if w.shape[1] > 1 else np.zeros((nd, nd)); iu = [(x, y) for y in range(nd) for x in range(y + 1)]; same(c, f[nd:], [cv[q] for q in iu], "covariance of region %d" % (j + 1), 2e-2, 1e-2)
            if nd == 2: T = c.call("vl_ertr", res[1]); same(c, T, res[1][[1, 0, 4, 3, 2]], "vl_ertr", 0, 0)
    c.label("%dD" % nd)
def members(c, I, s, M):
    inv = s < 0; p0 = abs(s) - 1; dims = I.shape; v = I.ravel(order="F"); ok = v >= v[p0] if inv else v <= v[p0]; ok = ok.reshape(dims, order="F"); seen = {p0}; st = [np.unravel_index(p0, dims, order="F")]
    offs = [np.array(o) - 1 for o in np.ndindex(*([3] * len(dims)))]
    while st:
        x = st.pop()
        for o in offs:
            y = tuple(np.array(x) + o)
            if all(0 <= a < b for a, b in zip(y, dims)) and ok[y]:
                q = int(np.ravel_multi_index(y, dims, order="F"))
                if q not in seen: seen.add(q); st.append(y)
    cls(c, M, "u4", "MEMBERS"); g = sorted(int(x) for x in np.ravel(M)); e = sorted(q + 1 for q in seen)
    c.check(g == e, lambda: "vl_erfill(I,%d): %d members %s, expected %d: %s" % (s, len(g), g[:12], len(e), e[:12]))
@check("erfill", 1200, 60000, "non-trivial: the region has more than one pixel")
def erfill(c):
    nd = c.pick([2, 2, 3]); dims = [c.small(1, 9) for _ in range(nd)]; r = c.rng(); I = fa(r.integers(0, c.pick([1, 2, 4, 256]) , dims), "u1"); dims = list(I.shape) if I.ndim == 2 else dims
    while len(dims) > 2 and dims[-1] == 1: dims = dims[:-1]
    I = fa(I.reshape(dims, order="F"), "u1"); s = c.i(1, I.size) * c.pick([1, -1]); c.note("vl_erfill %s ER=%d" % (dims, s)); M = c.call("vl_erfill", I, float(s)); members(c, I, s, M)
    if np.size(M) > 1: c.nontrivial()
    if c.chance(1, 5):
        bad = c.pick([0, I.size + 1, -I.size - 1]); e = c.calls([("vl_erfill", [I, float(bad)], 1)])[0]; c.check(isinstance(e, OctError), "ER=%d accepted for %d pixels" % (bad, I.size))

@check("hog", 880, 30000, "non-trivial: the image has at least one cell")
def hog(c):
    var = c.b(); no = c.i(2, 10) if c.b() else 9; o = []; mode = c.pick([0, 0, 0, 1, 2, 3, 4])
    if var or c.chance(1, 3): o += ["Variant", c.pick(["DalalTriggs", "dalaltriggs"]) if var else c.pick(["UoCTTI", "uoctti"])]
    if no != 9 or c.chance(1, 3): o += ["NumOrientations", no]
    if mode == 3:
        c.note("permutation %s" % o); P = c.call("vl_hog", "permutation", *o); L.vt_hog(None, 0, 0, 0, int(var), no, 0, 3, 0); cls(c, P, "u4", "PERM"); same(c, np.ravel(P), out(0) + 1, "PERM", 0, 0); c.nontrivial(); return
    bil = c.b(); cell = c.i(1, 10); m, n = c.i(1, 30), c.i(1, 30)
    if c.chance(4, 5): m = max(m, cell); n = max(n, cell); m = max(m, 3); n = max(n, 3)
    if max(m, n, 3) > max(m, n) or (m + cell // 2) // cell < 1 or (n + cell // 2) // cell < 1 or m < 3 or n < 3: c.discard()
    ch = 2 if mode in (1, 2) else c.pick([1, 1, 3]); r = c.rng(); a = np.stack([image(c, m, n, 1.) for _ in range(ch)], 2)
    if mode in (1, 2): a[:, :, 1] = r.uniform(-7, 7, (m, n))
    a = fa(a if ch > 1 else a[:, :, 0], "f4"); md = mode if mode < 3 else 0
    args = o + (["BilinearOrientations"] if bil else []) + (["DirectedPolarField"] if md == 1 else ["UndirectedPolarField"] if md == 2 else []); c.note("vl_hog %s cell %d %s" % (a.shape, cell, args))
    H = c.call("vl_hog", a, float(cell), *args); L.vt_hog(ptr(a), m, n, ch, int(var), no, int(bil), md, cell); sz = out(1).astype(int); cls(c, H, "f4", "HOG"); h = out(0).reshape(sz, order="F")
    same(c, H.reshape(sz) if H.size == h.size else H, h, "HOG", 1e-5); c.check(list(H.shape) == list(sz) , "HOG is %s" % (H.shape,)); c.nontrivial()
    c.check(sz[0] == (m + cell // 2) // cell and sz[1] == (n + cell // 2) // cell, "%dx%d image, cell %d: HOG is %s" % (m, n, cell, sz))
    if mode == 4:
        R = c.call("vl_hog", "render", H, *o); L.vt_hog(ptr(fa(H, "f4")), int(sz[0]), int(sz[1]), int(sz[2]), int(var), no, 0, 4, 0); g = int(out(1)[0]); same(c, R, out(0).reshape((g * sz[0], g * sz[1]), order="F"), "rendering", 1e-4)
    elif md == 0 and n % cell == 0 and c.b():
        a = fa(r.random(a.shape), "f4"); H = c.call("vl_hog", a, float(cell), *args); P = np.ravel(c.call("vl_hog", "permutation", *o)).astype(int) - 1; G = c.call("vl_hog", fa(a[:, ::-1], "f4"), float(cell), *args); e = H[:, ::-1][:, :, P]; w = np.abs(G - e) > 2e-3
        if w.mean() > .2: c.fail("flipping by the permutation differs from the HOG of the flipped image at %d of %d places" % (w.sum(), w.size))
    c.label(["image", "directed", "undirected", "", "render"][mode])

@check("lbp", 800, 30000, "non-trivial: at least one cell")
def lbp(c):
    cell = c.i(1, 9); m, n = c.i(1, 30), c.i(1, 30)
    if c.chance(4, 5): m = max(m, cell); n = max(n, cell)
    if c.b(): n = max(1, n // cell) * cell
    im = fa(image(c, m, n), "f4"); c.note("vl_lbp %dx%d cell %d" % (m, n, cell)); F = c.call("vl_lbp", im, float(cell)); L.vt_lbp(ptr(im), m, n, cell); sz = out(1).astype(int); e = out(0).reshape(sz, order="F")
    c.check(tuple(F.shape) == (m // cell, n // cell, 58), "F is %s" % (F.shape,)); cls(c, F, "f4", "F"); same(c, F, e, "F", 1e-6)
    if e.size:
        c.nontrivial(); G = c.call("vl_lbpfliplr", F); c.check(G.shape == F.shape, "vl_lbpfliplr: %s" % (G.shape,)); v = np.sort(G, 2); same(c, v, np.sort(F[:, ::-1], 2), "vl_lbpfliplr", 1e-6)
        if n % cell == 0 and len(np.unique(im)) == im.size:
            X = c.call("vl_lbp", fa(im[:, ::-1], "f4"), float(cell)); w = np.abs(X - G) > 1e-4; c.check(not w.any(), lambda: "vl_lbpfliplr(vl_lbp(I)) differs from vl_lbp(fliplr(I)) at %s" % (np.argwhere(w)[0] + 1,)); c.label("flipped")

@check("liop", 640, 25000, "always non-trivial")
def liop(c):
    side = 2 * c.i(3, 12) + 1; K = c.i(1, 3); im = fa(np.stack([image(c, side, side, 1.) for _ in range(K)], 2), "f4"); o = []; nn, nb, rad, th = 4, 6, 6., math.nan
    if c.chance(1, 3): nn = c.i(2, 5); o += ["NumNeighbours", nn]
    if c.chance(1, 3): nb = c.i(1, 8); o += ["NumSpatialBins", nb]
    if rad >= side // 2 or c.b(): rad = c.pick([float(c.i(1, side // 2 - 1)), c.real(1, side // 2 - 1)]); o += ["Radius", rad]
    if c.chance(1, 3): th = c.pick([-.05, -.3, 0., .1]); o += ["IntensityThreshold", th]
    a = im[:, :, 0] if K == 1 else im; c.note("vl_liop %d x%d %s" % (side, K, o)); D = c.call("vl_liop", fa(a, "f4"), *o); L.vt_liop(ptr(im), side, K, nn, nb, D_(rad), D_(th)); dim = int(out(1)[0])
    c.check(dim == nb * math.factorial(nn), "dimension %d" % dim); cls(c, D, "f4", "D"); same(c, D, out(0).reshape(K, dim).T, "D", 1e-5); c.nontrivial()
    if c.chance(1, 4):
        bad = c.pick([fa(im[:, :-1, 0], "f4"), fa(im[:-1, :-1, 0], "f4"), im[:, :, 0].astype(float)]); r = c.calls([("vl_liop", [bad] + o, 1)])[0]; c.check(isinstance(r, OctError), "accepted an image %s %s" % (bad.shape, bad.dtype))

@check("segment", 880, 35000, "non-trivial: more than one region")
def segment(c):
    m, n = c.i(1, 22), c.i(1, 22); ch = c.pick([1, 1, 3])
    if c.b():
        a = np.stack([image(c, m, n, 1.) for _ in range(ch)], 2); rs = c.i(1, 9); reg = c.pick([0., c.real(0, 1), c.real(0, 100)]); o = []; ms = (rs * rs) // 36
        if c.b(): ms = c.i(0, 8); o = ["MinRegionSize", ms]
        a = fa(a if ch > 1 else a[:, :, 0], "f4"); c.note("vl_slic %s region %d regularizer %g %s" % (a.shape, rs, reg, o)); S = c.call("vl_slic", a, float(rs), reg, *o); L.vt_slic(ptr(a), m, n, ch, rs, D_(reg), ms)
        cls(c, S, "u4", "SEGMENTS"); same(c, S, out(0).reshape((m, n), order="F"), "SEGMENTS", 0, 0); c.label("slic")
        if S.max() > 0: c.nontrivial()
        return
    a = np.stack([image(c, m, n, c.pick([1., 10.])) for _ in range(ch)], 2); sg = c.real(.5, 3); o = []; tau = 3 * sg; md = c.chance(1, 3)
    if c.b() or md: tau = c.real(.5, 12); o = [tau]
    if md: o += ["Medoid"]
    a = fa(a if ch > 1 else a[:, :, 0], "f8"); no = c.i(1, 3); c.note("vl_quickshift %s sigma %g %s" % (a.shape, sg, o)); r = c.ok(c.calls([("vl_quickshift", [a, sg] + o, no)])[0], "vl_quickshift"); L.vt_qs(ptr(a), m, n, ch, D_(sg), D_(tau), int(md))
    P = out(0) + 1; same(c, r[0], P.reshape((m, n), order="F"), "MAP", 0, 0)
    if no > 1: same(c, r[1], out(1).reshape((m, n), order="F"), "GAPS", 1e-9, 1e-9)
    if no > 2: same(c, r[2], out(2).reshape((m, n), order="F"), "E", 1e-9, 1e-9)
    if md: return
    M = r[0]; lab, C = c.call("vl_flatmap", M, nout=2); v = M.ravel(order="F").astype(int) - 1; root = np.arange(len(v))
    for _ in range(len(v)):
        if (v[root] == root).all(): break
        root = v[root]
    same(c, lab, (root + 1).reshape((m, n), order="F"), "labels of vl_flatmap", 0, 0); u = np.unique(root); same(c, np.ravel(C), np.searchsorted(u, root) + 1, "clusters of vl_flatmap", 0, 0)
    if len(u) > 1: c.nontrivial()
    b = fa(image(c, m, n, 1.), "f8"); q = np.ravel(C).reshape((m, n), order="F"); Q = c.call("vl_imseg", b, fa(q, "f8")); e = np.zeros((m, n))
    for k in np.unique(q): e[q == k] = b[q == k].mean()
    same(c, Q, e, "vl_imseg", 1e-9, 1e-9); c.label("quickshift")

def smooth_ref(a, sg, step, tri, zero):
    if sg < .01 and step == 1: return a
    if tri: W = max(int(sg), 1); k = (W - np.abs(np.arange(-W + 1, W))) / W ** 2
    else: W = math.ceil(4 * sg); z = np.arange(-W, W + 1) / (sg + 1.1920929e-07); k = np.exp(-.5 * z * z); k /= k.sum()
    h = len(k) // 2
    def one(x):
        p = np.pad(x, [(h, h)] + [(0, 0)] * (x.ndim - 1), "constant" if zero else "edge"); return np.stack([np.tensordot(k, p[i:i + len(k)], 1) for i in range(0, x.shape[0], step)])
    b = one(a); return np.swapaxes(one(np.swapaxes(b, 0, 1)), 0, 1)
@check("imsmooth", 1040, 40000, "non-trivial: the image is changed")
def imsmooth(c):
    m, n = c.i(1, 16), c.i(1, 16); K = c.pick([1, 1, 2, 3]); a = np.stack([image(c, m, n, 1.) for _ in range(K)], 2); a = a if K > 1 else a[:, :, 0]; f8 = c.b(); a = fa(a, "f8" if f8 else "f4"); sg = c.pick([0., c.real(0, .02), c.real(.1, 4), float(c.i(1, 5))]); o = []; st = 1; tri = zero = False
    if c.chance(1, 3): st = c.i(1, 4); o += ["Subsample", st]
    if c.chance(1, 2): tri = c.b(); o += ["Kernel", "triangular" if tri else "Gaussian"]
    if c.chance(1, 2): zero = c.b(); o += ["Padding", "zero" if zero else "continuity"]
    if tri and sg < 1 and st > 1: sg = 1.
    c.note("vl_imsmooth %s sigma %g %s" % (a.shape, sg, o)); J = c.call("vl_imsmooth", a, sg, *o); e = smooth_ref(a.astype(float), sg, st, tri, zero); cls(c, J, a.dtype, "J"); same(c, J, e, "J", 1e-9 if f8 else 2e-5, 1e-6)
    if e.shape != a.shape or np.abs(e - a).max() > 1e-3: c.nontrivial()

@check("frames", 800, 40000, "always non-trivial")
def frames(c):
    D = c.i(2, 6); K = c.small(0, 5); r = c.rng(); F = r.uniform(-10, 10, (D, K)); z = np.zeros(K); X = np.zeros((6, K)); X[:2] = F[:2]
    if D == 3: X[2] = X[5] = F[2]
    if D == 4: X[2:] = [F[2] * np.cos(F[3]), F[2] * np.sin(F[3]), -F[2] * np.sin(F[3]), F[2] * np.cos(F[3])]
    if D == 5:
        a = r.uniform(.1, 4, K); b = r.uniform(-4, 4, K); d = r.uniform(.1, 4, K); F[2:] = [a * a, a * b, b * b + d * d]; X[2:] = [a, b, z, d]
    if D == 6: X = F
    c.note("vl_frame2oell %dx%d" % (D, K)); E = c.call("vl_frame2oell", F); c.check(E.shape == (6, K), "result is %s" % (E.shape,)); same(c, E, X, "frames", 1e-6, 1e-6); c.nontrivial()
    if D == 5 and K: S = [E[2] ** 2 + E[4] ** 2, E[2] * E[3] + E[4] * E[5], E[3] ** 2 + E[5] ** 2]; same(c, S, F[2:], "covariance of the oriented ellipse", 1e-6, 1e-6)

@check("phow", 240, 9000, "non-trivial: at least one feature")
def phow(c):
    m, n = c.i(20, 40), c.i(20, 40); col = c.pick(["gray", "gray", "rgb", "opponent"]); ch = 1 if col == "gray" else c.pick([1, 3]); a = np.stack([image(c, m, n, 1.) for _ in range(ch)], 2); a = fa(a if ch > 1 else a[:, :, 0], "f4"); o = []; sizes = [4, 6, 8, 10]; step = 2; fast = True; flt = False; mg = 6.; th = .005; ws = 1.5
    if c.b(): sizes = [c.i(2, 5) for _ in range(c.i(1, 3))]; o += ["Sizes", dbl(*sizes)]
    if c.b(): step = c.i(1, 5); o += ["Step", step]
    if c.b(): fast = c.b(); o += ["Fast", fast]
    if c.b(): flt = c.b(); o += ["FloatDescriptors", flt]
    if c.chance(1, 3): mg = c.real(2, 8); o += ["Magnif", mg]
    if c.chance(1, 3): th = c.real(0, .05); o += ["ContrastThreshold", th]
    if c.chance(1, 3): ws = c.real(.8, 3); o += ["WindowSize", ws]
    if col != "gray": o += ["Color", col]
    c.note("vl_phow %s %s" % (a.shape, o)); F, D = c.call("vl_phow", a, *o, nout=2); im = a.astype(float); im = im[:, :, None] if im.ndim == 2 else im
    if col != "gray":
        if ch == 1: im = np.repeat(im, 3, 2)
        if col == "opponent":
            R, G, B = im.transpose(2, 0, 1); mu = .3 * R + .59 * G + .11 * B; im = np.stack([mu, (R - G) / math.sqrt(2) + .01 * mu, (R + G - 2 * B) / math.sqrt(6) + .01 * mu], 2)
    fr = []; ds = []; und = []
    for s in sizes:
        off = 1 + 3 * (max(sizes) - s) // 2 if True else 0; off = math.floor(1 + 1.5 * (max(sizes) - s)); x = smooth_ref(im, s / mg, 1, False, False); f = []; d = []
        for k in range(im.shape[2]):
            f1, d1 = dsift_ref(fa(x[:, :, k], "f4"), ["Step", step, "Size", s, "Bounds", dbl(off, off, math.inf, math.inf), "Fast", fast, "WindowSize", ws]); f.append(f1); d.append(d1)
        con = f[0][2] if col != "rgb" else np.mean([q[2] for q in f], 0); z = con < th; und.append(np.abs(con - th) < 1e-5); d = np.concatenate(d, 1); d[z] = 0; fr.append(np.vstack([f[0], np.full(f[0].shape[1], s)])); ds.append(d)
    fr = np.hstack(fr); ds = np.concatenate(ds); und = np.concatenate(und); same(c, F, fr, "FRAMES", 1e-4, 1e-3)
    if fr.shape[1]:
        c.nontrivial(); e = np.minimum(512 * ds, 255).T; cls(c, D, "f4" if flt else "u1", "DESCRS"); c.check(D.shape == e.shape, "DESCRS is %s" % (D.shape,)); g = D.astype(float); w = (np.abs(g - (e if flt else np.floor(e))) > (1.5 if not flt else .5))[:, ~und]; c.check(w.mean() < 1e-3 if w.size else True, lambda: "descriptors differ at %d of %d places" % (w.sum(), w.size))
    c.label(col)

@check("ubcread", 600, 30000, "non-trivial: at least one keypoint")
def ubcread(c):
    ox = c.b(); K = c.small(0, 6); r = c.rng(); n = 128; fr = r.uniform(.1, 90, (K, 4)); d = r.integers(0, 256, (K, n)); d[r.random((K, n)) < .3] = 0
    if ox: a = r.uniform(.1, 2, K); b = r.uniform(-1, 1, K); e = r.uniform(.1, 2, K); fr = np.stack([fr[:, 0], fr[:, 1], a * a, a * b, b * b + e * e], 1)
    fr = np.array([[float("%.9g" % v) for v in x] for x in fr]).reshape(K, 5 if ox else 4); w = c.pick([20, 7, 128]); t = "%d %d\n" % ((n, K) if ox else (K, n))
    for k in range(K): t += " ".join("%.9g" % v for v in fr[k]) + "\n" + "".join(" " + " ".join(str(v) for v in d[k, j:j + w]) + "\n" for j in range(0, n, w))
    cut = c.chance(1, 5) and K > 0; p = c._oc().dir + "/k.key"
    if cut: t = " ".join(t.split()[:2 + c.i(0, K * (n + (5 if ox else 4)) - 1)])
    open(p, "w").write(t); c.note("vl_ubcread %s %d keypoints%s" % ("oxford" if ox else "ubc", K, ", cut" if cut else ""))
    try: res = c.calls([("vl_ubcread", [p] + (["format", c.pick(["oxford", "OXFORD"])] if ox else []), 2)])[0]
    finally: os.unlink(p)
    if cut: c.check(isinstance(res, OctError), "a truncated file was accepted"); c.label("cut"); return
    F, D = c.ok(res, "vl_ubcread")
    if not K: c.check(F.size == 0 and D.size == 0, "features from an empty file"); return
    c.nontrivial()
    if ox: q = fr[:, 2] * fr[:, 4] - fr[:, 3] ** 2; e = np.stack([fr[:, 0] + 1, fr[:, 1] + 1, fr[:, 4] / q, -fr[:, 3] / q, fr[:, 2] / q]); ed = d.T
    else: e = np.stack([fr[:, 1] + 1, fr[:, 0] + 1, fr[:, 2], -fr[:, 3]]); ed = d.reshape(K, 16, 8)[:, :, (-np.arange(8)) % 8].reshape(K, n).T
    same(c, F, e, "F", 1e-6, 1e-6); cls(c, D, "u1", "D"); same(c, D, ed, "D", 0, 0)

if __name__ == "__main__": sys.exit(main())
