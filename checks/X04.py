# X04: image warps, local maxima, thin-plate splines, distance transform, integral image, gradients and resampling
# VT-MEX: vl_imwbackwardmx vl_localmax vl_tpsumx vl_imdisttf vl_imintegral
import sys, numpy as np
from itertools import product
from vtoct import *
def same(a, b): a = np.asarray(a, float); b = np.asarray(b, float); return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
def near(a, b, tol):
    a = np.asarray(a, float); b = np.asarray(b, float)
    if a.shape != b.shape: return False
    with np.errstate(all="ignore"): return bool(np.all((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b)) | (a == b)))
def squeeze3(s): return s[:2] if len(s) == 3 and s[2] == 1 else s

def bil(xr, yr, I, x, y):           # value and derivatives of the bilinear interpolation; the cell of a point is the one it begins
    M, N = I.shape; out = np.full(x.shape + (3,), np.nan)
    for ix in np.ndindex(*x.shape):
        u, v = x[ix], y[ix]
        if not (xr[0] <= u <= xr[-1] and yr[0] <= v <= yr[-1]): continue
        j = max(k for k in range(N) if xr[k] <= u); i = max(k for k in range(M) if yr[k] <= v)
        a = (u - xr[j]) / (xr[j + 1] - xr[j]) if j < N - 1 else 0.; b = (v - yr[i]) / (yr[i + 1] - yr[i]) if i < M - 1 else 0.
        g = lambda p, q: I[p, q] if p < M and q < N else 0.
        z00, z10, z01, z11 = g(i, j), g(i + 1, j), g(i, j + 1), g(i + 1, j + 1)
        out[ix][0] = (1 - b) * ((1 - a) * z00 + a * z01) + b * ((1 - a) * z10 + a * z11)
        out[ix][1] = (1 - b) * (z01 - z00) + b * (z11 - z10); out[ix][2] = (1 - a) * (z10 - z00) + a * (z11 - z01)
        if i == M - 1 or j == N - 1: out[ix][1:] = -12345     # derivative not defined there
    return out

@check("warp", 9000, 250000, "locations inside, on the boundary and outside of the image")
def warp(c):
    r = c.rng(); M, N = (c.i(1, 7), c.i(1, 7)) if c.b() else (c.small(1, 7), c.small(1, 7)); K = c.pick([1, 1, 1, 2, 3]); I = r.integers(-9, 10, (M, N, K)).astype(float) if c.b() else r.normal(size=(M, N, K)); grid = c.chance(1, 3); xr, yr = np.arange(1., N + 1), np.arange(1., M + 1)
    if grid:
        xr = np.cumsum(r.integers(1, 5, N)) * c.pick([1., .5, .25]) - 4; yr = np.cumsum(r.integers(1, 5, M)) * c.pick([1., .5]) + 3
        if c.b(): xr = xr.reshape(1, -1)
    sh = (c.i(1, 5), c.i(1, 5)) if c.chance(3, 4) else (c.small(0, 5), c.small(0, 5)); X = xr.ravel(); Y = yr.ravel(); kx = r.integers(0, 5, sh)
    def loc(G, kind): return np.where(kind == 0, G[r.integers(0, len(G), sh)], np.where(kind == 1, G[0] + (G[-1] - G[0]) * r.random(sh), np.where(kind == 2, r.uniform(G[0] - 1, G[-1] + 1, sh), np.where(kind == 3, G[-1], G[0]))))
    x = loc(X, kx); y = loc(Y, r.integers(0, 5, sh))
    for _ in range(c.small(0, 2)):
        if x.size: (x if c.b() else y).flat[r.integers(x.size)] = c.pick([np.nan, np.inf, -np.inf, X[0] - 1e-9, X[-1] + 1e-9, Y[-1] + 1e-9])
    c.note("image %dx%dx%d grid %s %s x %s y %s" % (M, N, K, X, Y, x.tolist(), y.tolist())); A = I[:, :, 0] if K == 1 else I; args = ([xr, yr, A] if grid else [A]) + [x, y]; three = c.b()
    res = c.call("vl_imwbackward", *args, nout=3 if three else 1); res = res if three else [res]
    want = np.stack([bil(X, Y, I[:, :, k], x, y) for k in range(K)], 2); ins = ~np.isnan(want[..., 0, 0]) if K else None
    if x.size and ins.any() and not ins.all(): c.nontrivial()
    w0 = want[..., 0]; w0 = w0.reshape(squeeze3(w0.shape)); scale = 1e-11 * (1 + np.abs(I).max())
    c.check(near(res[0], w0, scale), lambda: "warped image %s, interpolation gives %s" % (np.asarray(res[0]).tolist(), w0.tolist()))
    if three and not grid:
        for d in (1, 2):
            w = want[..., d].reshape(squeeze3(want.shape[:3])); g = np.array(res[d], float); c.check(g.shape == w.shape, "size of the derivative"); und = w == -12345; g[und] = -12345
            c.check(near(g, w, scale), lambda: "derivative %d is %s, interpolation gives %s" % (d, g.tolist(), w.tolist()))

@check("localmax", 12000, 300000, "at least two maxima are selected or ties between neighbours or the threshold are decisive")
def localmax(c):
    r = c.rng(); nd = c.pick([1, 1, 2, 2, 2, 3, 3, 4]); hi = [14, 16, 9, 6, 5][nd]; sh = tuple(c.small(0 if c.chance(1, 15) else 1, hi) if c.chance(1, 6) else c.i(3, hi) for _ in range(nd))
    if nd == 1: sh = (1, sh[0]) if c.b() else (sh[0], 1)
    F = r.integers(0, c.pick([3, 10, 1000]), sh).astype(float) if c.chance(2, 3) else r.normal(size=sh)
    if F.size and c.chance(1, 6): F.flat[r.integers(F.size)] = c.pick([np.inf, -np.inf])
    args = [F]; th = -np.inf; P = None
    while F.ndim > 2 and F.shape[-1] == 1: F = F[..., 0]
    if c.b():
        th = c.pick([-np.inf, 0., 1., 2., 5., .5, np.inf] + ([float(F.flat[r.integers(F.size)])] if F.size else [])); args.append(th)
        if c.b(): P = c.i(1, F.ndim); args.append(float(P))
    c.note("F %s threshold %s P %s" % (F.tolist(), th, P)); S = F; 
    if P is None:
        P = F.ndim
        if F.ndim == 2 and 1 in F.shape: S = F.reshape(-1, 1, order="F"); P = 1
    sel = []; tie = False; off = [o for o in product((-1, 0, 1), repeat=P) if any(o)]
    for n, ix in enumerate(sorted(np.ndindex(*S.shape), key=lambda t: t[::-1])):
        if any(ix[d] == 0 or ix[d] >= S.shape[d] - 1 for d in range(P)): continue
        v = S[ix]; nb = [S[tuple(ix[d] + o[d] for d in range(P)) + ix[P:]] for o in off]
        if v > max(nb):
            if v >= th: sel.append(n + 1)
            else: tie = True
        elif v == max(nb): tie = True
    if len(sel) > 1 or tie and sel: c.nontrivial()
    g = c.call("vl_localmax", *args); c.check(same(np.asarray(g).ravel(), sel) and g.shape[0] <= 1, lambda: "maxima %s, by definition %s" % (np.asarray(g).ravel().astype(int), sel))

def points(c, K, spread):           # well separated, not collinear
    r = c.rng()
    for _ in range(50):
        Y = r.uniform(0, spread, (2, K)); D = np.hypot(*(Y[:, :, None] - Y[:, None, :])); np.fill_diagonal(D, 9e9)
        if D.min() > spread / 12 and np.linalg.svd(Y - Y.mean(1, keepdims=True))[1][1] > spread / 8: return Y
    c.discard()
def tps_direct(Y, Yp, x1, x2):
    K = Y.shape[1]; u = lambda d2: np.where(d2 == 0, 0, d2 * np.log(np.where(d2 == 0, 1, d2))); d2 = ((Y[:, :, None] - Y[:, None, :]) ** 2).sum(0)
    P = np.concatenate([np.ones((1, K)), Y]); L = np.block([[P, np.zeros((3, 3))], [u(d2), P.T]]); rhs = np.concatenate([np.zeros((3, 2)), Yp.T]); w = np.linalg.solve(L, rhs)
    X = np.stack([x1.ravel(order="F"), x2.ravel(order="F")]); e = u(((X[:, :, None] - Y[:, None, :]) ** 2).sum(0)); Z = np.concatenate([e, np.ones((X.shape[1], 1)), X.T], 1) @ w
    return Z[:, 0].reshape(x1.shape, order="F"), Z[:, 1].reshape(x1.shape, order="F"), w, u(d2)

@check("tps", 3500, 80000, "at least five control points and a warp that is not affine")
def tps(c):
    r = c.rng(); K = c.i(3, 8); sp = c.pick([1., 10., 100.]); Y = points(c, K, sp); aff = c.chance(1, 5); A = np.eye(2) + .3 * r.normal(size=(2, 2)); t = r.normal(size=(2, 1)) * sp
    Yp = A @ Y + t if aff else Y + r.normal(size=Y.shape) * sp * c.pick([.01, .05, .3]); gx = np.concatenate([Y[0], r.uniform(-.2 * sp, 1.2 * sp, 6)]); gy = np.concatenate([Y[1], r.uniform(-.2 * sp, 1.2 * sp, 6)])
    sh = c.pick([(1, -1), (-1, 1)]); n = K + 6
    if n % 2 == 0 and c.b(): sh = (2, n // 2)
    x1, x2 = gx.reshape(sh, order="F"), gy.reshape(sh, order="F"); c.note("Y %s Yp %s" % (Y.tolist(), Yp.tolist()))
    if K >= 5 and not aff: c.nontrivial()
    R = c.calls([("vl_tps", [x1, x2, Y], 2), ("vl_wtps", [Ref(1, 1), Yp], 2), ("vl_tpsu", [Y, np.stack([gx, gy])], 2), ("vl_tpsumx", [Y, np.stack([gx, gy])], 1)])
    for k, x in enumerate(R): c.ok(x, ["vl_tps", "vl_wtps", "vl_tpsu", "vl_tpsumx"][k])
    phi, S = R[0]; z1, z2 = R[1]; w1, w2, w, U = tps_direct(Y, Yp, x1, x2); tol = 1e-7 * (np.abs(Yp).max() + sp)
    c.check(phi.shape == (K + 3,) + x1.shape or K + 3 == phi.shape[0], lambda: "size of the basis %s" % (phi.shape,))
    c.check(near(z1, w1, tol) and near(z2, w2, tol), lambda: "warped points %s %s, solving the spline gives %s %s" % (z1, z2, w1, w2))
    g1 = np.asarray(z1).ravel(order="F")[:K]; g2 = np.asarray(z2).ravel(order="F")[:K]; c.check(near(np.stack([g1, g2]), Yp, tol), lambda: "control points are mapped to %s %s instead of %s" % (g1, g2, Yp))
    if aff: q = A @ np.stack([gx, gy]) + t; c.check(near(np.stack([np.asarray(z1).ravel(order="F"), np.asarray(z2).ravel(order="F")]), q, tol), "an affine warp of the control points is not extended affinely")
    # stiffness: symmetric, positive, zero exactly on affine warps, equal to the bending energy
    S = np.asarray(S, float); m = np.abs(S).max() + 1e-300; c.check(S.shape == (K, K) and (K == 3 or near(S, S.T, 1e-6 * m)), "the stiffness matrix is not symmetric")
    if K > 3:
        P = np.concatenate([np.ones((1, K)), Y / sp]); c.check(near(S @ P.T, np.zeros((K, 3)), 1e-6 * m), "affine warps have bending energy"); ev = np.linalg.eigvalsh((S + S.T) / 2); c.check(ev[0] > -1e-6 * m, lambda: "negative bending energy %g" % ev[0])
        e = np.diag(w[:K].T @ U @ w[:K]); E = np.diag(Yp @ S @ Yp.T); c.check(near(E, e, 1e-5 * (m * np.abs(Yp).max() ** 2)), lambda: "bending energy %s, from the weights %s" % (E, e))
    d2 = (gx[None, :] - Y[0][:, None]) ** 2 + (gy[None, :] - Y[1][:, None]) ** 2; W = np.where(d2 == 0, 0, d2 * np.log(np.where(d2 == 0, 1, d2)))
    c.check(near(R[2][0], W, 1e-10 * (1 + np.abs(W).max())), "kernel matrix of vl_tpsu"); c.check(near(R[3][0], np.where(d2 <= 2.3e-16, np.asarray(R[3][0]), W), 1e-10 * (1 + np.abs(W).max())), "kernel matrix of vl_tpsumx")
    dU = np.asarray(R[2][1]); co = np.where(d2 == 0, 0, 2 * np.log(np.where(d2 == 0, 1, d2)) + 2); D = np.stack([co * (gx[None, :] - Y[0][:, None]), co * (gy[None, :] - Y[1][:, None])], 1)
    c.check(near(dU, D, 1e-6 * (1 + np.abs(D).max())), lambda: "derivative of the kernel %s, calculus gives %s" % (dU.tolist(), D.tolist()))

@check("wrong classes", 300, 3000, "always")
def classes(c):
    Y = np.ones((2, c.i(1, 6))); c.nontrivial(); cl = c.pick(["f4", "u1", "i4", "bool"]); R = c.calls([("vl_tpsumx", [Y.astype(cl), Y], 1), ("vl_tpsumx", [Y, Y.astype(cl)], 1), ("vl_imwbackwardmx", [np.ones((1, 2)), np.ones((1, 2)), np.ones((2, 2)).astype(cl), np.ones((1, 1)), np.ones((1, 1))], 1),
        ("vl_localmax", [np.ones((3, 3)).astype(cl)], 1), ("vl_imdisttf", [np.ones((3, 3)).astype("u1")], 2), ("vl_imintegral", [np.ones((3, 3)).astype("u1")], 1)])
    for k, r in enumerate(R): c.check(isinstance(r, OctError), lambda: "call %d accepted an array of the wrong class" % (k + 1))

@check("tps inverse", 1500, 30000, "the warp displaces by more than 1e-3 of the domain")
def witps(c):
    r = c.rng(); K = c.i(4, 8); sp = c.pick([1., 10., 100.]); Y = points(c, K, sp); Yp = Y + r.normal(size=Y.shape) * sp * .01; x1 = r.uniform(.1 * sp, .9 * sp, (2, 3)); x2 = r.uniform(.1 * sp, .9 * sp, (2, 3)); z1, z2, w, U = tps_direct(Y, Yp, x1, x2)
    c.note("Y %s Yp %s" % (Y.tolist(), Yp.tolist())); a1, a2 = c.call("vl_witps", z1, z2, Y, Yp, nout=2)
    if np.hypot(z1 - x1, z2 - x2).max() > sp * .5: c.discard()
    h = 1e-4 * sp; Jm = []                 # only judged where the spline is far from folding
    for dx, dy in ((h, 0), (0, h)): p1, p2 = tps_direct(Y, Yp, x1 + dx, x2 + dy)[:2]; Jm.append(((p1 - z1) / h, (p2 - z2) / h))
    if (np.abs(np.array(Jm) - np.eye(2)[:, :, None, None]) > .25).any(): c.discard()
    if np.hypot(z1 - x1, z2 - x2).max() > 1e-3 * sp: c.nontrivial()
    b1, b2 = tps_direct(Y, Yp, np.asarray(a1, float), np.asarray(a2, float))[:2]; c.check(near(b1, z1, 1e-5 * sp) and near(b2, z2, 1e-5 * sp), lambda: "the inverse warp gives %s %s which is warped to %s %s instead of %s %s" % (a1, a2, b1, b2, z1, z2))

@check("affine", 4000, 80000, "more than one point")
def affine(c):
    r = c.rng(); n = c.i(1, 5); k = c.small(0, 8); A = r.integers(-5, 6, (n, n)).astype(float); T = r.integers(-5, 6, (n, 1)).astype(float); X = r.integers(-9, 10, (n, k)).astype(float); W = A @ X + T
    if k > 1: c.nontrivial()
    c.note("A %s T %s X %s" % (A.tolist(), T.tolist(), X.tolist())); c.check(same(c.call("vl_waffine", A, T, X).reshape(n, -1), W), "affine map of a point matrix")
    if n > 1:
        sh = (k, 1) if c.b() else (1, k); o = c.call("vl_waffine", A, T, *[X[d].reshape(sh) for d in range(n)], nout=n)
        for d in range(n): c.check(same(o[d], W[d].reshape(sh)), "affine map of coordinate arrays")
    if n == 2 and k:
        dx, dy = c.call("vl_dwaffine", X[0].reshape(1, -1), X[1].reshape(1, -1), nout=2); th = np.concatenate([A.ravel(order="F"), T.ravel()])
        c.check(dx.shape == (k, 6) and same(dx @ th, W[0]) and same(dy @ th, W[1]), "the derivative of the affine warp")
        z = np.zeros(k); o = np.ones(k); c.check(same(dx, np.stack([X[0], z, X[1], z, o, z], 1)) and same(dy, np.stack([z, X[0], z, X[1], z, o], 1)), "the derivative of the affine warp")

@check("distance transform", 6000, 150000, "some pixel takes its value from a different one")
def disttf(c):
    r = c.rng(); M, N = c.small(1, 7), c.small(1, 7); I = r.integers(0, c.pick([3, 30, 200]), (M, N)).astype(float) if c.b() else r.normal(size=(M, N)) * 10; cl = c.pick(["f8", "f4"]); I = I.astype(cl); args = [I]; p = (1., 0., 1., 0.)
    if c.b(): p = (c.pick([0., 1., .5, 3.]), float(c.i(-2, 2)), c.pick([0., 1., .25, 2.]), float(c.i(-2, 2)) / c.pick([1, 2])); args.append(np.array([p]) if c.b() else np.array(p).reshape(-1, 1))
    c.note("I %s param %s" % (I.tolist(), p)); d, ix = c.call("vl_imdisttf", *args, nout=2); y, x = np.mgrid[0:M, 0:N]; E = I.astype(float)[None, None] + p[0] * (x[:, :, None, None] - x[None, None] - p[1]) ** 2 + p[2] * (y[:, :, None, None] - y[None, None] - p[3]) ** 2
    W = E.min((2, 3)); tol = (1e-10 if cl == "f8" else 1e-4) * (1 + np.abs(E).max()); c.check(d.dtype == np.dtype(cl) and near(d, W, tol), lambda: "distance %s, minimising gives %s" % (d.tolist(), W.tolist()))
    ix = np.asarray(ix); c.check(ix.shape == (M, N) and (ix >= 1).all() and (ix <= M * N).all() and (ix == np.floor(ix)).all(), lambda: "indexes %s" % ix.tolist())
    at = E.reshape(M, N, -1, order="A"); EE = np.stack([[E[a, b].ravel(order="F")[int(ix[a, b]) - 1] for b in range(N)] for a in range(M)]); c.check(near(EE, W, tol), lambda: "the indexes %s do not minimise" % ix.tolist())
    if (ix != np.arange(1, M * N + 1).reshape(M, N, order="F")).any(): c.nontrivial()
    c.check(same(c.call("vl_imdisttf", *args), d), "the transform without indexes differs")

@check("integral image", 4000, 80000, "at least two rows and columns")
def integral(c):
    r = c.rng(); sh = (c.small(1, 8), c.small(1, 8)) + ((c.i(2, 3),) if c.chance(1, 4) else ()); cl = np.dtype(c.pick(["f8", "f4", "u4", "i4"])); I = r.integers(0 if cl.kind == "u" else -50, 100, sh).astype(cl)
    if sh[0] > 1 and sh[1] > 1: c.nontrivial()
    g = c.call("vl_imintegral", I); W = I.astype("f8").cumsum(0).cumsum(1); c.check(g.dtype == cl and same(g, W), lambda: "integral of %s is %s" % (I.tolist(), g.tolist()))

@check("gradient and resampling", 6000, 120000, "an image with at least three rows and columns")
def grads(c):
    r = c.rng(); M, N = c.i(2, 9), c.i(2, 9); F = r.normal(size=(M, N)) if c.b() else r.integers(0, 256, (M, N)).astype(float); t = c.pick([None, "central", "forward", "backward"])
    if M > 2 and N > 2: c.nontrivial()
    c.note("%dx%d %s" % (M, N, t)); args = [] if t is None else ["Type", t] if c.b() else [t]; gx, gy = c.call("vl_imgrad", F, *args, nout=2)
    def der(A):
        n = A.shape[1]; o = np.zeros(A.shape)
        for j in range(n):
            a, b = (j - 1, j + 1) if t in (None, "central") else (j, j + 1) if t == "forward" else (j - 1, j)
            if a < 0: a, b = 0, 1
            if b >= n: a, b = n - 2, n - 1
            o[:, j] = (A[:, b] - A[:, a]) / (b - a)
        return o
    c.check(near(gx, der(F), 1e-11 * 256) and near(gy, der(F.T).T, 1e-11 * 256), lambda: "gradient %s %s" % (gx, gy))
    K = c.pick([1, 3]); cl = np.dtype(c.pick(["f8", "f4", "u1"])); I = r.integers(0, 256, (M, N, K)).astype(cl); I = I[:, :, 0] if K == 1 else I; J = I.astype(float)
    d = c.call("vl_imdown", I); c.check(d.dtype == cl and same(d, I[0:M // 2 * 2:2, 0:N // 2 * 2:2]), "downsampling by discarding")
    d = c.call("vl_imdown", I, "method", "average"); a = (J[0:M // 2 * 2:2, 0:N // 2 * 2:2] + J[1:M:2, 0:N // 2 * 2:2] + J[0:M // 2 * 2:2, 1:N:2] + J[1:M:2, 1:N:2]) / 4
    c.check(d.dtype == cl and near(d, a, .51 if cl.kind == "u" else 1e-4), lambda: "downsampling by averaging gives %s instead of %s" % (d, a))
    u = c.call("vl_imup", I); e = np.zeros((2 * M, 2 * N) + J.shape[2:])
    for i in range(2 * M):
        for j in range(2 * N):
            i0, j0 = i // 2, j // 2; i1 = min(i0 + i % 2, M - 1); j1 = min(j0 + j % 2, N - 1); e[i, j] = (J[i0, j0] + J[i1, j0] + J[i0, j1] + J[i1, j1]) / 4
    c.check(near(u, e, 1e-3), lambda: "upsampling of %s gives %s" % (J.tolist(), np.asarray(u).tolist()))

if __name__ == "__main__": sys.exit(main())
