# X08: colour conversions: RGB<->XYZ in both working spaces, XYZ to Lab and Luv under every illuminant
import sys, numpy as np
from vtoct import *
# CIE 1931 2-degree chromaticities (tabulated to four digits; D93 is the display white 9300K + 8 MPCD)
WHITE = {"A": (.44757, .40745), "B": (.34842, .35161), "C": (.31006, .31616), "E": (1 / 3, 1 / 3), "D50": (.34567, .35850), "D55": (.33242, .34743), "D65": (.312713, .329016), "D75": (.29902, .31485), "D93": (.2848, .2932)}
# primaries and white of the two working spaces
PRIM = {"CIE": [(.7347, .2653), (.2738, .7174), (.1666, .0089), (1 / 3, 1 / 3)], "Adobe": [(.64, .33), (.21, .71), (.15, .06), (.312713, .329016)]}
def xyz(x, y): return np.array([x / y, 1, (1 - x - y) / y])
def matrix(ws): P = np.stack([xyz(*p) for p in PRIM[ws][:3]], 1); return P * np.linalg.solve(P, xyz(*PRIM[ws][3]))
def size(c): return c.i(1, 4), c.i(1, 4)
def channel(c, r, sh):
    k = c.i(0, 3); return r.random(sh) if k == 0 else r.integers(0, 2, sh).astype(float) if k == 1 else r.random(sh) * 10. ** -r.integers(0, 7, sh) if k == 2 else np.full(sh, r.integers(0, 5) / 4)

@check("working spaces", 3000, 150000, "a colour which is not grey")
def rgb(c):
    r = c.rng(); h, w = size(c); I = np.stack([channel(c, r, (h, w)) for _ in range(3)], 2); ws = c.pick([None, "CIE", "Adobe"]); a = [] if ws is None else [ws]; k = c.i(0, 3); src = I
    if k == 1: src = np.round(I * 255).astype("u1"); I = src / 255.
    if k == 2: src = I.astype("f4"); I = src.astype(float)
    if k == 3 and c.b(): src = np.round(I * 65535).astype("u2"); I = src / 65535.
    if (I.max(2) > I.min(2)).any(): c.nontrivial()
    c.note("%s %s %s" % (ws, src.dtype, I.tolist())); X = c.call("vl_rgb2xyz", src, *a); W = (I.reshape(-1, 3) ** 2.2 @ matrix(ws or "CIE").T).reshape(h, w, 3); X = np.asarray(X)
    c.check(X.shape == (h, w, 3) and X.dtype == np.float64, lambda: "shape %s class %s" % (X.shape, X.dtype)); c.check(np.abs(X - W).max() < 4e-3, lambda: "XYZ %s, expected %s" % (X.tolist(), W.tolist()))
    # linear in the linearised primaries
    L = I ** 2.2; P = np.asarray(c.call("vl_rgb2xyz", np.eye(3).reshape(3, 1, 3), *a))[:, 0]; c.check(np.abs(X.reshape(-1, 3) - L.reshape(-1, 3) @ P).max() < 1e-9, "not linear in the primaries raised to gamma")
    J = c.call("vl_xyz2rgb", X, *a); J = np.asarray(J); c.check(J.shape == (h, w, 3) and not np.iscomplexobj(J), "the conversion back is not a real image of the same size"); c.check(np.abs(J - I).max() < 1e-5, lambda: "converted back to %s" % J.tolist())
    Y = c.call("vl_rgb2xyz", J, *a); c.check(np.abs(Y - X).max() < 1e-6, "converting again gives a different colour")

def perceptual(c):
    r = c.rng(); h, w = size(c); il = c.pick([None] + list(WHITE)); Wt = xyz(*WHITE[il or "E"]); k = c.i(0, 4)
    T = np.stack([channel(c, r, (h, w)) for _ in range(3)], 2) if k < 3 else r.uniform(.0084, .0090, (h, w, 3)) if k == 3 else np.repeat(r.random((h, w, 1)), 3, 2)
    I = T * (Wt if c.b() else 1); t = I / Wt
    if ((t > 0) & (t < .02)).any(): c.nontrivial()
    c.note("illuminant %s XYZ %s" % (il, I.tolist())); return I, t, [] if il is None else [il if c.b() else il.lower()], Wt, k
@check("Lab", 6000, 150000, "a dark colour")
def lab(c):
    I, t, a, W, k = perceptual(c); g = np.asarray(c.call("vl_xyz2lab", I, *a)); f = np.where(t > .008856, np.cbrt(t), (903.3 * t + 16) / 116); e = np.stack([116 * f[..., 1] - 16, 500 * (f[..., 0] - f[..., 1]), 200 * (f[..., 1] - f[..., 2])], 2)
    # tolerance: the rounding of the white points (four digits), 500/3 t^(-2/3) dt in the steep part
    tol = 2e-3 + 500 * 6e-4 / 3 * np.maximum(np.cbrt(np.maximum(t, 0)).max(2), .1)[..., None] if a else 1e-3
    if a and a[0].upper() in ("E", "D65", "D93"): tol = 1e-3
    c.check(g.shape == e.shape and not np.iscomplexobj(g) and (np.abs(g - e) <= tol).all(), lambda: "Lab %s, expected %s" % (g.tolist(), e.tolist()))

@check("Luv", 6000, 150000, "a dark colour")
def luv(c):
    I, t, a, W, k = perceptual(c); g = np.asarray(c.call("vl_xyz2luv", I, *a)); X, Y, Z = (I[..., j] for j in range(3)); L = np.where(Y > .008856, 116 * np.cbrt(Y) - 16, 903.3 * Y); d = X + 15 * Y + 3 * Z; d = np.where(d > 0, d, 1); dw = W[0] + 15 + 3 * W[2]
    e = np.stack([L, 13 * L * (4 * X / d - 4 * W[0] / dw), 13 * L * (9 * Y / d - 9 / dw)], 2); tol = 1e-3 * (1 + np.abs(e).max() * 1e-2)
    if a and a[0].upper() not in ("E", "D65", "D93"): tol = np.stack([np.full(L.shape, 1e-3), .02 + .015 * L, .02 + .015 * L], 2)
    c.check(g.shape == e.shape and not np.iscomplexobj(g) and (np.abs(g - e) <= tol).all(), lambda: "Luv %s, expected %s" % (g.tolist(), e.tolist()))

if __name__ == "__main__": sys.exit(main())
