# X05: pairwise distances and descriptor matching
# VT-MEX: vl_alldist vl_alldist2 vl_ubcmatch
import sys, math, numpy as np
from vtoct import *
INT = ["u1", "i1", "u2", "i2", "u4", "i4"]
ACC = {"u1": "u4", "i1": "i4", "u2": "u4", "i2": "i4", "u4": "u4", "i4": "i4", "f4": "f4", "f8": "f8"}
def js(x, y):
    t = lambda a, b: 0. if a == 0 else a * math.log2(2 * a / (a + b))
    return t(x, y) + t(y, x)
def kjs(x, y):
    s = x + y; t = lambda a: 0. if a == 0 else a * math.log2(s / a)
    return 0.5 * (t(x) + t(y))
F = {"linf": lambda x, y: abs(x - y), "l2": lambda x, y: (x - y) ** 2, "l1": lambda x, y: abs(x - y), "l0": lambda x, y: float(x != y), "chi2": lambda x, y: 0. if x + y == 0 else (x - y) ** 2 / (x + y),
     "hell": lambda x, y: (math.sqrt(x) - math.sqrt(y)) ** 2, "kl2": lambda x, y: x * y, "kl1": min, "min": min, "kchi2": lambda x, y: 0. if x + y == 0 else 2 * x * y / (x + y), "khell": lambda x, y: math.sqrt(x * y), "js": js, "kjs": kjs}
# the documented integer arithmetic
FI = {"chi2": lambda x, y: 0 if x + y == 0 else (x - y) ** 2 // (x + y), "hell": lambda x, y: x + y - 2 * math.isqrt(x * y), "kchi2": lambda x, y: 0 if (x + y) // 2 == 0 else x * y // ((x + y) // 2), "khell": lambda x, y: math.isqrt(x * y)}
def direct(X, Y, m, integer):
    f = FI[m] if integer and m in FI else F[m]; cv = int if integer else float; D = np.zeros((X.shape[1], Y.shape[1]))
    for i in range(X.shape[1]):
        for j in range(Y.shape[1]): v = [f(cv(a), cv(b)) for a, b in zip(X[:, i], Y[:, j])]; D[i, j] = max(v, default=0) if m == "linf" else sum(v) if integer else math.fsum(v)
    return D
def near(a, b, tol): a = np.asarray(a, float); return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))
def data(c, cl, neg, r):
    L, N = c.small(0 if c.chance(1, 12) else 1, 12), c.small(0 if c.chance(1, 12) else 1, 7)
    if cl in INT:
        ii = np.iinfo(cl); top = c.pick([3, 20, 127]); top = min(top, ii.max); lo = -top if neg and ii.min < 0 else 0; g = lambda n: r.integers(lo, top + 1, (L, n)).astype(cl)
    elif c.b(): g = lambda n: (r.integers(-5 if neg else 0, 6, (L, n)) / 2.).astype(cl)
    else: g = lambda n: (r.normal(size=(L, n)) if neg else np.abs(r.normal(size=(L, n))) * (r.random((L, n)) < .8)).astype(cl)
    return L, N, g

@check("vl_alldist2", 16000, 400000, "both arrays not empty and several dimensions")
def alldist2(c):
    r = c.rng(); m = c.pick(["linf", "l2", "l1", "l0", "chi2", "hell", "kl2", "kl1", "kchi2", "khell", "min"]); cl = c.pick(INT + ["f4", "f8", "f8"]); neg = m in ("linf", "l2", "l1", "l0", "kl2") and c.b() or m in ("kl1", "min") and cl not in ("f8",) and c.b()
    L, N, g = data(c, cl, neg, r); X = g(N); self = c.chance(1, 3); Y = X if self else g(c.small(0 if c.chance(1, 12) else 1, 7)); sp = cl == "f8" and c.chance(1, 3)
    if not self and c.b() and N and Y.shape[1]: Y[:, 0] = X[:, -1]
    name = c.pick([m, m.upper(), m.capitalize()]); use = m != "l2" or c.b(); c.note("%s class %s%s X %s Y %s" % (m, cl, " sparse" if sp else "", X.T.tolist(), "same" if self else Y.T.tolist())); args = [Sparse(X)] if sp else [X]
    if not self: args.append(Sparse(Y) if sp else Y)
    if use: args.append(name)
    if X.size and Y.size and L > 1: c.nontrivial()
    if m in ("kl1", "min") and neg: sp and c.discard()
    D = c.call("vl_alldist2", *args); integer = cl in INT; W = direct(X, Y, m, integer); c.label(m); c.label(cl); c.check(sp or D.dtype == np.dtype(ACC[cl]), lambda: "class %s of the distances of %s data" % (D.dtype, cl))
    c.check(near(D, W, 0 if integer else 1e-12 if cl == "f8" and m != "hell" else 1e-7 if cl == "f8" else 3e-5), lambda: "%s distances %s, directly %s" % (m, np.asarray(D).tolist(), W.tolist()))
    if m in ("l2", "l1", "chi2", "hell") and not integer and L and not neg:       # the corresponding kernel induces the metric
        def kk(a, b): return c.call("vl_alldist2", a, b, "k" + m)
        if X.size and Y.size: K = np.asarray(kk(X, Y), float); a = np.diag(kk(X, X)).astype(float); b = np.diag(kk(Y, Y)).astype(float); q = a[:, None] + b[None] - 2 * K; c.check(np.all(np.abs(q - np.asarray(D, float)) <= (1e-6 if cl == "f8" else 1e-3) * (1 + a.max() + b.max())), lambda: "metric %s is not induced by its kernel: %s, %s" % (m, np.asarray(D).tolist(), q.tolist()))

@check("vl_alldist", 10000, 250000, "both arrays not empty and several dimensions")
def alldist(c):
    r = c.rng(); m = c.pick(["l2", "l1", "chi2", "hell", "js", "kl2", "kl1", "kchi2", "khell", "kjs"]); cl = c.pick(["f4", "f8"]); neg = m in ("l2", "l1", "kl2") and c.b(); L, N, g = data(c, cl, neg, r); X = g(N); self = c.chance(1, 3); Y = X if self else g(c.small(0 if c.chance(1, 12) else 1, 7))
    c.note("%s class %s X %s Y %s" % (m, cl, X.T.tolist(), "same" if self else Y.T.tolist())); args = [X] + ([] if self else [Y]) + ([c.pick([m, m.upper()])] if m != "l2" or c.b() else [])
    if X.size and Y.size and L > 1: c.nontrivial()
    D = c.call("vl_alldist", *args); c.label(m); W = direct(X, Y, m, False) if L else np.zeros((N, Y.shape[1])); c.check(D.dtype == np.dtype(cl), "class of the distances")
    c.check(near(D, W, 1e-7 if cl == "f8" else 5e-5), lambda: "%s distances %s, directly %s" % (m, np.asarray(D).tolist(), W.tolist()))

@check("misuse", 1500, 15000, "always")
def misuse(c):
    L, N = c.i(1, 5), c.i(1, 5); X = np.ones((L, N)); k = c.i(0, 7); f = c.pick(["vl_alldist", "vl_alldist2"]); c.nontrivial()
    a = [[X, np.ones((L + 1, N))], [X, X.astype("f4")], [X, "nosuch"], ["abc"], [Sparse(X), X] if f == "vl_alldist2" else [X.astype("u1")], [X, Sparse(X)], [X, X, X], [X, "linf"] if f == "vl_alldist" else [X.astype("u8")]][k]
    c.note("%s case %d" % (f, k)); q = c.calls([(f, a, 1), (f, [X, X], 1)]); c.check(isinstance(q[0], OctError), "invalid arguments were accepted"); c.ok(q[1], "a later valid call"); c.check(not np.asarray(q[1][0]).any(), "a later valid call is wrong")

@check("vl_ubcmatch", 16000, 400000, "some descriptor is matched and some is rejected as ambiguous")
def ubcmatch(c):
    r = c.rng(); cl = c.pick(["u1", "i1", "f4", "f8"]); D = c.pick([128, 128, c.small(1, 9), c.small(1, 40)]); K1, K2 = (c.i(1, 9), c.i(1, 9)) if c.chance(4, 5) else (c.small(0, 9), c.small(0, 9)); th = c.pick([None, None, 1.5, 1., 2., 1.25, 4., 0.5, 1.1, c.real(.9, 3)])
    top = c.pick([2, 10, 127]) if cl == "i1" else c.pick([2, 10, 255]); lo = -top if cl == "i1" else 0; A = r.integers(lo, top + 1, (D, K1)); B = r.integers(lo, top + 1, (D, K2)); nz = c.pick([0, 1, 4])
    for k in range(K1):                     # related descriptors, duplicates
        if K2 and r.random() < .6: A[:, k] = np.clip(B[:, r.integers(K2)] + r.integers(-nz, nz + 1, D), lo, top)
    for k in range(1, K2):
        if r.random() < .2: B[:, k] = np.clip(B[:, r.integers(k)] + (r.random(D) < 1 / D), lo, top)
    A = A.astype(cl); B = B.astype(cl); fl = cl[0] == "f" and c.chance(1, 3)
    if fl: A = (A * .37).astype(cl); B = (B * .37).astype(cl)
    c.note("class %s threshold %s A %s B %s" % (cl, th, A.T.tolist(), B.T.tolist())); m, d = c.call("vl_ubcmatch", A, B, *([] if th is None else [th]), nout=2); m = np.asarray(m, float); d = np.asarray(d, float).ravel(); t = 1.5 if th is None else th
    c.check(m.shape[0] == 2 and m.shape[1] == d.size, "sizes of the matches and scores"); c.check(m.shape[1] == 0 or (np.diff(m[0]) > 0).all(), lambda: "matches %s are not ordered or repeat a descriptor" % m.tolist())
    got = {int(a): (int(b), s) for (a, b), s in zip(m.T, d)}; rel = 1e-5 if fl or cl == "f4" else 1e-12; acc = rej = False
    for k in range(K1):
        if not K2: c.check(k + 1 not in got, "a match without candidates"); continue
        dist = ((A[:, [k]].astype(float) - B.astype(float)) ** 2).sum(0); o = np.sort(dist); best = o[0]; second = o[1] if K2 > 1 else np.inf; lhs = float(np.float32(t)) * best; und = abs(lhs - second) <= 1e-6 * (lhs + (second if np.isfinite(second) else 0)) and lhs != second
        exact_tie = lhs == second and not (fl or t not in (1., 2., 1.5, 1.25, 4., .5))
        if lhs == second and not exact_tie: und = True
        want = lhs < second
        if K2 > 1 and cl[0] != "f": und = und or abs(lhs - second) <= 3e-7 * lhs + 3e-7 * second and lhs != second
        if und: c.label("rounding") 
        else: c.check((k + 1 in got) == want, lambda: "descriptor %d: distances %s, threshold %g, %s" % (k + 1, dist.tolist(), t, "not matched" if want else "matched to %s" % (got[k + 1],)))
        if k + 1 in got:
            b, s = got[k + 1]; acc = True; c.check(1 <= b <= K2 and dist[b - 1] <= best * (1 + rel) + 1e-300, lambda: "descriptor %d is matched to %d, distances %s" % (k + 1, b, dist.tolist())); c.check(abs(s - dist[b - 1]) <= rel * (1 + best), lambda: "score %g, distance %g" % (s, dist[b - 1]))
        else: rej = True
    if acc and rej: c.nontrivial()
    q = c.call("vl_ubcmatch", A, B, *([] if th is None else [th])); c.check(np.array_equal(q, m), "matches differ without the scores")

if __name__ == "__main__": sys.exit(main())
