# X03: ROC, precision-recall and DET curves
# VT-MEX: vl_cummax
import sys, numpy as np
from vtoct import *
INF = np.inf
def close(a, b, tol=1e-9): a = np.asarray(a, float).ravel(); b = np.asarray(b, float).ravel(); return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b))))
def row(a): return np.asarray(a, float).ravel()

def sample(c):
    n = c.small(0, 25); kind = c.i(0, 3); r = c.rng(); lab = r.choice([-1.0, 1.0], n)
    if c.b() and n: lab[r.random(n) < .25] = 0
    if c.chance(1, 4): lab = lab * r.integers(1, 4, n)
    if c.chance(1, 12): lab = np.abs(lab)
    if c.chance(1, 12): lab = -np.abs(lab)
    sc = r.normal(size=n) if kind == 0 else r.permutation(n).astype(float) - n // 2 if kind == 1 else r.integers(-2, 3, n).astype(float) if kind == 2 else r.normal(size=n) + lab
    if c.b() and n: sc[r.random(n) < c.pick([.1, .4, 1])] = -INF
    if c.chance(1, 6) and n: sc[r.random(n) < .2] = INF
    if c.chance(1, 8): sc = np.sort(sc)[::-1]
    c.note("labels %s scores %s" % (lab.tolist(), sc.tolist())); return lab, sc
def order(sc, inf):            # decreasing, stable
    o = sorted(range(len(sc)), key=lambda k: -sc[k]); return [k for k in o if inf or sc[k] > -INF]
def counts(c, lab):
    o = []; p = int((lab > 0).sum()); n = int((lab < 0).sum())
    if c.chance(1, 4): p += c.i(0, 4); o += [c.pick(["numPositives", "NumPositives"]), float(p)]
    if c.chance(1, 4): n += c.i(0, 4); o += [c.pick(["numNegatives", "NUMNEGATIVES"]), float(n)]
    return o, p, n
def form(c, lab, sc):
    if c.chance(1, 4): return lab.reshape(-1, 1), sc.reshape(-1, 1)
    if c.chance(1, 8): return lab.astype("i1").reshape(1, -1), sc.astype("f8").reshape(1, -1)
    return lab.reshape(1, -1), sc.reshape(1, -1)
def stable(val, o, n):
    v = np.full(n, np.nan)
    for k, j in enumerate(o): v[j] = val[k + 1]
    return v
def area(x, y): return float(np.sum((x[1:] - x[:-1]) * (y[1:] + y[:-1]) / 2))

@check("roc", 12000, 300000, "some tie, ignored or unretrieved sample or extra negatives or positives, with both classes retrieved")
def roc(c):
    lab, sc = sample(c); n0 = len(lab); opt, p, n = counts(c, lab); o = order(sc, False); tp = np.array([0] + list(np.cumsum([lab[k] > 0 for k in o]))); fp = np.array([0] + list(np.cumsum([lab[k] < 0 for k in o])))
    tpr = tp / p if p else 0. * tp; fpr = fp / n if n else 0. * fp; st = c.chance(1, 3); plot = c.pick([None, None, "tntp", "fptp", "tptn", "fpfn"])
    if st: opt += ["stable", True]
    if plot: opt += ["plot", plot]
    c.note(opt); L, S = form(c, lab, sc); a, b, info = c.call("vl_roc", L, S, *opt, nout=3); fin = sc[sc > -INF]
    if tp[-1] and fp[-1] and (len(set(fin)) < len(fin) or (lab == 0).any() or len(fin) < n0 or opt): c.nontrivial()
    wa, wb = (stable(tpr, o, n0), stable(1 - fpr, o, n0)) if st else (tpr, 1 - fpr)
    c.check(close(a, wa), lambda: "true positive rate %s, counting gives %s" % (row(a), wa)); c.check(close(b, wb), lambda: "true negative rate %s, counting gives %s" % (row(b), wb))
    auc = {"tntp": -area(1 - fpr, tpr), "fptp": area(fpr, tpr), "tptn": area(tpr, 1 - fpr), "fpfn": area(fpr, 1 - tpr)}[plot or "fptp"]
    g = info["auc"]; c.check(close(g, auc, 1e-6), lambda: "area %s, integrating the curve gives %s" % (row(g), auc))
    # equal error rate: where the false negative and the false positive rate cross, in exact arithmetic
    d = fp * max(p, 1) * (1 if n else 0) - (p - tp if p else 1 - 0 * tp) * max(n, 1) * 1
    if p == 0: d = (fp - max(n, 1)) if n else 0 * fp - 1
    elif n == 0: d = -(p - tp)
    k = int(np.max(np.nonzero(d < 0)[0])) if (d < 0).any() else -1; tie = (d == 0).any(); e = row(info["eer"]); th = row(info["eerThreshold"])
    c.check(e.size == 1 and th.size == 1, "equal error rate is not a number")
    if k == len(tp) - 1: c.check(np.isnan(e[0]), lambda: "equal error rate %g but the curve ends before" % e[0])
    elif tie and np.isnan(e[0]): c.check(d[-1] == 0 or d[d <= 0].size == d.size, "equal error rate missing")
    else:
        # crossing of the segment k, k+1
        f0, f1, m0, m1 = fpr[k], fpr[k + 1], 1 - tpr[k], 1 - tpr[k + 1]; t = (m0 - f0) / ((m0 - f0) + (f1 - m1)); w = f0 + t * (f1 - f0)
        c.check(abs(e[0] - w) < 1e-9, lambda: "equal error rate %g, the curve crosses the diagonal at %g" % (e[0], w))
        if not tie: c.check(th[0] == sc[o[k]], lambda: "threshold %g, the sample at which the rates cross has score %g" % (th[0], sc[o[k]]))
        elif not any(th[0] == sc[j] for j in o): c.fail("threshold %g is not a score" % th[0])
    if not plot:
        m, f = c.call("vl_det", L, S, *opt, nout=2); c.check(close(m, 1 - wa) and close(f, 1 - wb), lambda: "detection error curve %s %s" % (row(m), row(f)))
        if not st and n0:                      # removing the ignored samples does not change the curve
            kp = lab != 0; a2, b2 = c.call("vl_roc", lab[kp].reshape(1, -1), sc[kp].reshape(1, -1), *opt, nout=2); sel = [0] + [i + 1 for i, j in enumerate(o) if lab[j] != 0]
            c.check(close(row(a)[sel], a2) and close(row(b)[sel], b2), "removing the ignored samples changes the curve")

@check("pr", 12000, 300000, "some tie, ignored or unretrieved sample or an option, with both classes retrieved")
def pr(c):
    lab, sc = sample(c); n0 = len(lab); opt, p, n = counts(c, lab); inf = c.chance(1, 4); st = c.chance(1, 3); itp = c.chance(1, 3); a = None
    if inf: opt += ["includeInf", True]
    if st: opt += ["stable", True]
    if itp: opt += [c.pick(["interpolate", "Interpolate"]), True]
    if c.chance(1, 4): a = c.pick([0.5, 0.1, 0.9, 1.0, c.real(.01, .99)]); opt += ["normalizePrior", a]
    o = order(sc, inf); tp = np.array([0.] + list(np.cumsum([lab[k] > 0 for k in o]))); fp = np.array([0.] + list(np.cumsum([lab[k] < 0 for k in o])))
    rec = tp / p if p else 0 * tp; wp, wn = (1., 1.) if a is None else (a / p if p else 0., (1 - a) / n if n else 0.); prec = np.array([wp * t / (wp * t + wn * f) if wp * t + wn * f > 0 else 1. for t, f in zip(tp, fp)])
    if itp: prec = np.array([prec[k:].max() for k in range(len(prec))])
    c.note(opt); L, S = form(c, lab, sc); fin = sc[sc > -INF]
    if tp[-1] and fp[-1] and (len(set(fin)) < len(fin) or (lab == 0).any() or len(fin) < n0 or opt): c.nontrivial()
    A, B, info = c.call("vl_pr", L, S, *opt, nout=3); wa, wb = (stable(rec, o, n0), stable(prec, o, n0)) if st else (rec, prec)
    c.check(close(A, wa), lambda: "recall %s, counting gives %s" % (row(A), wa)); c.check(close(B, wb, 1e-6), lambda: "precision %s, counting gives %s" % (row(B), wb))
    if p:
        up = [k for k in range(1, len(tp)) if tp[k] > tp[k - 1]]; ap = sum(prec[k] for k in up) / p; auc = ap if itp else area(rec, prec)
        c.check(close(info["ap"], ap, 1e-6), lambda: "average precision %s, averaging gives %s" % (row(info["ap"]), ap)); c.check(close(info["auc"], auc, 1e-6), lambda: "area %s, integrating gives %s" % (row(info["auc"]), auc))
    lo = hi = 0.
    for q in range(11):
        lo += max([0.] + [x for x, y in zip(prec, rec) if y >= q / 10 + 1e-9]) / 11 if q else max(prec) / 11; hi += max([0.] + [x for x, y in zip(prec, rec) if y >= q / 10 - 1e-9]) / 11
    g = row(info["ap_interp_11"]); c.check(g.size == 1 and lo - 1e-6 <= g[0] <= hi + 1e-6, lambda: "11-point precision %s, by definition %s .. %s" % (g, lo, hi))
    c.check(close(info["auc_pa08"], g), "auc_pa08 differs from ap_interp_11")

if __name__ == "__main__": sys.exit(main())
