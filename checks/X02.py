# X02: hashed counting is an exact multiset of labels
# VT-MEX: vl_ihashsum vl_ihashfind
import sys, numpy as np
from vtoct import *

@check("histories", 9000, 250000, "the overflow area is in use after several accumulations")
def histories(c):
    r = c.rng(); K = c.small(1, 12) if c.b() else c.small(1, 60); D = c.small(1, 4); C = K if c.chance(3, 4) else K + c.small(0, 5)
    top = c.pick([2, 3, 6, 256]); pool = r.integers(0, top, (D, c.small(1, 40))).astype(np.uint8)
    pool = pool[:, pool.any(0)]
    if pool.shape[1] == 0: pool = np.ones((D, 1), np.uint8)
    steps = c.i(1, 6); xs = []
    for _ in range(steps): n = c.small(0, 20); xs.append(np.asfortranarray(pool[:, r.integers(0, pool.shape[1], n)]).reshape(D, n, order="F"))
    q = np.concatenate([pool, r.integers(0, top, (D, 6)).astype(np.uint8), np.zeros((D, 1), np.uint8)], 1)
    c.note("K %d C %d D %d pool %s sizes %s" % (K, C, D, pool.T.tolist(), [x.shape[1] for x in xs]))
    h0 = np.zeros((1, C), np.uint32); cs = [("vl_ihashsum", [h0, np.zeros((D, C), np.uint8), h0, float(K), xs[0]], 3)]
    for k in range(1, steps): cs.append(("vl_ihashsum", [Ref(k, 1), Ref(k, 2), Ref(k, 3), float(K), xs[k]], 3))
    for k in range(steps): cs.append(("vl_ihashfind", [Ref(k + 1, 2), Ref(k + 1, 3), float(K), q], 1))
    res = c.calls(cs); cnt = {}
    for k in range(steps):
        c.ok(res[k], "accumulation %d" % (k + 1)); c.ok(res[steps + k], "search")
        for l in xs[k].T: t = tuple(l.tolist()); cnt[t] = cnt.get(t, 0) + 1
        h, id, nx = res[k]; sel = res[steps + k][0]
        c.check(h.dtype == np.uint32 and id.dtype == np.uint8 and nx.dtype == np.uint32 and sel.dtype == np.uint32, "classes of the outputs")
        c.check(h.shape == nx.shape and h.shape[0] == 1 and h.shape[1] >= C and id.shape == (D, h.shape[1]), lambda: "sizes of the table %s %s %s" % (h.shape, id.shape, nx.shape))
        h = h.ravel().astype(int); tab = {}
        for j in range(len(h)):
            t = tuple(id[:, j].tolist())
            if any(t):
                c.check(t not in tab, lambda: "label %s has two buckets" % (t,)); tab[t] = h[j]
            else: c.check(h[j] == 0, lambda: "an unlabelled bucket counts %d" % h[j])
        c.check(tab == cnt, lambda: "after %d accumulations the table holds %s, the labels accumulated are %s" % (k + 1, tab, cnt))
        c.check(sel.shape == (1, q.shape[1]), "size of the search result")
        for j, s in enumerate(sel.ravel().astype(int)):
            t = tuple(q[:, j].tolist())
            if t in cnt: c.check(1 <= s <= len(h) and tuple(id[:, s - 1].tolist()) == t and h[s - 1] == cnt[t], lambda: "label %s is found in bucket %d" % (t, s))
            else: c.check(s == 0, lambda: "label %s was never accumulated but is found in bucket %d" % (t, s))
        if k >= 1 and len(h) > C: c.nontrivial()
    # splitting the history differently gives the same counts
    allx = np.asfortranarray(np.concatenate(xs, 1)).reshape(D, -1, order="F"); o = c.call("vl_ihashsum", h0, np.zeros((D, C), np.uint8), h0, float(K), allx, nout=3)
    for a, b, w in zip(o, res[steps - 1], ("H", "ID", "NEXT")): c.check(np.array_equal(a, b), lambda: "%s of one accumulation %s, of the same labels in steps %s" % (w, a, b))

@check("misuse", 1500, 20000, "always")
def misuse(c):
    K = c.small(1, 6); D = c.small(1, 3); h = np.zeros((1, K), np.uint32); id = np.zeros((D, K), np.uint8); X = np.ones((D, 2), np.uint8); nx = h.copy(); kk = float(K); what = c.i(0, 9); fnd = c.b(); c.nontrivial()
    if what == 0: kk = 0.0
    elif what == 1: kk = float(K + c.i(1, 3))
    elif what == 2: kk = -float(c.i(1, 3))
    elif what == 3: X = np.ones((D + 1, 2), np.uint8)
    elif what == 4: nx = np.zeros((1, K + 1), np.uint32)
    elif what == 5: nx[0, c.i(0, K - 1)] = K + c.i(1, 5)
    elif what == 6: X = X.astype(c.pick(["f8", "i1", "u2"]))
    elif what == 7: nx = nx.astype("f8")
    elif what == 8: id = np.zeros((D, K + 1), np.uint8)
    elif fnd: kk = np.zeros((1, 2))
    else: X[:, c.i(0, 1)] = 0
    c.note("case %d %s" % (what, "find" if fnd else "sum"))
    r = c.calls([("vl_ihashfind", [id, nx, kk, X], 1) if fnd else ("vl_ihashsum", [h, id, nx, kk, X], 3), ("vl_ihashsum", [h, np.zeros((D, K), np.uint8), h, float(K), np.ones((D, 2), np.uint8)], 3)])
    c.check(isinstance(r[0], OctError), "an invalid table or label was accepted"); c.ok(r[1], "a later valid call"); c.check(r[1][0].sum() == 2, "a later valid call counts wrongly")

if __name__ == "__main__": sys.exit(main())
