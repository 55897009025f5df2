import itertools

import numpy as np

from mc import methods as MM
from mc.util import raises, same

ID = "P12"
TECHNIQUE = ("exhaustive enumeration of all interleavings of source and target rows (and of in-domain orders and domain relabellings) of small generic datasets for every "
             "shipped method, executed on the real code and compared with the source-first run")
LEVEL = "model_checking"
NOTE = "Product exploration: each reordered or relabelled run must give the reordered adapted rows, weights and labels and the same answers on new data."
ASSUMPTIONS = ["data are generic (unique optimal plans, no distance ties)", "adapted features of eigenvector methods are compared up to the sign of a column",
               "the likelihood method draws its kernel centers by target position: its target rows keep their relative order"]

DATA = [(5, 4, 4), (4, 3, 2)]
DATA_T = [(5, 4, 4), (4, 3, 2), (5, 4, 1), (6, 5, 4)]
RELABEL = [(0, -1), (1, -1), (7, -3), (2, -1), (1, -9), (100, -1), (0, -200)]
RELABEL3 = [((1, 3), (-2,)), ((3, 1), (-2,)), ((1, 2), (-2,)), ((0, 1), (-2,)), ((9, 2), (-1,)), ((1, 0), (-7,))]
SIGN = ("TCA", "TJM")
SLOW = ("MMDLSCons", "TSL", "KMM-scipy", "MMDTarS", "ClassRegOT-l1l2")


def BOUNDS(tier):
    return "%d methods x label kinds x %d datasets x all interleavings (<=126; every 5th for slow methods in the quick tier) x 4 in-domain orders, %d relabellings" % (
        len(MM.M), len(DATA if tier == "quick" else DATA_T), len(RELABEL) + len(RELABEL3))


def scenarios(tier):
    out = []
    for name, m in MM.M.items():
        if m["perm"] is None:
            continue
        slow = m["cost"] >= 3
        for kind in m["kinds"]:
            for di, (ns, nt, k) in enumerate(DATA if tier == "quick" else DATA_T):
                combos = list(itertools.combinations(range(ns + nt), ns))
                step = (16 if slow else 4 if len(combos) > 50 else 2 if m["cost"] > 1 else 1) if tier == "quick" else (8 if slow else 1)
                if tier != "quick" and len(combos) > 200:
                    step *= 4
                for o in range(4):
                    if o > 1 and name.startswith("KLIEP"):
                        continue  # kernel centers are drawn by position
                    pick = combos[(o * 3) % step::step] if o < 2 or tier != "quick" else combos[o::step * 4]
                    for a in range(0, len(pick), 16):
                        out.append({"m": name, "kind": kind, "data": [ns, nt, k], "order": o, "srcs": [list(p) for p in pick[a:a + 16]]})
                out.append({"m": name, "kind": kind, "data": [ns, nt, k], "relabel": 2 if slow and tier == "quick" else len(RELABEL)})
                if di == 0:
                    out.append({"m": name, "kind": kind, "data": [ns, nt, k], "relabel3": 2 if slow and tier == "quick" else len(RELABEL3)})
    return out


def observe(name, kind, X, y, sd):
    """(adapter outputs, answers on new data); exceptions by type."""
    m = MM.M[name]
    res = {}
    ad = MM.adapter(name, kind)
    if ad is not None:
        v, e = raises(lambda: ad.fit_transform(X, y, sample_domain=sd))
        if e is not None:
            return {"adapter": type(e).__name__}, {}
        v = v if isinstance(v, tuple) else (v,)
        res["X"] = np.asarray(v[0], float)
        for p in v[1:]:
            if isinstance(p, dict):
                res.update({k: np.asarray(q, float) for k, q in p.items() if q is not None and k != "sample_domain"})
            elif p is not None:
                res["y"] = np.asarray(p, float)
    _ = m
    pipe = MM.make(name, kind)
    ans = {}
    _, e = raises(lambda: pipe.fit(X, y, sample_domain=sd))
    if e is not None:
        return res, {"fit": type(e).__name__}
    r2 = np.random.RandomState(5)
    Q = r2.randn(6, 2)
    tl = int(sd[sd < 0][0])
    for meth in ("predict_proba", "decision_function", "predict"):
        if hasattr(pipe, meth) and (meth != "predict" or kind == "reg"):
            v, e = raises(lambda: getattr(pipe, meth)(Q, sample_domain=np.full(6, tl)))  # noqa: B023
            ans[meth] = type(e).__name__ if e is not None else v
    return res, ans


def compare(r, name, key, a, b, rows, what):
    """rows: position in run b of each row of run a."""
    tol = MM.M[name]["perm"]
    ra, aa = a
    rb, ab = b
    if not r.check(ra.keys() == rb.keys() and aa.keys() == ab.keys(), key, lambda: f"{what}: {list(ra), list(aa)} / {list(rb), list(ab)}"):
        return False
    for k in ra:
        u, v = ra[k], rb[k]
        if isinstance(u, str) or isinstance(v, str):
            if not r.check(isinstance(u, str) and u == v, key, lambda: f"{what}: {k} {u} / {v}"):  # noqa: B023
                return False
            continue
        v = v[rows]
        if k == "X" and name.startswith(SIGN):
            u, v = np.abs(u), np.abs(v)
        sc = max(1.0, float(np.nanmax(np.abs(u))) if u.size else 1.0)
        if not r.check(same(u / sc, v / sc, tol), key, lambda: f"{what}: {k}\n{u.tolist()}\n{v.tolist()}"):  # noqa: B023
            return False
    for k in aa:
        u, v = aa[k], ab[k]
        ok = (isinstance(u, str) and isinstance(v, str) and u == v) if isinstance(u, str) or isinstance(v, str) else same(u, v, max(tol, 1e-4))
        if not r.check(ok, key, lambda: f"{what}: answers {k} {u} / {v}"):  # noqa: B023
            return False
    return True


def run(sc, r):
    name, kind = sc["m"], sc["kind"]
    ns, nt, k = sc["data"]
    Xs, ys, Xt, yt = MM.data(k, ns, nt, kind)
    n = ns + nt
    mask = -1 if kind == "clf" else np.nan
    X0 = np.concatenate([Xs, Xt])
    y0 = np.concatenate([ys, np.full(nt, mask)]).astype(ys.dtype)
    sd0 = np.array([1] * ns + [-2] * nt)
    if "relabel3" in sc:
        sd0 = np.array([1, 3] * ns)[:ns].tolist() + [-2] * nt
        sd0 = np.array(sd0)
        if kind == "clf":
            y0[:ns] = np.array([0, 0, 1, 1, 0, 1])[:ns]
    ref = observe(name, kind, X0, y0, sd0)
    r.trace()
    r.state(name, kind, sc["data"], ref[0], {q: v for q, v in ref[1].items()})
    r.outcome(name, kind, [q for q in ref[0]], [q for q in ref[1]])
    if "relabel" in sc or "relabel3" in sc:
        for rl in (RELABEL[:sc["relabel"]] if "relabel" in sc else RELABEL3[:sc["relabel3"]]):
            if "relabel" in sc:
                sd = np.where(sd0 > 0, rl[0], rl[1])
            else:
                sd = np.where(sd0 == 1, rl[0][0], np.where(sd0 == 3, rl[0][1], rl[1][0]))
            r.step()
            if not compare(r, name, "domain-values-matter", ref, observe(name, kind, X0, y0, sd), np.arange(n), f"{name} {kind} domains {sd}"):
                return
        return
    so, to = {0: (range(ns), range(nt)), 1: (range(ns)[::-1], range(nt)), 2: (range(ns), range(nt)[::-1]),
              3: ([*range(1, ns), 0], [*range(1, nt), 0])}[sc["order"]]
    for src in sc["srcs"]:
        pos = np.zeros(n, int)  # pos[original row] = new row
        rest = [i for i in range(n) if i not in src]
        for p, i in zip(src, so):
            pos[i] = p
        for p, i in zip(rest, to):
            pos[ns + i] = p
        X, y, sd = np.empty_like(X0), np.empty_like(y0), np.empty_like(sd0)
        X[pos], y[pos], sd[pos] = X0, y0, sd0
        r.step()
        if not compare(r, name, "row-order-matters", ref, observe(name, kind, X, y, sd), pos, f"{name} {kind} sd={sd} order {sc['order']}"):
            return
