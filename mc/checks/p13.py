import itertools

import numpy as np
import ot
import scipy.linalg as sl
from sklearn.covariance import ledoit_wolf
from sklearn.metrics.pairwise import pairwise_kernels

import skada
from mc.util import same

ID = "P13"
TECHNIQUE = ("exhaustive enumeration of small grid point sets (every source set x target sets), methods, options and interleavings, executed on the real adapters and compared with "
             "independent closed-form, eigenproblem or exhaustive-assignment oracles")
LEVEL = "model_checking"
NOTE = "Every grid configuration within the bound is adapted by the real code and judged against an independently written oracle; exact transport by enumeration of all assignments."
ASSUMPTIONS = ["POT's Sinkhorn and group-lasso solvers are trusted (their arguments are checked)", "eigenvector outputs are compared up to sign and scale of a column and only where eigenvalues are separated",
               "the moment-matching optimiser is judged by its objective, class structure and target invariance only"]

GRID = [(float(a), float(b)) for a in range(3) for b in range(3)]
LAY = {(4, 4): (1, -2, 1, -2, -2, 1, 1, -2), (4, 2): (-2, 1, 1, -2, 1, 1), (2, 4): (-2, -2, 1, -2, 1, -2), (4, 3): (-2, 1, 1, -2, 1, -2, 1), (3, 3): (-2, 1, 1, -2, -2, 1)}

EXACT = [("OT", {}), ("OT", {"metric": "euclidean"}), ("OT", {"metric": "cityblock"}), ("OT", {"norm": "max"})]
CLOSED = [("EntropicOT", {"reg_e": 1.0}), ("EntropicOT", {"reg_e": 0.5, "metric": "euclidean"}), ("EntropicOT", {"reg_e": 2.0, "norm": "max"}),
          ("ClassRegularizerOT", {}), ("ClassRegularizerOT", {"reg_e": 0.7, "reg_cl": 0.4, "metric": "euclidean", "max_iter": 4}), ("ClassRegularizerOT", {"norm": "l1l2", "reg_cl": 0.3}),
          ("LinearOT", {"reg": 1e-6}), ("LinearOT", {"reg": 0.1}), ("LinearOT", {"reg": 0.01, "bias": False}),
          ("MultiLinear", {}), ("MultiLinear", {"bias": False}), ("MultiLinear", {"reg": 0.2}),
          ("CORAL", {}), ("CORAL", {"reg": 0.3}), ("CORAL", {"reg": 0.2, "assume_centered": True}), ("CORAL", {"reg": None}),
          ("SA", {"n_components": 1}), ("SA", {"n_components": 2}), ("SA", {}),
          ("TCA", {"n_components": 2}), ("TCA", {"n_components": 1, "kernel": "linear", "mu": 2.0}), ("TCA", {"mu": 0.01}), ("TCA", {"n_components": 3, "kernel": "poly", "mu": 1.0}),
          ("TJM", {"n_components": 1, "max_iter": 1}), ("TJM", {"n_components": 2, "max_iter": 4, "tradeoff": 0.5}), ("TJM", {"n_components": 1, "max_iter": 6, "kernel": "linear", "tradeoff": 0.1, "tol": 1e-3})]
OPT = [("TSL", {"base_method": b, "mu": mu, "n_components": k}) for b in ("pca", "flda", "lpp") for mu in (0.0, 0.5, 5.0, 50.0) for k in (1,)] + \
      [("TSL", {"base_method": "pca", "mu": 0.0, "reg": 0.3, "n_components": 1}), ("TSL", {"base_method": "lpp", "mu": 0.0, "length_scale": 0.5, "n_components": 1}),
       ("MMDLS", {"gamma": 0.1}), ("MMDLS", {"gamma": 0.5, "reg_m": 1e-3})]


def BOUNDS(tier):
    return ("exact transport: all 4-point source sets of a 3x3 grid x every%s target set (4->4, 4->2, 2->4) x %d option sets; closed forms: 4-point source sets x 4- and 3-point target sets (strided), %d option "
            "sets; optimised methods: %d generic datasets") % (" 5th" if tier == "quick" else "", len(EXACT), len(CLOSED), 6 if tier == "quick" else 40)


def scenarios(tier):
    out = []
    C4 = list(itertools.combinations(range(9), 4))
    for e in range(len(EXACT)):
        for shape in ((4, 4), (4, 2), (2, 4)):
            S = list(itertools.combinations(range(9), shape[0]))
            for si in range(len(S)):
                out.append({"exact": e, "shape": shape, "src": si, "stride": 5 if tier == "quick" else 1})
    for c in range(len(CLOSED)):
        for si in range(0, len(C4)):
            out.append({"closed": c, "src": si, "stride": 25 if tier == "quick" else 3})
    for o in range(len(OPT)):
        for k in range(6 if tier == "quick" else 40):
            out.append({"opt": o, "data": k})
    return out


def points(idx, scale=1.0, shift=(0.0, 0.0)):
    return np.array([GRID[i] for i in idx]) * scale + np.array(shift)


def lay(Xs, Xt, extra=None):
    key = (len(Xs), len(Xt))
    sd = np.array(LAY.get(key) or [1] * key[0] + [-2] * key[1])
    X = np.zeros((sum(key), Xs.shape[1]))
    X[sd > 0], X[sd < 0] = Xs, Xt
    return X, sd


def adapt(r, ad, X, y, sd):
    """fit_transform, and fit then transform, must agree; returns the adapted rows."""
    from sklearn.base import clone
    A = np.asarray(ad.fit_transform(X, y, sample_domain=sd))
    b = clone(ad).fit(X, y, sample_domain=sd)
    B = np.asarray(b.transform(X, sample_domain=sd, allow_source=True))
    r.step(2)
    r.check(same(A, B, 1e-6), "fit-transform-differs", lambda: f"{r.sc}: fit_transform {A.tolist()} fit+transform {B.tolist()}")
    return A


# ------------------------------------------------------------------ exact transport
def run_exact(sc, r):
    name, kw = EXACT[sc["exact"]]
    ns, nt = sc["shape"]
    S = list(itertools.combinations(range(9), ns))
    T = list(itertools.combinations(range(9), nt))
    Xs = points(S[sc["src"]])
    for ti in range((sc["src"]) % sc["stride"], len(T), sc["stride"]):
        for scale, shift in ((1.0, (0.25, -0.5)),):
            Xt = points(T[ti], scale, shift)
            X, sd = lay(Xs, Xt)
            ad = skada.OTMappingAdapter(**kw)
            y = np.where(sd > 0, np.cumsum(sd > 0) % 2, -1)
            A = adapt(r, ad, X, y, sd)
            metric = kw.get("metric", "sqeuclidean")
            D = ot.dist(Xs, Xt, metric=metric)
            g = max(ns, nt)
            s_rep, t_rep = np.repeat(np.arange(ns), g // ns), np.repeat(np.arange(nt), g // nt)
            best, images = np.inf, []
            for p in set(itertools.permutations(t_rep.tolist())):
                c = D[s_rep, list(p)].sum()
                images.append((c, p))
                best = min(best, c)
            ok = False
            M = A[sd > 0]
            for c, p in images:
                if c <= best + 1e-9:
                    img = np.stack([Xt[[q for q, u in zip(p, s_rep) if u == i]].mean(0) for i in range(ns)])
                    if same(img, M, 1e-9):
                        ok = True
                        break
            r.state("exact", sc["exact"], ns, nt, sc["src"], ti)
            if not r.check(ok, "not-an-optimal-plan", lambda: f"{kw} Xs={Xs.tolist()} Xt={Xt.tolist()}: {M.tolist()} is the image of no optimal plan (cost {best})"):  # noqa: B023
                return
            if not r.check(same(A[sd < 0], Xt), "target-moved", lambda: f"{kw} {Xt.tolist()} -> {A[sd < 0].tolist()}"):  # noqa: B023
                return
    r.trace()
    r.outcome("exact", sc["exact"], sc["shape"])


# ------------------------------------------------------------------ closed forms
def sinkhorn_map(Xs, Xt, reg_e, metric="sqeuclidean", norm=None):
    D = ot.dist(Xs, Xt, metric=metric)
    if norm == "max":
        D = D / D.max()
    K = np.exp(-D / reg_e)
    a, b = np.full(len(Xs), 1 / len(Xs)), np.full(len(Xt), 1 / len(Xt))
    v = np.ones(len(Xt))
    for _ in range(5000):
        u = a / (K @ v)
        v = b / (K.T @ u)
    P = u[:, None] * K * v[None]
    return (P @ Xt) / P.sum(1, keepdims=True)


def classreg_map(Xs, ys, Xt, norm="lpl1", reg_e=1.0, reg_cl=0.1, metric="sqeuclidean", max_iter=10, max_inner_iter=200, tol=1e-8):
    D = ot.dist(Xs, Xt, metric=metric)
    a, b = np.full(len(Xs), 1 / len(Xs)), np.full(len(Xt), 1 / len(Xt))
    if norm == "lpl1":
        P = ot.da.sinkhorn_lpl1_mm(a, ys, b, D, reg_e, reg_cl, numItermax=max_iter, numInnerItermax=max_inner_iter, stopInnerThr=tol)
    else:
        P = ot.da.sinkhorn_l1l2_gl(a, ys, b, D, reg_e, reg_cl, numItermax=max_iter, numInnerItermax=max_inner_iter, stopInnerThr=tol)
    return (P @ Xt) / P.sum(1, keepdims=True)


def sq(C):
    return np.real(sl.sqrtm(C))


def bures(ms, mt, Cs, Ct):
    h = sq(Cs)
    hi = np.linalg.inv(h)
    A = hi @ sq(h @ Ct @ h) @ hi
    return A, mt - ms @ A


def cov(X, center=True):
    m = X.mean(0) if center else np.zeros(X.shape[1])
    return (X - m).T @ (X - m) / len(X), m


def coral_cov(X, reg="auto", assume_centered=False):
    C, m = cov(X, not assume_centered)
    d = X.shape[1]
    if reg is None:
        return C
    if reg == "auto":
        sd_ = X.std(0)
        sd_ = np.where(sd_ == 0, 1.0, sd_)
        return ledoit_wolf((X - X.mean(0)) / sd_)[0] * np.outer(sd_, sd_)
    return (1 - reg) * C + reg * np.trace(C) / d * np.eye(d)


def same_columns(Z, W, tol=1e-5):
    """equal up to sign and scale of each column."""
    if Z.shape != W.shape:
        return False
    for a, b in zip(Z.T, W.T):
        na, nb = np.linalg.norm(a), np.linalg.norm(b)
        if nb < 1e-9 or na < 1e-9:
            continue
        if min(np.abs(a / na - b / nb).max(), np.abs(a / na + b / nb).max()) > tol:
            return False
    return True


def gaps(vals, k):
    """the first k eigenvalues (sorted) are separated from each other and from the rest."""
    v = np.asarray(vals, float)
    m = max(np.abs(v).max(), 1e-12)
    return all(abs(v[i] - v[i + 1]) > 1e-3 * m for i in range(min(k, len(v) - 1)))


def blocks(Xs, Xt, kernel):
    Z = np.concatenate([Xs, Xt])
    return Z, pairwise_kernels(Z, metric=kernel)


def mmd(ns, nt):
    e = np.concatenate([np.full(ns, 1 / ns), np.full(nt, -1 / nt)])
    return np.outer(e, e)


def tca(Xs, Xt, kernel="rbf", n_components=None, mu=0.1):
    Z, K = blocks(Xs, Xt, kernel)
    n = len(Z)
    k = min(n, Z.shape[1]) if n_components is None else n_components
    H = np.eye(n) - 1 / n
    w, V = np.linalg.eig(np.linalg.solve(np.eye(n) + mu * K @ mmd(len(Xs), len(Xt)) @ K, K @ H @ K))
    o = np.argsort(-np.abs(w))
    return K @ np.real(V[:, o[:k]]), np.real(w[o]), k, lambda Q: pairwise_kernels(Q, Z, metric=kernel) @ np.real(V[:, o[:k]])


def tjm(Xs, Xt, n_components=None, tradeoff=0.01, max_iter=100, kernel="rbf", tol=0.01):
    Z, K = blocks(Xs, Xt, kernel)
    n, ns = len(Z), len(Xs)
    M = mmd(ns, len(Xt))
    M = M / np.linalg.norm(M)
    H = np.eye(n) - 1 / n
    G, last, sep = np.ones(n), np.inf, True
    for _ in range(max_iter):
        phi, A = sl.eigh(K @ M @ K + tradeoff * np.diag(G) + 1e-10 * np.eye(n), K @ H @ K + 1e-10 * np.eye(n))
        sep = sep and gaps(1 / phi, n_components)
        A = A[:, :n_components]
        nr = np.linalg.norm(A, axis=1)
        obj = np.trace(A.T @ K @ M @ K @ A) + tradeoff * (nr[:ns].sum() + (nr[ns:] ** 2).sum())
        G = np.where(np.arange(n) < ns, 1 / (2 * nr + 1e-10), 1.0)
        if abs(last - obj) <= tol * abs(obj):
            break
        last = obj
    return K @ A, sep


def run_closed(sc, r):
    name, kw = CLOSED[sc["closed"]]
    C4 = list(itertools.combinations(range(9), 4))
    Xs = points(C4[sc["src"]])
    Xs = Xs + np.array([[0.07, 0.01], [0.0, -0.05], [-0.03, 0.06], [0.02, 0.04]])  # separates ties
    full = lambda Z: np.linalg.matrix_rank(Z - Z.mean(0), tol=0.3) == 2  # noqa: E731
    for ti in range((sc["src"] * 3 + sc["closed"]) % sc["stride"], len(C4), sc["stride"]):
        nt = 4 - ti % 2  # domains of equal and of different sizes
        Xt = points(C4[ti], 1.5, (2.25, -1.5))[:nt] + np.array([[0.02, 0.0], [0.05, -0.01], [0.0, 0.03], [-0.04, 0.06]])[:nt]
        if not (full(Xs) and full(Xt)):
            continue
        X, sd = lay(Xs, Xt)
        s = sd > 0
        ys = np.array([0, 1, 1, 0])
        y = np.full(4 + nt, -1)
        y[s] = ys
        r.state(name, sc["closed"], sc["src"], ti)
        r.outcome(name, sc["closed"])
        bad = lambda key, want, got: r.fail(key, f"{name} {kw} Xs={Xs.tolist()} Xt={Xt.tolist()}\nwant {np.asarray(want).tolist()}\ngot  {np.asarray(got).tolist()}")  # noqa: E731,B023
        if name in ("EntropicOT", "ClassRegularizerOT", "LinearOT"):
            ad = getattr(skada, name + "MappingAdapter")(**kw)
            if name == "EntropicOT":
                ad.set_params(tol=1e-12, max_iter=20000)
            A = adapt(r, ad, X, y, sd)
            if name == "EntropicOT":
                want, tol = sinkhorn_map(Xs, Xt, **kw), 1e-4
            elif name == "ClassRegularizerOT":
                want, tol = classreg_map(Xs, ys, Xt, **kw), 1e-7
            else:
                b = kw.get("bias", True)
                Cs, ms = cov(Xs, b)
                Ct, mt = cov(Xt, b)
                B, off = bures(ms, mt, Cs + kw["reg"] * np.eye(2), Ct + kw["reg"] * np.eye(2))
                want, tol = Xs @ B + off, 1e-5
                if b and kw["reg"] < 1e-5:
                    Ca, ma = cov(A[s])
                    if not (same(ma, mt, 1e-5) and same(Ca, Ct, 1e-3)):
                        return bad("moments", Ct, Ca)
                new = ad.transform(Xs + 0.5, sample_domain=np.full(4, 1), allow_source=True)
                if not same(new, (Xs + 0.5) @ B + off, 1e-5):
                    return bad("new-sources", (Xs + 0.5) @ B + off, new)
            if not same(A[s], want, tol):
                return bad("mapped-sources", want, A[s])
            if not same(A[~s], Xt):
                return bad("target-moved", Xt, A[~s])
            if name == "ClassRegularizerOT":
                # a new source sample moves with its nearest training source
                Q = Xs[[2, 0]] + 0.01
                got = ad.transform(Q, sample_domain=np.array([1, 1]), allow_source=True)
                if not same(got, A[s][[2, 0]] + 0.01, 0.05):
                    return bad("new-sources", A[s][[2, 0]] + 0.01, got)
        elif name == "MultiLinear":
            sd2 = sd.copy()
            Xb = np.concatenate([X, points(C4[(ti + 17) % 126], 0.8, (-3.0, 1.0)) + np.array([[0.02, 0.0], [0.05, -0.01], [0.0, 0.03], [-0.04, 0.06]])])
            reg = kw.get("reg", 1e-8)
            if reg < 1e-3 and not full(Xb[4 + nt:]):
                continue
            sd2 = np.concatenate([sd2, [3] * 4])
            ad = skada.MultiLinearMongeAlignmentAdapter(**kw)
            A = adapt(r, ad, Xb, np.concatenate([y, [0, 1, 0, 1]]), sd2)
            b = kw.get("bias", True)
            stats = {d: (c + reg * np.eye(2), m) for d in (1, 3, -2) for c, m in [cov(Xb[sd2 == d], b)]}
            m = (stats[1][1] + stats[3][1]) / 2
            S = np.eye(2)
            for _ in range(500):
                h = sq(S)
                hi = np.linalg.inv(h)
                T = (sq(h @ stats[1][0] @ h) + sq(h @ stats[3][0] @ h)) / 2
                S = hi @ T @ T @ hi
            for d in (1, 3, -2):
                B, off = bures(stats[d][1], m, stats[d][0], S)
                if not same(A[sd2 == d], Xb[sd2 == d] @ B + off, 2e-3):
                    return bad("mapped-domain", Xb[sd2 == d] @ B + off, A[sd2 == d])
        elif name == "CORAL":
            ad = skada.CORALAdapter(**kw)
            A = adapt(r, ad, X, y, sd)
            ac = kw.get("assume_centered", False)
            ms, mt = (np.zeros(2), np.zeros(2)) if ac else (Xs.mean(0), Xt.mean(0))
            want = (Xs - ms) @ np.linalg.inv(sq(coral_cov(Xs, **kw))) @ sq(coral_cov(Xt, **kw))
            if not same(A[s], want, 1e-6):
                return bad("mapped-sources", want, A[s])
            if not same(A[~s], Xt - mt, 1e-9):
                return bad("target-rows", Xt - mt, A[~s])
            if kw.get("reg", 0) is None and not same(cov(A[s])[0], cov(Xt)[0], 1e-6):
                return bad("moments", cov(Xt)[0], cov(A[s])[0])
        elif name == "SA":
            ad = skada.SubspaceAlignmentAdapter(random_state=0, **kw)
            A = adapt(r, ad, X, y, sd)
            k = kw.get("n_components", 2)
            ws, Ps = np.linalg.eigh(cov(Xs)[0])
            wt, Pt = np.linalg.eigh(cov(Xt)[0])
            if not (gaps(ws[::-1], 1) and gaps(wt[::-1], 1)):
                continue
            Ps, Pt = Ps[:, ::-1][:, :k], Pt[:, ::-1][:, :k]
            want = np.zeros((4 + nt, k))
            want[~s] = (Xt - Xt.mean(0)) @ Pt
            want[s] = (Xs - Xs.mean(0)) @ Ps @ Ps.T @ Pt
            sg = np.sign((A * want).sum(0))
            if not same(A, want * sg, 1e-7):
                return bad("subspace-coordinates", want * sg, A)
        elif name == "TCA":
            ad = skada.TransferComponentAnalysisAdapter(**kw)
            A = adapt(r, ad, X, y, sd)
            Z, w, k, f = tca(Xs, Xt, **kw)
            if not gaps(w, k):
                continue
            want = np.zeros((4 + nt, k))
            want[s], want[~s] = Z[:4], Z[4:]
            if not same_columns(A, want):
                return bad("components", want, A)
            Q = Xt * 0.5 + 0.3
            got = ad.transform(np.concatenate([Xt, Q]), sample_domain=np.full(2 * nt, -2))
            if not same_columns(got, f(np.concatenate([Xt, Q]))):
                return bad("new-targets", f(Q), got)
        elif name == "TJM":
            ad = skada.TransferJointMatchingAdapter(**kw)
            A = adapt(r, ad, X, y, sd)
            Z, sep = tjm(Xs, Xt, **kw)
            if not sep:
                continue
            want = np.zeros((4 + nt, Z.shape[1]))
            want[s], want[~s] = Z[:4], Z[4:]
            if not same_columns(A, want, 1e-2):
                return bad("components", want, A)
    r.trace()


# ------------------------------------------------------------------ optimised methods
def tsl_objective(W, Xs, ys, Xt, base_method, mu, reg=0.01, length_scale=2):
    def tcov(X):
        X = X - X.mean(0)
        C = X.T @ X / len(X)
        return (1 - reg) * C + reg * np.trace(C) * np.eye(C.shape[0])
    if base_method == "pca":
        f = -np.trace(W.T @ tcov(Xs) @ W)
    elif base_method == "flda":
        Xc = Xs.copy()
        for c in np.unique(ys):
            Xc[ys == c] -= Xs[ys == c].mean(0)
        f = np.trace(W.T @ tcov(Xc) @ W) / np.trace(W.T @ tcov(Xs) @ W)
    else:
        E = np.exp(-np.linalg.norm(Xs[:, None] - Xs[None], axis=2) / length_scale) * (ys[:, None] == ys[None])
        f = sum(E[i, j] * ((Xs[i] @ W - Xs[j] @ W) ** 2).sum() for i in range(len(Xs)) for j in range(len(Xs)))
    if mu == 0:
        return f
    Zs, Zt = Xs @ W, Xt @ W
    S1, S2 = tcov(Zs), tcov(Zt)

    def ker(A, B, S):
        L = np.linalg.cholesky(np.linalg.inv(S))
        return np.exp(-0.5 * np.linalg.norm((A @ L)[:, None] - (B @ L)[None], axis=2)).mean()
    return f + mu * (ker(Zs, Zs, 2 * S1) + ker(Zt, Zt, 2 * S2) - 2 * ker(Zs, Zt, S1 + S2))


def generic(k):
    r = np.random.RandomState(300 + k)
    ns, nt = 6 + k % 2, 5 + k % 3
    A = r.randn(2, 2) + np.eye(2)
    Xs = r.randn(ns, 2) @ A + 1.0
    Xt = r.randn(nt, 2) @ (A * 1.3) + [2.0, -0.5]
    ys = np.array([0, 1, 1, 0, 1, 0, 1])[:ns] * 2 + 1
    return Xs, ys, Xt


def run_opt(sc, r):
    name, kw = OPT[sc["opt"]]
    Xs, ys, Xt = generic(sc["data"])
    if name == "TSL" and sc["data"] % 2:
        ys = np.array([2, 0, 1, 0, 1, 2, 0])[:len(ys)] * 2 + 1
    ns, nt = len(Xs), len(Xt)
    n = ns + nt
    sd = np.array([1 if (i * 5 + 2) % n < ns else -2 for i in range(n)])
    s = sd > 0
    X, y = np.zeros((n, 2)), np.full(n, -1)
    X[s], X[~s], y[s] = Xs, Xt, ys
    r.state(name, sc["opt"], sc["data"])
    r.outcome(name, sc["opt"])
    r.trace()
    if name == "TSL":
        ad = skada.TransferSubspaceLearningAdapter(tol=1e-8, max_iter=300, **kw)
        A = adapt(r, ad, X, y, sd)
        W = np.asarray(ad.transform(np.eye(2), sample_domain=np.array([-2, -2])))
        r.check(same(A, X @ W, 1e-8), "not-one-linear-map", lambda: f"{kw}: {A} / {X @ W}")
        r.check(same(W.T @ W, np.eye(W.shape[1]), 1e-6), "not-orthonormal", lambda: f"{W}")
        args = {k: v for k, v in kw.items() if k != "n_components"}
        if kw["mu"]:
            got, start = (tsl_objective(M, Xs, ys, Xt, **args) for M in (W, np.array([[1.0], [0.0]])))
            grid = [tsl_objective(np.array([[np.cos(t)], [np.sin(t)]]), Xs, ys, Xt, **args) for t in np.linspace(0, np.pi, 721)]
            r.check(got <= start + 1e-6, "objective-worse-than-start", lambda: f"{kw} data {sc['data']}: {got} start {start}")
            # the direction found is a local minimum of the documented objective
            g = np.array(grid[:-1])
            angle = np.degrees(np.arctan2(W[1, 0], W[0, 0])) % 180
            off = min(min(abs(angle - i / 4), 180 - abs(angle - i / 4)) for i in range(720) if g[i] <= g[i - 1] and g[i] <= g[(i + 1) % 720])
            r.check(off <= 1.5, "not-a-local-minimum", lambda: f"{kw} data {sc['data']}: {off} degrees from the nearest local minimum")
        if kw["mu"] == 0:
            got = tsl_objective(W, Xs, ys, Xt, **args)
            grid = [tsl_objective(np.array([[np.cos(t)], [np.sin(t)]]), Xs, ys, Xt, **args) for t in np.linspace(0, np.pi, 721)]
            span = max(grid) - min(grid)
            r.check(got <= min(grid) + 0.02 * span, "objective-not-minimal", lambda: f"{kw} data {sc['data']}: {got} best direction {min(grid)} worst {max(grid)}")
        r.step()
        return
    yr = y
    ad = skada.MMDLSConSMappingAdapter(**kw)
    A = adapt(r, ad, X, yr, sd)
    r.check(same(A[~s], Xt), "target-moved", lambda: f"{A[~s]} / {Xt}")
    # one scale and shift per class
    par = {}
    for c in np.unique(ys):
        Q, P = Xs[ys == c], A[s][ys == c]
        for j in range(2):
            M = np.stack([Q[:, j], np.ones(len(Q))], 1)
            sol, *_ = np.linalg.lstsq(M, P[:, j], rcond=None)
            par[c, j] = sol
            r.check(same(M @ sol, P[:, j], 1e-6), "not-location-scale", lambda: f"{kw} class {c} feature {j}: {Q[:, j]} -> {P[:, j]}")  # noqa: B023
    g, lam = kw["gamma"], kw.get("reg_m", 1e-10)
    L = np.exp(-g * np.linalg.norm(Xs[:, None] - Xs[None], axis=2))
    om = L @ np.linalg.inv(L + 1e-10 * np.eye(ns))

    def objective(Xn, W, B):
        K = np.exp(-g * np.linalg.norm(Xn[:, None] - Xn[None], axis=2))
        Kc = np.exp(-g * np.linalg.norm(Xt[:, None] - Xn[None], axis=2))
        return (om @ K @ om.T).sum() / ns ** 2 - 2 / (ns * nt) * (Kc @ om.T).sum() + lam / ns * (((W - 1) ** 2).sum() + (B ** 2).sum())

    W = np.stack([[par[c, j][0] for j in range(2)] for c in ys])
    B = np.stack([[par[c, j][1] for j in range(2)] for c in ys])
    a, b = objective(A[s], W, B), objective(Xs, np.ones_like(W), np.zeros_like(B))
    r.check(a <= b + 1e-9, "worse-than-identity", lambda: f"{kw} data {sc['data']}: objective {a} at the mapping, {b} without mapping")
    r.step()


def run(sc, r):
    (run_exact if "exact" in sc else run_closed if "closed" in sc else run_opt)(sc, r)
