import itertools

import numpy as np
from sklearn.ensemble import RandomForestClassifier
from sklearn.linear_model import LogisticRegression
from sklearn.metrics.pairwise import pairwise_kernels
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KernelDensity

import skada
from mc.checks.p13 import GRID, coral_cov
from mc.util import raises, same

ID = "P14"
TECHNIQUE = ("exhaustive enumeration of small grid source/target point sets, interleavings, methods and options, executed on the real adapters and compared with explicit "
             "density-ratio formulas and with exhaustive active-set enumeration for the constrained problems")
LEVEL = "model_checking"
NOTE = "Every grid configuration within the bound is weighted by the real code; quadratic problems are solved by enumerating all active sets."
ASSUMPTIONS = ["nearest-neighbour ties may be broken either way", "iterative solvers are judged by feasibility and objective value, the likelihood method for the centers it reports",
               "scikit-learn's density estimators and classifiers are trusted", "nearest-neighbour weighting is checked for one neighbour"]

SHAPES = [(4, 3), (3, 4)]
LAYS = {(4, 3): [(1, 1, 1, 1, -2, -2, -2), (-2, 1, 1, -2, 1, -2, 1), (-2, -2, -2, 1, 1, 1, 1)], (3, 4): [(1, -2, 1, -2, -2, 1, -2), (-2, 1, -2, 1, -2, 1, -2), (0, 0, 0, -3, -3, -3, -3)]}
OPTS = [("Density", {}), ("Density", {"bw": 0.5}), ("Density", {"bw": 0.6, "kernel": "tophat"}),
        ("Gaussian", {"reg": 0.2}), ("Gaussian", {}), ("Discriminator", {}), ("Discriminator", {"clf": "NB"}), ("Discriminator", {"clf": "RF"}),
        ("KLIEP", {"gamma": 0.7}), ("KLIEP", {"gamma": "scale"}), ("KLIEP", {"gamma": "auto", "n_centers": 2}), ("KLIEP", {"gamma": [1e6, 1.0], "cv": 2}), ("KLIEP", {"gamma": [0.8, 1e7], "cv": 3}),
        ("NN", {}), ("NN", {"laplace_smoothing": True}), ("NN", {"p": 1}), ("NN", {"metric": "chebyshev", "weights": "distance"}),
        ("KMM", {"gamma": 0.5}), ("KMM", {"gamma": 0.5, "solver": "scipy"}), ("KMM", {"kernel": "linear", "eps": 0.1, "B": 1.5, "solver": "scipy"}), ("KMM", {"gamma": 1.0, "B": 1.2, "eps": 0.3}),
        ("KMM", {"kernel": "poly", "degree": 2, "coef0": 0.5, "gamma": 0.3, "eps": 0.0, "B": 10.0, "solver": "scipy"}), ("KMM", {"gamma": 0.5, "smooth_weights": True}),
        ("MMDTarS", {"gamma": 0.5}), ("MMDTarS", {"gamma": 1.0, "reg": 0.1}), ("MMDTarS", {"gamma": 0.5, "real": True})]


def BOUNDS(tier):
    return "all source sets of a 3x3 grid x every %s target set, shapes %s, %d option sets, %d interleavings" % (
        "19th" if tier == "quick" else "2nd", SHAPES, len(OPTS), 3)


def scenarios(tier):
    out = []
    for o, (name, kw) in enumerate(OPTS):
        for shape in SHAPES:
            S = list(itertools.combinations(range(9), shape[0]))
            slow = name in ("MMDTarS", "KMM") or kw.get("clf") == "RF"
            for si in range(len(S)):
                if slow and tier == "quick" and (si + o) % 3:
                    continue
                out.append({"opt": o, "shape": list(shape), "src": si, "stride": (29 if slow else 19) if tier == "quick" else (5 if slow else 2)})
    return out


def pts(idx, eps, scale=1.0, shift=(0.0, 0.0)):
    P = np.array([GRID[i] for i in idx]) * scale + np.array(shift)
    return P + eps * np.array([[0.07, 0.01], [0.0, -0.05], [-0.03, 0.06], [0.02, 0.04]])[:len(P)]


def gauss(X, m, C):
    d = X - m
    return np.exp(-0.5 * np.einsum("ij,jk,ik->i", d, np.linalg.inv(C), d)) / np.sqrt(np.linalg.det(2 * np.pi * C))


def active_set(K, kappa, lb, ub, lo, hi):
    """min 1/2 w'Kw - kappa'w, lb<=w<=ub, lo<=sum(w)<=hi by enumeration of all active sets."""
    n = len(kappa)
    best, arg = np.inf, None
    for st in itertools.product((0, 1, 2), repeat=n):
        w0 = np.array([lb if s == 0 else ub if s == 1 else 0.0 for s in st])
        F = [i for i in range(n) if st[i] == 2]
        for total in (None, lo, hi):
            w = w0.copy()
            if F:
                A = K[np.ix_(F, F)]
                rhs = kappa[F] - K[np.ix_(F, range(n))] @ w0
                if total is None:
                    sol = np.linalg.lstsq(A, rhs, rcond=None)[0]
                else:
                    M = np.block([[A, np.ones((len(F), 1))], [np.ones((1, len(F))), np.zeros((1, 1))]])
                    sol = np.linalg.lstsq(M, np.append(rhs, total - w0.sum()), rcond=None)[0][:-1]
                w[F] = sol
            if (w < lb - 1e-9).any() or (w > ub + 1e-9).any() or not lo - 1e-9 <= w.sum() <= hi + 1e-9:
                continue
            v = 0.5 * w @ K @ w - kappa @ w
            if v < best:
                best, arg = v, w
    return best, arg


def run(sc, r):
    name, kw = OPTS[sc["opt"]]
    shape = tuple(sc["shape"])
    ns, nt = shape
    S = list(itertools.combinations(range(9), ns))
    T = list(itertools.combinations(range(9), nt))
    r.trace()
    for q, ti in enumerate(range(sc["src"] % sc["stride"], len(T), sc["stride"])):
        tie_free = name != "NN" or (sc["src"] + ti) % 3 == 0
        Xs = pts(S[sc["src"]], 1.0 if tie_free else 0.0)
        Xt = pts(T[ti], -0.5 if tie_free else 0.0, 1.0, (0.5, 0.25) if name != "NN" else (0.0, 0.5) if q % 2 else (0.0, 0.0))
        sd = np.array(LAYS[shape][(q + sc["src"]) % 3])
        s = sd >= 0
        X = np.zeros((7, 2))
        X[s], X[~s] = Xs, Xt
        y = np.full(7, -1)
        cls = [(0, 1), (3, 7), (1, 0)][q % 3]
        y[s] = [cls[i % 2] for i in range(ns)]
        if kw.get("real"):
            y = np.where(s, np.arange(7) * 0.7 + 0.1, np.nan)
        judge(r, name, kw, Xs, Xt, X, y, sd, s)
        r.step()
        r.state(sc["opt"], shape, sc["src"], ti)
        if r.failures:
            return
    r.outcome(sc["opt"], shape)


def judge(r, name, kw, Xs, Xt, X, y, sd, s):
    ns, nt = len(Xs), len(Xt)
    what = lambda: f"{name} {kw} Xs={Xs.tolist()} Xt={Xt.tolist()} sd={sd.tolist()}"  # noqa: E731
    kws = dict(kw)
    if name == "Density":
        we = None if not kw else KernelDensity(bandwidth=kw["bw"], kernel=kw.get("kernel", "gaussian"))
        ad = skada.DensityReweightAdapter(we) if we is not None else skada.DensityReweightAdapter()
    elif name == "Discriminator":
        clf = {"NB": GaussianNB(), "RF": RandomForestClassifier(n_estimators=4, random_state=0)}.get(kw.get("clf"))
        ad = skada.DiscriminatorReweightAdapter(clf)
    elif name == "NN":
        ad = skada.NearestNeighborReweightAdapter(**kw)
    elif name == "MMDTarS":
        kws.pop("real", None)
        ad = skada.MMDTarSReweightAdapter(**kws)
    elif name == "KLIEP":
        ad = skada.KLIEPReweightAdapter(random_state=0, **kw)
    else:
        ad = getattr(skada, name + "ReweightAdapter")(**kw)
    Xo, params = ad.fit_transform(X, y, sample_domain=sd)
    w = params["sample_weight"]
    ok = r.check(same(Xo, X), "features-changed", what)
    ok &= r.check(w.shape == (7,) and np.isfinite(w).all() and (w >= -1e-9).all(), "bad-weights", lambda: f"{what()}: {w}")
    ok &= r.check(np.abs(w[~s]).max() <= 1e-12, "target-weight", lambda: f"{what()}: {w}")
    if not ok:
        return
    w = w[s]
    want = None
    tol = 1e-6
    if name == "Density":
        h = kw.get("bw", 1.0)
        def kde(Q, Z):
            d = np.linalg.norm(Q[:, None] - Z[None], axis=2)
            return (d < h).mean(1) if kw.get("kernel") == "tophat" else np.exp(-0.5 * (d / h) ** 2).mean(1)
        ratio = kde(Xs, Xt) / kde(Xs, Xs)
        if ratio.sum() == 0:
            r.check(np.ptp(w) == 0 and w[0] > 0, "all-zero-density", lambda: f"{what()}: {w}")
            return
        want = ratio / ratio.mean()
        Q = X[::-1]
        got = ad.compute_weights(Q, sample_domain=sd[::-1])
        r.check(same(got[::-1][s], want, 1e-6), "weights-of-reordered-batch", lambda: f"{what()}: {got[::-1][s]} want {want}")
    elif name == "Gaussian":
        reg = kw.get("reg", "auto")
        Cs, Ct = coral_cov(Xs, reg), coral_cov(Xt, reg)
        if min(np.linalg.det(Cs), np.linalg.det(Ct)) < 1e-4:
            return
        want = gauss(Xs, Xt.mean(0), Ct) / gauss(Xs, Xs.mean(0), Cs)
        Q = Xs * 0.7 + 0.2
        got = ad.compute_weights(np.concatenate([Q, Xt]), sample_domain=np.array([1] * ns + [-2] * nt))
        r.check(same(got[:ns], gauss(Q, Xt.mean(0), Ct) / gauss(Q, Xs.mean(0), Cs), 1e-6), "weights-of-new-sources", lambda: f"{what()}: {got}")
    elif name == "Discriminator":
        if kw.get("clf") == "RF":
            c = RandomForestClassifier(n_estimators=4, random_state=0).fit(X, (~s).astype(int))
            p = np.clip(c.predict_proba(Xs)[:, 1], np.finfo(float).eps, 1 - np.finfo(float).eps)
        elif kw.get("clf") == "NB":
            def like(Q, Z):
                v = Z.var(0) + 1e-9 * X.var(0).max()
                return len(Z) * np.exp(-0.5 * (((Q - Z.mean(0)) ** 2) / v).sum(1)) / np.sqrt(v.prod())
            a, b = like(Xs, Xt), like(Xs, Xs)
            p = np.clip(a / (a + b), np.finfo(float).eps, 1 - np.finfo(float).eps)
            tol = 1e-4
        else:
            # logistic regression: stationarity of the regularised likelihood, solved independently by Newton steps
            Z = np.concatenate([np.ones((7, 1)), X], 1)
            t = (~s).astype(float)
            th = np.zeros(3)
            R = np.diag([0.0, 1.0, 1.0])
            for _ in range(60):
                pr = 1 / (1 + np.exp(-Z @ th))
                th = th - np.linalg.solve(Z.T @ (Z * (pr * (1 - pr))[:, None]) + R, Z.T @ (pr - t) + R @ th)
            p = 1 / (1 + np.exp(-Z[s] @ th))
            tol = 2e-3
        want = p / (1 - p)
        want = want / want.mean()
    elif name == "KLIEP":
        Xall = X
        g = {"scale": 1 / (2 * Xall.var()), "auto": 0.5}.get(kw["gamma"]) if isinstance(kw["gamma"], str) else kw["gamma"]
        if isinstance(g, list):
            g = [q for q in g if q < 100][0]  # a degenerate bandwidth explains no held-out sample
        cen = np.asarray(ad.centers_)
        r.check(len(cen) == min(nt, kw.get("n_centers", 100)), "number-of-centers", lambda: f"{what()}: {cen}")
        r.check(all((np.abs(Xt - c).sum(1) < 1e-12).any() for c in cen), "center-not-a-target", lambda: f"{what()}: {cen}")
        A, B = pairwise_kernels(Xt, cen, metric="rbf", gamma=g), pairwise_kernels(Xs, cen, metric="rbf", gamma=g)
        b = B.mean(0)
        alpha = np.ones(len(cen)) / b.sum()
        for _ in range(4000):
            alpha = alpha * (A.T @ (1 / (A @ alpha))) / (nt * b)
            alpha /= b @ alpha
        best = np.log(A @ alpha).mean()
        r.check(same(w.mean(), 1.0, 1e-6), "not-normalised", lambda: f"{what()}: {w}")
        # weights of the targets, obtained by presenting them as sources
        wt = ad.compute_weights(np.concatenate([Xt, Xs]), sample_domain=np.array([1] * nt + [-2] * ns))[:nt]
        obj = np.log(np.maximum(wt, 1e-300)).mean()
        r.check(best - 0.02 <= obj <= best + 1e-6, "likelihood-not-maximal", lambda: f"{what()}: {obj} best {best} (gamma {g})")
        # the source weights are the same function
        al = np.linalg.lstsq(np.concatenate([A, B]), np.concatenate([wt, w]), rcond=None)[0]
        r.check(same(np.concatenate([A, B]) @ al, np.concatenate([wt, w]), 1e-6), "not-a-kernel-mixture", lambda: f"{what()}: {w} {wt}")
        return
    elif name == "NN":
        lap = float(kw.get("laplace_smoothing", False))
        diff = np.abs(Xt[:, None] - Xs[None])
        D = diff.max(2) if kw.get("metric") == "chebyshev" else diff.sum(2) if kw.get("p") == 1 else (diff ** 2).sum(2)
        near = D <= D.min(1, keepdims=True) + 1e-9
        sure = (near & (near.sum(1, keepdims=True) == 1)).sum(0)
        lo, hi = sure + lap, near.sum(0) + lap
        r.check(same(w.sum(), nt + ns * lap, 1e-9) and (w >= lo - 1e-9).all() and (w <= hi + 1e-9).all() and same(w, np.round(w)), "neighbour-counts", lambda: f"{what()}: {w} between {lo} and {hi}")
        return
    elif name == "KMM":
        kern = {k: v for k, v in kw.items() if k in ("gamma", "degree", "coef0")}
        kern.setdefault("degree", 3)
        kern.setdefault("coef0", 1)
        kern.setdefault("gamma", None)
        K = lambda a, b: pairwise_kernels(a, b, metric=kw.get("kernel", "rbf"), filter_params=True, **kern)  # noqa: E731
        Kss, kappa = K(Xs, Xs), ns * K(Xs, Xt).mean(1)
        eps = kw.get("eps", (np.sqrt(ns) - 1) / np.sqrt(ns))
        if kw.get("smooth_weights"):
            w = np.linalg.solve(Kss, w)
        B = kw.get("B", 1000.0)
        best, arg = active_set(Kss, kappa, 0.0, B, ns * (1 - eps), ns * (1 + eps))
        val = 0.5 * w @ Kss @ w - kappa @ w
        lim = 1e-3 if kw.get("solver") == "scipy" else 5e-3
        r.check((w >= -1e-6).all() and (w <= B + 1e-6).all() and ns * (1 - eps) - 1e-4 <= w.sum() <= ns * (1 + eps) + 1e-4, "infeasible-weights", lambda: f"{what()}: {w} eps {eps}")
        r.check(val <= best + lim * max(1, abs(best)), "objective-not-minimal", lambda: f"{what()}: {val} at {w}, best {best} at {arg}")
        return
    elif name == "MMDTarS":
        g, reg = kw["gamma"], kw.get("reg", 1e-10)
        w = w - 1e-13
        ys = y[s].astype(float)
        L = np.exp(-g * (ys[:, None] - ys[None]) ** 2)
        om = L @ np.linalg.inv(L + reg * np.eye(ns))
        Q = om @ pairwise_kernels(Xs, Xs, metric="rbf", gamma=g) @ om.T
        lin = ns / nt * (np.ones((1, nt)) @ pairwise_kernels(Xt, Xs, metric="rbf", gamma=g) @ om.T).ravel()
        eps = 10 / (4 * np.sqrt(ns))
        f = lambda v: 0.5 * v @ Q @ v - lin @ v  # noqa: E731
        r.check((w >= -1e-6).all() and (w <= 10 + 1e-6).all(), "infeasible-weights", lambda: f"{what()}: {w}")
        if not kw.get("real"):
            r.check(w.sum() <= ns * (1 + eps) + 1e-5, "infeasible-weights", lambda: f"{what()}: {w}")
            cl = np.unique(ys)
            R = (ys[:, None] == cl[None]).astype(float)
            r.check(all(np.ptp(w[ys == c]) < 1e-9 for c in cl), "not-one-weight-per-class", lambda: f"{what()} y={y}: {w}")
            P, q = R.T @ Q @ R, R.T @ lin
            best = min((0.5 * np.array(a) @ P @ np.array(a) - q @ np.array(a) for a in itertools.product(np.linspace(0, 10, 81), repeat=2)
                        if sum(a) >= ns * (1 - eps) - 1e-9 and R.sum(0) @ np.array(a) <= ns * (1 + eps) + 1e-9), default=np.inf)
            r.check(f(w) <= best + 1e-3 * max(1, abs(best)), "objective-not-minimal", lambda: f"{what()} y={y}: {f(w)} at {w}, a grid point reaches {best}")
        else:
            r.check(f(w) <= f(np.ones(ns)) + 1e-6, "worse-than-uniform", lambda: f"{what()} y={y}: {f(w)} at {w}, uniform {f(np.ones(ns))}")
        return
    r.check(same(w, want, tol), "weights-differ", lambda: f"{what()}: {w} want {want}")


_ = (LogisticRegression, raises)
