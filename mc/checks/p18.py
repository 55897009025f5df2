import itertools
import math

import numpy as np
from scipy.spatial.distance import cdist
from sklearn.base import clone
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KNeighborsClassifier
from sklearn.preprocessing import StandardScaler
from sklearn.svm import SVC

import skada
from mc import probes as P
from mc.util import raises, same
from skada import JCPOTLabelPropAdapter, JDOTClassifier, JDOTRegressor, OTLabelPropAdapter, make_da_pipeline

ID = "P18"
TECHNIQUE = ("exhaustive enumeration of source subsets, target subsets, label assignments, weights, interleavings and options; every instance is solved independently by enumerating all transport "
             "vertices (or by an own scaling iteration) and the real method's labels, training sets, objective histories and predictions are compared with that solution")
LEVEL = "model_checking"
NOTE = "Exact transport is decided by enumeration of every assignment of unit masses; the alternating optimisation is replayed step by step by a reference loop."
ASSUMPTIONS = ["instances whose optimal plan is not unique are only checked for label validity", "regularised plans are compared where the winning class is separated by 1e-6",
               "multi-source label propagation needs every class in every source domain", "the base learners used inside joint distribution transport are trusted"]

PS = np.array([(0.0, 0.1), (1.03, 0.2), (0.4, 1.1), (2.2, 0.9), (1.7, 2.05), (-0.8, 0.63)])
PT = np.array([(0.9, 1.0), (2.0, 0.31), (1.21, 2.3), (3.05, 1.57), (0.13, -0.7), (-0.44, 1.9)])
ALPH = {"01": (0, 1), "73": (7, 3), "125": (1, 2, 5), "90": (9, 0), "f": (2.0, 1.0)}
SHAPES = [(3, 3), (4, 2), (2, 4), (3, 2), (4, 4)]
DOMS = [((1,), (-2,)), ((0, 3), (-1, -4)), ((2, 1), (-5,))]


def BOUNDS(tier):
    return "source/target sets of 2-4 generic points (all source subsets of %d points, %s target subsets), all label assignments over 5 alphabets, integer weights, 3 interleavings; <= 100 alternations" % (
        5 if tier == "quick" else 6, "strided" if tier == "quick" else "all")


def scenarios(tier):
    q = tier == "quick"
    out = []
    for si, (ns, nt) in enumerate(SHAPES):
        for ci, _ in enumerate(itertools.combinations(range(5 if q else 6), ns)):
            for al in ALPH:
                out.append({"what": "otlp", "shape": si, "src": ci, "al": al, "q": q})
            out.append({"what": "otlp-reg", "shape": si, "src": ci, "q": q})
            out.append({"what": "otlp-sink", "shape": si, "src": ci, "q": q})
            for cfg in range(len(CFG)):
                out.append({"what": "jdot", "shape": si, "src": ci, "cfg": cfg, "q": q})
            for cfg in range(len(RCFG)):
                out.append({"what": "jdotr", "shape": si, "src": ci, "cfg": cfg, "q": q})
    for al in ALPH:
        for k in range(len(JC) if q else len(JC) * 4):
            out.append({"what": "jcpot", "al": al, "k": k, "q": q})
    return out


# ------------------------------------------------------------------ exact transport oracle
_PERM = {}


def perms(n):
    if n not in _PERM:
        _PERM[n] = np.array(list(itertools.permutations(range(n))))
    return _PERM[n]


def exact(M, a, b):
    """(best cost, best plan or None when not unique, list of near-optimal plans); a, b integer masses with equal sums."""
    I, J = np.repeat(np.arange(len(a)), a), np.repeat(np.arange(len(b)), b)  # noqa: E741
    L = len(I)
    pm = perms(L)
    cost = M[I[None, :], J[pm]].sum(1) / L
    best = cost.min()
    near = {}
    for p in pm[cost < best + 1e-7]:
        G = np.zeros(M.shape)
        np.add.at(G, (I, J[p]), 1 / L)
        near[G.tobytes()] = G
    plans = list(near.values())
    return best, plans[0] if len(plans) == 1 else None, plans


def masses(ns, nt, weights):
    if weights is None:
        L = math.lcm(ns, nt)
        return [L // ns] * ns, [L // nt] * nt
    return weights


def weightings(ns, nt):
    yield None
    if (ns, nt) == (3, 3):
        yield [1, 2, 1], [2, 1, 1]
        yield [3, 1, 1], [1, 1, 3]
    if (ns, nt) == (3, 2):
        yield [2, 1, 1], [1, 3]
    if (ns, nt) == (4, 2):
        yield [2, 1, 1, 1], [1, 4]
    if (ns, nt) == (2, 4):
        yield [3, 2], [1, 2, 1, 1]


def arrange(Xs, Xt, k):
    """interleaved positions and domain labels."""
    ns, nt = len(Xs), len(Xt)
    n = ns + nt
    order = {0: list(range(n)), 1: [i for p in itertools.zip_longest(range(ns, n), range(ns)) for i in p if i is not None], 2: list(range(n))[::-1]}[k % 3]
    S, T = DOMS[k % 3]
    d = np.array([S[i % len(S)] for i in range(ns)] + [T[i % len(T)] for i in range(nt)])
    src = np.array([i < ns for i in order])
    idx_s = [i for i in order if i < ns]
    idx_t = [i - ns for i in order if i >= ns]
    return np.concatenate([Xs, Xt])[order], d[order], src, idx_s, idx_t, np.array(order)


def cases(sc):
    ns, nt = SHAPES[sc["shape"]]
    pool = 5 if sc["q"] else 6
    Xs = PS[list(list(itertools.combinations(range(pool), ns))[sc["src"]])]
    T = list(itertools.combinations(range(len(PT)), nt))
    for ti in range(sc["src"] % 6 if sc["q"] else 0, len(T), 6 if sc["q"] else 1):
        yield ti, Xs, PT[list(T[ti])]


def labellings(al, n, q):
    A = ALPH[al]
    out = [v for v in itertools.product(A, repeat=n) if len(set(v)) > 1]
    return [np.array(v) for v in (out[:: max(1, len(out) // 6)] if q else out)]


def winners(mass, classes, tol=1e-9):
    return [set(np.asarray(classes)[row >= row.max() - tol].tolist()) for row in mass]


METRICS = {"sqeuclidean": "sqeuclidean", "euclidean": "euclidean", "cityblock": "cityblock"}


def run_otlp(sc, r):
    for ti, Xs, Xt in cases(sc):
        for li, ys in enumerate(labellings(sc["al"], len(Xs), sc["q"])):
            classes = np.unique(ys)
            for wi, w in enumerate(weightings(len(Xs), len(Xt))):
                a, b = masses(len(Xs), len(Xt), w)
                metric = list(METRICS)[(li + wi + ti) % 3]
                M = cdist(Xs, Xt, metric)
                best, plan, plans = exact(M, a, b)
                k = li + ti
                X, sd, src, is_, it, order = arrange(Xs, Xt, k)
                y = np.full(len(X), -1, dtype=ys.dtype)
                y[src] = ys[is_]
                kw = {}
                if w is not None:
                    wv = np.concatenate([np.array(a) * 0.7, np.array(b) * 2.5])[order]
                    kw = {"sample_weight": wv}
                ad = OTLabelPropAdapter(metric=metric, reg=(None, 0)[k % 2])
                X0, y0 = X.copy(), y.copy()
                res, e = raises(lambda: ad.fit_transform(X, y, sample_domain=sd, **kw))  # noqa: B023
                r.step()
                if e is not None:
                    r.fail("otlp", f"{sc} {e!r}")
                    return
                Xo, yo, extra = res
                ctx = lambda: f"{sc} target set {ti} labels {ys} weights {w} metric {metric} order {order}: {np.asarray(yo).tolist()}"  # noqa: E731, B023
                r.check(same(Xo, X0) and same(X, X0) and same(y, y0), "inputs-changed", ctx)
                yo = np.asarray(yo)
                r.check((yo[src] == -1).all(), "source-not-masked", ctx)
                r.check(np.isin(yo[~src], classes).all(), "label-not-from-source", ctx)
                r.check(len(yo) == len(y) and ("sample_weight" not in extra) == (w is None) and (w is None or same(extra["sample_weight"], wv)), "weights-lost", ctx)  # noqa: B023
                onehot = (ys[:, None] == classes[None]).astype(float)
                ok = [winners(G.T @ onehot, classes) for G in plans]
                got = [yo[~src][j] for j in range(len(Xt))]
                r.check(any(all(g in W[it[j]] for j, g in enumerate(got)) for W in ok) or len(plans) > 1, "transported-label", ctx)  # noqa: B023
                G = getattr(ad, "G_", None)
                if G is not None:
                    Mo, ao, bo = M[np.ix_(is_, it)], np.array(a)[is_] / sum(a), np.array(b)[it] / sum(b)
                    r.check(same(G.sum(1), ao, 1e-8) and same(G.sum(0), bo, 1e-8) and (G >= -1e-12).all(), "marginals", ctx)
                    r.check(abs((G * Mo).sum() - best) < 1e-7, "not-optimal", ctx)
                    r.check(all(g in W for g, W in zip(got, winners(G.T @ onehot[is_], classes))), "argmax", ctx)
                r.state("otlp", sc, ti, li, wi)
                if wi == 0:
                    downstream(sc, r, ad, X, y, sd, src, yo, ctx)
                if r.failures:
                    return
    r.trace()
    r.outcome("otlp", sc["shape"], sc["al"])


def downstream(sc, r, ad, X, y, sd, src, yo, ctx):
    """the final estimator is trained on the target rows with the propagated labels, in order."""
    if "metric" not in ad.get_params():
        return
    P.LOG.clear()
    pipe = make_da_pipeline(clone(ad), P.C())
    _, e = raises(lambda: pipe.fit(X, y, sample_domain=sd))
    fits = [q for q in P.LOG if q[0] == "fit"]
    if r.check(e is None and len(fits) == 1, "final-fit", lambda: f"{ctx()} {e!r}"):
        r.check(same(fits[0][2], X[~src]) and same(fits[0][3], yo[~src]), "final-training-set", lambda: f"{ctx()} final estimator got {fits[0][2].tolist()} {fits[0][3].tolist()}")
    ad_cls = type(ad)
    wrap = {OTLabelPropAdapter: skada.OTLabelProp, JCPOTLabelPropAdapter: skada.JCPOTLabelProp}[ad_cls]
    kw = ad.get_params()
    if ad_cls is OTLabelPropAdapter:
        kw["reg"] = kw["reg"] or 0
    reg = np.asarray(y).dtype.kind == "f" and np.isnan(y).any()
    base = LinearRegression() if reg else KNeighborsClassifier(1)
    p2 = wrap(base_estimator=base, **kw)
    _, e = raises(lambda: p2.fit(X, y, sample_domain=sd))
    if not r.check(e is None, "wrapper-fit", lambda: f"{ctx()} {e!r}"):
        return
    Q = np.concatenate([PT, PS])
    want = clone(base).fit(X[~src], yo[~src]).predict(Q)
    r.check(same(p2.predict(Q), want, 1e-8), "wrapper-predict", lambda: f"{ctx()} {p2.predict(Q)} want {want}")
    r.check(not hasattr(base, "n_features_in_"), "base-fitted", ctx)
    if not reg:
        if len(np.unique(yo[~src])) > 1:
            p3 = wrap(**kw)
            _, e = raises(lambda: p3.fit(X, y, sample_domain=sd))
            d = (SVC(kernel="rbf") if ad_cls is OTLabelPropAdapter else LogisticRegression()).fit(X[~src], yo[~src])
            r.check(e is None and same(p3.predict(Q), d.predict(Q)), "wrapper-default", lambda: f"{ctx()} {e!r}")
    r.step(3)


def run_otlp_reg(sc, r):
    for ti, Xs, Xt in cases(sc):
        for li, ys in enumerate([np.array(v[:len(Xs)]) for v in itertools.permutations((0.37, -1.25, 2.5, 4.75), 4)][::5]):
            for wi, w in enumerate(weightings(len(Xs), len(Xt))):
                a, b = masses(len(Xs), len(Xt), w)
                metric = list(METRICS)[(li + wi + ti) % 3]
                M = cdist(Xs, Xt, metric)
                best, plan, plans = exact(M, a, b)
                if plan is None:
                    continue
                X, sd, src, is_, it, order = arrange(Xs, Xt, li + ti)
                y = np.full(len(X), np.nan)
                y[src] = ys[is_]
                kw = {} if w is None else {"sample_weight": np.concatenate([np.array(a) * 0.7, np.array(b) * 2.5])[order]}
                ad = OTLabelPropAdapter(metric=metric)
                (Xo, yo, extra), e = raises(lambda: ad.fit_transform(X, y, sample_domain=sd, **kw))  # noqa: B023
                r.step()
                want = (plan.T @ ys / plan.sum(0))[it]
                ctx = lambda: f"{sc} target set {ti} labels {ys} weights {w} {metric}: {yo} want {want}"  # noqa: E731, B023
                r.check(same(Xo, X) and np.isnan(yo[src]).all(), "source-not-masked", ctx)
                r.check(same(yo[~src], want, 1e-7), "transported-average", ctx)
                r.state("otlp-reg", sc, ti, li, wi)
                if wi == 0:
                    downstream(sc, r, ad, X, y, sd, src, yo, ctx)
                if r.failures:
                    return
    r.trace()
    r.outcome("otlp-reg", sc["shape"])


def sinkhorn(M, a, b, reg, n=2000):
    """own log-domain scaling iteration."""
    f, g = np.zeros(len(a)), np.zeros(len(b))
    la, lb = np.log(a), np.log(b)

    def lse(Z, ax):
        m = Z.max(ax, keepdims=True)
        return (m + np.log(np.exp(Z - m).sum(ax, keepdims=True))).squeeze(ax)
    for _ in range(n):
        f0 = f
        f = la - lse(g[None] - M / reg, 1)
        g = lb - lse(f[:, None] - M / reg, 0)
        if np.abs(f - f0).max() < 1e-11:
            break
    return np.exp(f[:, None] + g[None] - M / reg)


def run_sink(sc, r):
    for ti, Xs, Xt in cases(sc):
        for reg in (5.0, 1.0):
            for w in weightings(len(Xs), len(Xt)):
                a, b = masses(len(Xs), len(Xt), w)
                M = cdist(Xs, Xt, "sqeuclidean")
                G = sinkhorn(M, np.array(a) / sum(a), np.array(b) / sum(b), reg)
                for li, ys in enumerate(labellings("125", len(Xs), True)[:: 3 if sc["q"] else 1]):
                    classes = np.unique(ys)
                    X, sd, src, is_, it, order = arrange(Xs, Xt, li)
                    y = np.full(len(X), -1)
                    y[src] = ys[is_]
                    kw = {} if w is None else {"sample_weight": np.concatenate([np.array(a) * 0.7, np.array(b) * 2.5])[order]}
                    _, yo, _ = OTLabelPropAdapter(reg=reg, n_iter_max=3000).fit_transform(X, y, sample_domain=sd, **kw)
                    r.step()
                    W = winners(G.T @ (ys[:, None] == classes[None]), classes, 1e-6)
                    r.check(all(g in W[it[j]] for j, g in enumerate(yo[~src])), "regularised-label", lambda: f"{sc} target set {ti} reg {reg} weights {w} labels {ys}: {yo} want {W}")  # noqa: B023
                yr = np.array([0.37, -1.25, 2.5, 4.75])[:len(Xs)]
                X, sd, src, is_, it, order = arrange(Xs, Xt, 1)
                y = np.full(len(X), np.nan)
                y[src] = yr[is_]
                kw = {} if w is None else {"sample_weight": np.concatenate([np.array(a) * 0.7, np.array(b) * 2.5])[order]}
                _, yo, _ = OTLabelPropAdapter(reg=reg, n_iter_max=3000).fit_transform(X, y, sample_domain=sd, **kw)
                want = (G.T @ yr / G.sum(0))[it]
                r.check(same(yo[~src], want, 1e-4), "regularised-average", lambda: f"{sc} target set {ti} reg {reg} weights {w}: {yo} want {want}")  # noqa: B023
                r.state("sink", sc, ti, reg, w)
        if r.failures:
            return
    r.trace()
    r.outcome("sink", sc["shape"])


# ------------------------------------------------------------------ joint distribution transport
CFG = [(LogisticRegression(), "multinomial", {}), (LogisticRegression(C=5.0), "multinomial", {"alpha": 0.9, "tol": 1e-3}), (GaussianNB(var_smoothing=0.3), "multinomial", {"alpha": 0.2, "n_iter_max": 3}),
       (SVC(kernel="linear", tol=1e-7), "hinge", {"n_iter_max": 4}), (LogisticRegression(), "hinge", {"alpha": 0.7, "n_iter_max": 5, "thr_weights": 0.4}),
       (LogisticRegression(), "multinomial", {"n_iter_max": 1}), (None, "multinomial", {"tol": 1e-9, "n_iter_max": 6, "alpha": 1.0})]
RCFG = [(None, {}), (Ridge(alpha=0.3), {"alpha": 0.9, "tol": 1e-4}), (Ridge(alpha=0.1), {"alpha": 0.1, "n_iter_max": 3}), (LinearRegression(), {"n_iter_max": 1}), (Ridge(alpha=1.0), {"alpha": 1.0, "n_iter_max": 5, "tol": 0.05})]


def two_dim(dec):
    return np.stack([-dec, dec], 1) if dec.ndim == 1 else dec


def jdot_loop(base, Xs, ys, Xt, a, b, alpha, metric, n_iter, tol, thr, reg=False, wt=None):
    """reference alternation; returns None when some transport step has several solutions."""
    Mf = cdist(Xs, Xt, "sqeuclidean")
    Mf = Mf / Mf.mean()
    a_, b_ = np.array(a), np.array(b)
    nt = len(Xt)
    classes = np.unique(ys)
    Y = (ys[:, None] == classes[None]).astype(float)
    est = clone(base)
    Ml = (np.repeat(ys[:, None] ** 2, nt, 1) if reg else np.full(Mf.shape, 10.0))
    L1, L2, fits = [], [], []
    for i in range(n_iter):
        M = (1 - alpha) * Mf + (alpha * Ml if i else 0)
        best, plan, _ = exact(M, a_, b_)
        if plan is None:
            return None
        L1.append(best + (alpha * (Ml * plan).sum() if i == 0 else 0))
        if reg:
            yt = plan.T @ ys / plan.sum(0)
            est.fit(Xt, yt, **({} if wt is None else {"sample_weight": wt}))
            fits.append((Xt, yt, wt))
            pr = est.predict(Xt)
            Ml = (ys[:, None] - pr[None]) ** 2
            L2.append(((yt - pr) ** 2).mean())
        else:
            mass = plan.T @ Y * nt
            keep = mass > thr * mass.max()
            if np.abs(mass - thr * mass.max())[mass > 0].min() < 1e-9:
                return None
            rows, cols = np.nonzero(keep)
            Xh, yh, wh = Xt[rows], classes[cols], mass[rows, cols]
            if len(set(yh.tolist())) < 2:
                return None
            est.fit(Xh, yh, sample_weight=wh)
            fits.append((Xh, yh, wh))
            if metric == "multinomial":
                lp = est.predict_log_proba(Xt)
                Lc = -lp
            else:
                s = two_dim(est.decision_function(Xt))
                Lc = np.stack([sum(np.maximum(0, 1 - (1 if k == c else -1) * s[:, k]) for k in range(len(classes))) for c in range(len(classes))], 1)
            Ml = np.stack([Lc[:, c] for c in np.searchsorted(classes, ys)], 0)
            L2.append((Lc[rows, cols] * wh).sum() / nt)
        if i and (abs(L1[-1] - L1[-2]) < tol or abs(L2[-1] - L2[-2]) < tol):
            break
        if i and (abs(abs(L1[-1] - L1[-2]) - tol) < 1e-6 * tol + 1e-12 or abs(abs(L2[-1] - L2[-2]) - tol) < 1e-6 * tol + 1e-12):
            return None
    return est, L1, L2, plan, fits


def run_jdot(sc, r, reg=False):
    base, metric, opts = CFG[sc["cfg"]] if not reg else (RCFG[sc["cfg"]][0], None, RCFG[sc["cfg"]][1])
    ref_base = base if base is not None else (LinearRegression() if reg else LogisticRegression())
    Q = np.concatenate([PS, PT]) + 0.03
    used = 0
    for ti, Xs, Xt in cases(sc):
        if reg:
            labs = [np.array(v[:len(Xs)]) for v in itertools.permutations((0.37, -1.25, 2.5, 4.75), 4)][:: 11 if sc["q"] else 5]
        else:
            labs = [v for al in ("01", "73", "125") for v in labellings(al, len(Xs), True)][:: 5 if sc["q"] else 1]
        for li, ys in enumerate(labs):
            for wi, w in enumerate(weightings(len(Xs), len(Xt))):
                if sc["q"] and wi != (li + ti) % 2 and len(Xs) != 4:
                    continue
                a, b = masses(len(Xs), len(Xt), w)
                X, sd, src, is_, it, order = arrange(Xs, Xt, li + ti)
                y = np.full(len(X), np.nan if reg else -1)
                y = y if reg else y.astype(ys.dtype)
                y[src] = ys[is_]
                kw = {}
                if w is not None:
                    wv = np.concatenate([np.array(a) * 0.7, np.array(b) * 2.5])[order]
                    kw = {"sample_weight": wv}
                o = dict({"alpha": 0.5, "n_iter_max": 100, "tol": 1e-5}, **opts)
                thr = o.pop("thr_weights", 1e-6)
                ref = jdot_loop(ref_base, X[src], y[src], X[~src], np.array(a)[is_], np.array(b)[it], o["alpha"], metric, o["n_iter_max"], o["tol"], thr, reg,
                                None if w is None else wv[~src])
                if ref is None:
                    continue
                used += 1
                est, L1, L2, plan, fits = ref
                m = JDOTRegressor(base, **opts) if reg else JDOTClassifier(base, metric=metric, **opts)
                out, e = raises(lambda: m.fit(X, y, sample_domain=sd, **kw))  # noqa: B023
                r.step()
                ctx = lambda: f"{sc} target set {ti} labels {y.tolist()} weights {w}"  # noqa: E731, B023
                if not r.check(e is None and out is m, "jdot-fit", lambda: f"{ctx()} {e!r}"):  # noqa: B023
                    return
                r.check(base is None or not hasattr(base, "n_features_in_"), "base-fitted", ctx)
                tol = 1e-3
                got = m.predict(Q)
                if reg:
                    r.check(same(got, est.predict(Q), tol), "jdot-predict", lambda: f"{ctx()} {got} want {est.predict(Q)}")  # noqa: B023
                else:
                    r.check(np.isin(got, ys).all(), "label-not-from-source", lambda: f"{ctx()} {got}")  # noqa: B023
                    if hasattr(est, "predict_proba"):
                        pr = m.predict_proba(Q)
                        r.check(same(pr, est.predict_proba(Q), tol), "jdot-proba", lambda: f"{ctx()} {pr.tolist()} want {est.predict_proba(Q).tolist()}")  # noqa: B023
                        cl = np.unique(ys)
                        r.check(all(g in W for g, W in zip(got, winners(pr, cl, 1e-6))), "predict-vs-proba", lambda: f"{ctx()} {got} {pr}")  # noqa: B023
                    else:
                        dq = np.sort(two_dim(est.decision_function(Q)), 1)
                        clear = dq[:, -1] - dq[:, -2] > 0.05
                        r.check((got == est.predict(Q))[clear].all(), "jdot-predict", lambda: f"{ctx()} {got} want {est.predict(Q)}")  # noqa: B023
                        r.check(not hasattr(m, "predict_proba"), "proba-offered", ctx)
                for nm, L in (("lst_loss_ot_", L1), ("lst_loss_tgt_labels_", L2)):
                    v = getattr(m, nm, None)
                    if v is not None:
                        r.check(len(v) == len(L) and same(v, L, tol), "objective-history", lambda: f"{ctx()} {nm} {v} want {L}")  # noqa: B023
                sol = getattr(m, "sol_", None)
                if sol is not None:
                    G = np.asarray(sol.plan)
                    r.check(same(G, plan, 1e-7), "plan", lambda: f"{ctx()} {G.tolist()} want {plan.tolist()}")  # noqa: B023
                # scores: the final estimator's own, weights included
                ya = est.predict(Q)
                ya[::2] = ya[0]
                wq = np.arange(1, len(Q) + 1.0)
                for ww in (None, wq):
                    v = np.ones(len(Q)) if ww is None else ww
                    want = 1 - (v * (ya - got) ** 2).sum() / (v * (ya - (v * ya).sum() / v.sum()) ** 2).sum() if reg else (v * (ya == got)).sum() / v.sum()
                    r.check(same(m.score(Q, ya, sample_weight=ww), want, 1e-6), "jdot-score", ctx)
                if li == 0 and wi == 0:
                    p = make_da_pipeline(StandardScaler(), JDOTRegressor(base, **opts) if reg else JDOTClassifier(base, metric=metric, **opts)).fit(X, y, sample_domain=sd)
                    Z = StandardScaler().fit(X)
                    m2 = (JDOTRegressor(base, **opts) if reg else JDOTClassifier(base, metric=metric, **opts)).fit(Z.transform(X), y, sample_domain=sd)
                    r.check(same(p.predict(Q), m2.predict(Z.transform(Q)), 1e-6), "jdot-pipeline", ctx)
                r.state("jdot", reg, sc, ti, li, wi, len(L1))
                if r.failures:
                    return
    # the options are honoured on probes: what the learner is trained with at each alternation
    if used:
        r.trace()
    r.outcome("jdot", reg, sc["shape"], sc["cfg"], used > 0)


# ------------------------------------------------------------------ multi-source label propagation
JC = [(2, 3, 4, 1.0, "sqeuclidean"), (2, 4, 3, 0.5, "sqeuclidean"), (3, 3, 5, 1.0, "euclidean"), (1, 4, 4, 1.0, "sqeuclidean"), (2, 5, 4, 2.0, "cityblock"), (3, 4, 3, 0.3, "euclidean"),
      (1, 5, 5, 0.4, "euclidean"), (2, 3, 6, 0.2, "sqeuclidean")]


def jcpot(Xs, ys, Xt, classes, reg, metric, n=100, tol=1e-9):
    K = [np.exp(-cdist(X, Xt, metric) / reg) for X in Xs]
    nt = len(Xt)
    old = np.ones(len(classes))
    ones = [(np.asarray(y)[:, None] == classes[None]).astype(float).T for y in ys]
    for _ in range(n):
        for d in range(len(K)):
            K[d] = K[d] / K[d].sum(0, keepdims=True) / nt
        h = np.exp(np.mean([np.log(O @ k.sum(1)) for O, k in zip(ones, K)], 0))
        for d in range(len(K)):
            target = (ones[d] / ones[d].sum(1, keepdims=True)).T @ h
            K[d] = K[d] * (target / K[d].sum(1))[:, None]
        if np.linalg.norm(h - old) < tol:
            break
        old = h
    return np.mean([O @ (k / k.sum(1, keepdims=True)) for O, k in zip(ones, K)], 0).T


def run_jcpot(sc, r):
    nd, ns, nt, reg, metric = JC[sc["k"] % len(JC)]
    classes = np.unique(ALPH[sc["al"]])
    g = np.random.RandomState(sc["k"])
    Xd = [PS[(np.arange(ns) * 2 + d) % 6] + g.rand(ns, 2) * 0.4 + d * 0.3 for d in range(nd)]
    Xt = PT[np.arange(nt) % 6] + g.rand(nt, 2) * 0.2
    full = [np.array(v) for v in itertools.product(classes, repeat=ns) if len(set(v)) == len(classes)]
    if not full:
        return
    combos = list(itertools.product(range(len(full)), repeat=min(nd, 2)))
    for ci in combos[:: max(1, len(combos) // (8 if sc["q"] else 60))]:
        ys = [full[ci[d % len(ci)]] for d in range(nd)]
        lab = jcpot(Xd, ys, Xt, classes, reg, metric)
        W = winners(lab, classes, 1e-6)
        X = np.concatenate(Xd + [Xt])
        y = np.concatenate(ys + [np.full(nt, -1, dtype=ys[0].dtype)])
        sd = np.concatenate([np.full(ns, d + 1) for d in range(nd)] + [np.array([-7, -8])[np.arange(nt) % 2]])
        for o in (np.arange(len(X)), np.argsort([(i * 7) % len(X) + i / 100 for i in range(len(X))]), np.arange(len(X))[::-1]):
            src = sd[o] >= 0
            ad = JCPOTLabelPropAdapter(reg=reg, metric=metric)
            X0 = X[o].copy()
            res, e = raises(lambda: ad.fit_transform(X[o], y[o], sample_domain=sd[o]))  # noqa: B023
            r.step()
            if e is not None:
                r.fail("jcpot", f"{sc} {ys}: {e!r}")
                return
            Xo, yo, _ = res
            want = [W[i - nd * ns] for i in o if i >= nd * ns]
            ctx = lambda: f"{sc} labels {[v.tolist() for v in ys]} order {o.tolist()}: {yo.tolist()} want {want}"  # noqa: E731, B023
            r.check(same(Xo, X0) and (yo[src] == -1).all(), "source-not-masked", ctx)
            r.check(np.isin(yo[~src], classes).all(), "label-not-from-source", ctx)
            r.check(all(v in w for v, w in zip(yo[~src], want)), "transported-label", ctx)
            if r.failures:
                return
        downstream(sc, r, ad, X[o], y[o], sd[o], src, yo, ctx)
        r.state("jcpot", sc, ci)
        if r.failures:
            return
    r.trace()
    r.outcome("jcpot", nd, sc["al"])


def run(sc, r):
    w = sc["what"]
    if w == "jdotr":
        return run_jdot(sc, r, True)
    {"otlp": run_otlp, "otlp-reg": run_otlp_reg, "otlp-sink": run_sink, "jdot": run_jdot, "jcpot": run_jcpot}[w](sc, r)


