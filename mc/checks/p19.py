import itertools
import math

import numpy as np
from ot import da
from scipy.spatial.distance import cdist
from sklearn.base import BaseEstimator, ClassifierMixin, clone
from sklearn.linear_model import LogisticRegression
from sklearn.neural_network import MLPClassifier
from sklearn.preprocessing import StandardScaler
from sklearn.svm import SVC

from mc.checks.p18 import PS, PT, arrange, exact, masses, sinkhorn
from mc.util import raises, same
from skada import DASVMClassifier, make_da_pipeline
from skada._gradual_da import GradualEstimator

ID = "P19"
TECHNIQUE = ("exhaustive enumeration of source/target point subsets, label assignments, step sizes, iteration bounds, transport solvers and interleavings; a logging base model records every training "
             "set of the real sequence, which is replayed against a reference self-labelling / gradual loop")
LEVEL = "model_checking"
NOTE = "Each real run is a trace of (training set, model) steps; the trace is compared step by step with the reference transition system, and every answer with the last model of the trace."
ASSUMPTIONS = ["self-labelling runs in which two samples tie for selection are only judged by the invariants of the trace", "runs that end with one single target class are refused by real base models and skipped",
               "gradual runs use transport plans recomputed independently (assignment enumeration or own scaling iteration)"]

LOG = []
SHAPES = [(4, 4), (5, 3), (4, 2), (6, 4), (5, 5)]
ALPH = [(0, 1), (3, 8), (1.0, 2.0)]


def BOUNDS(tier):
    return "4-6 source and 2-5 target points, all two-class labellings (strided), k<=3, <=6 iterations, 3 margins; gradual: n_steps<=4, alpha in 5 values, 4 transport solvers, both selection rules"


def scenarios(tier):
    q = tier == "quick"
    out = []
    for si, (ns, nt) in enumerate(SHAPES):
        labs = [v for v in itertools.product((0, 1), repeat=ns) if len(set(v)) == 2]
        for li in range(0, len(labs), 1 if not q else max(1, len(labs) // 12)):
            out.append({"what": "dasvm", "shape": si, "lab": li, "q": q})
            if (li // max(1, len(labs) // 12)) % 4 == 0 or not q and li % 2 == 0:
                out.append({"what": "dasvm-real", "shape": si, "lab": li, "q": q})
    for si, (ns, nt) in enumerate([(3, 3), (4, 2), (2, 4), (3, 2), (4, 4)]):
        for ci in range(len(list(itertools.combinations(range(6), ns)))):
            if q and ci % 2 and ns > 2:
                continue
            for adv in (False, True):
                out.append({"what": "gradual", "shape": si, "src": ci, "adv": adv, "q": q})
    for k in range(6 if q else 20):
        out.append({"what": "gradual-real", "k": k})
    return out


class Cent(ClassifierMixin, BaseEstimator):
    """nearest class mean, logging every fit."""

    def __init__(self, scale=1.0, max_iter=7):
        self.scale = scale
        self.max_iter = max_iter

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        self.mu_ = np.array([X[y == c].mean(0) for c in self.classes_])
        self.stamp_ = len(LOG)
        LOG.append((self, np.array(X), np.array(y)))
        return self

    def _d(self, X):
        return ((np.asarray(X)[:, None] - self.mu_[None]) ** 2).sum(2) * self.scale

    def predict(self, X):
        return self.classes_[self._d(X).argmin(1)]

    def predict_proba(self, X):
        e = np.exp(-self._d(X))
        return e / e.sum(1, keepdims=True)

    def predict_log_proba(self, X):
        return np.log(self.predict_proba(X))

    def decision_function(self, X):
        d = self._d(X)
        return d[:, 0] - d[:, 1] if d.shape[1] == 2 else d[:, 0] * 0 + 5.0


class Bare(Cent):
    """no probabilities."""
    predict_proba = property()
    predict_log_proba = property()


class Tie(Exception):
    pass


def take(mask, cond, d, k):
    """k rounds: on each side of the boundary the remaining candidate with the largest decision."""
    mask = mask.copy()
    rounds = min(k, math.ceil((cond & ~mask).sum() / 2))
    for _ in range(rounds):
        c = np.flatnonzero(cond & ~mask)
        if not len(c):
            break
        for s in (d[c], -d[c]):
            t = np.sort(s)
            if len(t) > 1 and t[-1] - t[-2] < 1e-9:
                raise Tie
        mask[c[np.argmax(d[c])]] = True
        mask[c[np.argmin(d[c])]] = True
    return mask


def reference(base, Xs, ys, Xt, k, max_iter):
    est = clone(base).fit(Xs, ys)
    dele, add = np.zeros(len(Xs), bool), np.zeros(len(Xt), bool)
    sets, models, train = [(dele, add)], [est], [(Xs, ys)]
    ds, dt = est.decision_function(Xs), est.decision_function(Xt)
    dele = take(dele, np.ones(len(Xs), bool), ds, k)
    margin = (np.abs(dt) < 1) & (dt != 0)
    add = take(add, margin, dt, k)
    sets.append((dele, add))
    for _ in range(1, max_iter):
        if not margin.any():
            break
        X = np.concatenate([Xs[~dele], Xt[add]])
        y = np.concatenate([ys[~dele], est.predict(Xt[add]) if add.any() else np.array([], ys.dtype)])
        if not len(X) or len(np.unique(y)) < 2:
            return None
        new = clone(base).fit(X, y)
        models.append(new)
        train.append((X, y))
        add = np.array([a and new.predict(x[None])[0] == est.predict(x[None])[0] for a, x in zip(add, Xt)], bool)
        if (~dele).any():
            ds = np.where(dele, 0, new.decision_function(Xs))
            dele = take(dele, np.ones(len(Xs), bool), ds, k)
        dt = new.decision_function(Xt)
        margin = (np.abs(dt) < 1) & (dt != 0) & ~add
        add_new = take(add, margin, dt, k)
        # samples already selected keep a neutral decision
        add = add_new
        sets.append((dele, add))
        est = new
    y = est.predict(Xt)
    if len(np.unique(y)) < 2:
        return None
    models.append(clone(base).fit(Xt, y))
    train.append((Xt, y))
    sets.append((np.ones(len(Xs), bool), np.ones(len(Xt), bool)))
    return models, train, sets


def dasvm_points(si, q):
    ns, nt = SHAPES[si]
    S = list(itertools.combinations(range(6), ns))
    T = list(itertools.combinations(range(6), nt))
    for a in range(0, len(S), 3 if q else 1):
        for b in range(a % 4, len(T), 6 if q else 2):
            yield PS[list(S[a])] - PS.mean(0), PT[list(T[b])] - PT.mean(0) + np.array([0.3, -0.2])


def rows(X, y):
    return sorted(tuple(np.round(np.append(x, v), 9)) for x, v in zip(X, y))


def run_dasvm(sc, r, real=False):
    ns, nt = SHAPES[sc["shape"]]
    lab = [v for v in itertools.product((0, 1), repeat=ns) if len(set(v)) == 2][sc["lab"]]
    used = 0
    for pi, (Xs, Xt) in enumerate(dasvm_points(sc["shape"], sc["q"])):
        al = ALPH[(pi + sc["lab"]) % 3]
        ys = np.array(al)[list(lab)]
        for k, mi, scale in itertools.product((1, 2, 3), (1, 2, 3, 6), (0.2, 0.6, 2.0)):
            if real and (scale != 0.6 or k == 3):
                continue
            if sc["q"] and (k + mi + int(scale * 5) + pi) % (6 if real else 4):
                continue
            base = [SVC(kernel="linear", tol=1e-8), SVC(kernel="rbf", tol=1e-8), LogisticRegression(tol=1e-10, max_iter=2000)][(k + mi + pi) % 3] if real else [Cent(scale), Bare(scale)][(pi + mi) % 2]
            X, sd, src, is_, it, order = arrange(Xs, Xt, pi + k)
            y = np.full(len(X), -1, dtype=ys.dtype)
            y[src] = ys[is_]
            A, B, C = X[src], y[src], X[~src]
            tie = False
            try:
                ref, e0 = raises(lambda: reference(base, A, B, C, k, mi))  # noqa: B023
                if isinstance(e0, Tie):
                    tie, ref, e0 = True, None, None
            except Tie:
                tie, ref, e0 = True, None, None
            if e0 is not None:
                continue
            if ref is None and not tie:
                continue
            LOG.clear()
            before = base.get_params()
            m = DASVMClassifier(base, k=k, max_iter=mi, save_estimators=True, save_indices=True)
            out, e = raises(lambda: m.fit(X, y, sample_domain=sd))  # noqa: B023
            r.step()
            if tie and e is not None:
                continue
            ctx = lambda: f"{sc} points {pi} classes {al} k {k} max_iter {mi} scale {scale} base {base}"  # noqa: E731, B023
            if not r.check(e is None and out is m, "fit", lambda: f"{ctx()} {e!r}"):  # noqa: B023
                return
            r.check(base.get_params() == before and not hasattr(base, "classes_"), "base-changed", ctx)
            E, D, T = m.estimators, m.indices_source_deleted, m.indices_target_added
            D, T = [np.asarray(v) for v in D], [np.asarray(v) for v in T]
            r.check(len(D) == len(T) == len(E) + 1 and not D[0].any() and not T[0].any() and D[-1].all() and T[-1].all(), "record-shape", lambda: f"{ctx()} {D} {T} {len(E)}")  # noqa: B023
            r.check(len(E) <= mi + 1, "iteration-bound", lambda: f"{ctx()}: {len(E)} models")  # noqa: B023
            for i in range(1, len(D)):
                r.check((D[i] | ~D[i - 1]).all(), "deleted-source-returned", lambda: f"{ctx()} {D}")  # noqa: B023
                if i < len(D) - 1:
                    r.check((D[i] & ~D[i - 1]).sum() <= 2 * k and (T[i] & ~T[i - 1]).sum() <= 2 * k, "step-size", lambda: f"{ctx()} step {i}: {D} {T}")  # noqa: B023
            if not real:
                fits = list(LOG)
                if r.check(len(fits) == len(E), "models-recorded", lambda: f"{ctx()} {len(fits)} fits {len(E)} recorded"):  # noqa: B023
                    r.check(same(fits[0][1], A) and same(fits[0][2], B), "starts-from-source", ctx)
                    r.check(same(fits[-1][1], C) and same(fits[-1][2], E[-2].predict(C)), "ends-on-target", ctx)
                    for i in range(len(E)):
                        r.check(E[i].stamp_ == i and fits[i][0] is E[i], "model-order", ctx)
                        if 0 < i < len(E) - 1:
                            w = rows(np.concatenate([A[~D[i]], C[T[i]]]), np.concatenate([B[~D[i]], E[i - 1].predict(C[T[i]]) if T[i].any() else B[:0]]))
                            r.check(rows(*fits[i][1:]) == w, "training-set", lambda: f"{ctx()} step {i}: trained on {rows(*fits[i][1:])} recorded {w}")  # noqa: B023
            Q = np.concatenate([PS, PT, PS * 0.3]) - 0.5
            final = E[-1]
            if ref is not None:
                used += 1
                models, train, sets = ref
                margin_ok = not real or all(np.abs(np.abs(mm.decision_function(C)) - 1).min() > 1e-3 for mm in models[:-1])
                if margin_ok:
                    r.check(len(models) == len(E), "sequence-length", lambda: f"{ctx()}: {len(E)} want {len(models)}")  # noqa: B023
                    ok = len(sets) == len(D) and all((a == c).all() and (b == d).all() for (a, b), c, d in zip(sets, D, T))
                    r.check(ok, "selection", lambda: f"{ctx()}: deleted {[d.astype(int).tolist() for d in D]} added {[t.astype(int).tolist() for t in T]} want {[(a.astype(int).tolist(), b.astype(int).tolist()) for a, b in sets]}")  # noqa: B023
                    r.check(same(m.decision_function(Q), models[-1].decision_function(Q), 1e-4), "final-model", ctx)
            p = m.predict(Q)
            r.check(same(p, final.predict(Q)) and same(m.decision_function(Q), final.decision_function(Q)), "not-the-final-model", lambda: f"{ctx()} {p} want {final.predict(Q)}")  # noqa: B023
            if hasattr(base, "predict_proba") and not isinstance(base, SVC):
                r.check(same(m.predict_proba(Q), final.predict_proba(Q)), "proba", ctx)
                r.check(same(p, final.classes_[m.predict_proba(Q).argmax(1)]), "predict-vs-proba", ctx)
            else:
                r.check(not hasattr(m, "predict_proba"), "proba-offered", ctx)
            yq = np.roll(p, 1)
            for w in (None, np.arange(len(Q)) + 1.0):
                v = np.ones(len(Q)) if w is None else w
                r.check(same(m.score(Q, yq, sample_weight=w), (v * (yq == p)).sum() / v.sum(), 1e-9), "score", ctx)
            # refit on other data forgets the first run; without saving nothing is recorded
            if pi % 3 == 0:
                m.set_params(save_estimators=False, save_indices=False)
                _, e = raises(lambda: m.fit(X, y, sample_domain=sd))  # noqa: B023
                r.check(e is None and not m.estimators and not m.indices_source_deleted and not m.indices_target_added and same(m.predict(Q), p), "refit", lambda: f"{ctx()} {e!r}")  # noqa: B023
                pipe, e = raises(lambda: make_da_pipeline(DASVMClassifier(base, k=k, max_iter=mi)).fit(X, y, sample_domain=sd))  # noqa: B023
                r.check(e is None and same(pipe.predict(Q), p), "pipeline", lambda: f"{ctx()} {e!r}")  # noqa: B023
            r.state("dasvm", sc, pi, k, mi, scale)
            if r.failures:
                return
    if used:
        r.trace()
    r.outcome("dasvm", real, sc["shape"], used > 0)


OTS = [("none", None), ("emd", lambda: da.EMDTransport()), ("emd-cb", lambda: da.EMDTransport(metric="cityblock")), ("sink", lambda: da.SinkhornTransport(reg_e=0.5))]


def run_gradual(sc, r):
    ns, nt = [(3, 3), (4, 2), (2, 4), (3, 2), (4, 4)][sc["shape"]]
    Xs = PS[list(list(itertools.combinations(range(6), ns))[sc["src"]])]
    labs = [v for v in itertools.product((0, 1, 2), repeat=ns) if len(set(v)) > 1]
    T = list(itertools.combinations(range(6), nt))
    n_case = 0
    for ti in range(sc["src"] % 5 if sc["q"] else 0, len(T), 5 if sc["q"] else 2):
        Xt = PT[list(T[ti])]
        for oi, (oname, mk) in enumerate(OTS):
            a, b = masses(ns, nt, None)
            if oname.startswith("emd"):
                _, plan, _ = exact(cdist(Xs, Xt, "cityblock" if oname == "emd-cb" else "sqeuclidean"), a, b)
                if plan is None:
                    continue
            else:
                plan = sinkhorn(cdist(Xs, Xt, "sqeuclidean"), np.array(a) / sum(a), np.array(b) / sum(b), 1.0 if mk is None else 0.5)
            for alpha, N in itertools.product((1, 0.5, 0.01, 0.34, 10), (1, 2, 3, 4)):
                n_case += 1
                if sc["q"] and n_case % 7:
                    continue
                lab = labs[(n_case * 7) % len(labs)]
                names = np.array([(0, 1, 2), (7, 3, 5), (1.0, 2.0, 4.0)][n_case % 3])
                X, sd, src, is_, it, order = arrange(Xs, Xt, n_case)
                ys = names[list(lab)]
                y = np.full(len(X), -1, dtype=ys.dtype)
                y[src] = ys[is_]
                A, C, G = X[src], X[~src], plan[np.ix_(is_, it)]
                base = Cent() if n_case % 2 else Bare()
                LOG.clear()
                om = None if mk is None else mk()
                m = GradualEstimator(alpha=alpha, n_steps=N, ot_method=om, base_estimator=base, advanced_ot_plan_sampling=sc["adv"], save_estimators=True, save_intermediate_data=True)
                out, e = raises(lambda: m.fit(X, y, sample_domain=sd))  # noqa: B023
                r.step()
                ctx = lambda: f"{sc} targets {ti} ot {oname} alpha {alpha} steps {N} labels {y.tolist()} domains {sd.tolist()}"  # noqa: E731, B023
                if not r.check(e is None and out is m, "fit", lambda: f"{ctx()} {e!r}"):  # noqa: B023
                    return
                r.check(base.max_iter == 7 and not hasattr(base, "classes_"), "base-changed", ctx)
                r.check(om is None or not hasattr(om, "coupling_"), "solver-changed", ctx)
                E, I = m.get_intermediate_estimators(), m.intermediate_data_  # noqa: E741
                if not r.check(len(LOG) == N + 1 == len(E) and len(I) == N, "step-count", lambda: f"{ctx()}: {len(LOG)} fits, {len(E)} models, {len(I)} datasets"):  # noqa: B023
                    return
                r.check(same(LOG[0][1], A) and same(LOG[0][2], y[src]), "starts-from-source", ctx)
                # the pairs interpolated, recovered from the geometry
                sel = None
                for s in range(1, N + 1):
                    Xi, yi = I[s - 1]
                    r.check(same(LOG[s][1], Xi) and same(LOG[s][2], yi), "recorded-data", ctx)
                    grid = ((N - s) * A[:, None] + s * C[None]) / N
                    if s < N:
                        pairs = []
                        for x in Xi:
                            d = np.abs(grid - x).max(2)
                            k = np.argwhere(d < 1e-9)
                            if not r.check(len(k) == 1, "off-segment", lambda: f"{ctx()} step {s} point {x}"):  # noqa: B023
                                return
                            pairs.append(tuple(k[0]))
                        r.check(len(set(pairs)) == len(pairs), "pair-repeated", lambda: f"{ctx()} {pairs}")  # noqa: B023
                        r.check(sel is None or sorted(pairs) == sel, "pairs-change", lambda: f"{ctx()} {pairs} {sel}")  # noqa: B023
                        sel = sorted(pairs)
                    else:
                        r.check(all((np.abs(C - x).max(1) < 1e-9).any() for x in Xi), "ends-on-target", lambda: f"{ctx()} {Xi.tolist()}")  # noqa: B023
                        if sel is not None:
                            r.check(sorted(tuple(np.round(x, 8)) for x in Xi) == sorted(tuple(np.round(C[j], 8)) for _, j in sel), "ends-on-target", ctx)
                    r.check(same(yi, E[s - 1].predict(Xi)), "pseudo-labels", lambda: f"{ctx()} step {s}: {yi} want {E[s - 1].predict(Xi)}")  # noqa: B023
                    ref = Cent().fit(Xi, yi)
                    LOG.pop()
                    r.check(same(E[s].mu_, ref.mu_), "model-data", ctx)
                pos = int((G > 1e-9).sum())
                if sc["adv"]:
                    rm, cm = np.sort(G, 1), np.sort(G, 0)
                    if sel is not None:
                        for i, j in sel:
                            r.check(G[i, j] >= min(rm[i, -1], cm[-1, j]) - 1e-4, "plan-pairs", lambda: f"{ctx()} {sel} plan {G.tolist()}")  # noqa: B023
                        r.check({i for i, _ in sel} == set(range(ns)) and {j for _, j in sel} == set(range(nt)), "plan-coverage", lambda: f"{ctx()} {sel}")  # noqa: B023
                else:
                    cap = max(int(alpha * (ns + nt)), 1)
                    r.check(min(cap, pos) <= len(I[0][0]) <= (min(cap, pos) if oname.startswith("emd") else cap), "pair-count", lambda: f"{ctx()}: {len(I[0][0])} pairs, plan {G.tolist()}")  # noqa: B023
                    if sel is not None:
                        inn = [G[p] for p in sel]
                        outs = [G[i, j] for i in range(ns) for j in range(nt) if (i, j) not in sel]
                        r.check((min(inn) > 1e-12 or not oname.startswith("emd")) and min(inn) >= max(outs, default=0) - 1e-4, "plan-pairs", lambda: f"{ctx()} {sel} plan {G.tolist()}")  # noqa: B023
                Q = np.concatenate([PS, PT]) * 0.8 + 0.1
                f = E[-1]
                p = m.predict(Q)
                r.check(same(p, f.predict(Q)), "not-the-final-model", ctx)
                if isinstance(base, Bare):
                    for nm in ("predict_proba", "predict_log_proba"):
                        _, e = raises(lambda: getattr(m, nm)(Q))  # noqa: B023
                        r.check(e is not None, "proba-invented", ctx)
                else:
                    r.check(same(m.predict_proba(Q), f.predict_proba(Q)) and same(m.predict_log_proba(Q), f.predict_log_proba(Q)), "proba", ctx)
                    r.check(same(p, f.classes_[m.predict_proba(Q).argmax(1)]), "predict-vs-proba", ctx)
                yq = np.roll(p, 2)
                r.check(same(m.score(Q, yq), (yq == p).mean(), 1e-12), "score", ctx)
                if n_case % 3 == 0:
                    m.set_params(save_estimators=False, n_steps=max(1, N - 1))
                    LOG.clear()
                    _, e = raises(lambda: m.fit(X, y, sample_domain=sd))  # noqa: B023
                    r.check(e is None and len(LOG) == max(1, N - 1) + 1 and not m.get_intermediate_estimators() and len(m.intermediate_data_) == max(1, N - 1), "refit", lambda: f"{ctx()} {e!r}")  # noqa: B023
                    r.check(same(m.predict(Q), LOG[-1][0].predict(Q)), "refit", ctx)
                    m.set_params(n_steps=N)
                    pipe, e = raises(lambda: make_da_pipeline(clone(m)).fit(X, y, sample_domain=sd))  # noqa: B023
                    r.check(e is None and same(pipe.predict(Q), p), "pipeline", lambda: f"{ctx()} {e!r}")  # noqa: B023
                r.state("gradual", sc, ti, oname, alpha, N)
                if r.failures:
                    return
    r.trace()
    r.outcome("gradual", sc["shape"], sc["adv"])


def run_gradual_real(sc, r):
    """real base models: sequence replayed with clones."""
    g = np.random.RandomState(sc["k"])
    Xs, Xt = np.concatenate([g.randn(5, 2), g.randn(5, 2) + 3]), np.concatenate([g.randn(4, 2) + 1, g.randn(4, 2) + 4])
    X, sd, src, is_, it, _ = arrange(Xs, Xt, sc["k"])
    y = np.full(len(X), -1)
    y[src] = np.array([0] * 5 + [1] * 5)[is_]
    for base in (LogisticRegression(C=1.0), LogisticRegression(max_iter=50), SVC(kernel="linear", probability=False), MLPClassifier((3,), max_iter=20, random_state=1)):
        snap = base.get_params()
        m = GradualEstimator(n_steps=3, base_estimator=base, save_estimators=True, save_intermediate_data=True).fit(X, y, sample_domain=sd)
        r.step()
        r.check(base.get_params() == snap and not hasattr(base, "classes_"), "base-changed", lambda: f"{sc} {base}: {base.get_params()}")  # noqa: B023
        E = m.estimators_
        r.check(len(E) == 4 and len({id(v) for v in E}) == 4, "models-recorded", f"{sc}")
        r.check(same(m.predict(X), E[-1].predict(X)), "not-the-final-model", f"{sc}")
        for i, (Xi, yi) in enumerate(m.intermediate_data_):
            r.check(same(yi, E[i].predict(Xi)), "pseudo-labels", lambda: f"{sc} {base} step {i + 1}: {yi} want {E[i].predict(Xi)}")  # noqa: B023
            if not isinstance(base, MLPClassifier) and len(np.unique(yi)) > 1:
                r.check(same(clone(base).fit(Xi, yi).decision_function(X), E[i + 1].decision_function(X), 1e-3), "model-data", lambda: f"{sc} {base} step {i + 1}")  # noqa: B023
        r.state("gradual-real", sc["k"], str(base))
    m = GradualEstimator(n_steps=1)
    with np.errstate(all="ignore"):
        m.fit(X, y, sample_domain=sd)
    r.check(isinstance(m.base_estimator_, MLPClassifier) and m.base_estimator is None, "default-model", f"{sc}")
    r.check(same(m.predict(X), m.base_estimator_.predict(X)), "not-the-final-model", f"{sc}")
    # scores, alone and at the end of a pipeline, with and without domains and weights
    for weighted in (0, 1):
        g2 = GradualEstimator(n_steps=2, base_estimator=LogisticRegression())
        if weighted:
            g2 = g2.set_score_request(sample_weight=True)
        pipe = make_da_pipeline(StandardScaler(), g2).fit(X, y, sample_domain=sd)
        alone = GradualEstimator(n_steps=2, base_estimator=LogisticRegression()).fit(X, y, sample_domain=sd)
        w = np.arange(len(X)) % 4 + 0.5
        for est in (pipe, alone):
            for rows, kw in ((~src, {}), (~src, {"sample_domain": sd[~src]}), (src | True, {"sample_domain": sd, "allow_source": True})):
                if kw and est is alone:
                    continue  # the estimator itself takes no domains
                p = est.predict(X[rows], **kw)
                yq = np.roll(p, 3)
                if weighted:
                    kw = {**kw, "sample_weight": w[rows]}
                v, e = raises(lambda: est.score(X[rows], yq, **kw))  # noqa: B023
                want = np.average(p == yq, weights=w[rows] if weighted else None)
                r.check(e is None and abs(v - want) < 1e-12, "score-pipeline", lambda: f"{sc} {est} {list(kw)}: {v} want {want} {e!r}")  # noqa: B023
                r.step()
    r.trace()
    r.outcome("gradual-real")


def run(sc, r):
    w = sc["what"]
    if w == "dasvm-real":
        return run_dasvm(sc, r, True)
    {"dasvm": run_dasvm, "gradual": run_gradual, "gradual-real": run_gradual_real}[w](sc, r)
