import itertools
import os
import warnings

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.linear_model import LogisticRegression
from sklearn.metrics import make_scorer, mean_squared_error
from sklearn.model_selection import cross_validate, train_test_split
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KernelDensity, KNeighborsClassifier, KNeighborsRegressor

from mc import probes as P
from mc.rng import OwnedRandomState, explore
from mc.util import raises, same
from skada import metrics as Mx
from skada import make_da_pipeline
from skada.model_selection import SourceTargetShuffleSplit

ID = "P17"
TECHNIQUE = ("exhaustive enumeration of predicted-probability matrices over a finite grid, label assignments, domain layouts, row orders, every permutation the mixing generator can draw and "
             "all scorer options, executed on the real scorers and compared with independently written formulas")
LEVEL = "model_checking"
NOTE = "Estimators answer from a table owned by the explorer; every table within the bound is scored by the real scorer and by the reference formula."
ASSUMPTIONS = ["the embedded-validation features are those the fitted pipeline produces without domain labels", "deep calibration scores are checked on a stand-in model exposing logits; rows of constant "
               "logits are excluded for the polynomial normalisation", "density similarity is checked for small temperatures where the self-similarity term is negligible"]

LAYS = [(1, 1, 1, -2, -2, -2), (-2, 1, -2, 1, 1, -2), (-2, -2, -2, 1, 1, 1), (0, -3, 0, -3, 0, -3), (1, -2, 2, -3, -2, 1)]
ROW2 = [(1.0, 0.0), (0.5, 0.5), (0.2, 0.8), (0.0, 1.0), (0.9, 0.1)]
ROW3 = [(1.0, 0.0, 0.0), (0.2, 0.3, 0.5), (1 / 3, 1 / 3, 1 / 3), (0.0, 0.4, 0.6)]
KNOWN = ["entropy-mean", "string-Supervised", "string-IW", "string-MixVal"]


def BOUNDS(tier):
    return "3 target rows with all %d / %d probability rows, %d layouts, row orders, both signs; all source label assignments; all permutations of <=4 mixed targets" % (
        len(ROW2), len(ROW3), len(LAYS))


def scenarios(tier):
    out = []
    for li in range(len(LAYS)):
        for R in (2, 3):
            for t0 in range(len((ROW2, ROW3)[R - 2])):
                for sc in ("entropy", "entropy-log", "snd", "mano"):
                    if tier == "quick" and sc == "entropy-log" and li % 2:
                        continue
                    out.append({"what": sc, "lay": li, "R": R, "t0": t0})
        for ys in itertools.product((0, 1), repeat=3):
            out.append({"what": "sup", "lay": li, "ys": ys})
            for k in range(1 if tier == "quick" else 6):
                out.append({"what": "iw", "lay": li, "ys": ys, "k": k})
                if len(set(ys)) > 1:
                    out.append({"what": "circ", "lay": li, "ys": ys, "k": k})
                out.append({"what": "mix", "lay": li, "ys": ys, "k": k})
        for k in range(8 if tier == "quick" else 24):
            out.append({"what": "dev", "lay": li, "k": k})
            out.append({"what": "circ-reg", "lay": li, "k": k})
            out.append({"what": "cv", "lay": li, "k": k})
    for k in range(3 ** 3):
        out.append({"what": "mano-deep", "k": k})
    out += [{"what": "known", "k": k} for k in KNOWN]
    out += [{"what": "dom", "lay": li, "t": t, "nd": nd, "want": w} for li in range(len(LAYS)) for t in range(4) for nd in (0, 1) for w in (0, 1, 2)]
    out.append({"what": "refuse"})
    return out


class Table(ClassifierMixin, BaseEstimator):
    """answers the probability row stored for the identifier in column 0."""

    def __init__(self, table=None, log=False):
        self.table = table
        self.log = log

    def fit(self, X, y=None):
        self.classes_ = np.arange(len(next(iter(self.table.values()))))
        return self

    def predict_proba(self, X):
        return np.array([self.table[float(v)] for v in np.asarray(X)[:, 0]])

    def predict(self, X):
        return self.predict_proba(X).argmax(1)


class LogTable(Table):
    def predict_log_proba(self, X):
        with np.errstate(divide="ignore"):
            return np.log(self.predict_proba(X))


class Scored(Table):
    """score returns a number identifying exactly the rows, labels and weights it was given."""

    def score(self, X, y, sample_weight=None):
        v = np.asarray(X)[:, 0] * 10.0 + np.asarray(y, float)
        w = np.ones(len(v)) if sample_weight is None else np.asarray(sample_weight)
        return float((w * v ** 2).sum() / (1 if sample_weight is None else w.sum()) + 1000 * len(v))


def frame(sc, table_rows, ys=(0, 1, 0), cls=Table):
    sd = np.array(LAYS[sc["lay"]])
    s = sd >= 0
    n = len(sd)
    X = np.stack([np.arange(n) + 1.0, np.arange(n) * 0.5], 1)
    y = np.full(n, -1)
    y[s] = ys
    tab = {float(i + 1): table_rows[0] for i in range(n)}
    for i, row in zip(np.flatnonzero(~s), table_rows):
        tab[float(i + 1)] = row
    pipe = make_da_pipeline(cls(table=tab)).fit(X, y, sample_domain=sd)
    return X, y, sd, s, tab, pipe


def deep():
    return os.environ.get("VERIF_TIER") == "thorough"


def orders(n):
    out = [np.arange(n), np.array([(i * 5 + 1) % n for i in range(n)])]
    return out + [np.arange(n)[::-1], np.roll(np.arange(n), 2)] if deep() else out


def ask(r, key, scorer, pipe, X, y, sd, want, s, tol=1e-9, free_labels=True, per_row=False, ordered=True, **kw):
    """the score equals `want` for every row order and every target labelling."""
    n = len(sd)
    for o in orders(n) if ordered else [np.arange(n)]:
        v, e = raises(lambda: scorer(pipe, X[o], y[o], sample_domain=sd[o], **{k: a[o] for k, a in kw.items()}))  # noqa: B023
        r.step()
        if e is not None:
            r.fail(key, f"{r.sc} order {o.tolist()}: {e!r}")
            return False
        w = want
        if per_row:
            w = np.array([dict(zip(np.flatnonzero(~s).tolist(), want))[i] for i in o if not s[i]])
        if not r.check(same(v, w, tol), key, lambda: f"{r.sc} order {o.tolist()}: {v} want {w}"):  # noqa: B023
            return False
    if free_labels:
        for lab in ((0, 1, 1), (1, 1, 0), (0, 0, 0))[: 3 if deep() else 1]:
            y2 = y.copy()
            y2[~s] = np.resize(lab, (~s).sum())
            v, e = raises(lambda: scorer(pipe, X, y2, sample_domain=sd, **kw))  # noqa: B023
            r.step()
            w = want
            if not r.check(e is None and same(v, w, tol), "target-labels-used", lambda: f"{r.sc} target labels {lab}: {v} {e!r} want {w}"):  # noqa: B023
                return False
    return True


def signs(cls, **kw):
    for g in (True, False):
        yield (1 if g else -1), cls(greater_is_better=g, **kw)


def run_tables(sc, r):
    rows = (ROW2, ROW3)[sc["R"] - 2]
    for i, j in itertools.product(range(len(rows)), repeat=2):
        if i > j and not deep():
            continue
        Pt = [rows[sc["t0"]], rows[i], rows[j]]
        cls = {"entropy-log": LogTable}.get(sc["what"], Table)
        X, y, sd, s, tab, pipe = frame(sc, Pt, cls=cls)
        A = np.array(Pt)
        r.state(sc["what"], sc["lay"], Pt)
        if sc["what"].startswith("entropy"):
            H = -np.where(A > 0, A * np.log(np.where(A > 0, A, 1)), 0).sum(1)
            for sg, s_ in signs(Mx.PredictionEntropyScorer, reduction="none"):
                ask(r, "entropy-none", s_, pipe, X, y, sd, sg * H, s, 1e-5, per_row=True)
            for sg, s_ in signs(Mx.PredictionEntropyScorer, reduction="sum"):
                ask(r, "entropy-sum", s_, pipe, X, y, sd, sg * H.sum(), s, 1e-5)
            # the mean, as implemented (see known finding): mean over rows and classes
            for sg, s_ in signs(Mx.PredictionEntropyScorer):
                v = s_(pipe, X, y, sample_domain=sd)
                r.check(same(v, sg * H.mean() / A.shape[1], 1e-5) or same(v, sg * H.mean(), 1e-5), "entropy-mean", lambda: f"{sc} {Pt}: {v} entropies {H}")  # noqa: B023
        elif sc["what"] == "snd":
            F = A / np.linalg.norm(A, axis=1, keepdims=True)
            for T in (0.05, 0.08):
                S = np.exp((F @ F.T) / T)
                np.fill_diagonal(S, 0)
                S = S / S.sum(1, keepdims=True)
                H = -np.where(S > 0, S * np.log(np.where(S > 0, S, 1)), 0).sum(1).mean()
                for sg, s_ in signs(Mx.SoftNeighborhoodDensity, T=T):
                    ask(r, "neighbourhood-density", s_, pipe, X, y, sd, sg * H, s, 1e-4)
        else:
            for p in (4, 2, 1) if deep() else (4, 1):
                for sg, s_ in signs(Mx.MaNoScorer, p=p):
                    ask(r, "matrix-norm", s_, pipe, X, y, sd, sg * (A ** p).mean() ** (1 / p), s, 1e-9)
        if r.failures:
            return
    # single-row entropy in 'none' mode keeps its shape
    r.trace()
    r.outcome(sc["what"], sc["R"])


def run_sup(sc, r):
    for lab in itertools.product((0, 1, 2), repeat=3):
        X, y, sd, s, tab, pipe = frame(sc, [(1.0, 0.0, 0.0)] * 3, sc["ys"], cls=Scored)
        true = np.zeros(6, int)
        true[s], true[~s] = [9, 9, 9], lab
        want = ((X[~s][:, 0] * 10 + np.array(lab)) ** 2).sum() + 3000
        for sg, s_ in signs(Mx.SupervisedScorer):
            ask(r, "supervised", s_, pipe, X, y, sd, sg * want, s, free_labels=True, target_labels=true)
        r.state("sup", sc["lay"], sc["ys"], lab)
    r.trace()
    r.outcome("sup", sc["lay"])


def kde(Q, Z, h):
    return np.exp(-0.5 * ((Q[:, None] - Z[None]) ** 2).sum(2) / h ** 2).mean(1)


def geo(sc, k, shift=1.0):
    """two-feature data; column 0 keeps an identifier for the table classifiers."""
    sd = np.array(LAYS[sc["lay"]])
    g = np.random.RandomState(40 + k)
    X = g.randn(6, 2)
    X[sd < 0] += shift
    return X, sd, sd >= 0


def run_iw(sc, r):
    X, sd, s = geo(sc, sc["k"])
    y = np.full(6, -1)
    y[s] = sc["ys"]
    tab = {float(v): (0.6, 0.4) for v in X[:, 0]}
    pipe = make_da_pipeline(Scored(table=tab).set_score_request(sample_weight=True)).fit(X, y, sample_domain=sd)
    for h in (None, 0.5, 2.0):
        hh = 1.0 if h is None else h
        w = kde(X[s], X[~s], hh) / kde(X[s], X[s], hh)
        v = X[s][:, 0] * 10 + y[s]
        want = (w * v ** 2).sum() / w.sum() + 3000
        for sg, s_ in signs(Mx.ImportanceWeightedScorer, weight_estimator=None if h is None else KernelDensity(bandwidth=h)):
            ask(r, "importance-weighted", s_, pipe, X, y, sd, sg * want, s, 1e-6)
        r.state("iw", sc["lay"], sc["ys"], sc["k"], h)
    # an estimator that cannot use weights is refused
    bad = make_da_pipeline(Scored(table=tab)).fit(X, y, sample_domain=sd)
    _, e = raises(lambda: Mx.ImportanceWeightedScorer()(bad, X, y, sample_domain=sd))
    r.check(isinstance(e, ValueError), "unweighted-score-accepted", lambda: f"{e!r}")
    r.trace()
    r.outcome("iw", sc["lay"])


def nn(Q, Z):
    return ((Q[:, None] - Z[None]) ** 2).sum(2).argmin(1)


def balanced(y, p):
    return float(np.mean([(p[y == c] == c).mean() for c in np.unique(y)]))


def run_circ(sc, r, reg=False):
    for classes in ((0, 1), (3, 8), (2, 0)) if not reg else ((0, 1),):
        for shift in (0.2, 1.5):
            X, sd, s = geo(sc, sc["k"], shift)
            if reg:
                y = np.full(6, np.nan)
                y[s] = X[s][:, 0] * 1.7 + 0.31
            else:
                y = np.full(6, -1)
                y[s] = np.asarray(classes)[list(sc["ys"])]
            mk = (lambda: KNeighborsRegressor(1)) if reg else (lambda: KNeighborsClassifier(1))
            pipe = make_da_pipeline(mk()).fit(X, y, sample_domain=sd)
            fwd = y[s][nn(X[~s], X[s])]
            if len(np.unique(fwd)) == 1:
                back = np.full(3, fwd[0])
            else:
                back = fwd[nn(X[s], X[~s])]
            met = mean_squared_error if reg else None
            want = ((y[s] - back) ** 2).mean() if reg else balanced(y[s], back)
            kw = {"source_scorer": met} if reg else {}
            before = pipe.predict(X, sample_domain=sd, allow_source=True)
            for sg, s_ in signs(Mx.CircularValidation, **kw):
                ask(r, "circular", s_, pipe, X, y, sd, sg * want, s, 1e-9, free_labels=False)
            if not reg:
                def acc(a, b):
                    return float((np.asarray(a) == np.asarray(b)).mean())
                ask(r, "circular-custom", Mx.CircularValidation(source_scorer=acc), pipe, X, y, sd, acc(y[s], back), s, free_labels=False)
                for dt in (float, np.int8):
                    ask(r, "circular-dtype", Mx.CircularValidation(), pipe, X, y.astype(dt), sd, want, s, free_labels=False)
            r.check(same(before, pipe.predict(X, sample_domain=sd, allow_source=True)), "estimator-changed", f"{sc}")
            # labels of the target must be masked
            y2 = y.copy()
            y2[~s] = y[s][:3]
            _, e = raises(lambda: Mx.CircularValidation()(pipe, X, y2, sample_domain=sd))  # noqa: B023
            r.check(isinstance(e, ValueError), "unmasked-accepted", lambda: f"{sc}: {e!r}")  # noqa: B023
            r.state("circ", reg, sc["lay"], sc["k"], classes, shift, fwd, back)
            # the retrained pipeline sees the roles swapped: target rows labelled as sources, source rows masked as targets
            if len(np.unique(fwd)) > 1:
                probe = make_da_pipeline(Recorder(reg=reg, ref=(X[s], y[s])))
                probe.fit(X, y, sample_domain=sd)
                P.LOG.clear()
                raises(lambda: Mx.CircularValidation(**kw)(probe, X, y, sample_domain=sd))  # noqa: B023
                fits = [q for q in P.LOG if q[0] == "fit"]
                if r.check(len(fits) == 1, "circular-refit", lambda: f"{sc}: {len(fits)} fits"):  # noqa: B023
                    _, _, fx, fy, fd, _ = fits[0]
                    pos = {tuple(x): i for i, x in enumerate(X)}
                    idx = np.array([pos[tuple(x)] for x in fx])
                    r.check(sorted(idx.tolist()) == list(range(6)), "circular-rows", f"{sc}: {idx}")
                    r.check(((fd >= 0) == ~s[idx]).all(), "circular-roles", lambda: f"{sc}: domains {fd} for rows {idx}, originally {sd}")  # noqa: B023
                    m = np.isnan(fy) if reg else fy == -1
                    r.check((m == s[idx]).all(), "circular-mask", lambda: f"{sc}: labels {fy} rows {idx}")  # noqa: B023
                    for a, b in itertools.combinations(range(6), 2):
                        r.check((fd[a] == fd[b]) == (sd[idx][a] == sd[idx][b]), "circular-domains", lambda: f"{sc}: {fd} / {sd[idx]}")  # noqa: B023
            if r.failures:
                return
    r.trace()
    r.outcome("circ", sc["lay"])


class Recorder(BaseEstimator):
    """nearest-source estimator logging what the backward fit receives."""
    __metadata_request__fit = {"sample_domain": True}

    def __init__(self, reg=False, ref=None):
        self.reg = reg
        self.ref = ref

    def fit(self, X, y, sample_domain=None):
        P.rec("fit", "rec", X, y, sample_domain)
        self.fitted_ = True
        return self

    def predict(self, X):
        return self.ref[1][nn(np.asarray(X), self.ref[0])]


def run_mix(sc, r):
    sd = np.array(LAYS[sc["lay"]])
    X, sd, s = geo(sc, sc["k"], 0.7)
    y = np.full(6, -1)
    y[s] = sc["ys"]
    Xt = X[~s]
    pipe = make_da_pipeline(KNeighborsClassifier(1)).fit(X, y, sample_domain=sd)
    f = lambda Q: y[s][nn(Q, X[s])]  # noqa: E731
    for alpha in (0.55, 0.3, 0.9, 0.5):
        for ice in ("both", "intra", "inter"):
            for g in (True, False):
                seen = []
                for v, rng in explore(lambda rng: raises(lambda: Mx.MixValScorer(alpha=alpha, ice_type=ice, greater_is_better=g, random_state=rng)(pipe, X, y, sample_domain=sd))):  # noqa: B023
                    v, e = v
                    r.step()
                    if e is not None:
                        r.fail("mix", f"{sc}: {e!r}")
                        return
                    c = rng.script[0] if rng.arity else 0
                    p = np.array(list(itertools.permutations(range(3)))[c])
                    a = f(Xt)
                    b = a[p]
                    mix = alpha * Xt + (1 - alpha) * Xt[p]
                    hit = f(mix) == (a if alpha >= 0.5 else b)
                    part = {"intra": hit[a == b].mean() if (a == b).any() else np.nan, "inter": hit[a != b].mean() if (a != b).any() else np.nan}
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        want = (1 if g else -1) * (np.nanmean(list(part.values())) if ice == "both" else part[ice])
                    seen.append(tuple(p))
                    if not r.check(same(v, want, 1e-12), "mix", lambda: f"{sc} alpha {alpha} {ice} permutation {p}: {v} want {want}"):  # noqa: B023
                        return
                r.check(len(seen) == 6, "mix-permutations", lambda: f"{seen}")
                r.state("mix", sc["lay"], sc["ys"], sc["k"], alpha, ice)
        for lab in ((0, 1, 1), (1, 0, 0)):
            y2 = y.copy()
            y2[~s] = np.resize(lab, (~s).sum())
            a, b = (Mx.MixValScorer(alpha=alpha, random_state=3)(pipe, X, q, sample_domain=sd) for q in (y, y2))
            r.check(same(a, b), "target-labels-used", lambda: f"{sc}: {a} {b}")  # noqa: B023
    for bad in ("x", None):
        _, e = raises(lambda: Mx.MixValScorer(ice_type=bad))  # noqa: B023
        r.check(isinstance(e, ValueError), "bad-option-accepted", f"{bad}")
    r.trace()
    r.outcome("mix", sc["lay"])


def run_dev(sc, r):
    """12 source rows, 5 target rows so that the held-out third is meaningful."""
    g = np.random.RandomState(500 + sc["k"])
    lay = LAYS[sc["lay"]]
    sdl = np.array((lay * 3)[:17])
    n = len(sdl)
    s = sdl >= 0
    X = g.randn(n, 2)
    X[~s] += 0.8
    y = np.full(n, -1)
    y[s] = (X[s][:, 0] + 0.3 * g.randn(s.sum()) > 0).astype(int)
    y[np.flatnonzero(s)[:2]] = [0, 1]
    table = {float(v): (q, 1 - q) for v, q in zip(X[:, 0] * 2 + 1, g.rand(n) * 0.9 + 0.05)}
    steps = {0: [Aff(), Table(table=table)], 1: [Table(table={(k - 1) / 2: v for k, v in table.items()})]}
    for variant in (0, 1):
        tab = steps[variant][-1].table
        tab = {round(k, 9): v for k, v in tab.items()}
        fin = Round(table=tab)
        pipe = make_da_pipeline(*steps[variant][:-1], fin).fit(X, y, sample_domain=sdl)
        feat = (lambda Q: Q * 2 + 1) if variant == 0 else (lambda Q: Q)
        for clf in (None, GaussianNB()):
            for seed in (0, 3, "own"):
                mk = (lambda: seed) if seed != "own" else (lambda: OwnedRandomState([5]))
                Xtr, Xv, _, yv = train_test_split(X[s], y[s], test_size=0.33, random_state=mk())
                c = (LogisticRegression() if clf is None else GaussianNB()).fit(np.concatenate([feat(Xtr), feat(X[~s])]), [1] * len(Xtr) + [0] * int((~s).sum()))
                pr = c.predict_proba(feat(Xv))
                w = len(Xtr) / (~s).sum() * pr[:, 0] / pr[:, 1]
                prob = np.array([tab[round(float(v), 9)] for v in feat(Xv)[:, 0]])
                for loss in (None, "abs"):
                    err = -np.log(prob[np.arange(len(yv)), yv]) if loss is None else np.abs(1 - prob[np.arange(len(yv)), yv])
                    we = w * err
                    eta = -np.cov(we, w)[0, 1] / w.var(ddof=1)
                    want = we.mean() + eta * w.mean() - eta
                    fn = None if loss is None else (lambda a, b: np.abs(1 - b[np.arange(len(a)), a]))
                    for sg, s_ in signs(Mx.DeepEmbeddedValidation, domain_classifier=clf, loss_func=fn, random_state=mk()):
                        if seed == "own":
                            s_.random_state = mk()
                        ask(r, "embedded-validation", s_, pipe, X, y, sdl, sg * want, s, 1e-7, free_labels=False, ordered=False)
                        y2 = np.where(s, y, 1)
                        if seed == "own":
                            s_.random_state = mk()
                        v = s_(pipe, X, y2, sample_domain=sdl)
                        r.check(same(v, sg * want, 1e-7), "target-labels-used", lambda: f"{sc}: {v} want {sg * want}")  # noqa: B023
                    r.state("dev", sc["lay"], sc["k"], variant, str(clf), seed, loss)
                    if r.failures:
                        return
    r.trace()
    r.outcome("dev", sc["lay"])


class Aff(BaseEstimator):
    def fit(self, X, y=None):
        self.fitted_ = True
        return self

    def transform(self, X):
        return np.asarray(X) * 2 + 1


class Round(Table):
    def predict_proba(self, X):
        return np.array([self.table[round(float(v), 9)] for v in np.asarray(X)[:, 0]])


def run_mano_deep(sc, r):
    import torch
    vals = [[2.0, 0.5, -1.0], [12.0, -3.0, 0.0], [0.1, 0.2, 0.4]]
    k = sc["k"]
    rows = [vals[k % 3], vals[k // 3 % 3], vals[k // 9]]

    class Deep:
        class module_:
            layer_name = "x"

        def predict_proba(self, X, **kw):
            raise AssertionError("not used for deep models")

        def infer(self, X, **kw):
            return torch.tensor(np.array([lookup[float(v)] for v in np.asarray(X)[:, 0]]))

    for li, lay in enumerate(LAYS):
        sd = np.array(lay)
        s = sd >= 0
        X = np.stack([np.arange(6) + 1.0, np.ones(6)], 1)
        y = np.where(s, [0, 1, 0, 1, 0, 1], -1)
        lookup = {float(i + 1): [9.0, 9.5, 8.0] for i in range(6)}
        for i, row in zip(np.flatnonzero(~s), rows):
            lookup[float(i + 1)] = row
        L = np.array(rows)
        soft = np.exp(L) / np.exp(L).sum(1, keepdims=True)
        tay = 1 + L + L ** 2 / 2
        tay = tay - tay.min(1, keepdims=True)
        tay = tay / tay.sum(1, keepdims=True)
        crit = -np.log(soft).mean()
        for th in (5, 0, -1, 2.0, 100, 1.2):
            for p in (4, 2):
                prob = soft if crit > th else tay
                for sg, s_ in signs(Mx.MaNoScorer, p=p, threshold=th):
                    ask(r, "matrix-norm-deep", s_, Deep(), X, y, sd, sg * (prob ** p).mean() ** (1 / p), s, 1e-6)
        r.state("mano-deep", k, li)
    r.trace()
    r.outcome("mano-deep")


def run_cv(sc, r):
    """through cross validation the scorer sees each test split only."""
    g = np.random.RandomState(700 + sc["k"])
    sd = np.array((LAYS[sc["lay"]] * 4)[:22])
    s = sd >= 0
    X = g.randn(22, 2)
    X[~s] += 0.5
    y = np.where(s, (X[:, 0] > 0).astype(int), -1)
    true = (X[:, 0] > 0.4).astype(int)
    for name, scorer in {"sup": Mx.SupervisedScorer(), "ent": Mx.PredictionEntropyScorer(reduction="sum"), "snd": Mx.SoftNeighborhoodDensity(), "mano": Mx.MaNoScorer()}.items():
        cv = SourceTargetShuffleSplit(n_splits=2, test_size=0.4, random_state=sc["k"])
        pipe = make_da_pipeline(GaussianNB())
        params = {"sample_domain": sd}
        if name == "sup":
            params["target_labels"] = true
        res = cross_validate(pipe, X, y, cv=cv, params=params, scoring=scorer, error_score="raise")
        got = res["test_score"]
        want = []
        for tr, te in SourceTargetShuffleSplit(n_splits=2, test_size=0.4, random_state=sc["k"]).split(X, y, sd):
            f = make_da_pipeline(GaussianNB()).fit(X[tr], y[tr], sample_domain=sd[tr])
            t = te[sd[te] < 0]
            pr = f.predict_proba(X[t], sample_domain=sd[t])
            if name == "sup":
                want.append((f.predict(X[t], sample_domain=sd[t]) == true[t]).mean())
            elif name == "ent":
                want.append((pr * np.log(pr + 1e-300)).sum())
            elif name == "mano":
                want.append((pr ** 4).mean() ** 0.25)
            else:
                F = pr / np.linalg.norm(pr, axis=1, keepdims=True)
                S = np.exp(F @ F.T / 0.05)
                np.fill_diagonal(S, 0)
                S /= S.sum(1, keepdims=True)
                want.append(-np.where(S > 0, S * np.log(np.where(S > 0, S, 1)), 0).sum(1).mean())
        r.step(2)
        r.check(same(got, want, 1e-5), "cross-validation", lambda: f"{sc} {name}: {got} want {want}")  # noqa: B023
        r.state("cv", sc["lay"], sc["k"], name)
    r.trace()
    r.outcome("cv", sc["lay"])


class ByDomain(ClassifierMixin, BaseEstimator):
    """every answer depends on the row and on the domain it is said to come from; inputs may have more than two dimensions."""

    def __init__(self, seed=0, labels=None):
        self.seed = seed
        self.labels = labels

    def fit(self, X, y=None):
        self.classes_ = np.arange(3)
        return self

    def p_log(self, X, d):
        key = np.asarray(X).reshape(len(X), -1)[:, 0]
        L = np.stack([np.sin(1.3 * key + c * 2.1 + 0.7 * np.asarray(d) + self.seed) * 2 for c in range(3)], 1)
        return L - np.log(np.exp(L).sum(1, keepdims=True))

    def predict_proba(self, X, sample_domain):
        return np.exp(self.p_log(X, sample_domain))

    def predict(self, X, sample_domain):
        return self.p_log(X, sample_domain).argmax(1)

    def score(self, X, y, sample_domain, sample_weight=None):
        h = self.predict(X, sample_domain) == np.asarray(y)
        return float(np.average(h * (1 + np.asarray(X).reshape(len(X), -1)[:, 0]), weights=sample_weight))


class ByDomainLog(ByDomain):
    def predict_log_proba(self, X, sample_domain):
        return self.p_log(X, sample_domain)


def run_dom(sc, r):
    """Estimators that use the domain labels are scored with the true ones; inputs of any dimension are accepted."""
    lay = np.array((LAYS[sc["lay"]] * 2)[:12])
    n, s = len(lay), lay >= 0
    g = np.random.RandomState(60 + sc["t"])
    X = g.rand(n, 2)
    X3 = X if not sc["nd"] else np.concatenate([X, g.rand(n, 4)], 1).reshape(n, 3, 2)
    y = np.where(s, np.arange(n) % 3, -1)
    cls = (ByDomain, ByDomainLog)[sc["t"] % 2]
    req = dict(sample_domain=True)
    want = sc["want"]
    fin = cls(seed=sc["t"]).set_predict_proba_request(**req).set_predict_request(**req).set_score_request(sample_weight=True, **req)
    if cls is ByDomainLog:
        fin.set_predict_log_proba_request(**req)
    pipe = make_da_pipeline(fin).fit(X3, y, sample_domain=lay)
    L = fin.p_log(X3, lay)
    A, lab = np.exp(L), L.argmax(1)
    T = A[~s]
    flat = X3.reshape(n, -1)
    if want == 0:
        ask(r, "domains-entropy", Mx.PredictionEntropyScorer(reduction="sum", greater_is_better=True), pipe, X3, y, lay, -(T * np.log(T)).sum(), s, 1e-6)
        F = T / np.linalg.norm(T, axis=1, keepdims=True)
        S = np.exp(F @ F.T / 0.05)
        np.fill_diagonal(S, 0)
        S /= S.sum(1, keepdims=True)
        ask(r, "domains-neighbourhood-density", Mx.SoftNeighborhoodDensity(greater_is_better=False), pipe, X3, y, lay, np.where(S > 0, S * np.log(np.where(S > 0, S, 1)), 0).sum(1).mean(), s, 1e-4)
        ask(r, "domains-matrix-norm", Mx.MaNoScorer(), pipe, X3, y, lay, (T ** 4).mean() ** 0.25, s)
        true = np.where(s, 7, (np.arange(n) * 5 + sc["t"]) % 3)
        ask(r, "domains-supervised", Mx.SupervisedScorer(), pipe, X3, y, lay, ((lab == true) * (1 + flat[:, 0]))[~s].mean(), s, target_labels=true)
    elif want == 1:
        w = kde(flat[s], flat[~s], 1.0) / kde(flat[s], flat[s], 1.0)
        ask(r, "domains-importance-weighted", Mx.ImportanceWeightedScorer(), pipe, X3, y, lay, np.average(((lab == y) * (1 + flat[:, 0]))[s], weights=w), s, 1e-6)
        if not sc["nd"]:
            idx = np.flatnonzero(s)
            itr, iv = train_test_split(idx, test_size=0.33, random_state=1)
            c = LogisticRegression().fit(np.concatenate([flat[itr], flat[~s]]), [1] * len(itr) + [0] * int((~s).sum()))
            pr = c.predict_proba(flat[iv])
            w = len(itr) / (~s).sum() * pr[:, 0] / pr[:, 1]
            we = w * -L[iv, y[iv]]
            eta = -np.cov(we, w)[0, 1] / w.var(ddof=1)
            ask(r, "domains-embedded-validation", Mx.DeepEmbeddedValidation(random_state=1, greater_is_better=True), pipe, X3, y, lay, we.mean() + eta * w.mean() - eta, s, 1e-7, free_labels=False, ordered=False)
    elif not sc["nd"]:
        # circular validation and mixing only need the first labelling of the targets
        fin2 = ByDomainFit().set_fit_request(**req).set_predict_request(**req)
        pipe = make_da_pipeline(fin2).fit(X3, y, sample_domain=lay)
        fwd = np.unique(y[s])[fin2.answer(X3, lay) % len(np.unique(y[s]))]
        P.LOG.clear()
        v, e = raises(lambda: Mx.CircularValidation()(pipe, X3, y, sample_domain=lay))
        r.step()
        if e is not None:
            r.fail("domains-circular", f"{sc}: {e!r}")
            return
        log = [q for q in P.LOG if q[0] in ("dom-fit", "dom-predict")]
        first = [q for q in log if q[0] == "dom-predict"][0]
        r.check(same(first[2], lay[~s]), "domains-circular", lambda: f"{sc}: targets predicted with domains {first[2]}, they are from {lay[~s]}")
        fits = [q for q in log if q[0] == "dom-fit"]
        if len(np.unique(fwd[~s])) > 1:
            r.check(len(fits) == 1, "domains-circular", lambda: f"{sc}: {len(fits)} backward fits")
            last = [q for q in log if q[0] == "dom-predict"][-1]
            pos = {tuple(x): i for i, x in enumerate(X3)}
            at = {pos[tuple(x)]: d for x, d in zip(fits[0][1], fits[0][2])}
            for x, d in zip(last[1], last[2]):
                r.check(at[pos[tuple(x)]] == d, "domains-circular", lambda: f"{sc}: row trained in domain {at[pos[tuple(x)]]} is predicted in domain {d}")  # noqa: B023
    r.state("dom", sc)
    r.trace()
    r.outcome("dom", want, sc["nd"])


class ByDomainFit(ClassifierMixin, BaseEstimator):
    def fit(self, X, y, sample_domain):
        P.LOG.append(("dom-fit", np.array(X), np.array(sample_domain)))
        self.classes_ = np.unique(y[y != -1])  # asks for domains itself, so it is given the masked rows too
        return self

    def answer(self, X, d):
        return (np.asarray(X)[:, 0] * 7 + np.abs(d)).astype(int) % 3

    def predict(self, X, sample_domain):
        P.LOG.append(("dom-predict", np.array(X), np.array(sample_domain)))
        return self.classes_[self.answer(X, sample_domain) % len(self.classes_)]


def run_refuse(sc, r):
    """What a scorer cannot work with is refused."""
    X, sd, s = geo({"lay": 0}, 0, 0.7)
    y = np.where(s, [0, 1, 0, 1, 0, 1], -1)
    noproba = make_da_pipeline(Unsure()).fit(X, y, sample_domain=sd)
    for cls in (Mx.PredictionEntropyScorer, Mx.SoftNeighborhoodDensity, Mx.DeepEmbeddedValidation, Mx.MaNoScorer):
        _, e = raises(lambda: cls()(noproba, X, y, sample_domain=sd))  # noqa: B023
        r.step()
        r.check(isinstance(e, AttributeError), "no-probabilities-accepted", lambda: f"{cls.__name__}: {e!r}")  # noqa: B023
    for bad in ("median", None, "Mean", 3):
        _, e = raises(lambda: Mx.PredictionEntropyScorer(reduction=bad))  # noqa: B023
        r.check(isinstance(e, ValueError), "bad-option-accepted", f"entropy reduction={bad!r}")
    for bad in (0, -1, -0.5):
        _, e = raises(lambda: Mx.MaNoScorer(p=bad))  # noqa: B023
        r.check(isinstance(e, ValueError), "bad-option-accepted", f"matrix norm p={bad!r}")
    for bad in ("accuracy", 3, [1]):
        _, e = raises(lambda: Mx.CircularValidation(source_scorer=bad))  # noqa: B023
        r.check(isinstance(e, ValueError), "bad-option-accepted", f"circular source_scorer={bad!r}")
    ok = make_da_pipeline(KNeighborsClassifier(1)).fit(X, y, sample_domain=sd)
    _, e = raises(lambda: Mx.SupervisedScorer()(ok, X, y, sample_domain=sd))
    r.check(e is not None, "missing-target-labels-accepted", "")
    for cls in (Mx.PredictionEntropyScorer, Mx.SoftNeighborhoodDensity, Mx.MaNoScorer, Mx.ImportanceWeightedScorer, Mx.CircularValidation, Mx.MixValScorer, Mx.DeepEmbeddedValidation):
        _, e = raises(lambda: cls()(ok, X, y, sample_domain=sd[:-1]))  # noqa: B023
        r.check(e is not None, "short-domains-accepted", cls.__name__)
        r.state(cls.__name__)
    r.trace()
    r.outcome("refuse")


class Unsure(ClassifierMixin, BaseEstimator):
    def fit(self, X, y):
        self.classes_ = np.unique(y)
        return self

    def predict(self, X):
        return np.zeros(len(X), int)


def run_known(sc, r):
    k = sc["k"]
    fake = {"what": k, "lay": 0}
    r.step()
    r.trace()
    r.state(k)
    r.outcome(k)
    if k == "entropy-mean":
        X, y, sd, s, tab, pipe = frame(fake, [(0.5, 0.5)] * 3)
        v = Mx.PredictionEntropyScorer(greater_is_better=True)(pipe, X, y, sample_domain=sd)
        r.check(same(v, np.log(2), 1e-5), "mean-entropy", f"three rows of entropy {np.log(2):.4f} have mean {v:.4f}")
        return
    X, sd, s = geo(fake, 0, 0.7)
    y = np.where(s, [0, 1, 0, 1, 0, 1], -1)
    pipe = make_da_pipeline(LogisticRegression().set_score_request(sample_weight=True)).fit(X, y, sample_domain=sd)
    cls, kw = {"string-Supervised": (Mx.SupervisedScorer, {"target_labels": np.array([0, 1, 0, 1, 0, 1])}), "string-IW": (Mx.ImportanceWeightedScorer, {}),
               "string-MixVal": (Mx.MixValScorer, {})}[k]
    for scoring in ("accuracy", make_scorer(lambda a, b: float((a == b).mean())), lambda est, X, y: 1.0):
        _, e = raises(lambda: cls(scoring=scoring)(pipe, X, y, sample_domain=sd, **kw))  # noqa: B023
        r.check(e is None, "documented-scoring-refused", lambda: f"{cls.__name__}(scoring={scoring!r}): {e!r}")  # noqa: B023


def run(sc, r):
    w = sc["what"]
    if w in ("entropy", "entropy-log", "snd", "mano"):
        run_tables(sc, r)
    elif w == "circ-reg":
        run_circ(sc, r, True)
    else:
        {"sup": run_sup, "iw": run_iw, "circ": run_circ, "mix": run_mix, "dev": run_dev, "mano-deep": run_mano_deep, "cv": run_cv, "known": run_known, "dom": run_dom, "refuse": run_refuse}[w](sc, r)
