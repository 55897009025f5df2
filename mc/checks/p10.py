import itertools

import numpy as np
from sklearn.base import BaseEstimator
from sklearn.exceptions import NotFittedError

from mc.util import layouts, raises, same, snapshot, unchanged
from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, Shared, make_da_pipeline

ID = "P10"
TECHNIQUE = ("exhaustive enumeration of domain layouts x selectors x output types x operation sequences on the real selectors, every call of the wrapped "
             "probe estimator and every merged output compared with a row-set reference model")
LEVEL = "model_checking"
NOTE = "Probe estimators log the samples they are fitted on and answer with a function of those samples, so a row served by the wrong estimator is visible."
ASSUMPTIONS = ["an estimator's behaviour depends only on what it receives"]
ALPHA = (1, 2, -1, -3)
KINDS = ["f", "f32", "i", "mix", "s", "m", "b", "big"]
SELS = ["shared", "source", "target", "st", "st2", "per", "perm"]
LOG = []


def BOUNDS(tier):
    return "all layouts over domains %s up to length %d; %d selectors; %d output types; estimator and transformer; weights on/off; labels given/omitted" % (
        ALPHA, 4 if tier == "quick" else 5, len(SELS), len(KINDS))


def scenarios(tier):
    for lay in layouts(ALPHA, 1, 4 if tier == "quick" else 5):
        # up to renaming of the two source (target) domains
        if tier == "quick" and len(lay) == 4 and (2 in lay and (1 not in lay or lay.index(2) < lay.index(1))):
            continue
        for sel in SELS:
            yield {"lay": list(lay), "sel": sel}
    yield {"refuse": 1}
    for lay in [(1, 0, -2, 0, 1, -2), (0, -1, 0, 3, -1), (-5, 7, 7, -5, 0, -9)]:
        for sel in SELS:
            yield {"lay": list(lay), "sel": sel}


def answer(kind, sig, ids):
    """What a probe fitted on samples with signature sig answers for rows ids."""
    ids = np.asarray(ids)
    sig = int(sig)
    if kind == "f":
        return ids * 0.1 + sig
    if kind == "f32":
        return (ids * 0.25 + sig).astype(np.float32 if sig % 2 else np.float64)
    if kind == "i":
        return (ids + sig).astype(np.int8) if sig % 2 else ids.astype(np.int64) * 1000 + sig
    if kind == "mix":
        return ids.astype(np.int64) * 100 + sig if sig % 2 else ids * 100 + sig + 0.5
    if kind == "s":
        return np.array([f"{int(i)}" + "ab" * sig for i in ids])
    if kind == "m":
        return np.stack([ids * 0.1, ids + sig + 0.25, sig - ids], 1)
    if kind == "b":
        return (ids.astype(int) + sig) % 2 == 0
    if kind == "big":
        return ids.astype(np.int64) + 2 ** 53 + 1 + sig * 16
    raise AssertionError


class E(BaseEstimator):
    __metadata_request__fit = {"sample_weight": True}

    def __init__(self, kind="f", tag=0):
        self.kind = kind
        self.tag = tag

    def fit(self, X, y=None, sample_weight=None):
        LOG.append((self.tag, X[:, 1].copy(), None if y is None else np.array(y), None if sample_weight is None else np.array(sample_weight)))
        self.sig_ = int(X[:, 1].min()) + 20 * self.tag
        self.fitted_ = True
        return self

    def _ans(self, X):
        return answer(self.kind, self.sig_, X[:, 1])

    predict = predict_proba = decision_function = predict_log_proba = _ans


class TR(BaseEstimator):
    __metadata_request__fit = {"sample_weight": True}

    def __init__(self, kind="f", tag=0):
        self.kind = kind
        self.tag = tag

    fit = E.fit

    def transform(self, X):
        a = answer(self.kind, self.sig_, X[:, 1])
        return a if a.ndim == 2 else a[:, None]


class TFT(TR):
    def fit_transform(self, X, y=None, sample_weight=None):
        return self.fit(X, y, sample_weight).transform(X)


class TC(TR):
    """returns new features together with new labels and / or new metadata (kind: what it returns)."""

    def fit_transform(self, X, y=None, sample_weight=None):
        self.fit(X, y, sample_weight)
        ids = X[:, 1]
        Xt = answer("m", self.sig_, ids)
        meta = {"sample_weight": ids * 10 + self.sig_, "score": np.stack([ids, ids + self.sig_], 1)}
        if self.kind == "meta":
            return Xt, meta
        if self.kind == "none":
            return Xt, None, meta
        return Xt, ids * 100 + self.sig_, meta

    def transform(self, X):
        return answer("m", self.sig_, X[:, 1])


def build(sel, cls, kind):
    if sel == "shared":
        return Shared(cls(kind))
    if sel == "source":
        return SelectSource(cls(kind))
    if sel == "target":
        return SelectTarget(cls(kind))
    if sel == "st":
        return SelectSourceTarget(cls(kind))
    if sel == "st2":
        return SelectSourceTarget(cls(kind), cls(kind, 1))
    return PerDomain(cls(kind), mask_target_labels=(sel == "perm"))


def groups(sel, sd, fit=True):
    """group key -> member rows (as a mask), for fitting."""
    if sel == "shared":
        return {"all": np.ones(len(sd), bool)}
    if sel == "source":
        return {"all": sd >= 0} if fit else {"all": np.ones(len(sd), bool)}
    if sel == "target":
        return {"all": sd < 0} if fit else {"all": np.ones(len(sd), bool)}
    if sel in ("st", "st2"):
        return {"source": sd >= 0, "target": sd < 0}
    return {int(d): sd == d for d in np.unique(sd)}


METHODS = ("predict", "predict_proba", "predict_log_proba", "decision_function", "score", "transform")


def run_refuse(sc, r):
    """A selector offers what its estimator offers, and only once fitted; settings that cannot work are refused."""
    makers = {n: (lambda n=n: type(n, (BaseEstimator,), {"fit": lambda self, X, y=None: self, **{m: (lambda self, X, y=None: X) for m in METHODS if m in n.split("-")}})())
              for n in ["-".join(c) for k in range(len(METHODS) + 1) for c in itertools.combinations(METHODS, k)]}
    classes = {"shared": Shared, "source": SelectSource, "target": SelectTarget, "st": SelectSourceTarget, "per": PerDomain}
    X, sd = np.ones((3, 2)), np.array([1, -2, -2])
    for name, cls in classes.items():
        for n, mk in makers.items():
            s = cls(mk())
            for m in METHODS:
                r.step()
                r.check(hasattr(s, m) == (m in n.split("-")), "method-offered", lambda: f"{name} around an estimator with {n or 'no method'}: {m} offered {hasattr(s, m)}")  # noqa: B023
                if hasattr(s, m):
                    _, e = raises(lambda: getattr(s, m)(X, **({"y": np.ones(3)} if m == "score" else {}), sample_domain=sd, allow_source=True))  # noqa: B023
                    r.check(isinstance(e, NotFittedError), "unfitted-answers", lambda: f"{name} unfitted {m}: {e!r}")  # noqa: B023
            r.state(name, n)
        # masking the labels a selector works with makes no sense
        for mask in (True, False):
            _, e = raises(lambda: cls(makers["predict"](), mask_target_labels=mask))  # noqa: B023
            r.check((e is None) == (not mask or name not in ("target", "st")) and (e is None or isinstance(e, ValueError)), "mask-setting", lambda: f"{name} mask_target_labels={mask}: {e!r}")  # noqa: B023
            if e is None:
                r.check(cls(makers["predict"](), mask_target_labels=mask).mask_target_labels is mask, "mask-setting", name)
    for a, b in itertools.product(makers, repeat=2):
        pair, e = raises(lambda: SelectSourceTarget(makers[a](), makers[b]()))  # noqa: B023
        both = ("transform" in a.split("-")) == ("transform" in b.split("-"))
        r.step()
        r.check((e is None) == both and (both or isinstance(e, TypeError)), "mixed-pair", lambda: f"source estimator with {a}, target estimator with {b}: {e!r}")  # noqa: B023
    r.trace()
    r.outcome("refuse")


def run(sc, r):
    if sc.get("refuse"):
        return run_refuse(sc, r)
    sd = np.array(sc["lay"])
    n = len(sd)
    sel = sc["sel"]
    ids = np.array([(3 * i) % 7 + 1 for i in range(n)], float)
    if n > 7:
        raise AssertionError
    X = np.stack([ids * 0.5, ids], 1)
    masks_labels = sel in ("shared", "source", "perm")
    for kind, (cls, with_y, reg), uw in itertools.product(
            KINDS, ((E, 1, 0), (E, 1, 1), (TR, 1, 0), (TFT, 1, 0), (TFT, 0, 0)), (0, 1)):
        if cls is not E and kind in ("s", "b"):
            continue
        if (kind in ("f32", "m", "b") and uw) or (reg and kind not in ("f", "mix")):
            continue
        y = ((np.arange(n) % 3 + 0.5) if reg else np.arange(n) % 3) if with_y else None
        w = ids * 2.0 if uw else None
        kw = {"sample_domain": sd}
        if uw:
            kw["sample_weight"] = w
        m = build(sel, cls, kind)
        snap = snapshot(X, y, sd, w)
        g = groups(sel, sd)
        usable = {}
        for k, rows in g.items():
            lab = rows & (sd >= 0) if (masks_labels and cls is E) else rows
            if lab.any():
                usable[k] = lab
        illegal = (sel in ("st", "st2") and len(usable) < 2) or not usable
        LOG.clear()
        r.trace()
        ctx = lambda: f"{sel} {cls.__name__} {kind} y={y} w={uw} lay={sd.tolist()}"  # noqa: E731, B023
        if cls is E:
            _, e = raises(lambda: m.fit(X, y, **kw))
            out = None
        else:
            res, e = raises(lambda: m.fit_transform(X, y, **kw))
            out = None if e is not None else res.merge_out(None)
        r.step()
        if illegal and e is None and sel in ("perm", "target", "source", "shared"):
            # nothing to fit: accepted as long as nothing is ever answered
            _, e = raises(lambda: m.predict(X, sample_domain=sd) if cls is E else 0)  # noqa: B023
        if illegal:
            r.check(e is not None, "illegal-accepted", ctx)
            r.outcome("refused")
            continue
        if e is not None:
            r.fail("fit-refused", f"{ctx()}: {type(e).__name__} {e}")
            continue
        # -- every estimator was fitted on exactly its own samples
        calls = list(LOG)
        want = [(ids[rows], None if y is None else np.where(sd < 0, np.nan if reg else -1, y)[rows] if masks_labels else y[rows],
                 None if w is None else w[rows], 1 if (sel == "st2" and k == "target") else 0) for k, rows in usable.items()]
        if r.check(len(calls) == len(want), "fit-count", lambda: f"{ctx()}: {len(calls)} fits"):
            for tag, fi, fy, fw in calls:
                hit = [q for q in want if q[3] == tag and len(q[0]) == len(fi) and same(q[0], fi)]
                r.check(len(hit) == 1, "fit-rows", lambda: f"{ctx()}: fitted on {fi}")
                if hit:
                    r.check((fy is None) == (hit[0][1] is None) and (fy is None or same(fy, hit[0][1])), "fit-labels", lambda: f"{ctx()}: {fy} for {fi}")
                    r.check((fw is None) == (hit[0][2] is None) and (fw is None or same(fw, hit[0][2])), "fit-weights", lambda: f"{ctx()}: {fw} for {fi}")
                r.step()
        r.check(unchanged(snap, X, y, sd, w), "inputs-changed", ctx)
        sig = {k: int(ids[rows].min()) + (20 if sel == "st2" and k == "target" else 0) for k, rows in usable.items()}
        r.state(sel, cls.__name__, kind, sd, sorted(sig.items(), key=str))

        def expected(qi, qd):
            rows = [None] * len(qi)
            for k, mask in groups(sel, qd, fit=False).items():
                if not mask.any():
                    continue
                if k not in sig:
                    return None
                a = answer(kind, sig[k], qi[mask])
                for pos, v in zip(np.flatnonzero(mask), a):
                    rows[pos] = v
            return rows

        def compare(got, rows, what):
            ok = isinstance(got, np.ndarray) and len(got) == len(rows)
            if ok:
                for a, b in zip(got, rows):
                    a, b = np.ravel(a), np.ravel(b)
                    ok = ok and len(a) == len(b) and all(u == v for u, v in zip(a.tolist(), b.tolist()))
            r.check(ok, what, lambda: f"{ctx()}: got {got.tolist() if hasattr(got, 'tolist') else got} want {rows}")
            r.outcome(kind, np.asarray(rows))

        if out is not None:
            fX, fy, fp = out
            if sel in ("source", "target"):
                keep = g["all"]
                qi, qd = ids[keep], sd[keep]
                r.check(same(fp.get("sample_domain", qd), qd), "out-domains", ctx)
                r.check(fy is None if y is None else True, "out-labels", ctx)
            else:
                qi, qd = ids, sd
            compare(fX, expected(qi, qd), "fit-transform-rows")
        # -- use on new data
        queries = [np.arange(n), np.arange(n)[::-1], np.flatnonzero(sd < 0), np.flatnonzero(sd >= 0)[::-1]] + [np.array([i]) for i in range(n)]
        for q in queries:
            if not len(q):
                continue
            qi, qd = ids[q] + 0.0, sd[q]
            Xq = np.stack([qi, qi], 1)
            sn = snapshot(Xq, qd)
            for meth in (("predict", "predict_proba", "decision_function", "predict_log_proba") if cls is E else ("transform",)):
                if cls is E and meth != "predict" and len(q) != n:
                    continue
                res, e = raises(lambda: getattr(m, meth)(Xq, sample_domain=qd))
                rows = expected(qi, qd)
                r.step()
                if rows is None:
                    r.check(e is not None, "unknown-domain-answered", lambda: f"{ctx()}: {meth} domains {qd}")
                    continue
                if e is not None:
                    r.fail("use-refused", f"{ctx()} {meth} {qd}: {type(e).__name__} {e}")
                    continue
                compare(res, rows, meth + "-rows")
            r.check(unchanged(sn, Xq, qd), "inputs-changed-use", ctx)
        if sel in ("per", "perm"):
            for d in (5, -2, 11):
                if d in sd:
                    continue
                qd = np.r_[sd, d]
                Xq = np.r_[X, [[1.0, 1.0]]]
                _, e = raises(lambda: (m.predict if cls is E else m.transform)(Xq, sample_domain=qd))
                r.check(e is not None, "unknown-domain-answered", lambda: f"{ctx()}: domain {d}")
                r.step()
            for k in sig:
                r.check(m.get_estimator(k).sig_ == sig[k], "get-estimator", ctx)
        elif sel in ("st", "st2"):
            for k in sig:
                r.check(m.get_estimator(k).sig_ == sig[k], "get-estimator", ctx)
        else:
            r.check(m.get_estimator().sig_ == sig["all"], "get-estimator", ctx)
        # -- the same selector as the final step of a pipeline
        if cls is E and kind in ("f", "s", "big"):
            p = make_da_pipeline(build(sel, cls, kind))
            p.fit(X, y, **kw)
            rows = expected(ids, sd)
            if rows is not None:
                compare(p.predict(X, sample_domain=sd, **({"allow_source": True} if False else {})), rows, "pipeline-predict-rows")
                r.step()
    run_containers(sc, r, sd, sel, ids, X)
    # weights requested by one of the two sides only reach that side
    if sel == "st2" and (sd >= 0).any() and (sd < 0).any():
        y, w = np.arange(n) % 3, ids * 2.0
        for side in (0, 1):
            ests = [E("f", 0), E("f", 1)]
            ests[1 - side].set_fit_request(sample_weight=False)
            LOG.clear()
            make_da_pipeline(SelectSourceTarget(*ests)).fit(X, y, sample_domain=sd, sample_weight=w)
            r.step()
            for tag, fi, fy, fw in LOG:
                rows = (sd < 0) if tag else (sd >= 0)
                r.check(fw is None if tag != side else (fw is not None and same(fw, w[rows])), "side-weights", lambda: f"{sd} side {tag}: {fw}")


def run_containers(sc, r, sd, sel, ids, X):
    """a transformer that also answers labels and metadata: all of it stays with its rows."""
    g = {k: m for k, m in groups(sel, sd).items() if m.any()}
    if sel in ("st", "st2") and len(g) < 2 or not g:
        return
    y = np.arange(len(sd)) % 3
    for kind in ("meta", "none", "labels"):
        m = build(sel, TC, kind)
        res, e = raises(lambda: m.fit_transform(X, y, sample_domain=sd, sample_weight=ids * 2.0))  # noqa: B023
        r.step()
        ctx = lambda: f"{sel} transformer returning {kind} lay={sd.tolist()}"  # noqa: E731, B023
        if e is not None:
            r.fail("fit-refused", f"{ctx()}: {type(e).__name__} {e}")
            continue
        fX, fy, fp = res.merge_out(None)
        keep = g["all"] if "all" in g else np.ones(len(sd), bool)
        sig = np.zeros(len(sd))
        for k, rows in g.items():
            sig[rows] = int(ids[rows].min()) + (20 if sel == "st2" and k == "target" else 0)
        want = {"features": np.stack([ids * 0.1, ids + sig + 0.25, sig - ids], 1)[keep], "sample_weight": (ids * 10 + sig)[keep],
                "score": np.stack([ids, ids + sig], 1)[keep]}
        r.check(same(fX, want["features"]), "container-features", lambda: f"{ctx()}: {fX.tolist()} want {want['features'].tolist()}")  # noqa: B023
        for k in ("sample_weight", "score"):
            r.check(k in fp and same(fp[k], want[k]), "container-metadata", lambda: f"{ctx()}: {k} {fp.get(k)} want {want[k].tolist()}")  # noqa: B023
        if kind == "labels":
            r.check(fy is not None and same(fy, (ids * 100 + sig)[keep]), "container-labels", lambda: f"{ctx()}: {fy}")  # noqa: B023
        r.state("container", sel, kind, sd, want["sample_weight"])
