import itertools

import numpy as np
from sklearn.base import BaseEstimator, TransformerMixin
from sklearn.exceptions import UnsetMetadataPassedError

from mc.util import raises
from mc.probes import W, weight_of
from skada import PerDomain, SelectSource, SelectSourceTarget, make_da_pipeline

ID = "P30"
TECHNIQUE = ("exhaustive enumeration of metadata requests x selectors x steps x metadata origins x methods on real pipelines, every delivery logged by the "
             "probe estimators compared with an explicit routing model")
LEVEL = "model_checking"
NOTE = ("The reference model walks the steps with the set of metadata available to each; probes log exactly what reached each call, keyed by the identity of "
        "the rows, so a lost, leaked, renamed or misaligned value is visible.")
ASSUMPTIONS = ["scikit-learn's own process_routing hands a step the keys named in its routing"]
REQ = [True, False, None, "my"]
SELS = ["shared", "source", "per", "st"]
LAYS = [(1, -2, 1, -2, 1, -2), (-2, 2, -3, 1, 1, -2, 2)]
LOG = []


def BOUNDS(tier):
    return ("requests %s at a transformer and at the final estimator x selectors %s at both x adapter-made weights on/off x user metadata subsets x "
            "fit/fit_transform/transform/predict/predict_proba/decision_function/score; %d layouts; per-sample and scalar values" % (REQ, SELS, len(LAYS)))


class TF(TransformerMixin, BaseEstimator):
    """Transformer with fit_transform."""
    own = True

    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, X, y=None, sample_weight=None):
        LOG.append((self.tag, "fit", X[:, 1].astype(int), sample_weight))
        self.f_ = 1
        return self

    def transform(self, X):
        return X


class TN(BaseEstimator):
    """Transformer without fit_transform, whose transform takes metadata."""

    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, X, y=None, sample_weight=None):
        LOG.append((self.tag, "fit", X[:, 1].astype(int), sample_weight))
        self.f_ = 1
        return self

    def transform(self, X, flag=None):
        LOG.append((self.tag, "transform", X[:, 1].astype(int), flag))
        return X


class CX(BaseEstimator):
    _estimator_type = "classifier"

    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, X, y=None, sample_weight=None):
        LOG.append((self.tag, "fit", X[:, 1].astype(int), sample_weight))
        self.f_ = 1
        return self

    def predict(self, X, flag=None):
        LOG.append((self.tag, "predict", X[:, 1].astype(int), flag))
        return X[:, 1]

    def predict_proba(self, X, flag=None):
        LOG.append((self.tag, "predict_proba", X[:, 1].astype(int), flag))
        return X

    def decision_function(self, X, flag=None):
        LOG.append((self.tag, "decision_function", X[:, 1].astype(int), flag))
        return X[:, 1]

    def predict_log_proba(self, X, flag=None):
        LOG.append((self.tag, "predict_log_proba", X[:, 1].astype(int), flag))
        return X

    def score(self, X, y, sample_weight=None):
        LOG.append((self.tag, "score", X[:, 1].astype(int), sample_weight))
        return 1.0


WRAP = {"shared": lambda e: e, "source": SelectSource, "per": PerDomain, "st": SelectSourceTarget}
PRED = ["predict", "predict_proba", "predict_log_proba", "decision_function"]


def scenarios(tier):
    for li in range(len(LAYS)):
        for mid in ["TF", "TN", "no"]:
            for rm, sm in itertools.product(REQ, SELS) if mid != "no" else [(False, "shared")]:
                for ad in (0, 1):
                    yield {"k": "fit", "lay": li, "mid": mid, "rm": rm, "sm": sm, "ad": ad}
        for rm, sm in itertools.product(REQ, SELS):
            yield {"k": "tr", "lay": li, "rm": rm, "sm": sm}
        for rm, sm in itertools.product(REQ, SELS):
            for m in PRED:
                yield {"k": "pred", "lay": li, "rm": rm, "sm": sm, "m": m}
        for rm, sm in itertools.product(REQ, ["shared", "source"]):
            yield {"k": "score", "lay": li, "rm": rm, "sm": sm}


def names(req, name):
    """Keys a method with this request takes from the caller."""
    return set() if req is False else {name} if req in (True, None) else {req}


def setreq(e, method, **kw):
    for name, req in kw.items():
        if req is not None:
            getattr(e, f"set_{method}_request")(**{name: req})
    return e


def data(li):
    sd = np.array(LAYS[li])
    n = len(sd)
    X = np.stack([np.linspace(0, 1, n), np.arange(n)], 1).astype(float)
    return X, np.arange(n) % 2, sd


def delivered(ids, v):
    """'-' nothing, 's' scalar, or the base of an aligned array (v = base + id); 'BAD' otherwise."""
    if v is None:
        return "-"
    if np.ndim(v) == 0:
        return "s"
    v = np.asarray(v)
    if v.shape != (len(ids),):
        return "BAD"
    for base in (100, 200, 300):
        if np.array_equal(v, base + ids):
            return base
    return "w" if np.array_equal(v, weight_of(ids)) else "BAD"


def attempt(r, key, f, refuse, what):
    """Runs f; returns True when it ran and was expected to run."""
    LOG.clear()
    r.step()
    _, ex = raises(f)
    if refuse is None:
        if ex is not None:
            r.fail(f"{key}-refused", f"{what}: {type(ex).__name__}: {ex}")
        return ex is None
    if ex is None:
        r.fail(f"{key}-accepted", f"{what}: expected {refuse}, ran and delivered {[(t, m, delivered(i, v)) for t, m, i, v in LOG]}")
        return False
    ok = isinstance(ex, TypeError) if refuse == "unexpected" else isinstance(ex, UnsetMetadataPassedError)
    r.check(ok, f"{key}-refusal-kind", lambda: f"{what}: expected {refuse}, got {type(ex).__name__}: {ex}")
    return False


def expect(r, key, tag, method, value, what):
    got = [(i, v) for t, m, i, v in LOG if t == tag and m == method]
    if not r.check(len(got) > 0, f"{key}-not-called", what):
        return
    for ids, v in got:
        d = delivered(ids, v)
        r.state(key, method, str(d), str(value))
        r.check(d == value, f"{key}-{'leaked' if value == '-' else 'lost' if d == '-' else 'wrong'}",
                lambda: f"{what}: step {tag} {method} expected {value}, got {d} ({v}) for rows {ids.tolist()}")


def run_fit(sc, r):
    X, y, sd = data(sc["lay"])
    n = len(sd)
    vals = {"sample_weight": 100.0 + np.arange(n), "my": 200.0 + np.arange(n)}
    rm, sm, mid = sc["rm"], sc["sm"], sc["mid"]
    for rf, sf in itertools.product(REQ, SELS):
        for keys in [(), ("sample_weight",), ("my",), ("sample_weight", "my"), ("other",)]:
            if mid != "no" and sm == "source" and rf == "my" and rm != "my" and "my" in keys:
                continue        # metadata under another name is not filtered with the rows
            if mid != "no" and sm == "source" and sf == "st":
                continue        # no target row is left for the pair
            kw = {k: vals.get(k, 1.0) for k in keys}
            steps, model = [], []
            if sc["ad"]:
                steps.append(W())
                model.append(("W", None, {"sample_weight"}))
            if mid != "no":
                e = setreq({"TF": TF, "TN": TN}[mid](5), "fit", sample_weight=rm)
                steps.append(WRAP[sm](e))
                model.append((5, rm, names(rm, "sample_weight") | ({"sample_weight"} if sm == "source" else set())))
            e = setreq(CX(6), "fit", sample_weight=rf)
            steps.append(WRAP[sf](e))
            model.append((6, rf, names(rf, "sample_weight") | ({"sample_weight"} if sf == "source" else set())))
            what = f"fit {sc} final={rf},{sf} user={keys}"
            refuse, exp, box = None, [], {}
            if set(keys) - set().union(*[c for _, _, c in model]):
                refuse = "unexpected"
            else:
                for tag, req, c in model:
                    avail = {k: {"sample_weight": 100, "my": 200}.get(k) for k in keys if k in c}
                    avail.update(box)
                    if tag == "W":
                        box = {"sample_weight": "w"}
                        continue
                    if tag == 6 and req is None and "sample_weight" in avail:
                        refuse = "unset"
                    k = req if isinstance(req, str) else "sample_weight"
                    exp.append((tag, avail.get(k, "-") if req not in (None, False) else "-"))
                    if tag == 5 and sm == "source":
                        box = avail
            r.trace()
            p = make_da_pipeline(*steps)
            if attempt(r, "fit", lambda: p.fit(X.copy(), y.copy(), sample_domain=sd.copy(), **kw), refuse, what):
                for tag, v in exp:
                    expect(r, "fit", tag, "fit", v, what)
            r.outcome(refuse, [str(v) for _, v in exp])


def run_tr(sc, r):
    """Metadata of transform: while fitting and after."""
    X, y, sd = data(sc["lay"])
    n = len(sd)
    rm, sm = sc["rm"], sc["sm"]
    for keys in [(), ("flag",), ("my",), ("other",), ("flag", "my")]:
        for scalar in (0, 1):
            kw = {k: ({"flag": 2.5, "my": 3.5}.get(k, 1.0) if scalar else {"flag": 100.0, "my": 200.0}.get(k, 1.0) + np.arange(n)) for k in keys}
            for final in (0, 1):
                e = setreq(setreq(TN(5), "fit", sample_weight=False), "transform", flag=rm)
                steps = [WRAP[sm](e)] + ([] if final else [setreq(setreq(CX(6), "fit", sample_weight=False), "predict", flag=False)])
                key = rm if isinstance(rm, str) else "flag"
                value = "-" if rm in (None, False) or key not in keys else "s" if scalar else {"flag": 100, "my": 200}[key]
                for op in ("fit", "fit_transform", "transform", "predict"):
                    if (op in ("fit_transform", "transform")) != bool(final):
                        continue
                    refuse = "unexpected" if set(keys) - names(rm, "flag") else "unset" if final and rm is None and "flag" in keys else None
                    what = f"{op} {sc} user={keys} scalar={scalar}"
                    p = make_da_pipeline(*steps)
                    if op in ("transform", "predict"):
                        p.fit(X.copy(), y.copy(), sample_domain=sd.copy())
                    call = {"fit": lambda: p.fit(X.copy(), y.copy(), sample_domain=sd.copy(), **kw),
                            "fit_transform": lambda: p.fit_transform(X.copy(), y.copy(), sample_domain=sd.copy(), **kw),
                            "transform": lambda: p.transform(X.copy(), sample_domain=sd.copy(), **kw),
                            "predict": lambda: p.predict(X.copy(), sample_domain=sd.copy(), **kw)}[op]
                    r.trace()
                    if attempt(r, op, call, refuse, what):
                        expect(r, op, 5, "transform", value, what)


def run_pred(sc, r):
    X, y, sd = data(sc["lay"])
    n = len(sd)
    rm, sm, m = sc["rm"], sc["sm"], sc["m"]
    for keys in [(), ("flag",), ("my",), ("other",), ("flag", "my")]:
        for rt, st in itertools.product(REQ, ["no", "shared", "per"]):
            if st == "no" and rt is not True:
                continue
            sub = sd > 0 if "per" in (sm, st) else np.full(n, True)
            for scalar in (0, 1):
                kw = {k: ({"flag": 2.5, "my": 3.5}.get(k, 1.0) if scalar else ({"flag": 100.0, "my": 200.0}.get(k, 1.0) + np.arange(n))[sub]) for k in keys}
                c = setreq(setreq(CX(6), "fit", sample_weight=False), m, flag=rm)
                steps = [WRAP[sm](c)]
                cons = names(rm, "flag")
                if st != "no":
                    steps.insert(0, WRAP[st](setreq(setreq(TN(5), "fit", sample_weight=False), "transform", flag=rt)))
                    cons = cons | names(rt, "flag")
                p = make_da_pipeline(*steps)
                p.fit(X.copy(), y.copy(), sample_domain=sd.copy())
                refuse = "unexpected" if set(keys) - cons else "unset" if rm is None and "flag" in keys else None
                what = f"{m} {sc} transformer={rt},{st} user={keys} scalar={scalar}"
                r.trace()
                if attempt(r, m, lambda: getattr(p, m)(X[sub], sample_domain=sd[sub], **kw), refuse, what):
                    for tag, meth, req in [(6, m, rm)] + ([(5, "transform", rt)] if st != "no" else []):
                        key = req if isinstance(req, str) else "flag"
                        value = "-" if req in (None, False) or key not in keys else "s" if scalar else {"flag": 100, "my": 200}[key]
                        expect(r, m, tag, meth, value, what)


def run_score(sc, r):
    X, y, sd = data(sc["lay"])
    n = len(sd)
    rm, sm = sc["rm"], sc["sm"]
    for keys in [(), ("sample_weight",), ("my",), ("other",)]:
        kw = {k: {"sample_weight": 100.0, "my": 200.0}.get(k, 1.0) + np.arange(n) for k in keys}
        c = setreq(setreq(CX(6), "fit", sample_weight=False), "score", sample_weight=rm)
        p = make_da_pipeline(WRAP[sm](c))
        p.fit(X.copy(), y.copy(), sample_domain=sd.copy())
        refuse = "unexpected" if set(keys) - names(rm, "sample_weight") else "unset" if rm is None and keys else None
        key = rm if isinstance(rm, str) else "sample_weight"
        value = "-" if rm in (None, False) or key not in keys else {"sample_weight": 100, "my": 200}[key]
        what = f"score {sc} user={keys}"
        r.trace()
        if rm in ("my", False):
            # Pipeline.score of scikit-learn insists on the plain name: ask the step
            if refuse is not None:
                continue
            call = lambda: p[-1].score(X, y, sample_domain=sd, **kw)  # noqa: E731
        else:
            call = lambda: p.score(X, y, sample_domain=sd, **kw)  # noqa: E731
        if attempt(r, "score", call, refuse, what):
            # only unmasked rows are scored
            expect(r, "score", 6, "score", value, what)


def run(sc, r):
    {"fit": run_fit, "tr": run_tr, "pred": run_pred, "score": run_score}[sc["k"]](sc, r)
