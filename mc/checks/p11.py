import contextlib
import io
import itertools
import shutil
import tempfile

import numpy as np
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression
from sklearn.preprocessing import StandardScaler
from sklearn.tree import DecisionTreeClassifier

import skada
from mc.util import raises, same
from skada import (CORALAdapter, DensityReweightAdapter, JDOTClassifier, OTLabelPropAdapter, PerDomain, SelectSource, SelectSourceTarget, SelectTarget,
                   Shared, SubspaceAlignmentAdapter, make_da_pipeline)
from skada.base import BaseSelector

ID = "P11"
TECHNIQUE = ("exhaustive enumeration of step lists (bare, named, wrapped, nested, None) x default selectors x masking settings followed by every "
             "get/set parameter and clone operation on the real pipelines, against a model of the step list")
LEVEL = "model_checking"
NOTE = "All step lists up to the bound; each resulting pipeline is inspected, re-parametrised, cloned and (original and clone) fitted on the same data."
ASSUMPTIONS = ["scikit-learn's Pipeline, clone and parameter protocol"]

ENTRY = ["ss", "lr", "lr2", "co", "sa", "dr", "lp", "n:x:ss", "n:standardscaler:co", "n:x:lr", "S:ss", "S:lr", "T:ss", "P:ss", "P:lr", "ST:ss", "ST:co",
         "U:ss", "nest", "nest1", "nestS", "nn", "none", "n:z:none", "jd", "U:lr"]
SEL = ["shared", "per_domain", "callable", "lambda"]


def BOUNDS(tier):
    return "all step lists of <=%d entries over %d entry kinds, %d default selectors, masking on/off" % (2 if tier == "quick" else 3, len(ENTRY), len(SEL))


def scenarios(tier):
    for k in (1, 2, 3):
        for seq in itertools.product(ENTRY, repeat=k):
            if k == 3 and tier == "quick" and (not {"nest", "n:x:ss", "lp", "nestS"} & set(seq[:2]) or seq[2] not in ("lr", "ss", "nest")):
                continue
            for sel in SEL:
                for mask in (True, False):
                    if (k >= 2 and sel == "lambda") or (k == 3 and (sel != "shared" or not mask)):
                        continue
                    yield {"seq": list(seq), "sel": sel, "mask": mask}
    yield {"names": True}
    for k in (1, 2) if tier == "quick" else (1, 2, 3):
        for seq in itertools.product(ENTRY, repeat=k):
            if k == 3 and seq[2] not in ("lr", "ss", "P:lr"):
                continue
            yield {"cache": True, "seq": list(seq)}


def bare(kind):
    return {"ss": StandardScaler, "lr": LogisticRegression, "lr2": lambda: LogisticRegression(C=0.01), "co": CORALAdapter,
            "sa": lambda: SubspaceAlignmentAdapter(n_components=1), "dr": DensityReweightAdapter, "lp": OTLabelPropAdapter,
            "jd": lambda: JDOTClassifier(n_iter_max=2), "dt": DecisionTreeClassifier}[kind]()


class Mine(Shared):
    pass


def entry(kind):
    """-> (argument for make_da_pipeline, [(name or None, given name?, estimator, selector type or None, mask or None)])"""
    if kind == "none":
        return None, [(None, None, None, None)]
    if kind == "n:z:none":
        return ("z", None), [("z", None, None, None)]
    if kind.startswith("n:"):
        _, nm, k = kind.split(":")
        e = bare(k)
        return (nm, e), [(nm, e, None, None)]
    if ":" in kind:
        s, k = kind.split(":")
        e = bare(k)
        cls = {"S": SelectSource, "T": SelectTarget, "P": PerDomain, "ST": SelectSourceTarget, "U": Shared}[s]
        w = cls(e, mask_target_labels=False) if s == "U" else cls(e)
        return w, [(None, e, cls, w.mask_target_labels)]
    if kind in ("nest", "nest1", "nestS", "nn"):
        if kind == "nest":
            a, b = bare("ss"), bare("co")
            p = make_da_pipeline(a, b)
            parts = [("standardscaler", a, Shared, True), ("coraladapter", b, Shared, True)]
        elif kind == "nest1":
            a = bare("lr")
            p = make_da_pipeline(("x", a), mask_target_labels=False)
            parts = [("x", a, Shared, False)]
        elif kind == "nestS":
            a, b = bare("ss"), bare("lr")
            p = make_da_pipeline(SelectSource(a), ("q", b), default_selector="per_domain")
            parts = [("standardscaler", a, SelectSource, True), ("q", b, PerDomain, True)]
        else:
            a = bare("ss")
            p = make_da_pipeline(a)
            return ("n", p), [("n__standardscaler", a, Shared, True)]
        return p, [(("~" + nm), e, c, m) for nm, e, c, m in parts]
    e = bare(kind)
    return e, [(None, e, None, None)]


def wrapped(step):
    return step.source_estimator if isinstance(step, SelectSourceTarget) else step.base_estimator


def same_params(a, b):
    if a.keys() != b.keys():
        return False
    for k in a:
        u, v = a[k], b[k]
        if hasattr(u, "get_params") and not isinstance(u, type):
            if type(u) is not type(v) or not same_params(u.get_params(deep=False), v.get_params(deep=False)):
                return False
        elif isinstance(u, (list, tuple)):
            if len(u) != len(v) or type(u) is not type(v):
                return False
        elif not (u == v or (u != u and v != v)):
            return False
    return True


X = np.array([[0.0, 1], [1, 0.5], [4, 4], [5, 4.5], [2, 2], [0.5, 0], [1, 1.5], [2, 3], [6, 5], [5, 5.5]])
Y = np.array([0, 0, 1, 1, 0, 0, 0, 1, 1, 1])
SD = np.array([1, -2, 1, -2, -2, 1, 1, -2, 1, -2])


DATA = [(X, Y, SD), (X[::-1] * 1.5 + 0.25, Y, SD), (X, Y, -SD[[1, 0, 2, 3, 5, 4, 6, 7, 9, 8]])]


def behaviour(p, data=0):
    X, Y, SD = DATA[data]
    out, e = raises(lambda: p.fit(X, Y, sample_domain=SD))
    if e is not None:
        return ("refused", type(e).__name__)
    res = []
    for meth in ("predict", "predict_proba", "transform"):
        for idx in (SD < 0, np.ones(10, bool)):
            kw = {"sample_domain": SD[idx]}
            if idx.all():
                kw["allow_source"] = True
            if not hasattr(p, meth):
                continue
            v, e = raises(lambda: getattr(p, meth)(X[idx], **kw))  # noqa: B023
            res.append(type(e).__name__ if e is not None else v)
    return ("fitted", res)


def same_behaviour(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "refused":
        return a[1] == b[1]
    return len(a[1]) == len(b[1]) and all(u == v if isinstance(u, str) or isinstance(v, str) else same(u, v, 1e-12) for u, v in zip(a[1], b[1]))


def run_cache(sc, r):
    """Caching the transformers and logging never change what a pipeline computes."""
    plain = make_da_pipeline(*[entry(k)[0] for k in sc["seq"]])
    if len({n for n, _ in plain.steps}) < len(plain.steps):
        return
    r.trace()
    want, want2 = behaviour(clone(plain), 0), behaviour(clone(plain), 1)
    where = tempfile.mkdtemp(prefix="p11_cache_")
    try:
        for verbose in (False, True):
            p = make_da_pipeline(*[entry(k)[0] for k in sc["seq"]], memory=where, verbose=verbose)
            r.check(p.memory == where and p.verbose is verbose, "setting-lost", lambda: f"{sc}: memory={p.memory!r} verbose={p.verbose!r}")
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                for turn, (data, w) in enumerate([(0, want), (1, want2), (0, want), (2, None), (0, want)]):
                    # 2: the same samples in other domains, so that only the routed metadata tells the fits apart
                    w = behaviour(clone(plain), data) if w is None else w
                    got = behaviour(p if turn % 2 else clone(p), data)
                    r.step()
                    r.check(same_behaviour(got, w), "cache-changes-result", lambda: f"{sc} verbose={verbose} fit {turn}: {got} want {w}")  # noqa: B023
            if want[0] == "fitted":
                r.check(("[Pipeline]" in out.getvalue()) == verbose, "verbose", lambda: f"{sc} verbose={verbose}: {out.getvalue()[:200]!r}")  # noqa: B023
        c = clone(p)
        r.check(c.memory == where and c.verbose is True, "clone-setting-lost", lambda: f"{sc}")
    finally:
        shutil.rmtree(where, ignore_errors=True)
    r.state("cache", sc["seq"])
    r.outcome("cache", want[0], len(want[1]))


def run(sc, r):
    if sc.get("cache"):
        return run_cache(sc, r)
    if sc.get("names"):
        for nm in skada.__all__:
            r.step()
            r.check(hasattr(skada, nm), "public-name-missing", nm)
        r.check(len(set(skada.__all__)) == len(skada.__all__), "public-name-twice", "")
        for bad in ("nope", 3):
            _, e = raises(lambda: make_da_pipeline(StandardScaler(), default_selector=bad))  # noqa: B023
            r.check(isinstance(e, ValueError), "unknown-selector", lambda: f"{bad}: {e!r}")  # noqa: B023
        _, e = raises(lambda: make_da_pipeline(StandardScaler(), default_selector=lambda e, mask_target_labels: e))
        r.check(isinstance(e, ValueError), "unknown-selector", "callable")
        _, e = raises(lambda: make_da_pipeline())
        r.check(isinstance(e, TypeError), "no-steps", "")
        r.state("names")
        p = make_da_pipeline(("n", make_da_pipeline(StandardScaler(), LogisticRegression())))
        _, e = raises(lambda: p.fit(X, Y, sample_domain=SD))
        r.check(e is None, "named-nested-refused", lambda: f"{[n for n, _ in p.steps]}: {e}")
        return
    args, model = [], []
    for kind in sc["seq"]:
        a, parts = entry(kind)
        args.append(a)
        model += parts
    sel = {"callable": Mine, "lambda": lambda est, mask_target_labels: SelectSource(est, mask_target_labels=mask_target_labels)}.get(sc["sel"], sc["sel"])
    want_cls = {"shared": Shared, "per_domain": PerDomain, "callable": Mine, "lambda": SelectSource}[sc["sel"]]
    r.trace()
    p = make_da_pipeline(*args, default_selector=sel, mask_target_labels=sc["mask"])
    r.step()
    ctx = lambda: f"{sc}: {[(n, type(s).__name__, getattr(s, 'mask_target_labels', None)) for n, s in p.steps]}"  # noqa: E731
    # -- steps, order, selectors, masking
    if not r.check(len(p.steps) == len(model), "step-count", ctx):
        return
    mask = sc["mask"]
    for k, ((nm, st), (want, est, cls, m)) in enumerate(zip(p.steps, model)):
        r.step()
        if getattr(est, "predicts_target_labels", False) and cls is None:
            mask = False
        if est is None:
            r.check(st is None, "none-step", ctx)
            continue
        r.check(isinstance(st, BaseSelector) and wrapped(st) is est, "step-identity", lambda: f"{ctx()} position {k}")
        r.check(type(st) is (cls or want_cls), "selector-type", lambda: f"{ctx()} position {k}")
        r.check(st.mask_target_labels == (mask if cls is None else m), "mask-setting", lambda: f"{ctx()} position {k} want {mask if cls is None else m}")
        r.check(getattr(st, "_is_final", k == len(model) - 1) == (k == len(model) - 1), "final-marker", lambda: f"{ctx()} position {k}")
    # -- names
    names = [n for n, _ in p.steps]
    given = [w for w, *_ in model if w and not w.startswith("~")]
    for k, (nm, (want, est, cls, m)) in enumerate(zip(names, model)):
        if want and not want.startswith("~"):
            if sc["seq"] and "nn" not in sc["seq"]:
                r.check(nm == want, "given-name", lambda: f"{ctx()} position {k} want {want}")
            continue
        st = p.steps[k][1]
        base = want[1:] if want else (type(est).__name__.lower() if est is not None else "nonetype")
        if not want and isinstance(st, PerDomain):
            base = "perdomain_" + base
        if not want and isinstance(st, SelectSourceTarget):
            base = "selectsourcetarget"
        r.check(nm == base or nm.startswith(base + "-"), "auto-name", lambda: f"{ctx()} position {k} base {base}")
    auto = [n for n, (w, *_) in zip(names, model) if not (w and not w.startswith("~"))]
    if len(set(given)) == len(given):
        r.check(len(set(names)) == len(names), "names-unique", ctx)
    else:
        r.check(len(set(auto)) == len(auto) and not set(auto) & set(given), "names-unique", ctx)
        _, e = raises(lambda: p.fit(X, Y, sample_domain=SD))
        r.check(e is not None, "duplicate-names-accepted", ctx)
        return
    r.state(names, [type(s).__name__ for _, s in p.steps], [getattr(s, "mask_target_labels", None) for _, s in p.steps])
    # -- parameters address the wrapped estimator
    probe = {"StandardScaler": ("with_mean", False), "LogisticRegression": ("C", 7.5), "CORALAdapter": ("reg", 0.3), "SubspaceAlignmentAdapter": ("n_components", 2),
             "DensityReweightAdapter": ("weight_estimator__bandwidth", 2.5), "OTLabelPropAdapter": ("reg", 0.7), "JDOTClassifier": ("alpha", 0.9)}
    if all("__" not in n for n in names):
        params = p.get_params()
        for (nm, st), (want, est, cls, m) in zip(p.steps, model):
            if est is None:
                continue
            for key, val in est.get_params().items():
                if isinstance(st, SelectSourceTarget):
                    key = "source_estimator__" + key
                if key == "base_estimator":
                    continue  # names both the wrapped estimator and its own parameter
                r.step()
                got = params.get(f"{nm}__{key}", params)
                r.check(got is val or got == val, "get-params", lambda: f"{ctx()} {nm}__{key}: {got} want {val}")
    before = behaviour(clone(p))
    c = clone(p)
    r.step()
    r.check(same_params({k: v for k, v in c.get_params().items() if k != "steps"}, {k: v for k, v in p.get_params().items() if k != "steps"}), "clone-params", ctx)
    for (nm, st), (cn, cst) in zip(p.steps, c.steps):
        if st is None:
            continue
        r.check(nm == cn and type(st) is type(cst) and st.mask_target_labels == cst.mask_target_labels and getattr(st, "_is_final", None) == getattr(cst, "_is_final", None)
                and wrapped(st) is not wrapped(cst), "clone-state", lambda: f"{ctx()} step {nm}")
    orig = behaviour(p)
    r.step(2)
    r.check(same_behaviour(orig, before), "clone-behaviour", lambda: f"{ctx()}: {orig} vs clone {before}")
    r.check(same_behaviour(behaviour(clone(p)), orig), "clone-of-fitted", lambda: f"{ctx()}")
    r.outcome(orig[0], len(orig[1]))
    # -- setting parameters on the clone only changes the clone
    for (nm, st), (want, est, cls, m) in zip(p.steps, model):
        if est is None or "__" in nm:
            continue
        key, val = probe[type(est).__name__]
        old = est.get_params()[key]
        full = f"{nm}__source_estimator__{key}" if isinstance(st, SelectSourceTarget) else f"{nm}__{key}"
        c.set_params(**{full: val})
        r.step()
        r.check(wrapped(dict(c.steps)[nm]).get_params()[key] == val, "set-params", lambda: f"{ctx()} {full}")
        r.check(c.get_params()[full] == val, "set-get", lambda: f"{ctx()} {full}")
        now = est.get_params()[key]
        r.check(now is old or now == old, "clone-shares", lambda: f"{ctx()} {full}")
        others = [wrapped(s) for n, s in c.steps if n != nm and s is not None and type(wrapped(s)) is type(est)]
        for o in others:
            r.check(o.get_params()[key] != val or o.get_params()[key] == old, "set-leaks", lambda: f"{ctx()} {full}")
        _, e = raises(lambda: c.set_params(**{f"{nm}__no_such_parameter": 1}))  # noqa: B023
        r.check(e is not None, "unknown-parameter", lambda: f"{ctx()} {nm}")
        c.set_params(**{full: old})
        if not isinstance(st, SelectSourceTarget):
            # the wrapped estimator itself can be exchanged
            if isinstance(est, StandardScaler):
                c2 = clone(p)
                c2.set_params(**{f"{nm}__base_estimator": StandardScaler(with_std=False)})
                r.check(c2.get_params()[f"{nm}__with_std"] is False, "set-base-estimator", ctx)
            for flag in (False,) if isinstance(st, SelectTarget) else (True, False):
                c2 = clone(p).set_params(**{f"{nm}__mask_target_labels": flag})
                r.check(clone(c2).get_params()[f"{nm}__mask_target_labels"] is flag and dict(clone(c2).steps)[nm].mask_target_labels is flag, "set-mask", ctx)
    # -- refitting with the values set is a fresh construction with those values
    if len(sc["seq"]) <= 2 and sc["sel"] == "shared" and sc["mask"]:
        kw = {}
        for (nm, st), (want, est, cls, m) in zip(p.steps, model):
            if isinstance(est, (StandardScaler, LogisticRegression)) and "__" not in nm:
                key, val = probe[type(est).__name__]
                kw[f"{nm}__source_estimator__{key}" if isinstance(st, SelectSourceTarget) else f"{nm}__{key}"] = val
        if kw:
            a = behaviour(clone(p).set_params(**kw))
            q, parts2 = [], []
            for kind in sc["seq"]:
                arg, parts = entry(kind)
                for _, e2, *_ in parts:
                    if isinstance(e2, (StandardScaler, LogisticRegression)):
                        key, val = probe[type(e2).__name__]
                        e2.set_params(**{key: val})
                q.append(arg)
            b = behaviour(make_da_pipeline(*q))
            r.step()
            r.check(same_behaviour(a, b), "set-params-behaviour", lambda: f"{ctx()} {kw}: {a} want {b}")
