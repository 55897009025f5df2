import inspect
import itertools

import numpy as np
from sklearn.base import BaseEstimator, clone

import skada
from mc import methods as MM
from mc.checks.p07 import answers, equal
from mc.util import raises, same

ID = "P15"
TECHNIQUE = ("exhaustive enumeration of all operation sequences up to a depth (fits on two datasets, failing fit, parameter change, queries and scores; two interleaved instances) "
             "for every shipped method, executed on the real objects and compared with a fresh clone fitted once")
LEVEL = "model_checking"
NOTE = "Histories of every length up to the depth; after each history the real object's answers must equal those of a fresh clone fitted on the last data only."
ASSUMPTIONS = ["estimators and solvers are deterministic for a fixed integer random_state"]

OPS = ["F1", "F2", "FE", "Q", "S"]


def BOUNDS(tier):
    return "%d methods x kinds, all histories of <=%d operations from %s ending in a fit, on the pipeline and on the adapter; all interleavings of two instances; default construction of all %d public classes" % (
        len(MM.M), 2 if tier == "quick" else 3, OPS, len(classes()))


def classes():
    return [n for n in skada.__all__ if inspect.isclass(getattr(skada, n)) and issubclass(getattr(skada, n), BaseEstimator)]


def histories(depth):
    for k in range(depth):
        for pre in itertools.product(OPS, repeat=k):
            if pre and pre[0] == "Q":
                continue
            for last in ("F1", "F2"):
                yield list(pre) + [last]


def scenarios(tier):
    out = []
    for mi, (name, m) in enumerate(MM.M.items()):
        for kind in m["kinds"]:
            depth = 4 if tier != "quick" and m["cost"] < 3 else 3
            H = list(histories(depth))
            if tier == "quick":
                H = [h for i, h in enumerate(H) if len(h) < 3 or (i + mi) % (3 if m["cost"] == 1 else 6 if m["cost"] < 3 else 8) == 0]
            for target in ("pipe", "adapter"):
                if target == "adapter" and m["adapter"] == "-":
                    continue
                for a in range(0, len(H), 6):
                    out.append({"m": name, "kind": kind, "on": target, "hist": H[a:a + 6]})
            out.append({"m": name, "kind": kind, "two": 1})
            out.append({"m": name, "kind": kind, "params": 1})
    out += [{"cls": n} for n in classes()]
    return out


def dataset(which, kind, multi=False):
    """two training sets differing in size, number of features, classes and domain labels."""
    ns, nt, k = (5, 4, 4) if which == 1 else (6, 5, 6)
    Xs, ys, Xt, yt = MM.data(k, ns, nt, kind, classes=(0, 1) if which == 1 else (2, 5))
    n = ns + nt
    sd = np.array([1 if (i * 2 + which) % n < ns else -2 for i in range(n)])
    if which == 2:
        sd = np.where(sd > 0, 4, -3)
    s = sd > 0
    X = np.zeros((n, 2))
    X[s], X[~s] = Xs, Xt
    if which == 2:
        X = np.concatenate([X, np.random.RandomState(9).randn(n, 1) * 0.8], 1)
    y = np.full(n, -1 if kind == "clf" else np.nan).astype(ys.dtype)
    y[s] = ys
    return X, y, sd


def change(ad):
    """a changed hyper-parameter, or None."""
    ps = ad.get_params(deep=False)
    for p in ("reg_e", "n_components", "mu", "tradeoff", "reg", "gamma", "bias", "laplace_smoothing", "norm", "metric"):
        if p not in ps:
            continue
        v = ps[p]
        if p == "n_components":
            return {p: 1 if v != 1 else 2}
        if isinstance(v, bool):
            return {p: not v}
        if isinstance(v, (int, float)):
            return {p: v * 2 + 0.01 if p != "reg" or v < 0.2 else 0.5}
        if p == "reg":
            return {p: 0.4}
    return None


def inner(pipe):
    e = pipe.steps[0][1]
    return e.base_estimator if hasattr(e, "base_estimator") else e


def params_of(est):
    """every parameter reachable, sub-estimators by identity and fitted attributes."""
    out = {}
    for k, v in est.get_params(deep=True).items():
        if isinstance(v, BaseEstimator):
            out[k] = ("est", id(v), sorted(a for a in vars(v) if a.endswith("_") and not a.startswith("_")) if not hasattr(v, "base_estimator") or k.endswith("base_estimator") else "selector")
        elif not isinstance(v, (list, dict)):
            out[k] = repr(v)
    return out


def ask(obj, on, X, sd):
    if on == "pipe":
        return answers(obj, X, sd)
    res = {}
    t = sd < 0
    for q, (Q, kw) in {"train": (X, {"sample_domain": sd, "allow_source": True}), "target": (X[t], {"sample_domain": sd[t]}), "new": (X[t] * 0.7 + 0.1, {"sample_domain": sd[t]})}.items():
        v, e = raises(lambda: obj.transform(Q, **kw))  # noqa: B023
        res[q] = ("raised", type(e).__name__) if e is not None else v
        if hasattr(obj, "compute_weights") and q == "train":
            v, e = raises(lambda: obj.compute_weights(X, None, sample_domain=sd))
            res["w"] = ("raised", type(e).__name__) if e is not None else v
    return res


def do_fit(obj, on, X, y, sd, via="fit"):
    return raises(lambda: getattr(obj, via)(X, y, sample_domain=sd))


def build(sc, changed):
    name, kind = sc["m"], sc["kind"]
    pipe = MM.make(name, kind)
    obj = pipe if sc.get("on") == "pipe" else MM.adapter(name, kind)
    if changed:
        tgt = obj if sc.get("on") == "adapter" else inner(pipe)
        tgt.set_params(**changed)
    return obj


def run_hist(sc, r):
    name, kind, on = sc["m"], sc["kind"], sc["on"]
    D = {w: dataset(w, kind) for w in (1, 2)}
    ch = change(MM.adapter(name, kind)) if MM.M[name]["adapter"] != "-" else None
    refs = {}
    for h in sc["hist"]:
        obj = build(sc, None)
        changed, last, via = None, None, "fit"
        ok = True
        for i, op in enumerate(h):
            r.step()
            if op in ("F1", "F2"):
                last = int(op[1])
                X, y, sd = D[last]
                via = "fit_transform" if on == "adapter" and (i % 2 or MM.M[name]["adapter"] == "y") else "fit"
                _, err = do_fit(obj, on, X, y, sd, via)
            elif op == "FE":
                X, y, sd = D[1]
                s = sd > 0
                raises(lambda: obj.fit(X[s][:, :1], y[s][:1], sample_domain=sd[s]))  # noqa: B023
            elif op == "Q" and last:
                X, y, sd = D[last]
                ask(obj, on, X, sd)
                if on == "pipe":
                    raises(lambda: obj.score(X[sd < 0], np.where(y[sd < 0] == y[sd < 0], y[sd < 0], 0), sample_domain=sd[sd < 0]))  # noqa: B023
            elif op == "S":
                if ch is None:
                    ok = False
                    break
                changed = ch
                (obj if on == "adapter" else inner(obj)).set_params(**ch)
        if not ok:
            continue
        r.trace()
        key = (last, bool(changed), via)
        X, y, sd = D[last]
        if key not in refs:
            f = clone(build(sc, changed))
            _, e0 = do_fit(f, on, X, y, sd, via)
            refs[key] = (type(e0).__name__ if e0 is not None else "ok", ask(f, on, X, sd))
            if e0 is not None and not (MM.M[name]["multi"]):
                raise e0
        st, ref = refs[key]
        got = ask(obj, on, X, sd)
        d = equal(ref, got) or (None if st == (type(err).__name__ if err is not None else "ok") else f"fit {st} / {err!r}")
        if not r.check(d is None, "history-matters", lambda: f"{name} {kind} {on} after {h}: fresh clone / used object: {d}"):  # noqa: B023
            return
        again = ask(obj, on, X, sd)
        d = equal(got, again)
        if not r.check(d is None, "asking-changes-answers", lambda: f"{name} {kind} {on} after {h}: {d}"):  # noqa: B023
            return
        r.state(name, kind, on, h)
    r.outcome(name, kind, on, len(refs))


def run_two(sc, r):
    """two instances of the same configuration used alternately."""
    name, kind = sc["m"], sc["kind"]
    D = {w: dataset(w, kind) for w in (1, 2)}
    ref = {}
    for w in (1, 2):
        f = MM.make(name, kind)
        f.fit(*D[w][:2], sample_domain=D[w][2])
        ref[w] = answers(f, D[w][0], D[w][2])
    for order in ([1, 2, -1, -2], [2, 1, -1, -2], [1, 2, -2, -1], [1, -1, 2, -2, -1], [1, 2, 1, -1, -2]):
        objs = {1: MM.make(name, kind), 2: MM.make(name, kind)}
        if order[0] == 2:
            objs[2] = clone(objs[1])
        for o in order:
            w = abs(o)
            X, y, sd = D[w]
            r.step()
            if o > 0:
                objs[w].fit(X, y, sample_domain=sd)
            else:
                d = equal(ref[w], answers(objs[w], X, sd))
                if not r.check(d is None, "instances-interfere", lambda: f"{name} {kind} order {order}: {d}"):  # noqa: B023
                    return
        r.state(name, kind, "two", order)
    r.trace()
    r.outcome(name, kind, "two")


def run_params(sc, r):
    """fitting and asking leave constructor parameters alone."""
    name, kind = sc["m"], sc["kind"]
    for on in ("pipe", "adapter"):
        if on == "adapter" and MM.M[name]["adapter"] == "-":
            continue
        obj = build({**sc, "on": on}, None)
        before = params_of(obj)
        for w in (1, 2, 1):
            X, y, sd = dataset(w, kind)
            (obj.fit_transform if on == "adapter" else obj.fit)(X, y, sample_domain=sd)
            a = params_of(obj)
            r.step()
            r.check(a == before, "parameters-changed", lambda: f"{name} {kind} {on} after fit: {[(k, before.get(k), a.get(k)) for k in a if a[k] != before.get(k)]}")  # noqa: B023
            ask(obj, on, X, sd)
            r.check(params_of(obj) == before, "parameters-changed", lambda: f"{name} {kind} {on} after asking")  # noqa: B023
            r.state(name, kind, on, w, a)
    r.trace()
    r.outcome(name, kind, "params")


MIN = {"Subsampler": {"train_size": 3}, "DomainSubsampler": {"train_size": 3}, "StratifiedDomainSubsampler": {"train_size": 3}, "KLIEPReweightAdapter": {"gamma": 1.0},
       "MMDTarSReweightAdapter": {"gamma": 1.0}, "MMDLSConSMappingAdapter": {"gamma": 1.0}}


def run_cls(sc, r):
    """default construction: instances share no mutable parameter; parameters are kept as given; clones are equal."""
    n = sc["cls"]
    cls = getattr(skada, n)
    kw = dict(MIN.get(n, {}))
    if n in ("PerDomain", "Shared", "SelectSource", "SelectTarget", "SelectSourceTarget"):
        kw = {"base_estimator": MM.C()} if n != "SelectSourceTarget" else {"source_estimator": MM.C(), "target_estimator": MM.C()}
        mk = lambda: cls(*kw.values())  # noqa: E731
    else:
        mk = lambda: cls(**kw)  # noqa: E731
    a, e = raises(mk)
    r.step()
    r.trace()
    r.state(n)
    if e is not None:
        if n in ("BaseAdapter",):
            return
        raise e
    b = mk()
    pa, pb = a.get_params(deep=False), b.get_params(deep=False)
    for k in pa:
        if isinstance(pa[k], (BaseEstimator, list, dict, np.ndarray)) and pa[k] is pb[k] and not any(pa[k] is v for v in kw.values()):
            r.fail("shared-default", f"{n}.{k}: two default instances share {pa[k]!r}")
    sig = inspect.signature(cls.__init__).parameters
    for k, p in sig.items():
        if p.default is not inspect.Parameter.empty and isinstance(p.default, (list, dict, set, np.ndarray, BaseEstimator)):
            # a mutable default is fine only if it is never handed out
            r.check(all(v is not p.default for v in pa.values()), "shared-default", f"{n}.{k}: mutable default object")
    c = clone(a)
    pc = c.get_params(deep=False)
    r.check(pc.keys() == pa.keys() and all(repr(pc[k]) == repr(pa[k]) for k in pa), "clone-differs", lambda: f"{n}: {pa} / {pc}")
    for k, v in kw.items():
        if k in pa:
            r.check(pa[k] is v or pa[k] == v, "parameter-not-kept", lambda: f"{n}.{k}: {pa[k]!r} given {v!r}")  # noqa: B023
    for k in pa:
        q = {"p": 1}.get(k, 0.123) if isinstance(pa[k], (int, float)) and not isinstance(pa[k], bool) else None
        if q is not None:
            try:
                d = cls(**{**kw, k: q}) if n not in ("PerDomain", "Shared", "SelectSource", "SelectTarget", "SelectSourceTarget") else None
            except Exception:
                continue
            if d is not None:
                r.step()
                r.check(d.get_params(deep=False)[k] == q, "parameter-not-kept", lambda: f"{n}({k}={q}): {d.get_params(deep=False)[k]!r}")  # noqa: B023
                g = clone(a).set_params(**{k: q})
                r.check(g.get_params(deep=False)[k] == q and all(repr(g.get_params(deep=False)[j]) == repr(pa[j]) for j in pa if j != k), "set-params", lambda: f"{n}({k}={q})")  # noqa: B023
    r.outcome(n)


def run(sc, r):
    if "cls" in sc:
        run_cls(sc, r)
    elif "two" in sc:
        run_two(sc, r)
    elif "params" in sc:
        run_params(sc, r)
    else:
        run_hist(sc, r)


_ = same
