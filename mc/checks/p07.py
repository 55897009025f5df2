import itertools

import numpy as np
from sklearn.base import clone

from mc import methods as MM
from mc import probes as P
from mc.util import raises, same
from skada import PerDomain, SelectSource, Shared, make_da_pipeline

ID = "P07"
TECHNIQUE = ("exhaustive enumeration of all target labellings (noninterference product: every fit is compared with the fit on masked labels), over all shipped "
             "methods and all probe-step compositions up to a length, executed on the real code")
LEVEL = "model_checking"
NOTE = "Two-run noninterference: for every labelling of the target rows the fitted model, every logged fit call and every answer must equal those of the masked run."
ASSUMPTIONS = ["target labels are of the same kind (class or real) as the source labels; -1 and NaN are reserved as masks",
               "steps that train on target labels by design (target selectors, an explicit mask_target_labels=False, label propagation probes) are excluded"]

LAYS3 = [(1, 1, 1, 1, -2, -2, -2), (-2, -2, -2, 1, 1, 1, 1), (1, -2, 1, -2, 1, -2, 1), (-2, 1, 1, -2, 1, 1, -2), (0, -5, 0, 0, -5, -5, 0), (1, -3, 2, -4, 2, -3, 1)]
STEP = ["T", "TW", "W", "D", "S", "s:T", "p:T", "s:TW"]
FIN = ["C", "CW", "DC", "s:C", "p:C", "h:C", "T"]
PLAY = [(1, -2, 1, -2), (-2, -2, 1, 1), (0, -3, -2, 1, 0)]
DTYPES = ["int64", "int8", "uint8", "bool", "float64", "float32", "object-list", "series", "real64", "real32"]


def BOUNDS(tier):
    return ("%d methods x label kinds x %d interleavings, all target labellings over 2 classes (2 real values) and the mask; all sequences of <=%d of %d probe "
            "steps x %d finals x %d layouts x %d label representations x {fit, fit_transform, clone, nested, named selector}") % (
        len(MM.M), 2 if tier == "quick" else len(LAYS3), 1 if tier == "quick" else 2, len(STEP), len(FIN), len(PLAY), len(DTYPES))


def scenarios(tier):
    out = []
    for mi, (name, m) in enumerate(MM.M.items()):
        for kind in m["kinds"]:
            for li in range(len(LAYS3)):
                if tier == "quick" and (li - mi) % len(LAYS3) not in (0, 3):
                    continue
                if li == 5 and name.startswith(("JCPOT-x",)):
                    continue
                out.append({"method": name, "kind": kind, "lay": li, "full": tier != "quick" or m["cost"] < 3})
    for k in range(2 if tier == "quick" else 3):
        for seq in itertools.product(STEP, repeat=k):
            for fin in FIN:
                for li in range(len(PLAY)):
                    for dt in DTYPES:
                        if tier == "quick" and k == 1 and (STEP.index(seq[0]) + FIN.index(fin) + li + DTYPES.index(dt)) % 2:
                            continue
                        if k == 2 and (STEP.index(seq[0]) + STEP.index(seq[1]) + FIN.index(fin) + li + DTYPES.index(dt)) % 5:
                            continue
                        out.append({"steps": list(seq), "final": fin, "lay": li, "dtype": dt})
    return out


def answers(pipe, X, sd):
    """everything observable about a fitted pipeline."""
    res = {}
    t = sd < 0
    queries = {"train": (X, {"sample_domain": sd, "allow_source": True}), "target": (X[t], {"sample_domain": sd[t]}), "new": (X[t] * 0.7 + 0.1, {"sample_domain": sd[t]})}
    for qn, (Q, kw) in queries.items():
        for meth in ("predict", "predict_proba", "decision_function", "transform"):
            if hasattr(pipe, meth):
                v, e = raises(lambda: getattr(pipe, meth)(Q, **kw))  # noqa: B023
                res[qn, meth] = ("raised", type(e).__name__) if e is not None else v
    return res


def equal(a, b):
    if a.keys() != b.keys():
        return "methods"
    for k in a:
        u, v = a[k], b[k]
        if isinstance(u, tuple) or isinstance(v, tuple):
            if not (isinstance(u, tuple) and isinstance(v, tuple) and u == v):
                return f"{k}: {u} / {v}"
        elif not same(u, v):
            return f"{k}: {u} / {v}"
    return None


def run_method(sc, r):
    name, kind = sc["method"], sc["kind"]
    m = MM.M[name]
    Xs, ys, Xt, yt = MM.data(2, 4, 3, kind)
    sd = np.array(LAYS3[sc["lay"]])
    X = np.zeros((7, 2))
    X[sd >= 0], X[sd < 0] = Xs, Xt
    y = np.zeros(7, dtype=ys.dtype)
    if kind == "clf" and len(set(sd[sd >= 0].tolist())) > 1:
        ys = np.array([0, 0, 1, 1])  # every source domain has both classes
    y[sd >= 0] = ys
    alpha = (-1, 0, 1) if kind == "clf" else (np.nan, 0.5, -3.25)
    ref = None
    for lab in itertools.product(alpha, repeat=3):
        if not sc["full"] and len(set(map(str, lab))) == 3:
            continue
        y[sd < 0] = lab
        pipe = MM.make(name, kind)
        _, e = raises(lambda: pipe.fit(X, y, sample_domain=sd))  # noqa: B023
        got = {"fit": ("raised", type(e).__name__)} if e is not None else answers(pipe, X, sd)
        r.step()
        if ref is None:
            ref = got
            r.trace()
            r.state(name, kind, sc["lay"], {str(k): v for k, v in got.items()})
            if e is not None and m["adapter"] != "-" and not (m["multi"] or sc["lay"] == 5):
                raise e
        else:
            d = equal(ref, got)
            if not r.check(d is None, "target-label-leak", lambda: f"{name} {kind} sd={sd} target labels {lab} vs masked: {d}"):
                return
    r.outcome(name, kind, "fit" in ref)


def wrap(name, tag):
    sel, _, k = name.rpartition(":")
    est = (P.STEPS.get(k) or P.FINALS[k])(tag)
    return {"": est, "s": SelectSource(est) if sel == "s" else None, "p": PerDomain(est) if sel == "p" else None,
            "h": Shared(est) if sel == "h" else None}[sel]


def labels_as(dt, v, sd):
    """target labellings (as given) embedded with fixed source labels in the requested representation."""
    n = len(sd)
    real = dt.startswith("real")
    y = np.zeros(n, dtype=float)
    y[sd >= 0] = (np.arange((sd >= 0).sum()) % 2) + (0.5 if real else 0)
    y[sd < 0] = v
    if real:
        return y.astype("float64" if dt == "real64" else "float32")
    if dt == "object-list":
        return [int(a) for a in y]
    if dt == "series":
        import pandas as pd
        return pd.Series(y.astype(int))
    return y.astype(dt)


def logs():
    return [(k, t, X, y, sd, w) for k, t, X, y, sd, w in P.LOG]


def log_equal(a, b):
    if len(a) != len(b):
        return f"{len(a)} calls / {len(b)} calls"
    for u, v in zip(a, b):
        if u[:2] != v[:2]:
            return f"{u[:2]} / {v[:2]}"
        for p, q in zip(u[2:], v[2:]):
            if (p is None) != (q is None) or (p is not None and not same(p, q)):
                return f"{u} / {v}"
    return None


def run_probe(sc, r):
    sd = np.array(PLAY[sc["lay"]])
    n, nt = len(sd), int((sd < 0).sum())
    X = np.stack([np.arange(n) * 0.5, np.arange(n) + 1.0], 1)
    dt = sc["dtype"]
    real = dt.startswith("real")
    alpha = {"bool": (0, 1), "uint8": (0, 1, 200)}.get(dt, (np.nan, 0.5, 7.25) if real else (-1, 0, 1, 5))
    if dt in ("int8", "float32"):
        alpha = (-1, 0, 100)
    refs = {}
    for lab in itertools.product(alpha, repeat=nt):
        for entry in ("fit", "clone", "nested", "fit_transform"):
            if entry != "fit" and lab not in (alpha[:1] * nt, alpha[-1:] * nt, (alpha[0],) * (nt - 1) + alpha[-1:]):
                continue
            if entry == "fit_transform" and sc["final"] != "T":
                continue
            steps = [wrap(s, k) for k, s in enumerate(sc["steps"])] + [wrap(sc["final"], len(sc["steps"]))]
            pipe = make_da_pipeline(*steps)
            if entry == "clone":
                pipe = clone(pipe)
            elif entry == "nested":
                pipe = make_da_pipeline(make_da_pipeline(*steps[:-1]), steps[-1]) if len(steps) > 1 else make_da_pipeline(pipe)
            y = labels_as(dt, lab, sd)
            P.LOG.clear()
            _, e = raises(lambda: (pipe.fit_transform if entry == "fit_transform" else pipe.fit)(X, y, sample_domain=sd))  # noqa: B023
            r.step()
            got = (type(e).__name__ if e is not None else "ok", logs())
            if entry not in refs:
                refs[entry] = got
                r.trace()
                r.state(sc["steps"], sc["final"], [(g[0], g[1], g[3]) for g in got[1]])
                if e is not None and type(e).__name__ in ("AttributeError", "IndexError", "KeyError"):
                    raise e
                # the masked labels are what the steps see, in the masked form
                for k, t, fx, fy, fd, fw in got[1]:
                    if k == "fit" and fy is not None and e is None:
                        tr = fx[:, 1].astype(int) - 1
                        for i, v in zip(tr, np.asarray(fy, float)):
                            if sd[i] < 0:
                                r.check(v != v if real else v == -1, "not-masked", lambda: f"{sc}: step {t} saw label {v} for target row {i} (entry {entry}, labels {lab})")  # noqa: B023
            else:
                d = log_equal(refs[entry][1], got[1]) or (None if refs[entry][0] == got[0] else f"{refs[entry][0]}/{got[0]}")
                if not r.check(d is None, "target-label-leak", lambda: f"{sc} entry {entry} target labels {lab}: {d}"):  # noqa: B023
                    return
    r.outcome({k: v[0] for k, v in refs.items()})


def run(sc, r):
    (run_method if "method" in sc else run_probe)(sc, r)
