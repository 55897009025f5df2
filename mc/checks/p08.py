import inspect
import numpy as np
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression
from sklearn.metrics import accuracy_score

import skada
from mc import methods as MM
from mc import probes as P
from mc.util import raises, same, snapshot, unchanged
from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, Shared, make_da_pipeline, metrics, model_selection, utils
from skada.datasets import DomainAwareDataset

ID = "P08"
TECHNIQUE = ("exhaustive enumeration of public operations x shipped methods x domain layouts x array representations, executed on the real code with bit-exact "
             "snapshots around every call; every returned array is overwritten and every question asked again")
LEVEL = "model_checking"
NOTE = "Every public operation is run on writable and on read-only arrays; inputs are compared bit for bit after each call, answers before and after overwriting returned arrays."
ASSUMPTIONS = ["estimators supplied by the user do not modify their input", "returned arrays may share memory with the arrays the caller passed in the same call"]

LAYS = [(1, 1, 1, 1, 1, -2, -2, -2, -2), (-2, 1, 1, -2, 1, -2, 1, 1, -2), (-2, -2, -2, -2, 1, 1, 1, 1, 1), (1, -3, 2, -4, 2, 1, -3, 1, -4), (0, -5, 0, 0, -5, -5, 0, 0, -5)]
FORMS = ["C", "F", "f32", "readonly", "strided", "int", "float-y", "int8-sd"]
SCORERS = ["Supervised", "IW", "Entropy-mean", "Entropy-none", "SND", "DEV", "Circular", "MixVal", "MaNo"]
SPLITTERS = ["SourceTarget", "LODO", "Stratified", "Domain"]
SUBS = ["Subsampler", "DomainSubsampler", "StratifiedDomainSubsampler"]
SELS = ["Shared", "PerDomain", "SelectSource", "SelectTarget", "SelectSourceTarget", "plain"]


def BOUNDS(tier):
    return "%d methods x kinds x %d layouts x %d representations x all operations; %d scorers, %d splitters, %d subsamplers, utils and dataset containers likewise" % (
        len(MM.M), len(LAYS), len(FORMS), len(SCORERS), len(SPLITTERS), len(SUBS))


def scenarios(tier):
    out = []
    for mi, (name, m) in enumerate(MM.M.items()):
        for kind in m["kinds"]:
            for li in range(len(LAYS)):
                for fi, f in enumerate(FORMS):
                    if f == "int" and not name.startswith(("Density", "CORAL", "NN", "Gaussian", "TCA", "Subspace", "Linear")):
                        continue
                    if tier == "quick" and (mi + li + fi) % (5 if m["cost"] > 2 else 3):
                        continue
                    out.append({"m": name, "kind": kind, "lay": li, "form": f})
    for li in range(len(LAYS)):
        for f in FORMS:
            for what, names in (("scorer", SCORERS), ("splitter", SPLITTERS), ("sub", SUBS), ("sel", SELS)):
                for nm in names:
                    out.append({"what": what, "name": nm, "lay": li, "form": f})
            out += [{"what": "utils", "lay": li, "form": f, "real": k} for k in (0, 1)]
            out += [{"what": "dataset", "lay": li, "form": f, "real": k} for k in (0, 1)]
    return out


def shape(form, kind, X, y, sd, w=None):
    X, y, sd = np.array(X, float), np.array(y), np.array(sd)
    w = None if w is None else np.array(w, float)
    if form == "int":
        X = np.round(X * 20).astype(np.int64)
    if form == "F":
        X = np.asfortranarray(X)
    if form == "f32":
        X = X.astype(np.float32)
    if form == "float-y":
        y = y.astype(float)
    if form == "int8-sd":
        sd = sd.astype(np.int8)
    if form == "strided":
        def st(a):
            b = np.zeros((2 * len(a),) + a.shape[1:], a.dtype)
            b[::2] = a
            return b[::2]
        X, y, sd = st(X), st(y), st(sd)
        w = None if w is None else st(w)
    if form == "readonly":
        for a in (X, y, sd, w):
            if a is not None:
                a.flags.writeable = False
    return X, y, sd, w


def dataset(li, form, kind, w=False, k=4, masked=True):
    sd = np.array(LAYS[li])
    Xs, ys, Xt, yt = MM.data(k, 5, 4, kind)
    if kind == "clf" and len(set(sd[sd >= 0].tolist())) > 1:
        ys = np.array([0, 0, 1, 1, 0])[:5]
        g = {d: 0 for d in sd.tolist()}
        ys = []
        for d in sd[sd >= 0]:
            ys.append(g[d] % 2)
            g[d] += 1
    X = np.zeros((9, 2))
    X[sd >= 0], X[sd < 0] = Xs, Xt
    y = np.zeros(9, dtype=np.asarray(ys).dtype)
    y[sd >= 0], y[sd < 0] = ys, yt
    if masked:
        y[sd < 0] = -1 if kind == "clf" else np.nan
    ww = np.arange(9) * 0.25 + 0.5 if w else None
    return shape(form, kind, X, y, sd, ww)


def arrays_of(v):
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, dict):
        return [a for x in v.values() for a in arrays_of(x)]
    if isinstance(v, (tuple, list)):
        return [a for x in v for a in arrays_of(x)]
    return []


def copy_of(v):
    return [np.array(a, copy=True) for a in arrays_of(v)]


def scribble(v):
    for a in arrays_of(v):
        if not a.flags.writeable:
            continue
        if a.dtype.kind == "f":
            a[...] = -77.25
        elif a.dtype.kind in "iu":
            a[...] = 111
        elif a.dtype.kind == "b":
            a[...] = ~a


def guarded(r, what, f, *arrays):
    """call f; the caller's arrays must be bit-identical afterwards."""
    s = snapshot(*arrays)
    v, e = raises(f)
    r.step()
    r.check(unchanged(s, *arrays), "input-modified", lambda: f"{r.sc}: {what} changed an array it was given")
    if e is not None and any(a is not None and not a.flags.writeable for a in arrays):
        r.check("read-only" not in str(e), "writes-to-input", lambda: f"{r.sc}: {what} tried to write to its input: {e}")
    return v, e


def asks(obj, queries):
    return {(q, meth): (lambda q=q, meth=meth: getattr(obj, meth)(queries[q][0], **queries[q][1]))
            for q in queries for meth in ("predict", "predict_proba", "decision_function", "transform") if hasattr(obj, meth)}


def questions(r, obj, queries, label):
    """ask everything, overwrite what was returned, ask again."""
    first = {}
    keep = []
    for key, f in asks(obj, queries).items():
        Q, kw = queries[key[0]]
        v, e = guarded(r, f"{label}.{key[1]}({key[0]})", f, Q, kw.get("sample_domain"))
        if e is None:
            first[key] = copy_of(v)
            # arrays aliased with the caller's own input must not be scribbled on
            keep.append([a for a in arrays_of(v) if not np.shares_memory(a, Q)])
    scribble(keep)
    for key, f in asks(obj, queries).items():
        if key not in first:
            continue
        v, e = raises(f)
        r.step()
        ok = e is None and len(first[key]) == len(arrays_of(v)) and all(same(a, b) for a, b in zip(first[key], arrays_of(v)))
        r.check(ok, "answer-shares-memory", lambda: f"{r.sc}: {label}.{key[1]}({key[0]}) answered {v} ({e!r}) after earlier results were overwritten; before {first[key]}")
    return first


def run_method(sc, r):
    name, kind, form = sc["m"], sc["kind"], sc["form"]
    m = MM.M[name]
    X, y, sd, _ = dataset(sc["lay"], form, kind)
    t = sd < 0
    new = X[t] * 0.5 + X.dtype.type(0.25) if X.dtype.kind == "f" else X[t] + 3
    if form == "readonly":
        new.flags.writeable = False
    Xt = X[t]
    if form == "readonly":
        Xt.flags.writeable = False
    queries = {"train": (X, {"sample_domain": sd, "allow_source": True}), "target": (Xt, {"sample_domain": sd[t]}), "new": (new, {"sample_domain": sd[t]})}
    pipe = MM.make(name, kind)
    _, e = guarded(r, "fit", lambda: pipe.fit(X, y, sample_domain=sd), X, y, sd)
    r.trace()
    if e is None:
        a = questions(r, pipe, queries, "pipeline")
        guarded(r, "score", lambda: pipe.score(X, y, sample_domain=sd, allow_source=True), X, y, sd)
        b = questions(r, pipe, queries, "pipeline")
        r.check(a.keys() == b.keys() and all(same(u, v) for k in a for u, v in zip(a[k], b[k])), "score-changes-answers", lambda: f"{sc}: {a} / {b}")
        r.state(name, kind, form, sc["lay"], {str(k): v for k, v in a.items()})
    elif form not in ("int",) and not (m["multi"] or len(set(sd.tolist())) > 2):
        raise e
    r.outcome(name, kind, repr(e)[:60])
    # the caller's weights, handed straight to whatever takes them
    w = shape(form, kind, X, y, sd, np.arange(9) * 0.25 + 0.5)[3]
    for est in (MM.adapter(name, kind), MM.make(name, kind).steps[-1][1].base_estimator):
        for call in ("fit_transform", "fit"):
            if est is None or "sample_weight" not in inspect.signature(getattr(est, call, len)).parameters:
                continue
            takes = inspect.signature(getattr(est, call)).parameters
            dom = {"sample_domain": sd} if "sample_domain" in takes else {}
            rows = slice(None) if dom else sd >= 0
            Xw, yw, ww = X[rows], y[rows], w[rows]
            if form == "readonly":
                ww.flags.writeable = False
            est = clone(est)
            out, e = guarded(r, f"weighted {call}", lambda: getattr(est, call)(Xw, yw, sample_weight=ww, **dom), Xw, yw, sd, ww)  # noqa: B023
            if e is None and hasattr(est, "predict") and dom:
                for ask in ("predict", "score"):
                    guarded(r, f"weighted {ask}", lambda: getattr(est, ask)(*((X[t],) if ask == "predict" else (X[t], np.arange(t.sum()) % 2)), sample_weight=w[t]), X, w)  # noqa: B023
            r.outcome("weighted", name, kind, call, repr(e)[:40])
    ad = MM.adapter(name, kind)
    if ad is None:
        return
    twin = clone(ad)
    out, e = guarded(r, "adapter.fit_transform", lambda: ad.fit_transform(X, y, sample_domain=sd), X, y, sd)
    _, e2 = guarded(r, "adapter.fit", lambda: twin.fit(X, y, sample_domain=sd), X, y, sd)
    if e is None and e2 is None:
        scribble([a for a in arrays_of(out) if not any(np.shares_memory(a, q) for q in (X, y, sd))])
        a = questions(r, ad, queries, "adapter")
        b = questions(r, twin, queries, "adapter twin")
        for k in a:
            r.check(k in b and all(same(u, v) for u, v in zip(a[k], b[k])), "answer-shares-memory",
                    lambda: f"{sc}: adapter.{k} after the result of fit_transform was overwritten: {a[k]}; adapter fitted alike: {b.get(k)}")
    r.trace()


def scorer(name):
    return {"Supervised": lambda: metrics.SupervisedScorer(), "IW": lambda: metrics.ImportanceWeightedScorer(), "Entropy-mean": lambda: metrics.PredictionEntropyScorer(),
            "Entropy-none": lambda: metrics.PredictionEntropyScorer(reduction="none"), "SND": lambda: metrics.SoftNeighborhoodDensity(),
            "DEV": lambda: metrics.DeepEmbeddedValidation(random_state=0), "Circular": lambda: metrics.CircularValidation(),
            "MixVal": lambda: metrics.MixValScorer(random_state=0), "MaNo": lambda: metrics.MaNoScorer()}[name]()


def run_scorer(sc, r):
    X, y, sd, _ = dataset(sc["lay"], sc["form"], "clf")
    true = np.where(sd < 0, np.arange(9) % 2, y)
    if sc["form"] == "readonly":
        true.flags.writeable = False
    fit = LogisticRegression().set_score_request(sample_weight=True)
    from sklearn.preprocessing import StandardScaler
    pipe = make_da_pipeline(StandardScaler(), fit).fit(X, y, sample_domain=sd)
    queries = {"train": (X, {"sample_domain": sd, "allow_source": True})}
    before = questions(r, pipe, queries, "pipeline")
    s = scorer(sc["name"])
    kw = {"target_labels": true} if sc["name"] == "Supervised" else {}
    vals = []
    for _ in range(2):
        v, e = guarded(r, "score", lambda: s(pipe, X, y, sample_domain=sd, **kw), X, y, sd, true)
        if e is not None and not (sc["name"] == "DEV" and sc["form"] == "float-y"):
            raise e
        vals.append(copy_of(np.asarray(v)) if e is None else [np.zeros(0)])
        scribble(v)
    r.check(same(vals[0][0], vals[1][0]), "score-not-repeatable", lambda: f"{sc}: {vals}")
    after = questions(r, pipe, queries, "pipeline")
    r.check(all(same(u, v) for k in before for u, v in zip(before[k], after[k])), "score-changes-answers", lambda: f"{sc}")
    r.state(sc["name"], sc["lay"], sc["form"], vals)
    r.outcome(sc["name"], vals)
    r.trace()


def run_splitter(sc, r):
    X, y, sd, _ = dataset(sc["lay"], sc["form"], "clf", masked=False)
    cls = {"SourceTarget": model_selection.SourceTargetShuffleSplit, "LODO": model_selection.LeaveOneDomainOut, "Stratified": model_selection.StratifiedDomainShuffleSplit,
           "Domain": model_selection.DomainShuffleSplit}[sc["name"]]
    for kw in ({"test_size": 0.3}, {"test_size": 2}, {"train_size": 0.5}):
        sp, e = raises(lambda: cls(random_state=0, **kw))  # noqa: B023
        if e is not None:
            sp = cls(random_state=0)
        ref = None
        for lab in (y, np.where(sd < 0, -1, y)):
            v, e = guarded(r, "split", lambda: list(sp.split(X, lab, sd)), X, lab, sd)  # noqa: B023
            if e is None and lab is y:
                ref = copy_of(v)
                scribble(v)
                v2, _ = guarded(r, "split", lambda: list(sp.split(X, lab, sd)), X, lab, sd)  # noqa: B023
                r.check(all(same(a, b) for a, b in zip(ref, copy_of(v2))), "split-not-repeatable", f"{sc} {kw}")
            r.state(sc["name"], sc["lay"], repr(e)[:40], ref)
    r.outcome(sc["name"], sc["lay"], ref)
    r.trace()


def run_sub(sc, r):
    for kind in ("clf", "reg"):
        X, y, sd, w = dataset(sc["lay"], sc["form"], kind, w=True)
        for size in (3, 0.5, 6, 9, 40):
            a = getattr(skada, sc["name"])(train_size=size, random_state=0)
            out, e = guarded(r, f"fit_transform({size})", lambda: a.fit_transform(X, y, sample_domain=sd, sample_weight=w), X, y, sd, w)  # noqa: B023
            a.rng_ = np.random.RandomState(0)
            guarded(r, "transform", lambda: a.transform(X, sample_domain=sd), X, y, sd, w)  # noqa: B023
            r.state(sc["name"], sc["lay"], size, kind, repr(e)[:40])
            # in a pipeline
            p = make_da_pipeline(a, MM.base(kind)) if size != 40 else make_da_pipeline(a, MM.base(kind, True))
            _, e = guarded(r, "pipeline fit", lambda: p.fit(X, y, sample_domain=sd, **({"sample_weight": w} if size == 40 else {})), X, y, sd, w)  # noqa: B023
            if e is None:
                questions(r, p, {"train": (X, {"sample_domain": sd, "allow_source": True})}, "pipeline")
            r.outcome(sc["name"], size, kind, repr(e)[:40])
    r.trace()


def run_sel(sc, r):
    sel = {"plain": lambda e: e}.get(sc["name"]) or getattr(skada, sc["name"])
    for kind in ("clf", "reg"):
        for masked in (True, False):
            for fin in (None, "C", "W"):
                X, y, sd, w = dataset(sc["lay"], sc["form"], kind, w=True, masked=masked)
                mid = P.TW(0)
                steps = [sel(mid)] + ([] if fin is None else [P.W(1), P.CW(2)] if fin == "W" else [sel(P.CW(2))])
                p = make_da_pipeline(*steps)
                p2 = clone(p)
                _, e = guarded(r, "fit", lambda: p.fit(X, y, sample_domain=sd, sample_weight=w), X, y, sd, w)  # noqa: B023
                if e is not None:
                    # a lone selected step cannot route a weight it did not ask for
                    _, e = guarded(r, "fit", lambda: p.fit(X, y, sample_domain=sd), X, y, sd, w)  # noqa: B023
                if e is None:
                    questions(r, p, {"train": (X, {"sample_domain": sd, "allow_source": True})}, "pipeline")
                if fin is None:
                    guarded(r, "fit_transform", lambda: p2.fit_transform(X, y, sample_domain=sd), X, y, sd, w)  # noqa: B023
                r.state(sc["name"], kind, masked, fin, sc["lay"], repr(e)[:40])
    r.outcome(sc["name"], sc["lay"])
    r.trace()


def run_utils(sc, r):
    kind = "reg" if sc["real"] else "clf"
    X, y, sd, w = dataset(sc["lay"], sc["form"], kind, w=True, masked=False)
    s = sd >= 0
    U = utils
    parts = U.source_target_split(X, y, w, sample_domain=sd)
    s8 = [p.copy() for p in parts]
    ops = {
        "check_X_y_domain": lambda: U.check_X_y_domain(X, y, sd),
        "check_X_y_domain-auto": lambda: U.check_X_y_domain(X, y, None),
        "check_X_domain": lambda: U.check_X_domain(X, sd, allow_source=True),
        "extract_source_indices": lambda: U.extract_source_indices(sd),
        "extract_domains_indices": lambda: U.extract_domains_indices(sd, split_source_target=True),
        "source_target_split": lambda: U.source_target_split(X, y, w, sample_domain=sd),
        "per_domain_split": lambda: list(U.per_domain_split(X, y, sample_domain=sd)) if not isinstance(U.per_domain_split(X, y, sample_domain=sd), dict) else U.per_domain_split(X, y, sample_domain=sd),
        "merge": lambda: U.source_target_merge(parts[0], parts[1], sample_domain=sd),
        "merge-many": lambda: U.source_target_merge(*parts, sample_domain=sd),
        "merge-none": lambda: U.source_target_merge(parts[2], None, sample_domain=sd),
        "merge-none2": lambda: U.source_target_merge(None, parts[3], sample_domain=sd),
        "merge-nosd": lambda: U.source_target_merge(parts[0], parts[1]),
    }
    for nm, f in ops.items():
        v, e = guarded(r, nm, f, X, y, sd, w, *parts)
        r.check(all(same(a, b) for a, b in zip(s8, parts)), "input-modified", nm)
        if nm.startswith("merge") and e is None:
            scribble([a for a in arrays_of(v) if not any(np.shares_memory(a, q) for q in (X, y, sd, w))])
            r.check(all(same(a, b) for a, b in zip(s8, parts)), "merge-shares-memory", lambda: f"{sc} {nm}: overwriting the merged array changed a part")  # noqa: B023
            for p, q in zip(parts, s8):
                if p.flags.writeable:
                    p[...] = q
        r.state(nm, sc["lay"], sc["form"], sc["real"], repr(e)[:40])
        r.outcome(nm, repr(e)[:30])
    # solvers
    from skada.utils import qp_solve
    rng = np.random.RandomState(0)
    A = rng.randn(3, 3)
    Q, c = A @ A.T + np.eye(3), rng.randn(3)
    G, h = np.ones((1, 3)), np.array([2.0])
    lb, ub, x0 = np.zeros(3), np.ones(3), np.full(3, 1 / 3)
    for solver, kw in (("scipy", {"A": G, "b": h, "lb": lb, "ub": ub, "x0": x0}), ("scipy", {"Aeq": G, "beq": h, "lb": lb, "ub": ub}), ("frank-wolfe", {"A": G, "b": h, "x0": x0})):
        guarded(r, f"qp_solve {solver}", lambda: qp_solve(Q, c, solver=solver, **kw), Q, c, *kw.values())  # noqa: B023
    # direct joint distribution transport
    from sklearn.svm import SVC
    for est, yy in ((SVC(probability=False), y),) if kind == "clf" else ((MM.base("reg"), y),):
        ab = (np.full(5, 0.2), np.array([0.1, 0.2, 0.3, 0.4]))
        fun = skada.solve_jdot_classification if kind == "clf" else skada.solve_jdot_regression
        guarded(r, "solve_jdot", lambda: fun(est, X[s], yy[s].astype(int) if kind == "clf" else yy[s], X[~s], ws=ab[0], wt=ab[1], n_iter_max=2), X, y, *ab)  # noqa: B023
    r.trace()


def run_dataset(sc, r):
    kind = "reg" if sc["real"] else "clf"
    X, y, sd, _ = dataset(sc["lay"], sc["form"], kind, masked=False)
    ds = DomainAwareDataset()
    given = []
    names = {}
    for k, d in enumerate(dict.fromkeys(sd.tolist())):
        nm = f"d{k}"
        names[nm] = d
        a, b = X[sd == d], y[sd == d]
        if sc["form"] == "readonly":
            a.flags.writeable = b.flags.writeable = False
        given.append((a, b, a.copy(), b.copy()))
        ds.add_domain(a, b, nm)
    src, tgt = [n for n, d in names.items() if d >= 0], [n for n, d in names.items() if d < 0]
    other = DomainAwareDataset().add_domain(np.ones((2, 2)), np.zeros(2, y.dtype), "extra")

    def intact(what):
        for a, b, a0, b0 in given:
            r.check(same(a, a0) and same(b, b0), "input-modified", lambda: f"{sc}: {what} changed an array given to add_domain")

    ops = {
        "pack": lambda: ds.pack(as_sources=src, as_targets=tgt, mask_target_labels=True),
        "pack-open": lambda: ds.pack(as_sources=src, as_targets=tgt, mask_target_labels=False),
        "pack-dual": lambda: ds.pack(as_sources=src + tgt, as_targets=src + tgt, mask_target_labels=True),
        "pack-Xy": lambda: ds.pack(as_sources=src, as_targets=tgt, mask_target_labels=True, return_X_y=False),
        "pack_train": lambda: ds.pack(as_sources=src, as_targets=tgt, mask_target_labels=True),
        "select": lambda: (ds.select_domain(sd0, src[0]) if hasattr(ds, "select_domain") else None) if (sd0 := None) else None,
        "get": lambda: [ds.get_domain(n) for n in names],
    }
    for nm, f in ops.items():
        v, e = raises(f)
        r.step()
        if e is not None:
            raise e
        ref = copy_of(v)
        intact(nm)
        if nm != "get":
            scribble(v)
        if nm.startswith("pack"):
            intact("overwriting the result of " + nm)
            v2 = f()
            r.check(all(same(a, b) for a, b in zip(ref, copy_of(v2))), "answer-shares-memory", lambda: f"{sc} {nm}: packing again gives {v2}, first {ref}")  # noqa: B023
        r.state(nm, sc["lay"], sc["form"], ref)
    ds.merge(other)
    intact("merge")
    r.check(len(other.domains_ if hasattr(other, "domains_") else [0]) == 1, "other-changed", "merge changed the other dataset")
    r.outcome(sc["lay"], sc["real"])
    r.trace()


def run(sc, r):
    if "m" in sc:
        return run_method(sc, r)
    {"scorer": run_scorer, "splitter": run_splitter, "sub": run_sub, "sel": run_sel, "utils": run_utils, "dataset": run_dataset}[sc["what"]](sc, r)


_ = (accuracy_score, PerDomain, SelectSource, SelectSourceTarget, SelectTarget, Shared)
