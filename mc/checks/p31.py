import itertools

import numpy as np
import pandas as pd
from sklearn.linear_model import LogisticRegression
from sklearn.preprocessing import StandardScaler

import skada
from mc import methods as MM
from mc import probes as P
from mc.util import raises, same
from skada import make_da_pipeline, metrics, model_selection, utils
from skada.datasets import DomainAwareDataset

ID = "P31"
TECHNIQUE = ("exhaustive enumeration of input containers (array layouts, lists, data frames and series under every kind of index) per argument and in "
             "combination, over every public entry point; results compared with those for plain arrays")
LEVEL = "model_checking"
NOTE = "Differential oracle: the same numbers in a plain C-contiguous array. Every entry point is executed on every container combination of the bound."
ASSUMPTIONS = ["estimators of scikit-learn treat the containers they accept alike"]

LAYS = [(1, 1, 1, 1, 1, -2, -2, -2, -2), (-2, 1, 1, -2, 1, -2, 1, 1, -2), (1, -3, 2, -4, 2, 1, -3, 1, -4)]
XC = ["nd", "F", "ro", "strided", "list", "df", "df-rev", "df-const", "df-shift"]
VC = ["nd", "ro", "strided", "neg", "list", "tuple", "s", "s-rev", "s-const", "s-shift", "s-perm", "obj"]
ARRAYS = {"nd", "F", "ro", "strided", "neg", "i8", "i32"}
SCORERS = ["Supervised", "IW", "Entropy-mean", "SND", "DEV", "Circular", "MixVal", "MaNo"]
SPLITTERS = ["SourceTargetShuffleSplit", "LeaveOneDomainOut", "StratifiedDomainShuffleSplit", "DomainShuffleSplit"]
SUBS = ["Subsampler", "DomainSubsampler", "StratifiedDomainSubsampler"]
SELS = ["Shared", "PerDomain", "SelectSource", "SelectTarget", "SelectSourceTarget", "plain"]


def BOUNDS(tier):
    return ("containers of X %s, of labels, domains and weights %s (+ int8/int32): each argument alone and the product over {array, list, reversed index, constant "
            "index}; %d methods, %d scorers, %d splitters, %d subsamplers, %d selectors, validation/split/merge helpers, dataset packing; %d layouts" % (
                XC, VC, len(MM.M), len(SCORERS), len(SPLITTERS), len(SUBS), len(SELS), len(LAYS)))


def combos(full):
    """(X, y, sd, w) container names; the first one is the reference."""
    out = [("nd", "nd", "nd", "nd")]
    for c in XC[1:]:
        out.append((c, "nd", "nd", "nd"))
    for i in (1, 2, 3):
        for c in VC[1:] + (["i8", "i32"] if i == 2 else []):
            v = ["nd"] * 4
            v[i] = c
            out.append(tuple(v))
    prod = itertools.product(("nd", "list", "df-rev"), ("nd", "list", "s-rev", "s-const"), ("nd", "list", "s-rev", "s-const"), ("nd", "s-perm"))
    if full:
        out += list(prod)
    if full == 2:
        out += [("nd", a, b, "nd") for a in VC for b in VC] + [("nd", "nd", b, a) for a in VC for b in VC] + [(a, "nd", b, "nd") for a in XC for b in VC]
    if not full:
        out += [("df-rev", "s-rev", "s-rev", "s-rev"), ("df-rev", "s", "s-perm", "s-rev"), ("df", "s-rev", "nd", "nd"), ("df", "nd", "s-rev", "nd"), ("list",) * 4,
                ("df-const", "s-const", "s-const", "s-const"), ("df-rev", "nd", "s-rev", "s-rev"), ("df", "s", "s-rev", "nd"), ("nd", "s-rev", "s", "nd"), ("df-rev", "nd", "s", "nd"), ("nd", "s-rev", "s-perm", "s")]
    return list(dict.fromkeys(out))


def put(a, c):
    if a is None:
        return None
    a = np.array(a, copy=True)
    n = len(a)
    if c == "nd":
        return a
    if c == "F":
        return np.asfortranarray(a)
    if c == "ro":
        a.flags.writeable = False
        return a
    if c == "strided":
        b = np.full((2 * n,) + a.shape[1:], 77, a.dtype)
        b[::2] = a
        return b[::2]
    if c == "neg":
        return a[::-1].copy()[::-1]
    if c == "list":
        return a.tolist()
    if c == "tuple":
        return tuple(a.tolist())
    if c == "obj":
        return a.astype(object)
    if c in ("i8", "i32"):
        return a.astype({"i8": np.int8, "i32": np.int32}[c])
    kind = (c.split("-") + ["std"])[1]
    idx = {"std": np.arange(n), "rev": np.arange(n)[::-1], "const": np.zeros(n, int), "shift": np.arange(n) + 50, "perm": (np.arange(n) * 4 + 1) % n if n % 2 else np.roll(np.arange(n), 1)}[kind]
    if c.startswith("df"):
        return pd.DataFrame(a, index=idx, columns=[f"c{i}" for i in range(a.shape[1])])
    return pd.Series(a, index=idx)


def scenarios(tier):
    for li in range(len(LAYS)):
        for mi, (name, m) in enumerate(MM.M.items()):
            for kind in m["kinds"]:
                if m["cost"] > 2 and tier == "quick" and li != mi % 3:
                    continue
                yield {"what": "method", "name": name, "kind": kind, "lay": li, "full": int(tier != "quick" and m["cost"] == 1)}
                yield {"what": "adapter", "name": name, "kind": kind, "lay": li, "full": int(tier != "quick" and m["cost"] == 1)}
        for what, names in (("scorer", SCORERS), ("splitter", SPLITTERS), ("sub", SUBS), ("sel", SELS), ("utils", ["clf", "reg"]), ("pack", ["clf", "reg"]), ("cv", ["plain"])):
            for nm in names:
                yield {"what": what, "name": nm, "lay": li, "full": (2 if tier != "quick" or what in ("splitter", "utils", "sub") else int(li == 1)) if what in ("splitter", "utils", "sel", "sub") else 0}


def base(li, kind, masked=True, k=4):
    sd = np.array(LAYS[li])
    Xs, ys, Xt, yt = MM.data(k, 5, 4, kind)
    if kind == "clf" and li == 2:
        ys = np.array([0, 0, 1, 1, 1])
    X = np.zeros((9, 2))
    X[sd >= 0], X[sd < 0] = Xs, Xt
    y = np.zeros(9, dtype=np.asarray(ys).dtype)
    y[sd >= 0], y[sd < 0] = ys, yt
    if masked:
        y[sd < 0] = -1 if kind == "clf" else np.nan
    return X, y, sd, np.arange(9) * 0.25 + 0.5


def flat(v):
    if v is None:
        return ["None"]
    if isinstance(v, dict):
        return [x for k in sorted(v, key=str) for x in [str(k)] + flat(v[k])]
    if isinstance(v, list) and v and all(isinstance(u, list) and all(np.isscalar(k) for k in u) for u in v):
        return [np.asarray(v)]
    if isinstance(v, (tuple, list)) and not all(np.isscalar(u) for u in v):
        return [x for u in v for x in flat(u)] + [f"len{len(v)}"]
    if isinstance(v, str):
        return [v]
    if hasattr(v, "toarray"):
        v = v.toarray()
    return [np.asarray(v)]


def alike(a, b, tol):
    if len(a) != len(b):
        return False
    for u, v in zip(a, b):
        if isinstance(u, str) or isinstance(v, str):
            if not (isinstance(u, str) and isinstance(v, str) and u == v):
                return False
        elif not same(u, v, tol):
            return False
    return True


def plain_may_fail(sc, nm, e):
    n = sc["name"]
    return (isinstance(e, NotImplementedError) or (n == "MultiLinear" and sc["lay"] == 2) or (nm == "check_X_y_domain-auto" and "masked labels" in str(e))
            or (n in ("DASVM", "Gradual") and sc["lay"] == 2) or (n == "StratifiedDomainSubsampler" and "NaN" in str(e)))


def explore(sc, r, entries, args, tol=1e-9, relevant=(0, 1, 2, 3)):
    """entries: {name: f(X, y, sd, w)}; each on every container combination against the plain one."""
    cs = combos(sc["full"])
    cs = list(dict.fromkeys(tuple(c[i] if i in relevant else "nd" for i in range(4)) for c in cs))
    for nm, f in entries.items():
        ref, e0 = raises(lambda: f(*[put(a, "nd") for a in args]))  # noqa: B023
        ref = flat(ref)
        r.check(e0 is None or plain_may_fail(sc, nm, e0), "plain-refused", f"{sc} {nm}: {e0!r}")
        for c in cs[1:]:
            given = [put(a, x) for a, x in zip(args, c)]
            v, e = raises(lambda: f(*given))  # noqa: B023
            r.step()
            r.trace()
            r.state(sc["what"], sc["name"], nm, c)
            if e is not None:
                if set(c) <= ARRAYS and e0 is None:
                    r.fail("array-refused", f"{sc} {nm} containers X,y,sample_domain,weight={c}: {type(e).__name__}: {e}")
                r.outcome("refused", type(e).__name__)
                continue
            if e0 is not None:
                # plain arrays are refused: nothing to compare with
                r.check(not set(c) <= ARRAYS, "array-accepted", f"{sc} {nm} {c} accepted, plain arrays refused: {e0!r}")
                continue
            v = flat(v)
            r.check(alike(ref, v, tol), "container-changes-result:" + sc["what"] + ":" + sc["name"],
                    lambda: f"{sc} {nm} containers X,y,sample_domain,weight={c}: {v}\nplain arrays: {ref}")  # noqa: B023
        r.outcome(nm, repr(e0)[:40])


def run_method(sc, r):
    name, kind = sc["name"], sc["kind"]
    args = base(sc["lay"], kind)
    X0, y0, sd0, _ = base(sc["lay"], kind)
    tol = max(MM.M[name]["perm"] or 0, 1e-7)

    def answers(p, X, sd):
        out = {}
        for q in ("predict", "predict_proba"):
            if hasattr(p, q):
                out[q] = getattr(p, q)(X, sample_domain=sd, allow_source=True)
        return out

    def fit(X, y, sd, w):
        p = MM.make(name, kind).fit(X, y, sample_domain=sd)
        return answers(p, X0, sd0)

    fitted = []

    def ask(X, y, sd, w):
        if not fitted:
            fitted.append(MM.make(name, kind).fit(X0, y0, sample_domain=sd0))
        return answers(fitted[0], X, sd)

    explore(sc, r, {"fit": fit}, args, tol, (0, 1, 2))
    explore(sc, r, {"predict": ask}, args, tol, (0, 2))


def run_adapter(sc, r):
    name, kind = sc["name"], sc["kind"]
    if MM.adapter(name, kind) is None:
        return
    args = base(sc["lay"], kind)
    tol = max(MM.M[name]["perm"] or 0, 1e-7)
    sd0 = args[2]

    def ft(X, y, sd, w):
        return MM.adapter(name, kind).fit_transform(X, y, sample_domain=sd)

    def tr(X, y, sd, w):
        a = MM.adapter(name, kind).fit(args[0], args[1], sample_domain=sd0)
        return a.transform(X, sample_domain=sd, allow_source=True)

    explore(sc, r, {"fit_transform": ft}, args, tol, (0, 1, 2))
    explore(sc, r, {"transform": tr}, args, tol, (0, 2))


def scorer(name):
    return {"Supervised": lambda: metrics.SupervisedScorer(), "IW": lambda: metrics.ImportanceWeightedScorer(), "Entropy-mean": lambda: metrics.PredictionEntropyScorer(),
            "SND": lambda: metrics.SoftNeighborhoodDensity(), "DEV": lambda: metrics.DeepEmbeddedValidation(random_state=0),
            "Circular": lambda: metrics.CircularValidation(), "MixVal": lambda: metrics.MixValScorer(random_state=0), "MaNo": lambda: metrics.MaNoScorer()}[name]()


def run_scorer(sc, r):
    X, y, sd, w = base(sc["lay"], "clf")
    true = np.where(sd < 0, np.arange(9) % 2, y)
    p = make_da_pipeline(StandardScaler(), LogisticRegression().set_score_request(sample_weight=True)).fit(X, y, sample_domain=sd)

    def f(X, y, sd, w):
        kw = {"target_labels": w} if sc["name"] == "Supervised" else {}
        return scorer(sc["name"])(p, X, y, sample_domain=sd, **kw)

    explore(sc, r, {"score": f}, (X, y, sd, true), 1e-7)


def twice(args):
    return tuple(np.concatenate([a, a[::-1]]) for a in args)


def run_splitter(sc, r):
    X, y, sd, w = twice(base(sc["lay"], "clf", masked=False))
    cls = getattr(model_selection, sc["name"])
    lodo = sc["name"].startswith("Leave")
    if lodo:
        # every domain both as a source and as a target
        sd = np.concatenate([np.abs(sd[:9]), -np.abs(sd[9:])])
    for kw in [{"max_n_splits": 3}, {"max_n_splits": 2, "test_size": 0.4}] if lodo else [{"n_splits": 2, "test_size": 0.5}, {"n_splits": 1, "test_size": 0.4, "train_size": 0.5}]:
        sp = cls(random_state=0, **kw)
        if 1:
            explore(sc, r, {f"split{kw}": lambda X, y, sd, w: list(sp.split(X, y, sd))}, (X, y, sd, w), 0, (0, 1, 2))  # noqa: B023


def run_sub(sc, r):
    for kind in ("clf", "reg"):
        args = twice(base(sc["lay"], kind))

        def f(X, y, sd, w):
            return getattr(skada, sc["name"])(train_size=8, random_state=0).fit_transform(X, y, sample_domain=sd, sample_weight=w)

        explore(sc, r, {kind: f}, args, 0)


def take(a, idx):
    """the caller's own selection, position by position."""
    if a is None:
        return None
    return a.iloc[idx] if hasattr(a, "iloc") else type(a)(a[i] for i in idx) if isinstance(a, (list, tuple)) else a[idx]


def run_sel(sc, r):
    wrap = {"plain": lambda e: e}.get(sc["name"]) or getattr(skada, sc["name"])
    for kind in ("clf", "reg"):
        for fin in (0, 1):
            for masked in (True, False):
                args = base(sc["lay"], kind, masked=masked)
                X0, _, sd0, _ = args

                def f(X, y, sd, w):
                    P.LOG.clear()
                    p = make_da_pipeline(*([wrap(P.CW(2))] if fin else [wrap(P.TW(0)), P.CW(2)]))  # noqa: B023
                    p.fit(X, y, sample_domain=sd, sample_weight=w)
                    return list(P.LOG)

                def g(X, y, sd, w):
                    p = make_da_pipeline(*([wrap(P.CW(2))] if fin else [wrap(P.TW(0)), P.CW(2)]))  # noqa: B023
                    p.fit(X0, args[1], sample_domain=sd0, sample_weight=args[3])  # noqa: B023
                    P.LOG.clear()
                    return p.predict(X, sample_domain=sd), list(P.LOG)

                def h(X, y, sd, w):
                    src = [i for i, d in enumerate(sd0) if d >= 0]  # noqa: B023
                    return g(take(X, src), y, take(sd, src), w)  # noqa: B023

                explore(sc, r, {f"fit {kind} final={fin} masked={masked}": f}, args, 0)
                explore(sc, r, {f"predict {kind} final={fin} masked={masked}": h if sc["name"] == "PerDomain" and fin else g}, args, 0, (0, 2))


def run_utils(sc, r):
    U = utils
    for masked in (True, False):
        args = base(sc["lay"], sc["name"], masked=masked)
        parts = U.source_target_split(args[0], args[1], args[3], sample_domain=args[2])

        explore(sc, r, {
            "check_X_y_domain": lambda X, y, sd, w: U.check_X_y_domain(X, y, sd),
            "check_X_y_domain-auto": lambda X, y, sd, w: U.check_X_y_domain(X, y, None),
            "check_X_y_domain-scalar": lambda X, y, sd, w: U.check_X_y_domain(X, y, -2),
            "check_X_domain": lambda X, y, sd, w: U.check_X_domain(X, sd, allow_source=True),
            "extract_source_indices": lambda X, y, sd, w: U.extract_source_indices(sd),
            "extract_domains_indices": lambda X, y, sd, w: [{str(k): v for k, v in d.items()} for d in U.extract_domains_indices(sd, split_source_target=True)],
            "source_target_split": lambda X, y, sd, w: U.source_target_split(X, y, w, sample_domain=sd),
            "per_domain_split": lambda X, y, sd, w: list(U.per_domain_split(X, y, w, sample_domain=sd)),
        }, args, 0)
        # merging: the parts come in containers
        for nm, i in (("X", 0), ("w", 4)):
            for c in XC if nm == "X" else VC:
                a, b = put(parts[i], c), put(parts[i + 1], c)
                for csd in VC:
                    v, e = raises(lambda: U.source_target_merge(a, b, sample_domain=put(args[2], csd)))  # noqa: B023
                    r.step()
                    r.state("merge", nm, c, csd)
                    if e is not None:
                        r.check(not {c, csd} <= ARRAYS, "array-refused", f"{sc} source_target_merge {nm} {c} {csd}: {e}")
                        continue
                    ref = args[0] if nm == "X" else args[3]
                    r.check(same(ref, np.asarray(v[0])), "container-changes-result", lambda: f"{sc} source_target_merge {nm} parts={c} sample_domain={csd}: {v}\nexpected {ref}")  # noqa: B023
    r.trace()


def run_pack(sc, r):
    X, y, sd, w = base(sc["lay"], sc["name"], masked=False)

    def f(X, y, sd, w):
        ds = DomainAwareDataset()
        s = np.asarray(args[2])
        for d in dict.fromkeys(s.tolist()):
            m = s == d
            # the caller selects his rows position by position
            ds.add_domain(take(X, np.where(m)[0]), take(y, np.where(m)[0]), f"d{d}")
        src, tgt = [f"d{d}" for d in dict.fromkeys(s.tolist()) if d >= 0], [f"d{d}" for d in dict.fromkeys(s.tolist()) if d < 0]
        return [ds.pack(as_sources=src, as_targets=tgt, mask_target_labels=k) for k in (False, True)], [ds.get_domain(n) for n in src + tgt]

    args = (X, y, sd, w)
    explore(sc, r, {"pack": f}, args, 0, (0, 1))


def run_cv(sc, r):
    from sklearn.model_selection import cross_validate
    X, y, sd, w = base(sc["lay"], "clf", masked=False)
    X, y, sd, w = twice((X, y, sd, w))

    def f(X, y, sd, w):
        p = make_da_pipeline(StandardScaler(), LogisticRegression())
        out = cross_validate(p, X, y, cv=model_selection.SourceTargetShuffleSplit(n_splits=2, test_size=0.4, random_state=0), params={"sample_domain": sd},
                             scoring=metrics.PredictionEntropyScorer(), error_score="raise", return_indices=True)
        return out["test_score"], list(out["indices"]["train"]), list(out["indices"]["test"])

    explore(sc, r, {"cross_validate": f}, (X, y, sd, w), 1e-9, (0, 1, 2))


def run(sc, r):
    {"method": run_method, "adapter": run_adapter, "scorer": run_scorer, "splitter": run_splitter, "sub": run_sub, "sel": run_sel, "utils": run_utils, "pack": run_pack,
     "cv": run_cv}[sc["what"]](sc, r)
