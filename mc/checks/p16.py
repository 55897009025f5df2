import itertools

import numpy as np

from mc import methods as MM
from mc.util import raises, same

ID = "P16"
TECHNIQUE = ("exhaustive enumeration of query batches (all ordered sub-batches of the training and new target rows, repetitions, mixtures with source rows, explicit and default domain "
             "labels) for every shipped method, executed on the real fitted objects and compared row by row with the single-row answers")
LEVEL = "model_checking"
NOTE = "Every batch within the bound is submitted to the real fitted pipeline and adapter; each row must get the answer it gets alone."
ASSUMPTIONS = ["rows are compared up to floating-point reordering (1e-7 relative)", "multi-domain mappings need a domain they were fitted on"]

LAYS = [(1, 1, 1, 1, 1, -2, -2, -2, -2), (-2, 1, 1, -2, 1, -2, 1, 1, -2), (0, -3, 0, 0, -3, -3, 0, 0, -3), (4, -2, 4, -2, 2, -2, 2, 4, -2)]


def BOUNDS(tier):
    return ("%d methods x kinds x %d layouts; all ordered batches of <=%d rows drawn with repetition from 4 training and 3 new target rows, all subsets in order, all mixtures with one or two "
            "source rows at every position, explicit / default domain labels") % (len(MM.M), len(LAYS), 2 if tier == "quick" else 3)


def scenarios(tier):
    for mi, (name, m) in enumerate(MM.M.items()):
        for kind in m["kinds"]:
            for li in range(len(LAYS)):
                for on in ("pipe", "adapter"):
                    if tier == "quick" and (li + mi + (on == "pipe")) % (4 if m["cost"] > 3 else 2):
                        continue
                    if on == "adapter" and m["adapter"] != "X":
                        continue
                    yield {"m": name, "kind": kind, "lay": li, "on": on, "depth": 2 if tier == "quick" else 3}


def run(sc, r):
    name, kind, on = sc["m"], sc["kind"], sc["on"]
    m = MM.M[name]
    sd = np.array(LAYS[sc["lay"]])
    s = sd >= 0
    Xs, ys, Xt, yt = MM.data(4, 5, 4, kind)
    X = np.zeros((9, 2))
    X[s], X[~s] = Xs, Xt
    y = np.full(9, -1 if kind == "clf" else np.nan).astype(ys.dtype)
    if kind == "clf" and len(set(sd[s].tolist())) > 1:
        ys = np.array([0, 1, 0, 1, 1])
    y[s] = ys
    obj = MM.make(name, kind) if on == "pipe" else MM.adapter(name, kind)
    _, e = raises(lambda: (obj.fit(X, y, sample_domain=sd) if on == "pipe" else obj.fit_transform(X, y, sample_domain=sd)))
    r.trace()
    if e is not None:
        if sc["lay"] != 3 and not m["multi"]:
            raise e
        r.state(name, kind, on, sc["lay"], type(e).__name__)
        r.step()
        return
    tl = int(sd[~s][0])
    New = np.concatenate([Xt[:2] * 0.6 + 0.2, Xt[1:2] + 1e-3, ])
    rows = np.concatenate([Xt, New])
    nT = len(rows)
    meths = [q for q in ("predict_proba", "decision_function", "predict", "transform") if hasattr(obj, q)]
    if "predict_proba" in meths:
        meths.remove("predict")

    def ask(q, Q, d, src=False):
        kw = {} if d is None else {"sample_domain": d}
        if src:
            kw["allow_source"] = True
        return np.asarray(getattr(obj, q)(Q, **kw))

    for q in meths:
        _, e = raises(lambda: ask(q, rows[:1], np.array([tl])))  # noqa: B023
        if e is not None:
            # not offered by the final estimator
            if isinstance(e, (AttributeError,)) or "decision" in q:
                continue
            raise e
        single = [ask(q, rows[i:i + 1], np.array([tl])) for i in range(nT)]
        scale = max(1.0, max(float(np.abs(v).max()) if v.dtype.kind == "f" else 1.0 for v in single))

        def judge(idx, what, Q=None, d="t", src=False, pos=None):
            Q = rows[list(idx)] if Q is None else Q
            dd = np.full(len(Q), tl) if isinstance(d, str) else d
            v, e = raises(lambda: ask(q, Q, dd, src))  # noqa: B023
            r.step()
            if not r.check(e is None, "batch-refused", lambda: f"{name} {kind} {on} {q} {what}: {e!r}"):
                return False
            pos = range(len(idx)) if pos is None else pos
            if not r.check(len(v) == len(Q), "batch-length", lambda: f"{name} {kind} {on} {q} {what}: {v.shape}"):
                return False
            for p, i in zip(pos, idx):
                a, b = v[p], single[i][0]
                ok = same(a, b) if v.dtype.kind not in "f" else same(np.asarray(a) / scale, np.asarray(b) / scale, 1e-7)
                if not r.check(ok, "depends-on-batch", lambda: f"{name} {kind} {on} {q} {what}: row {i} gets {a}, alone {b}"):  # noqa: B023
                    return False
            return True

        go = True
        for k in range(1, sc["depth"] + 1):
            for idx in itertools.product(range(nT), repeat=k):
                if k == 3 and len(set(idx)) == 3 and sum(idx) % 3:
                    continue
                go = go and judge(idx, f"batch {idx}")
        for k in range(2, nT + 1):
            for idx in itertools.combinations(range(nT), k):
                go = go and judge(idx, f"batch {idx}")
                if sum(idx) % 3 == 0 or sc["depth"] > 2:
                    go = go and judge(idx[::-1], f"batch {idx[::-1]}")
        # as part of the training set
        go = go and judge([0, 1, 2, 3], "training set", Q=X, d=sd, src=True, pos=np.flatnonzero(~s))
        # every mixture with one source row, and with all of them
        if go:
            for src in range(5):
                for idx in itertools.chain(itertools.combinations(range(nT), 1), itertools.combinations(range(nT), 2) if sc["depth"] > 2 else [], [range(4), range(nT)]):
                    idx = list(idx)
                    for at in {0, len(idx)} if len(idx) > 1 else {0, 1}:
                        Q = np.insert(rows[idx], at, Xs[src], axis=0)
                        d = np.insert(np.full(len(idx), tl), at, int(sd[s][src]))
                        go = go and judge(idx, f"batch {idx} with source row {src} at {at}", Q=Q, d=d, src=True, pos=[p for p in range(len(Q)) if p != at])
        # default domain label
        if not m["multi"]:
            for idx in [(0,), (3,), (4,), (0, 1, 2, 3), (3, 2, 1, 0), (4, 0), (4, 5, 6), tuple(range(nT))]:
                go = go and judge(idx, f"batch {idx} without domain labels", d=None)
        # another target label means the same for methods that do not tell targets apart
        if not m["multi"]:
            for other in (-1, -7):
                go = go and judge((2, 0, 5), f"target label {other}", d=np.full(3, other))
        r.state(name, kind, on, q, sc["lay"], [v.tolist() for v in single])
        if not go:
            return
    r.outcome(name, kind, on, tuple(meths))
