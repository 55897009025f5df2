import itertools

import numpy as np
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.preprocessing import StandardScaler

from mc import probes as P
from mc.util import same, snapshot, unchanged
from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, Shared, make_da_pipeline

ID = "P09"
TECHNIQUE = ("exhaustive enumeration of pipelines (all step sequences up to a length over probe estimators) and domain layouts, executed on the "
             "real pipeline code and compared call by call with a row-table reference model")
LEVEL = "model_checking"
NOTE = "Probe estimators log exactly what each step receives; all compositions up to the depth, all listed layouts, with and without user weights."
ASSUMPTIONS = ["an estimator's behaviour depends only on what it receives"]

STEP = ["T", "T2", "TW", "W", "L", "D", "S", "s:T", "s:TW", "s:W", "t:T", "st:T", "st:T2", "p:T", "p:TW"]
FIN = ["C", "CW", "DC", "DCW", "T", "TW", "s:C", "s:CW", "t:C", "p:T"]
LAY = [(1, -2, 1, -2), (-2, 1, -2, 1, 1), (1, 1, -2, -2), (-2, -2, 1, 1), (2, -1, 1, -3, 2), (-1, 0, 0, -1, 5), (1, -1, -1, 1, -1, 1)]


def BOUNDS(tier):
    return "all sequences of <=%d steps from %d kinds, %d final estimators, %d layouts, class and real labels, with/without weights" % (
        2 if tier == "quick" else 3, len(STEP), len(FIN), len(LAY))


def scenarios(tier):
    depth = 2 if tier == "quick" else 3
    for k in range(depth + 1):
        for seq in itertools.product(STEP, repeat=k):
            for fin in FIN:
                for li in range(len(LAY)):
                    if k == 2 and tier == "quick" and li % 3 != (len(seq[0]) + len(seq[1]) + len(fin)) % 3:
                        continue
                    if k == 3 and li != (STEP.index(seq[0]) + STEP.index(seq[1]) + STEP.index(seq[2])) % len(LAY):
                        continue
                    for reg in (0, 1):
                        for uw in (0, 1):
                            if uw and not {x.rpartition(":")[2] for x in seq + (fin,)} & {"TW", "W", "L", "D", "S", "CW", "DCW"}:
                                continue  # weights nobody asks for are refused by sklearn
                            if k >= 2 and (reg + uw + li) % 2:
                                continue
                            yield {"steps": list(seq), "final": fin, "lay": li, "reg": reg, "uw": uw}


def make(name, tag):
    sel, _, kind = name.rpartition(":")
    est = (P.STEPS.get(kind) or P.FINALS[kind])(tag)
    if sel:
        est = {"s": SelectSource, "t": SelectTarget, "st": SelectSourceTarget, "p": PerDomain}[sel](est)
    return est


class Row:
    def __init__(self, i, f, y, d, w):
        self.i, self.f, self.y, self.d, self.w = i, f, y, d, w

    def copy(self):
        return Row(self.i, self.f, self.y, self.d, self.w)


def masked(y, reg):
    return y != y if reg else y == -1


def run(sc, r):
    sd = np.array(LAY[sc["lay"]])
    n = len(sd)
    reg = bool(sc["reg"])
    ids = np.arange(n) + 1.0
    ids = ids[np.argsort((np.arange(n) * 3) % n if n % 3 else np.arange(n)[::-1], kind="stable")]
    X = np.stack([ids * 0.25 + 100, ids], 1)
    y = (np.arange(n) % 3 + 0.5) if reg else np.arange(n) % 3
    w = ids * 7.0 if sc["uw"] else None
    names = sc["steps"] + [sc["final"]]
    pipe = make_da_pipeline(*[make(s, k) for k, s in enumerate(names)])
    P.LOG.clear()
    snap = snapshot(X, y, sd, w)
    kw = {"sample_weight": w} if sc["uw"] else {}
    r.trace()
    mask = np.nan if reg else -1
    # ---- reference: what each step must receive
    rows = [Row(ids[i], X[i, 0], y[i], int(sd[i]), None if w is None else w[i]) for i in range(n)]
    true_y = {ids[i]: y[i] for i in range(n)}
    own = True  # labels are still the caller's (masked on the fly by masking selectors)
    expect, illegal = {}, False
    for k, name in enumerate(names):
        sel, _, kind = name.rpartition(":")
        masks = sel in ("", "s") and not any(q.rpartition(":")[2] == "L" for q in names[:k + (kind == "L")] if ":" not in q)
        if sel in ("s", "p"):
            # selectors built by hand always mask
            masks = True
        for row in rows:
            if own:
                row.y = mask if (masks and row.d < 0) else true_y[row.i]
        if sel == "s":
            rows = [q for q in rows if q.d >= 0]
            own = False
        elif sel == "t":
            rows = [q for q in rows if q.d < 0]
            own = False
        if sel == "st" and not ({q.d >= 0 for q in rows} == {True, False}):
            illegal = True
            break
        got = [q.copy() for q in rows]
        if kind in ("C", "CW"):
            got = [q for q in got if not masked(q.y, reg)]
        expect[k] = (kind, sel, got)
        if kind in ("T", "T2", "TW"):
            for q in rows:
                q.f += 1
        elif kind == "W":
            for q in rows:
                q.f += 10
                q.w = float(P.weight_of(q.i))
        elif kind == "L":
            for q in rows:
                q.y = float(P.label_of(q.i, reg)) if q.d < 0 else mask
            own = False
        elif kind == "D":
            for q in rows:
                q.d = int(P.domain_of(q.d))
        elif kind == "S":
            rows = [q for q in rows if int(q.i) % 4 != 3][::-1]
            own = False
    unsupported = [k for k in range(len(names)) if names[k] in ("s:W",) and k and False]
    _ = unsupported
    try:
        pipe.fit(X, y, sample_domain=sd, **kw)
    except Exception:  # noqa: BLE001
        if illegal or any(not e[2] for e in expect.values()):
            r.step()
            r.outcome("refused")
            return
        raise
    if illegal:
        r.fail("illegal-accepted", "one-sided data reached a source/target selector")
        return
    fits = {}
    for kind, tag, fx, fy, fd, fw in P.LOG:
        if kind == "fit":
            fits.setdefault(tag, []).append((fx, fy, fd, fw))
    for k, (kind, sel, got) in expect.items():
        calls = fits.get(k, [])
        if sel == "st":
            sides = [[q for q in got if (q.d >= 0) == s] for s in (True, False)]
        elif sel == "p":
            sides = [[q for q in got if q.d == d] for d in sorted({q.d for q in got})]
        else:
            sides = [got]
        r.check(len(calls) == len(sides), "fit-count", lambda: f"step {k} {names[k]}: {len(calls)} fits")
        for call, part in zip(calls, sides):
            fx, fy, fd, fw = call
            r.step()
            where = lambda: f"step {k} {names[k]} of {names}: X={fx.tolist()} y={fy} sd={fd} w={fw}; want {[(q.f, q.i, q.y, q.d, q.w) for q in part]}"  # noqa: E731
            if not r.check([float(v) for v in fx[:, 1]] == [float(q.i) for q in part], "rows", where):
                return
            r.check(same(fx[:, 0], [q.f for q in part], 1e-12), "features", where)
            r.check(fy is not None and same(np.asarray(fy, float), np.array([q.y for q in part], float)), "labels", where)
            if kind in ("W", "L", "D", "S", "DC", "DCW"):
                r.check(fd is not None and same(fd, [q.d for q in part]), "domains", where)
            if kind in ("TW", "W", "L", "D", "S", "CW", "DCW"):
                have = part and part[0].w is not None
                r.check(same(fw, [q.w for q in part], 1e-12) if have else fw is None or not part, "weights", where)
            r.state(names[k], [(q.i, q.f, q.y, q.d, q.w) for q in part])
    r.check(unchanged(snap, X, y, sd, w), "inputs-changed", lambda: f"{X} {y} {sd} {w}")
    # ---- prediction time: one answer per row, in the caller's order
    shift = sum({"T": 1, "T2": 1, "TW": 1}.get(s.rpartition(":")[2], 0) for s in sc["steps"])
    tidx = np.flatnonzero(sd < 0)
    nonad = all(s.rpartition(":")[2] in ("T", "T2", "TW") for s in names[:-1])
    variants = [("target", tidx, {"sample_domain": sd[tidx]}), ("target-default", tidx, {}), ("reversed", tidx[::-1], {"sample_domain": sd[tidx[::-1]]}),
                ("all", np.arange(n), {"sample_domain": sd, "allow_source": True})]
    if nonad and sc["final"] in ("C", "CW"):
        variants.append(("all-plain", np.arange(n)[::-1], {"sample_domain": sd[::-1]}))
    per = [k for k, s in enumerate(names) if s.startswith("p:")]
    relabelled = per and "D" in [s.rpartition(":")[2] for s in names[:per[-1]]]
    for vn, idx, pk in variants:
        if per and (relabelled or vn == "target-default"):
            continue  # a per-domain step needs the domains it was fitted on
        if any(not {int(d) for d in sd[idx]} <= {q.d for q in expect[k][2]} for k in per):
            continue
        Xq, yq = X[idx].copy(), y[idx].copy()
        sn = snapshot(Xq, yq)
        P.LOG.clear()
        if sc["final"].rpartition(":")[2] in ("T", "TW"):
            if not any(s in ("W", "L", "D", "S", "s:W") for s in names):
                pk = {k: v for k, v in pk.items() if k != "allow_source"}  # nobody asks for it
            out = pipe.transform(Xq, **pk)
            r.step()
            r.check(same(out, np.stack([X[idx, 0] + shift + 1, ids[idx]], 1), 1e-12), "transform-rows", lambda: f"{names} {vn}: {out} for ids {ids[idx]}")
        else:
            out = pipe.predict(Xq, **pk)
            pp = pipe.predict_proba(Xq, **pk)
            df = pipe.decision_function(Xq, **pk)
            r.step(3)
            r.check(same(out, ids[idx]), "predict-rows", lambda: f"{names} {vn}: {out} want {ids[idx]}")
            r.check(same(pp, np.stack([ids[idx], X[idx, 0] + shift], 1), 1e-12), "proba-rows", lambda: f"{names} {vn}: {pp}")
            r.check(same(df, X[idx, 0] + shift, 1e-12), "decision-rows", lambda: f"{names} {vn}: {df}")
            P.LOG.clear()
            sc_ = pipe.score(Xq, yq, **pk)
            r.step()
            r.check(abs(sc_ - np.dot(ids[idx], np.arange(1, len(idx) + 1))) < 1e-9, "score-rows", lambda: f"{names} {vn}: {sc_}")
            last = [e for e in P.LOG if e[0] == "score"][-1]
            r.check(same(last[2][:, 1], ids[idx]) and same(np.asarray(last[3], float), yq.astype(float)), "score-labels", lambda: f"{names} {vn}: {last}")
            if last[4] is not None and "sample_domain" in pk:
                r.check(same(last[4], pk["sample_domain"]), "score-domains", lambda: f"{last[4]}")
        r.check(unchanged(sn, Xq, yq), "inputs-changed-predict", "")
    r.outcome(names[-1], len(rows))
    # ---- a real scaler and a real estimator see the same rows
    if not sc["steps"] and sc["final"] == "C":
        for est in (LogisticRegression(), Ridge()) if not reg else (Ridge(),):
            if isinstance(est, LogisticRegression) and len(set(y[sd >= 0])) < 2:
                continue
            Z = X + np.stack([np.arange(n) ** 2, np.zeros(n)], 1)
            pipe = make_da_pipeline(StandardScaler(), Shared(est))
            pipe.fit(Z, y, sample_domain=sd)
            s = StandardScaler().fit(Z)
            ref = type(est)().fit(s.transform(Z)[sd >= 0], y[sd >= 0])
            r.step()
            r.check(same(pipe.predict(Z[sd < 0], sample_domain=sd[sd < 0]), ref.predict(s.transform(Z[sd < 0])), 1e-9), "sklearn-reference", "")
