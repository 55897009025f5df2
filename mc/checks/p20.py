import itertools
import math
from collections import Counter

import numpy as np
from sklearn.base import clone
from sklearn.preprocessing import StandardScaler

from mc import probes as P
from mc.rng import explore
from mc.util import raises, same
from skada import CORALAdapter, make_da_pipeline
from skada.transformers import DomainSubsampler, StratifiedDomainSubsampler, Subsampler

ID = "P20"
TECHNIQUE = ("exhaustive enumeration of domain/label layouts, requested sizes and of every answer the random generator can give (the generator is owned by the explorer), executed on the real "
             "subsampling steps alone and inside pipelines")
LEVEL = "model_checking"
NOTE = "Every draw of the owned generator is enumerated depth first for up to 5 samples; larger sets are visited for a fixed list of seeds."
ASSUMPTIONS = ["sets of more than 5 samples in one shuffle are explored by seeds instead of by every permutation", "sizes a stratified split cannot honour (fewer samples than groups) must be refused loudly"]

CLS = {"plain": Subsampler, "domain": DomainSubsampler, "strat": StratifiedDomainSubsampler}


def BOUNDS(tier):
    return "all layouts of 3-5 samples over 3 domains (quick: strided), 3 label kinds, weights yes/no, all integer sizes and 5 fractions, every permutation; 20-41 samples for %d seeds" % (8 if tier == "quick" else 60)


def scenarios(tier):
    out = []
    q = tier == "quick"
    for n in (3, 4, 5):
        lays = [v for v in itertools.product((1, 2, -3), repeat=n) if len(set(v)) > 1]
        step = {3: 1, 4: 3, 5: 11}[n] if q else {3: 1, 4: 1, 5: 2}[n]
        for i, v in enumerate(lays):
            if i % step == 0:
                for c in CLS:
                    out.append({"what": "draw", "cls": c, "lay": v, "kind": ("int", "float", "str")[(i // step) % 3] if c != "strat" else "int"})
    for c in CLS:
        for lay in ((1, 1, -2, -2), (1, -2, 1, -2, 1), (0, 0, 0, -1, -1)):
            out.append({"what": "pipe", "cls": c, "lay": lay})
        for s in range(8 if q else 60):
            for k in range(4):
                out.append({"what": "big", "cls": c, "seed": s, "k": k})
    return out


def data(lay, kind):
    sd = np.array(lay)
    n = len(sd)
    X = np.stack([np.arange(n) * 10.0, np.arange(n) + 0.5], 1)
    y = np.arange(n) % 2
    y[sd < 0] = -1
    if kind == "float":
        y = np.where(sd < 0, np.nan, np.arange(n) * 0.3 + 0.1)
    w = np.arange(n) * 0.25 + 1
    return X, y, sd, w


def sizes(n):
    return list(range(1, n + 3)) + [0.2, 0.34, 0.5, 0.6, 0.75]


def requested(ts, n):
    return min(ts, n) if isinstance(ts, (int, np.integer)) else math.floor(ts * n)


def groups(c, y, sd):
    if c == "domain":
        return [int(d) for d in sd]
    return [(int(d), float(v)) for d, v in zip(sd, y)]


def inspect(r, ctx, sc, ts, X, y, sd, w, out):
    Xo, yo, pr = out
    n = len(X)
    want = requested(ts, n)
    Xo = np.asarray(Xo)
    if not r.check(Xo.shape == (want, X.shape[1]), "size", lambda: f"{ctx()}: {Xo.shape} rows, want {want}"):
        return None
    pos = {tuple(x): i for i, x in enumerate(X)}
    if not r.check(all(tuple(x) in pos for x in Xo), "row-changed", lambda: f"{ctx()}: {Xo.tolist()}"):
        return None
    idx = np.array([pos[tuple(x)] for x in Xo], int)
    r.check(len(set(idx.tolist())) == len(idx), "row-repeated", lambda: f"{ctx()}: {idx}")
    r.check(same(yo, y[idx]), "label-moved", lambda: f"{ctx()}: {yo} want {y[idx]}")
    r.check(same(pr["sample_domain"], sd[idx]), "domain-moved", lambda: f"{ctx()}: {pr['sample_domain']} want {sd[idx]}")
    r.check(("sample_weight" in pr) == (w is not None) and (w is None or same(pr["sample_weight"], w[idx])), "weight-moved", lambda: f"{ctx()}: {pr}")
    if want == n:
        r.check(sorted(idx.tolist()) == list(range(n)), "all-rows", lambda: f"{ctx()}: {idx}")
    elif sc["cls"] != "plain":
        g = groups(sc["cls"], y, sd)
        full, got = Counter(g), Counter([g[i] for i in idx])
        for k in full:
            r.check(abs(got[k] - full[k] * want / n) < 1 - 1e-9 or abs(got[k] - full[k] * want / n) < 1e-9, "proportion", lambda: f"{ctx()}: group {k} keeps {got[k]} of {full[k]} when {want} of {n} are kept")  # noqa: B023
    return idx


def run_draw(sc, r):
    X, y, sd, w = data(sc["lay"], "int" if sc["kind"] == "str" else sc["kind"])
    n = len(X)
    cls = CLS[sc["cls"]]
    for ts in sizes(n):
        for ww in (None, w):
            kw = {} if ww is None else {"sample_weight": ww}
            X0, y0, sd0 = X.copy(), y.copy(), sd.copy()
            runs = 0
            for (out, e), rng in explore(lambda rng: raises(lambda: cls(train_size=ts, random_state=rng).fit_transform(X, y, sample_domain=sd, **kw))):  # noqa: B023
                r.step()
                runs += 1
                ctx = lambda: f"{sc} train_size {ts} weights {ww is not None} draw {rng.script}"  # noqa: E731, B023
                if e is not None:
                    # only sizes that cannot be honoured may be refused
                    want = requested(ts, n)
                    if sc["cls"] == "plain":
                        ok = want == 0 or n - want == 0 and isinstance(ts, float)
                    else:
                        c = Counter(groups(sc["cls"], y, sd))
                        ok = min(c.values()) < 2 or want < len(c) or n - want < len(c)
                    r.check(ok and isinstance(e, ValueError), "refused", lambda: f"{ctx()}: {e!r}")  # noqa: B023
                    break
                if inspect(r, ctx, sc, ts, X, y, sd, ww, out) is None:
                    return
            r.check(same(X, X0) and same(y, y0) and same(sd, sd0), "inputs-changed", f"{sc} {ts}")
            r.state(sc, ts, ww is not None)
            if r.failures:
                return
    r.trace()
    r.outcome(sc["cls"], n, sc["kind"])


def run_pipe(sc, r):
    """the next steps see the subset while fitting and every row while predicting."""
    X, y, sd, w = data(sc["lay"], "int")
    X[:, 1] = np.arange(len(X))
    cls = CLS[sc["cls"]]
    n = len(X)
    for ts in (2, 3, 4, n, n + 3, 0.5):
        for mode in ("final", "adapter"):
            for seed in (0, 1, 2, 5):
                r.step()
                steps = [cls(train_size=ts, random_state=seed), P.DCW()] if mode == "final" else [P.T(), cls(train_size=ts, random_state=seed), P.DCW()]
                ctx = lambda: f"{sc} train_size {ts} {mode} seed {seed}"  # noqa: E731, B023
                P.LOG.clear()
                p = make_da_pipeline(*steps, mask_target_labels=True)
                _, e = raises(lambda: p.fit(X, y, sample_domain=sd, sample_weight=w))  # noqa: B023
                if e is not None:
                    c = Counter(groups(sc["cls"], y, sd))
                    want = requested(ts, n)
                    r.check(sc["cls"] != "plain" and (min(c.values()) < 2 or want < len(c) or n - want < len(c)), "refused", lambda: f"{ctx()} {e!r}")  # noqa: B023
                    continue
                fit = [q for q in P.LOG if q[0] == "fit"][-1]
                Z = X.copy()
                if mode == "adapter":
                    Z[:, 0] += 1
                idx = fit[2][:, 1].astype(int)
                r.check(len(idx) == requested(ts, n) and len(set(idx.tolist())) == len(idx), "size", lambda: f"{ctx()} {idx}")  # noqa: B023
                r.check(same(fit[2], Z[idx]) and same(fit[3], y[idx]) and same(fit[4], sd[idx]) and same(fit[5], w[idx]), "alignment", lambda: f"{ctx()} {fit}")  # noqa: B023
                P.LOG.clear()
                t = sd < 0
                for rows_, kw in ((t, {}), (np.ones(n, bool), {"allow_source": True})):
                    out = p.predict(X[rows_], sample_domain=sd[rows_], **kw)
                    got = [q for q in P.LOG if q[0] == "predict"][-1]
                    r.check(same(out, X[rows_][:, 1]) and same(got[2], Z[rows_]), "rows-lost-at-prediction", lambda: f"{ctx()} {out}")  # noqa: B023
                q = clone(p).fit(X, y, sample_domain=sd, sample_weight=w)
                fit2 = [v for v in P.LOG if v[0] == "fit"][-1]
                r.check(same(fit2[2], fit[2]), "seed-not-reproducible", lambda: f"{ctx()} {fit2[2]} {fit[2]}")  # noqa: B023
                _ = q
                r.state(sc, ts, mode, seed)
                if r.failures:
                    return
    for ts in (2, 100):
        m = cls(train_size=ts, random_state=0)
        _, e = raises(lambda: m.fit_transform(X, y, sample_domain=sd))  # noqa: B023
        for kw in ({}, {"sample_domain": sd}, {"sample_domain": sd, "allow_source": True, "sample_weight": w}):
            r.check(same(m.transform(X, **kw), X), "rows-lost-at-prediction", f"{sc}")
            r.check(same(m.transform(X, y, **kw), X), "rows-lost-at-prediction", f"{sc}")
    r.trace()
    r.outcome("pipe", sc["cls"])


def run_big(sc, r):
    g = np.random.RandomState(sc["seed"] * 10 + sc["k"])
    n = (20, 41, 30, 26)[sc["k"]]
    sd = np.array([1, -2, 3, -4])[np.arange(n) % (2, 3, 4, 2)[sc["k"]]]
    X = g.randn(n, 3)
    y = np.where(sd >= 0, (np.arange(n) // 5) % 2, -1)
    w = g.rand(n) if sc["seed"] % 2 else None
    kw = {} if w is None else {"sample_weight": w}
    for ts in (10, 13, n // 2, 0.5, 0.3, n, n + 1, n - 8):
        for rs in (sc["seed"], np.random.RandomState(sc["seed"])):
            m = CLS[sc["cls"]](train_size=ts, random_state=rs)
            out, e = raises(lambda: m.fit_transform(X, y, sample_domain=sd, **kw))  # noqa: B023
            r.step()
            ctx = lambda: f"{sc} train_size {ts}"  # noqa: E731, B023
            if e is not None:
                c = Counter(groups(sc["cls"], y, sd))
                want = requested(ts, n)
                r.check(sc["cls"] != "plain" and (min(c.values()) < 2 or want < len(c) or n - want < len(c)), "refused", lambda: f"{ctx()} {e!r}")  # noqa: B023
                continue
            inspect(r, ctx, sc, ts, X, y, sd, w, out)
            if not isinstance(rs, np.random.RandomState):
                o2 = m.fit_transform(X, y, sample_domain=sd, **kw)
                r.check(same(out[0], o2[0]), "seed-not-reproducible", ctx)
            r.state(sc, ts)
            if r.failures:
                return
    p = make_da_pipeline(StandardScaler(), CLS[sc["cls"]](train_size=16, random_state=sc["seed"]), CORALAdapter(), P.CW())
    P.LOG.clear()
    _, e = raises(lambda: p.fit(X, y, sample_domain=sd))
    if r.check(e is None, "pipeline-fit", lambda: f"{sc} {e!r}"):
        fit = [q for q in P.LOG if q[0] == "fit"][-1]
        out, e = raises(lambda: p.predict(X[sd < 0], sample_domain=sd[sd < 0]))
        r.check(e is None and len(out) == (sd < 0).sum(), "rows-lost-at-prediction", lambda: f"{sc} {e!r}")
        r.check(len(fit[2]) <= 16 and len(fit[3]) == len(fit[2]), "size", lambda: f"{sc} {fit[2].shape}")
    r.trace()
    r.outcome("big", sc["cls"], sc["k"])


def run(sc, r):
    {"draw": run_draw, "pipe": run_pipe, "big": run_big}[sc["what"]](sc, r)
