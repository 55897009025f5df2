import itertools
import pickle

import numpy as np
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KernelDensity
from sklearn.preprocessing import StandardScaler

from mc import methods as D
from mc.checks import p24
from mc.sched import Run, points
from mc.util import same
from skada import PerDomain, SelectSource, SelectSourceTarget, Shared, make_da_pipeline
from skada import metrics as Mx
from skada import model_selection as MS
from skada.datasets import DomainAwareDataset

ID = "P34"
TECHNIQUE = ("exhaustive exploration of two-thread schedules of the real code under a controlled scheduler: real threads, exactly one running, pre-empted at every line of the library "
             "up to a preemption bound; every result is compared bit for bit with the result of the same call alone")
LEVEL = "model_checking"
NOTE = ("Schedules are enumerated, not sampled: one preemption at every visited source line (its first visits and the last), two preemptions at the lines listed in the "
        "bounds; splitter generators are merged in every order.")
ASSUMPTIONS = ["a switch inside numpy, scipy, scikit-learn, torch or POT is equivalent to one at the next line of skada (they share no state with skada's objects)",
               "scikit-learn's thread-local metadata routing flag is set in every thread", "training of networks draws from torch's global generator and is not claimed"]

SELECTORS = {
    "per-domain": lambda: make_da_pipeline(PerDomain(StandardScaler()), D.CW()),
    "source-target": lambda: make_da_pipeline(SelectSourceTarget(StandardScaler(), StandardScaler(with_mean=False)), SelectSource(D.CW())),
    "source": lambda: make_da_pipeline(StandardScaler(), SelectSource(D.CW())),
    "shared-per": lambda: make_da_pipeline(Shared(StandardScaler()), PerDomain(StandardScaler()), Shared(D.CW())),
}
SCORERS = {
    "supervised": lambda: Mx.SupervisedScorer(),
    "importance": lambda: Mx.ImportanceWeightedScorer(),
    "importance-0.5": lambda: Mx.ImportanceWeightedScorer(weight_estimator=KernelDensity(bandwidth=0.5)),
    "entropy": lambda: Mx.PredictionEntropyScorer(),
    "soft-neighborhood": lambda: Mx.SoftNeighborhoodDensity(),
    "dev": lambda: Mx.DeepEmbeddedValidation(random_state=0),
    "dev-nb": lambda: Mx.DeepEmbeddedValidation(domain_classifier=GaussianNB(), random_state=1),
    "circular": lambda: Mx.CircularValidation(),
    "mixval": lambda: Mx.MixValScorer(random_state=0),
    "mano": lambda: Mx.MaNoScorer(),
}
SPLITTERS = {
    "stratified": lambda: MS.StratifiedDomainShuffleSplit(n_splits=3, test_size=0.5, random_state=0),
    "domain": lambda: MS.DomainShuffleSplit(n_splits=3, test_size=0.4, random_state=0),
    "source-target": lambda: MS.SourceTargetShuffleSplit(n_splits=3, test_size=0.3, random_state=0),
    "leave-one-out": lambda: MS.LeaveOneDomainOut(max_n_splits=3, test_size=0.3, random_state=0),
}


def BOUNDS(tier):
    return ("2 threads; %d fitted methods x kinds x pairs of calls (predict, predict on mixed domains, probabilities, score, transform, fit of a clone), %d nets x pairs of calls (also features; every merge of two feature iterators), %d scorers, %d splitters (every merge "
            "of two generators of 3 splits), dataset packing; preemption bound 1 at every line (first and last visit; thorough: second too; at most 60 / 300 points while fitting, 20 / 80 for a slow method), preemption bound 2 at %s" % (
                len(D.M) + len(SELECTORS), len(p24.METHODS), len(SCORERS), len(SPLITTERS), "<= 5 evenly spaced lines per call" if tier == "quick" else "<= 24 evenly spaced lines per call (8 with fits)"))


def scenarios(tier):
    pairs = QUICK if tier == "quick" else PAIRS
    for n in list(D.M) + list(SELECTORS):
        for k in D.M[n]["kinds"] if n in D.M else ["clf"]:
            for a, b in pairs:
                if k == "reg" and ("proba" in (a, b) or tier == "quick" and a in ("fit-clone", "mixed")):
                    continue
                yield {"what": "method", "name": n, "kind": k, "a": a, "b": b}
    for n in SCORERS:
        for pair in ("same-est", "other-est"):
            for first in (0, 1):
                yield {"what": "scorer", "name": n, "pair": pair, "first": first}
    for n in SPLITTERS:
        yield {"what": "splitter-merge", "name": n}
        yield {"what": "splitter", "name": n}
    for m in p24.METHODS:
        for a, b in NETS if tier == "quick" else itertools.product(NET_CALLS, repeat=2):
            yield {"what": "net", "name": m, "a": a, "b": b}
        for batch in (1, 4):
            yield {"what": "net-merge", "name": m, "batch": batch}
    for a, b in itertools.product(("sources", "masked", "bunch", "get"), repeat=2):
        yield {"what": "dataset", "a": a, "b": b}


QUICK = [("target", "target2"), ("mixed", "mixed2"), ("proba", "mixed"), ("score", "fit-clone"), ("transform", "transform2"), ("fit-clone", "fit-clone2")]
PAIRS = [("target", "target2"), ("target", "mixed"), ("mixed", "target"), ("mixed", "mixed2"), ("proba", "mixed"), ("score", "target"),
         ("target", "clone-predict"), ("target", "fit-clone"), ("fit-clone", "target"), ("fit-clone", "fit-clone2"), ("transform", "transform2"), ("transform", "target")]


NETS = [("features", "features"), ("features", "mixed"), ("proba", "features"), ("mixed", "score"), ("score", "target"), ("clone", "features")]
NET_CALLS = ("target", "mixed", "proba", "features", "score", "clone")


def packed(k, kind):
    Xs, ys, Xt, yt = D.data(k, kind=kind)
    X, y = np.concatenate([Xs, Xt]), np.concatenate([ys, yt])
    sd = np.array([1] * len(Xs) + [-2] * len(Xt))
    perm = np.argsort(np.sin(np.arange(len(X)) * (k + 1.3)))
    return X[perm], y[perm], sd[perm]


def build(name, kind):
    return SELECTORS[name]() if name in SELECTORS else D.make(name, kind)


def masked(y, sd, kind):
    """what a user without target labels passes."""
    y = y.copy()
    y[sd < 0] = -1 if kind == "clf" else np.nan
    return y


def ops(name, kind):
    """call name -> function of a fitted estimator; the data are made anew for every call."""
    per = name in ("per-domain", "shared-per", "MultiLinear")

    def rows(k, target):
        X, y, sd = packed(k, kind)
        return (X[sd < 0], y[sd < 0], sd[sd < 0]) if target else (X, y, sd)

    def call(meth, k, target):
        def f(est):
            X, y, sd = rows(k, target)
            kw = {"sample_domain": sd} if per or not target else {}
            if not target:
                kw["allow_source"] = True
            g = getattr(est, meth)
            return g(X, y, **kw) if meth == "score" else g(X, **kw)
        return f

    def fit_clone(k):
        def f(est):
            X, y, sd = packed(k, kind)
            c = clone(est).fit(X, masked(y, sd, kind), sample_domain=sd)
            return c.predict(X, sample_domain=sd, allow_source=True)
        return f

    def transform(k, target):
        def f(est):
            X, y, sd = rows(k, target)
            kw = {} if name in SELECTORS else {"allow_source": True}
            if name != "source":
                kw["sample_domain"] = sd
            return est[:-1].transform(X, **kw)
        return f

    return {"target": call("predict", 11, True), "target2": call("predict", 12, True), "mixed": call("predict", 1, False), "mixed2": call("predict", 13, False),
            "proba": call("predict_proba", 14, True), "score": call("score", 15, True), "fit-clone": fit_clone(16), "fit-clone2": fit_clone(17),
            "transform": transform(1, False), "transform2": transform(13, False)}


def explore(r, key, fa, fb, two, most=None):
    """every schedule of fa and fb up to the bound; each must answer what it answers alone."""
    visits = 1 if TIER() == "quick" else 2
    a0, pa, na = points(fa, visits)
    b0, pb, nb = points(fb, visits)
    for label, o in (("first", a0), ("second", b0)):
        if o[1] is not None:
            return o[1]
    again = points(fa, 1)[0]
    if not equal(again, a0):
        r.fail(key + ":sequential", "the same call alone gives two answers")
        return None
    def thin(p, n):
        return [p[int(i)] for i in np.unique(np.linspace(0, len(p) - 1, n).astype(int))] if len(p) > n else p

    if most:
        pa, pb = thin(pa, most), thin(pb, most)
    plans = [[(0, i), (1, None), (0, None)] for i in pa] + [[(1, j), (0, None), (1, None)] for j in pb]
    plans += [[(0, i), (1, j), (0, None), (1, None)] for i in thin(pa, two)[1:] for j in thin(pb, two)[1:]]
    for plan in plans:
        run = Run([fa, fb], plan)
        out = run.go()
        r.step(run.switches)
        r.trace()
        r.state(key, tuple(map(tuple, plan)))
        for who, got, alone in (("first", out[0], a0), ("second", out[1], b0)):
            if not equal(got, alone):
                why = "raised %r" % got[1] if got[1] is not None else "answered %s, alone %s" % (brief(got[0]), brief(alone[0]))
                r.fail(key, "the %s call %s when switched as %s" % (who, why, plan))
                return None
    r.outcome(key, len(plans) > 2)
    return None


def brief(x):
    return str(np.asarray(x, dtype=object) if isinstance(x, (tuple, list)) else np.asarray(x)).replace("\n", " ")[:120]


def equal(o, p):
    if (o[1] is None) != (p[1] is None):
        return False
    return o[1] is not None or eq(o[0], p[0])


def eq(a, b):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(eq(u, v) for u, v in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    return same(a, b)


def run(sc, r):
    two = 5 if TIER() == "quick" else 24
    if "fit-clone" in (sc.get("a"), sc.get("b")):
        two = 2 if TIER() == "quick" else 8
    if sc["what"] == "method":
        name, kind = sc["name"], sc["kind"]
        key = "%s %s: %s || %s" % (name, kind, sc["a"], sc["b"])
        X, y, sd = packed(1, kind)
        est = build(name, kind).fit(X, masked(y, sd, kind), sample_domain=sd)
        calls = ops(name, kind)
        if sc["b"] == "clone-predict":
            X2, y2, sd2 = packed(2, kind)
            other = clone(est).fit(X2, masked(y2, sd2, kind), sample_domain=sd2)
            fb = lambda: calls["target"](other)  # noqa: E731
        else:
            fb = lambda: calls[sc["b"]](est)  # noqa: E731
        before = pickle.dumps(est)
        most = None
        if "fit-clone" in (sc["a"], sc["b"]):
            most = (60, 300) if D.M.get(name, {}).get("cost", 1) == 1 else (20, 80)
            most = most[TIER() != "quick"]
        e = explore(r, key, lambda: calls[sc["a"]](est), fb, two, most)
        if e is not None:
            # the call is not offered by this method (for example probabilities of a support vector machine)
            r.check(isinstance(e, (AttributeError, ValueError, TypeError)), key, "unexpected %r" % e)
            r.outcome("refused", type(e).__name__)
            return
        if not sc["a"].startswith("fit"):
            probe = calls["target"](est), calls["target"](pickle.loads(before))
            r.check(eq(*probe), key + ":state", "the fitted object answers differently afterwards")
    elif sc["what"] == "scorer":
        scorer = SCORERS[sc["name"]]()
        ests = []
        for k in (1, 2):
            X, y, sd = packed(k, "clf")
            ests.append(make_da_pipeline(StandardScaler(), LogisticRegression(C=0.5 + k).set_fit_request(sample_weight=True).set_score_request(sample_weight=True)).fit(X, masked(y, sd, "clf"), sample_domain=sd))

        def ask(i, k):
            def f():
                X, y, sd = packed(k, "clf")
                kw = {"target_labels": y} if sc["name"] == "supervised" else {}
                return scorer(ests[i], X, masked(y, sd, "clf"), sample_domain=sd, **kw)
            return f

        fns = [ask(0, 21), ask(0 if sc["pair"] == "same-est" else 1, 22)]
        if sc["first"]:
            fns.reverse()
        e = explore(r, "scorer %s %s" % (sc["name"], sc["pair"]), *fns, two)
        r.check(e is None, "scorer %s refused" % sc["name"], repr(e))
    elif sc["what"] == "net":
        net = fitted_net(sc["name"])
        before = p24.params(net)
        e = explore(r, "net %s: %s || %s" % (sc["name"], sc["a"], sc["b"]), net_call(net, sc["a"], 31), net_call(net, sc["b"], 32), two)
        r.check(e is None, "net %s refused" % sc["name"], repr(e))
        r.check(same(p24.params(net), before), "net %s:state" % sc["name"], "the trained parameters changed")
    elif sc["what"] == "net-merge":
        # two lazy feature iterators over one net, advanced in every order
        net = fitted_net(sc["name"])
        sets = [{"X": packed(k, "clf")[0][:3 * sc["batch"]].astype(np.float32)} for k in (41, 42)]
        sets = [dict(s, sample_domain=np.full(len(s["X"]), -2)) for s in sets]
        net.set_params(batch_size=sc["batch"])
        alone = [[np.array(f) for f in net.feature_iter(net._prepare_input(s))] for s in sets]
        n = [len(a) for a in alone]
        for chosen in itertools.combinations(range(sum(n)), n[0]):
            its = [net.feature_iter(net._prepare_input(s)) for s in sets]
            got = [[], []]
            for s in range(sum(n)):
                t = 0 if s in chosen else 1
                got[t].append(next(its[t]))  # judged at the end: nothing handed out may change later
                r.step()
            r.trace()
            r.state("net", sc["name"], chosen)
            r.check(all(same(np.array(f), w) for g, a in zip(got, alone) for f, w in zip(g, a)), "net %s merge" % sc["name"], lambda: "advanced in the order %s" % (chosen,))  # noqa: B023
        r.outcome("net-merge", n[0])
    elif sc["what"] == "splitter-merge":
        sp = SPLITTERS[sc["name"]]()
        both = sc["name"] == "leave-one-out"
        sets = [layout(3, both), layout(4, both)]
        alone = [[(tr.tolist(), te.tolist()) for tr, te in sp.split(X, y, sample_domain=sd)] for X, y, sd in sets]
        n = [len(a) for a in alone]
        for chosen in itertools.combinations(range(sum(n)), n[0]):
            gens = [sp.split(X, y, sample_domain=sd) for X, y, sd in sets]
            got = [[], []]
            for s in range(sum(n)):
                t = 0 if s in chosen else 1
                tr, te = next(gens[t])
                got[t].append((tr.tolist(), te.tolist()))
                r.step()
            r.trace()
            r.state(sc["name"], chosen)
            r.check(got == alone, "splitter %s merge" % sc["name"], lambda: "advanced in the order %s: %s, alone %s" % (chosen, got, alone))  # noqa: B023
        r.outcome(sc["name"], *n)
    elif sc["what"] == "splitter":
        sp = SPLITTERS[sc["name"]]()

        def do(k):
            def f():
                X, y, sd = layout(k, sc["name"] == "leave-one-out")
                return [np.concatenate([tr, [-1], te]) for tr, te in sp.split(X, y, sample_domain=sd)]
            return f
        e = explore(r, "splitter %s" % sc["name"], do(3), do(4), two)
        r.check(e is None, "splitter %s refused" % sc["name"], repr(e))
    else:
        ds = DomainAwareDataset([(np.arange(6.).reshape(3, 2), np.array([0, 1, 0]), "a"), (np.arange(8.).reshape(4, 2) + 9, np.array([1, 1, 0, 2]), "b"), (np.ones((2, 2)), np.array([2, 0]), "c")])
        fs = {"sources": lambda: ds.pack(as_sources=["a", "b"], as_targets=["c"], mask_target_labels=False),
              "masked": lambda: ds.pack(as_sources=["c"], as_targets=["b", "a"], mask_target_labels=True),
              "bunch": lambda: dict((k, v) for k, v in ds.pack(as_sources=["b"], as_targets=["a", "c"], mask_target_labels=True, return_type="Bunch").items() if k != "domain_names"),
              "get": lambda: ds.get_domain("b")}
        e = explore(r, "dataset %s || %s" % (sc["a"], sc["b"]), fs[sc["a"]], fs[sc["b"]], two)
        r.check(e is None, "dataset refused", repr(e))


def fitted_net(m):
    X, sd = np.concatenate([p24.XS, p24.XT]), np.array([1] * 8 + [-2] * 6)
    y = np.concatenate([p24.YS, [0, 1, 1, 0, 1, 0] if m == "target" else [-1] * 6])
    net = p24.build(m, max_epochs=1)
    p24.torch.manual_seed(3)
    return net.fit(X, y, sd)


def net_call(net, name, k):
    def f():
        X, y, sd = packed(k, "clf")
        X = X.astype(np.float32)
        if name == "features":
            return net.predict_features({"X": X, "sample_domain": sd})
        if name == "proba":
            return net.predict_proba(X, sd, allow_source=True)
        if name == "score":
            return net.score(X, y, sd)
        if name == "clone":  # copying must not disturb a call under way
            c = pickle.loads(pickle.dumps(net))
            return c.predict_features({"X": X, "sample_domain": sd})
        return net.predict(X, sd, allow_source=name == "mixed")
    return f


def layout(k, both=False):
    X, y, sd = packed(k, "clf")
    X, y = np.concatenate([X, X + 3, X + 1, X + 7]), np.concatenate([y, y, y, y])
    sd = np.concatenate([sd, np.where(sd > 0, 3, -4), sd, np.where(sd > 0, 3, -4)])
    if both:  # every domain as source and as target
        sd = np.tile([1, -1, 2, -2, 3, -3], len(X))[:len(X)]
    return X, y, sd


def TIER():
    import os
    return os.environ.get("VERIF_TIER", "quick")
