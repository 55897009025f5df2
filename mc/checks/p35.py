import copy
import itertools
import os
import pickle
import random
import shutil
import tempfile

import numpy as np
import torch
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression
from sklearn.preprocessing import StandardScaler

from mc import archives as A
from mc import methods as D
from mc.checks import p24, p28
from mc.checks.p34 import eq, layout, masked, packed
from mc.util import raises
from skada import CORALAdapter, KLIEPReweightAdapter, SubspaceAlignmentAdapter, make_da_pipeline
from skada import datasets as DS
from skada import metrics as Mx
from skada import model_selection as MS
from skada.deep._adversarial import CDANModule
from skada.deep.utils import SphericalKMeans
from skada.transformers import DomainSubsampler, StratifiedDomainSubsampler, Subsampler

ID = "P35"
TECHNIQUE = ("exhaustive enumeration of all histories up to a depth of calls, copies, abandoned draws and disturbances of the global random generators around every randomised part of the library, "
             "executed on the real code; each call is compared with the same call on a new object holding a generator in the same state")
LEVEL = "model_checking"
NOTE = "Histories are enumerated completely up to the depth for every randomised class and function and each way of giving the random state (integer, generator, nothing)."
ASSUMPTIONS = ["training of networks draws from torch's global generator by design and is excluded"]
OPS = ("A", "B", "half", "seed", "draw", "clone", "pickle")


def BOUNDS(tier):
    return "%d randomised parts x (integer, generator, nothing) x all histories of <= %d operations from %s followed by a call; %d methods x kinds under 4 global seeds; nets: predictions under 4 global seeds" % (
        len(PARTS), 2 if tier == "quick" else 3, OPS, len(D.M))


def splitter(cls, both=False, **kw):
    def call(sp, k, half):
        X, y, sd = layout(3 + k, both)
        it = sp.split(X, y, sample_domain=sd)
        if half:
            return [tuple(v.tolist() for v in next(it))]
        return [tuple(v.tolist() for v in p) for p in it]
    return (lambda rs: cls(random_state=rs, **kw)), call


def sampler(cls):
    def call(s, k, half):
        X, y, sd = layout(3 + k)
        X2, y2, p = s.fit_transform(X, y, sample_domain=sd, sample_weight=np.arange(len(X)) + 1.0)
        return X2, y2, p["sample_domain"], p["sample_weight"]
    return (lambda rs: cls(train_size=8, random_state=rs)), call


def sampled_pipe(cls):
    def call(p, k, half):
        X, y, sd = layout(3 + k)
        p.fit(X, masked(y, sd, "clf"), sample_domain=sd)
        return p.predict_proba(X, sample_domain=sd, allow_source=True)
    return (lambda rs: make_da_pipeline(cls(train_size=16, random_state=rs), CORALAdapter(), LogisticRegression())), call


_EST = []


def scorer(cls):
    def call(s, k, half):
        if not _EST:
            X, y, sd = packed(1, "clf")
            _EST.append(make_da_pipeline(StandardScaler(), LogisticRegression().set_score_request(sample_weight=True)).fit(X, masked(y, sd, "clf"), sample_domain=sd))
        X, y, sd = layout(21 + k)
        return s(_EST[0], X, masked(y, sd, "clf"), sample_domain=sd)
    return (lambda rs: cls(random_state=rs)), call


def adapter(make, wide=False):
    def call(a, k, half):
        if wide:  # few rows, many features: the randomised solver
            n = 12
            X = np.sin(np.arange(2 * n * 520).reshape(2 * n, 520) * (1.1 + k)) + np.arange(2 * n)[:, None] % 5
            sd = np.array([1, -2] * n)
            y = np.where(sd > 0, np.arange(2 * n) // 2 % 2, -1)
        else:
            X, y, sd = layout(3 + k)
            y = masked(y, sd, "clf")
        a.fit(X, y, sample_domain=sd)
        return np.asarray(a.transform(X, sample_domain=sd, allow_source=True)) if wide else np.asarray(a.compute_weights(X, sample_domain=sd))
    return make, call


def function(f, *sets):
    return (lambda rs: [rs]), lambda s, k, half: f(random_state=s[0], **sets[k])


def fetcher(name, f):
    def call(s, k, half):
        if name not in HOMES:
            HOMES[name] = tempfile.mkdtemp(prefix="p35-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
            with A.Network(p28.archive(f)[0]).patched():
                getattr(DS, name)(DOMAINS[f][0], data_home=HOMES[name])
        X, y = getattr(DS, name)(DOMAINS[f][k], data_home=HOMES[name], shuffle=True, random_state=s[0], return_X_y=True)
        return np.asarray(X), np.asarray(y)
    return (lambda rs: [rs]), call


HOMES = {}
DOMAINS = {"surf": A.OFFICE, "decaf": A.OFFICE, "home": A.HOME, "amazon": A.AMAZON}


def kmeans():
    def call(m, k, half):
        X = torch.as_tensor(np.sin(np.arange(40.0).reshape(10, 4) * (2.3 + k)), dtype=torch.float32)
        m.fit(X)
        return m.cluster_centers_.numpy(), m.predict(X).numpy()
    return (lambda rs: SphericalKMeans(n_clusters=3, n_init=2, max_iter=1, random_state=rs)), call


def projection():
    """the random projection of CDAN: what its domain classifier is given."""
    class Base(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.enc = torch.nn.Identity()

        def forward(self, X):
            return self.enc(X)[:, :2]

    def call(s, k, half):
        m = CDANModule(Base(), "enc", torch.nn.Identity(), max_features=3 + k, random_state=s[0])
        X = torch.arange(6.0).reshape(2, 3) + 1
        return [m(X, is_fit=True)[1].detach().numpy() for _ in range(2)]
    return (lambda rs: [rs]), call


# name -> (make(random_state), call(object, data number, half), kinds of random state, number of seeds among which results must differ)
PARTS = {
    "stratified": (*splitter(MS.StratifiedDomainShuffleSplit, n_splits=3, test_size=0.5), "igN"),
    "domain": (*splitter(MS.DomainShuffleSplit, n_splits=3, test_size=0.4), "igN"),
    "source-target": (*splitter(MS.SourceTargetShuffleSplit, n_splits=3, test_size=0.3), "igN"),
    "leave-one-out": (*splitter(MS.LeaveOneDomainOut, both=True, max_n_splits=3, test_size=0.3), "igN"),
    "random-shuffle": (*splitter(MS.RandomShuffleDomainAwareSplit, n_splits=2, test_size=0.3), "igN") if hasattr(MS, "RandomShuffleDomainAwareSplit") else None,
    "subsampler": (*sampler(Subsampler), "igN"),
    "domain-subsampler": (*sampler(DomainSubsampler), "igN"),
    "stratified-subsampler": (*sampler(StratifiedDomainSubsampler), "igN"),
    "subsampled-pipeline": (*sampled_pipe(Subsampler), "igN"),
    "dev": (*scorer(Mx.DeepEmbeddedValidation), "igN"),
    "mixval": (*scorer(Mx.MixValScorer), "igN"),
    "kliep": (*adapter(lambda rs: KLIEPReweightAdapter(gamma=[0.1, 1.0], n_centers=4, random_state=rs)), "igN"),
    "kliep-one": (*adapter(lambda rs: KLIEPReweightAdapter(gamma=0.5, n_centers=3, random_state=rs)), "igN"),
    "subspace": (*adapter(lambda rs: SubspaceAlignmentAdapter(n_components=2, random_state=rs), wide=True), "igN"),
    "blobs": (*function(DS.make_shifted_blobs, *({"n_samples": 5, "cluster_std": 1.0, "centers": c, "noise": 0.1} for c in (2, 3))), "igN"),
    "shifted": (*function(DS.make_shifted_datasets, *({"n_samples_source": 2, "n_samples_target": 3, "shift": s, "noise": 0.1} for s in ("covariate_shift", "subspace"))), "igN"),
    "shifted-reg": (*function(DS.make_shifted_datasets, *({"n_samples_source": 3, "n_samples_target": 2, "shift": s, "label": "regression"} for s in ("target_shift", "conditional_shift"))), "igN"),
    "moons": (*function(DS.make_dataset_from_moons_distribution, *({"n_samples_source": 3, "n_samples_target": 2, "noise": v} for v in (0.1, (0.1, 0.2)))), "igN"),
    "frequency": (*function(DS.make_variable_frequency_dataset, *({"n_samples_source": 1, "n_samples_target": 2, "n_classes": c, "noise": 0.2} for c in (2, 3))), "igN"),
    "office-surf": (*fetcher("fetch_office31_surf", "surf"), "ig"),
    "office-home": (*fetcher("fetch_office_home", "home"), "igN"),
    "amazon": (*fetcher("fetch_amazon_review", "amazon"), "igN"),
    "spherical-kmeans": (*kmeans(), "itN"),
    "projection": (*projection(), "itN"),
}
PARTS = {k: v for k, v in PARTS.items() if v is not None}
NEVER_DIFFERS = ("office-surf", "office-home", "amazon")  # too few rows in some domains of the small archives
OWN_DRAWS = ("JDOT-hinge", "DASVM")  # their support vector machines draw a seed from numpy's global generator


def scenarios(tier):
    for p in PARTS:
        for kind in PARTS[p][2]:
            yield {"what": "history", "part": p, "rs": kind}
        yield {"what": "seeds", "part": p}
    for n in D.M:
        for k in D.M[n]["kinds"]:
            yield {"what": "method", "name": n, "kind": k}
    for m in p24.METHODS:
        yield {"what": "net", "name": m}


def globals_():
    s = np.random.get_state()
    return s[1].tolist(), s[2:], torch.get_rng_state().tolist(), random.getstate()


def restore(s):
    np.random.set_state(s[0])
    torch.set_rng_state(s[1])
    random.setstate(s[2])


def save():
    return np.random.get_state(), torch.get_rng_state(), random.getstate()


def disturb(seed):
    np.random.seed(seed)
    torch.manual_seed(seed)
    random.seed(seed)


def new_state(kind):
    return {"i": lambda: 7, "g": lambda: np.random.RandomState(5), "t": lambda: torch.Generator().manual_seed(5), "N": lambda: None}[kind]()


def copy_state(rs):
    if isinstance(rs, torch.Generator):
        g = torch.Generator()
        g.set_state(rs.get_state())
        return g
    return pickle.loads(pickle.dumps(rs))


def given(obj):
    """the random state an object under test holds."""
    if isinstance(obj, list):
        return obj[0]
    if hasattr(obj, "steps"):
        return obj[0].base_estimator.random_state
    return obj.random_state


def run_history(sc, r):
    make, call, _ = PARTS[sc["part"]]
    kind = sc["rs"]
    depth = 2 if os.environ.get("VERIF_TIER", "quick") == "quick" else 3
    ops = [o for o in OPS if o != "half" or sc["part"] in ("stratified", "domain", "source-target", "leave-one-out")]
    if kind == "t":  # torch generators can neither be cloned nor pickled
        ops = [o for o in ops if o not in ("clone", "pickle")]
    known = {}
    for n in range(depth + 1):
        for hist in itertools.product(ops, repeat=n):
            disturb(1)
            obj = make(new_state(kind))
            for op in hist + ("A",):
                if op == "seed":
                    disturb(99)
                elif op == "draw":
                    np.random.rand()
                    torch.rand(1)
                    random.random()
                elif op == "clone":
                    obj = clone(obj) if hasattr(obj, "get_params") else copy.deepcopy(obj)
                elif op == "pickle":
                    obj = pickle.loads(pickle.dumps(obj))
                else:
                    k, half = int(op == "B"), op == "half"
                    rs = given(obj)
                    before, saved = globals_(), save()
                    ref = make(copy_state(rs))
                    r.step()
                    got, e = raises(lambda: call(obj, k, half))  # noqa: B023
                    if not r.check(e is None, "call", lambda: f"{sc} after {hist}: {e!r}"):  # noqa: B023
                        return
                    if kind != "N":
                        r.check(globals_() == before, "global-generator-used", lambda: f"{sc} after {hist}: a global generator moved")  # noqa: B023
                    after = save()
                    restore(saved)
                    if kind == "i" and (k, half) in known:
                        want = known[k, half]
                    else:
                        want = known[k, half] = call(ref, k, half)
                    restore(after)
                    if not r.check(eq(got, want), "not-reproducible", lambda: f"{sc} after {hist}, call {op}: {str(got)[:120]} want {str(want)[:120]}"):  # noqa: B023
                        return
            r.trace()
            r.state(sc["part"], kind, hist)
    r.outcome(sc["part"], kind)


def run_seeds(sc, r):
    """An integer acts as a generator seeded with it, whatever its integer type, and different seeds reach different draws."""
    make, call, kinds = PARTS[sc["part"]]
    got = []
    for s in range(12):
        one = call(make(s), 0, False)
        for alt in (np.int64(s), np.int32(s)) if "g" in kinds else ():
            r.check(eq(call(make(alt), 0, False), one), "integer-type", lambda: f"{sc} {alt!r}")  # noqa: B023
        r.step(3)
        r.state(sc["part"], s)
        got.append(one)
    r.trace()
    differ = any(not eq(g, got[0]) for g in got[1:])
    r.check(differ or sc["part"] in NEVER_DIFFERS, "seed-ignored", lambda: f"{sc}: twelve seeds give the same result")
    r.outcome(sc["part"], differ)


def run_method(sc, r):
    """Methods without a random state of their own (or with an integer) answer the same whatever the global generators hold; answering moves none of them."""
    name, kind = sc["name"], sc["kind"]
    X, y, sd = packed(1, kind)
    X2, _, sd2 = packed(2, kind)
    ref = None
    for seed in (0, 1, 2, 12345):
        disturb(seed)
        before = globals_()
        est = D.make(name, kind)
        r.step(3)
        _, e = raises(lambda: est.fit(X, masked(y, sd, kind), sample_domain=sd))  # noqa: B023
        if not r.check(e is None, "fit", lambda: f"{sc}: {e!r}"):  # noqa: B023
            return
        r.check(name in OWN_DRAWS or globals_() == before, "fit-moves-global-generator", str(sc))
        disturb(seed + 50)
        before = globals_()
        out = []
        for q in (lambda: est.predict(X2[sd2 < 0], sample_domain=sd2[sd2 < 0]), lambda: est.predict(X2, sample_domain=sd2, allow_source=True),  # noqa: B023
                  lambda: est.predict_proba(X2[sd2 < 0], sample_domain=sd2[sd2 < 0]), lambda: est[:-1].transform(X2, sample_domain=sd2, allow_source=True),  # noqa: B023
                  lambda: est.score(X[sd < 0], y[sd < 0], sample_domain=sd[sd < 0])):  # noqa: B023
            v, e = raises(q)
            out.append(type(e).__name__ if e is not None else np.asarray(v))
        r.check(globals_() == before, "query-moves-global-generator", str(sc))
        if ref is None:
            ref = out
        r.check(len(ref) == len(out) and all(a == b if isinstance(a, str) or isinstance(b, str) else eq(a, b) for a, b in zip(ref, out)), "depends-on-global-generator", lambda: f"{sc} seed {seed}")  # noqa: B023
        r.state(name, kind, seed)
    r.trace()
    r.outcome("method", sum(isinstance(v, str) for v in ref) < 4)


def run_net(sc, r):
    """Predictions and features of a trained net do not depend on the global generators."""
    from mc.checks.p34 import fitted_net, net_call
    net = fitted_net(sc["name"])
    ref = None
    for seed in (0, 1, 2, 12345):
        disturb(seed)
        out = [net_call(net, c, 31)() for c in ("target", "mixed", "proba", "features", "score", "clone")]
        r.step(6)
        if ref is None:
            ref = out
        r.check(eq(ref, out), "net-depends-on-global-generator", lambda: f"{sc} seed {seed}")  # noqa: B023
        r.state(sc["name"], seed)
    r.trace()
    r.outcome("net", True)


def run(sc, r):
    saved = save()
    try:
        {"history": run_history, "seeds": run_seeds, "method": run_method, "net": run_net}[sc["what"]](sc, r)
    finally:
        restore(saved)
        for h in HOMES.values():
            shutil.rmtree(h, ignore_errors=True)
        HOMES.clear()
