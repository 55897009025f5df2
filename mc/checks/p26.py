import itertools
import warnings

import numpy as np
import torch
from skorch.callbacks import Callback, EpochScoring

from mc.checks.p23 import explore
from mc.util import raises, same
from skada.deep import CAN, SPA
from skada.deep.base import DeepDADataset
from skada.deep.callbacks import ComputeSourceCentroids, CountEpochs, MemoryBank
from skada.deep.utils import SphericalKMeans

torch.set_num_threads(1)
warnings.filterwarnings("ignore")

ID = "P26"
TECHNIQUE = ("exhaustive enumeration of batch histories for the memory bank, of small point sets and initialisations (every answer of torch's permutation generator) for spherical k-means, and of repeated fits, executed on the "
             "real callbacks inside real nets and compared step by step with an explicit reference machine")
LEVEL = "model_checking"
NOTE = "Point sets whose assignment is tied at some iteration, or that lose a whole cluster, are only checked for the conditions that do not depend on tie-breaking."
ASSUMPTIONS = ["float32", "source classes are 0..k-1"]
V = {"x": (1.0, 0.0), "y": (0.0, 2.0), "n": (-1.5, 0.5), "d": (1.0, 1.0), "e": (2.0, 0.25), "m": (-1.0, -2.0)}


def BOUNDS(tier):
    return "batch histories up to length %d over subsets of 3 target samples, 4 momenta; all multisets of %d points from 6 directions, 1-3 clusters, every initial pair of permutations; fits repeated up to 3 times" % ((2, 4) if tier == "quick" else (3, 5))


def scenarios(tier):
    q = tier == "quick"
    out = []
    batches = [b for k in (1, 2, 3) for b in itertools.combinations(range(3), k)] + [(0, 0, 1), (2, 0)]
    for depth in (1, 2) if q else (1, 2, 3):
        for h in itertools.product(range(len(batches)), repeat=depth):
            out.append({"what": "memory", "hist": [batches[i] for i in h]})
    for n in range(1, 5 if q else 6):
        for p in itertools.combinations_with_replacement(sorted(V), n):
            out.append({"what": "kmeans", "pts": "".join(p)})
    for lab in itertools.product((0, 1, 2), repeat=4):
        out.append({"what": "centroids", "lab": lab})
    for hist in itertools.product((1, 2, 3), repeat=2 if q else 3):
        out.append({"what": "epochs", "hist": hist})
    for kind in ("none", "list", "one", "named", "empty"):
        out.append({"what": "lists", "kind": kind})
    out.append({"what": "two-targets"})
    return out


class Feat(torch.nn.Module):
    """feature = M x (no bias); output = head of the feature."""

    def __init__(self, k=2):
        super().__init__()
        self.enc = torch.nn.Linear(2, 2, bias=False)
        self.drop = torch.nn.Dropout(0.5)
        self.head = torch.nn.Linear(2, k)
        with torch.no_grad():
            self.enc.weight.copy_(torch.tensor([[1.0, 0.5], [-0.5, 1.0]]))
            self.head.weight.copy_(torch.arange(2 * k).reshape(k, 2) * 0.3 - 0.4)
            self.head.bias.copy_(torch.arange(k) * 0.1)

    def forward(self, X):
        return self.head(self.drop(self.enc(X)))


def softmax(z):
    e = np.exp(z - z.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


def forward(net, X):
    m = net.module_.base_module_
    W, H, b = (p.detach().numpy().astype(float) for p in (m.enc.weight, m.head.weight, m.head.bias))
    F = X.astype(float) @ W.T
    return F, F @ H.T + b


def unit(F):
    return F / np.maximum(np.linalg.norm(F, axis=1, keepdims=True), 1e-12)


XT = np.array([[1.0, 0.5], [-2.0, 1.0], [0.5, -1.5]], np.float32)
XS = np.array([[3.0, 1.0], [0.0, 2.0]], np.float32)


def run_memory(sc, r):
    for mom, k in itertools.product((0.5, 0.0, 1.0, 0.25), (2, 3)):
        net = SPA(Feat(k), "enc", num_features=2, train_split=None, verbose=0).initialize()
        cb = MemoryBank(momentum=mom)
        X = np.concatenate([XS[:1], XT[:2], XS[1:], XT[2:]])
        d = np.array([1, -1, -1, 1, -1])
        y = np.array([0, -1, -1, 1, -1])
        ds = DeepDADataset(X, y, d)
        _, e = raises(lambda: cb.on_train_begin(net, ds, None))  # noqa: B023
        ctx = lambda: f"{sc} momentum {mom} classes {k}"  # noqa: E731, B023
        if not r.check(e is None, "memory-start", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
            return
        L = net.criterion_.adapt_criterion
        mf, mo = L.memory_features.numpy().astype(float), L.memory_outputs.numpy().astype(float)
        r.check(mf.shape == (3, 2) and mo.shape == (3, k), "memory-size", lambda: f"{ctx()}: {mf.shape} {mo.shape}")  # noqa: B023
        r.check(same(np.linalg.norm(mf, axis=1), np.ones(3), 1e-5) and same(mo, np.full((3, k), 1 / k), 1e-6), "memory-start", lambda: f"{ctx()}: {mf} {mo}")  # noqa: B023
        mf, mo = mf.copy(), mo.copy()
        for step, b in enumerate(sc["hist"]):
            with torch.no_grad():  # the net changes between batches
                net.module_.base_module_.enc.weight += 0.25
            src = [0, 1][: 1 + step % 2]
            Xb = np.concatenate([XS[src], XT[list(b)]])[::-1].copy()
            db = np.array([1] * len(src) + [-1] * len(b))[::-1].copy()
            ib = np.array(src + list(b))[::-1].copy()
            batch = ({"X": torch.tensor(Xb), "sample_domain": torch.tensor(db), "sample_idx": torch.tensor(ib)}, torch.zeros(len(Xb)))
            net.module_.train()
            r.step()
            _, e = raises(lambda: cb.on_batch_end(net, batch=batch, training=True))  # noqa: B023
            if not r.check(e is None, "memory-update", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
                return
            ids = np.array(b)[::-1]
            F, Z = forward(net, XT[ids])
            P = softmax(Z) ** 2
            P /= P.sum(0)
            f2, o2 = mf.copy(), mo.copy()
            for j, i in enumerate(ids):
                f2[i] = (1 - mom) * mf[i] + mom * unit(F)[j]
                o2[i] = (1 - mom) * mo[i] + mom * P[j]
            mf, mo = f2, o2
            r.check(same(L.memory_features, mf, 1e-4), "memory-features", lambda: f"{ctx()} after batch {step}: {L.memory_features.tolist()} reference {mf.tolist()}")  # noqa: B023
            r.check(same(L.memory_outputs, mo, 1e-4), "memory-outputs", lambda: f"{ctx()} after batch {step}: {L.memory_outputs.tolist()} reference {mo.tolist()}")  # noqa: B023
            r.state(sc["hist"][:step + 1], mom, k, mf.round(4))
            if r.failures:
                return
    r.trace()
    r.outcome(len(sc["hist"]))


def run_two_targets(sc, r):
    """Each target sample owns one entry also when there are several target domains."""
    net = SPA(Feat(), "enc", num_features=2, train_split=None, verbose=0).initialize()
    cb = MemoryBank(momentum=1.0)
    X = np.concatenate([XS, XT])
    ds = DeepDADataset(X, np.array([0, 1, -1, -1, -1]), np.array([1, 1, -1, -2, -2]))
    cb.on_train_begin(net, ds, None)
    batch = ({n: torch.stack([ds[i][0][n] for i in range(5)]) for n in ("X", "sample_domain", "sample_idx")}, torch.zeros(5))
    r.step()
    cb.on_batch_end(net, batch=batch, training=True)
    want = unit(forward(net, XT)[0])
    got = net.criterion_.adapt_criterion.memory_features.numpy()
    hit = [any(same(g, w, 1e-4) for g in got) for w in want]
    r.check(all(hit), "memory-several-targets", lambda: f"after a batch with every target sample the bank {got.tolist()} lacks features {want.tolist()}")
    r.state("two")
    r.trace()
    r.outcome("two")


# ---------------------------------------------------------------- spherical k-means
def lloyd(X, C, tol=1e-4, max_iter=300):
    """(centers, labels, iterations, clean) ; clean is False on ties or lost clusters."""
    U, C = unit(X), C.astype(float).copy()
    clean = True
    for it in range(max_iter):
        S = U @ unit(C).T
        D = 0.5 * (1 - S)
        lab = D.argmin(1)
        srt = np.sort(D, 1)
        if D.shape[1] > 1 and (srt[:, 1] - srt[:, 0]).min() < 1e-5:
            clean = False
        new = np.zeros_like(C)
        for k in range(len(C)):
            if (lab == k).any():
                new[k] = U[lab == k].sum(0)
                if np.linalg.norm(new[k]) < 1e-6:
                    clean = False
            else:
                clean = False
        if np.allclose(C, new, atol=tol):
            break
        C = new
    return C, lab, it + 1, clean


def run_kmeans(sc, r):
    X = np.array([V[c] for c in sc["pts"]])
    n = len(X)
    Xt = torch.tensor(X, dtype=torch.float32)
    for K in range(1, min(3, n) + 1):
        # given initial centroids
        for init in itertools.permutations(sorted(V), K):
            C0 = np.array([V[c] for c in init])
            t0 = torch.tensor(C0, dtype=torch.float32)
            r.step()
            km = SphericalKMeans(n_clusters=K, initial_centroids=t0)
            xin = Xt.clone()
            _, e = raises(lambda: km.fit(xin))  # noqa: B023
            ctx = lambda: f"{sc} K={K} start {init}"  # noqa: E731, B023
            if not r.check(e is None, "kmeans", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
                return
            r.check(same(t0, C0, 1e-6) and same(xin, Xt), "inputs-unchanged", lambda: f"{ctx()}: {t0}")  # noqa: B023
            C, lab, it, clean = lloyd(X, C0)
            if clean:
                r.check(same(unit(km.cluster_centers_.numpy().astype(float)), unit(C), 1e-4), "kmeans-centers", lambda: f"{ctx()}: {km.cluster_centers_.tolist()} reference {C.tolist()}")  # noqa: B023
                r.check(same(km.predict(Xt), lab) and same(km.predict(X.astype(np.float32)), lab), "kmeans-labels", lambda: f"{ctx()}: {km.predict(Xt)} reference {lab}")  # noqa: B023
                r.check(km.n_iter_ == it, "kmeans-iterations", lambda: f"{ctx()}: {km.n_iter_} reference {it}")  # noqa: B023
                want = 0.5 * (1 - (unit(X) * unit(C)[lab]).sum(1)).sum()
                r.check(same(km.inertia_, want, 1e-4), "kmeans-inertia", lambda: f"{ctx()}: {km.inertia_} reference {want}")  # noqa: B023
                one = SphericalKMeans(n_clusters=K, initial_centroids=t0, max_iter=1).fit(Xt)
                r.check(one.n_iter_ == 1, "kmeans-iterations", lambda: f"{ctx()} max_iter=1: {one.n_iter_}")  # noqa: B023
                C1 = lloyd(X, C0, max_iter=1)[0]
                r.check(same(unit(one.cluster_centers_.numpy().astype(float)), unit(C1), 1e-4), "kmeans-one-step", lambda: f"{ctx()}: {one.cluster_centers_} reference {C1}")  # noqa: B023
                sc2 = SphericalKMeans(n_clusters=K, initial_centroids=t0 * torch.arange(1, K + 1)[:, None]).fit(Xt * torch.arange(1, n + 1)[:, None])
                r.check(same(sc2.predict(Xt), lab), "kmeans-scale", lambda: f"{ctx()}: scaled points or centroids change the clusters")  # noqa: B023
            r.state(sc["pts"], K, init)
        # random starts: every permutation the generator may answer
        for n_init in (1, 2):
            seen = []
            for (km, e), o in explore(lambda: raises(lambda: SphericalKMeans(n_clusters=K, n_init=n_init).fit(Xt)), 24 if n_init == 1 else 40):  # noqa: B023
                r.step()
                ctx = lambda: f"{sc} K={K} n_init={n_init} draws {o.script}"  # noqa: E731, B023
                if not r.check(e is None, "kmeans", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
                    return
                r.check(len(o.arity) == n_init, "kmeans-starts", lambda: f"{ctx()}: {len(o.arity)} random starts")  # noqa: B023
                from mc.rng import nth_arrangement
                runs = []
                for c in o.script[:n_init]:
                    p = nth_arrangement(n, n, c) if n <= 4 else None
                    if p is None:
                        break
                    C, lab, it, clean = lloyd(X, unit(X[list(p)[:K]]))
                    runs.append((0.5 * (1 - (unit(X) * unit(C)[lab]).sum(1)).sum(), clean))
                if len(runs) == n_init and all(c for _, c in runs):
                    r.check(same(km.inertia_, min(v for v, _ in runs), 1e-4), "kmeans-best-start", lambda: f"{ctx()}: inertia {km.inertia_}, the starts reach {runs}")  # noqa: B023
                    seen.append(km.inertia_)
            r.state(sc["pts"], K, n_init, len(seen))
        for seed in (0, 3):
            r.step()
            st = torch.get_rng_state()
            a = SphericalKMeans(n_clusters=K, random_state=seed, n_init=2).fit(Xt)
            r.check(torch.equal(st, torch.get_rng_state()), "global-generator", lambda: f"{sc} K={K}")  # noqa: B023
            torch.rand(3)
            b = SphericalKMeans(n_clusters=K, random_state=seed, n_init=2).fit(Xt)
            r.check(same(a.cluster_centers_, b.cluster_centers_), "kmeans-seed", lambda: f"{sc} K={K} seed {seed}: two fits differ")  # noqa: B023
    z = SphericalKMeans(n_clusters=1, initial_centroids=torch.ones(1, 2)).fit(torch.cat([Xt, torch.zeros(1, 2)]))
    r.check(bool(torch.isfinite(z.cluster_centers_).all()), "kmeans-zero-sample", lambda: f"{sc}: {z.cluster_centers_}")
    _, e = raises(lambda: SphericalKMeans().predict(Xt))
    r.check(e is not None, "kmeans-unfitted", "predict before fit succeeds")
    r.trace()
    r.outcome(n)


class Spy(Callback):
    def __init__(self, out=None):
        self.out = out if out is not None else []

    def on_epoch_begin(self, net, dataset_train=None, **k):
        self.out.append((net.criterion_.adapt_criterion.target_kmeans, [p.detach().numpy().astype(float).copy() for p in net.module_.base_module_.parameters()]))


def run_centroids(sc, r):
    lab = np.array(sc["lab"])
    K = len(set(sc["lab"]))
    if K < 2 or set(sc["lab"]) != set(range(K)):
        return r.state("skip", sc["lab"])
    Xs = np.array([[2.0, 0.5], [0.5, 2.0], [-1.0, 0.25], [0.25, -1.5]], np.float32)
    Xt = np.array([[1.0, 0.25], [0.5, 1.0], [-2.0, -0.75]], np.float32)
    for dom, order in itertools.product(((1, -1), (0, -2)), (0, 1)):
        X, y, d = np.concatenate([Xs, Xt]), np.concatenate([lab, [-1, -1, -1]]), np.array([dom[0]] * 4 + [dom[1]] * 3)
        if order:
            p = np.array([4, 0, 5, 1, 2, 6, 3])
            X, y, d = X[p], y[p], d[p]
        spy = Spy()
        net = CAN(Feat(3), "enc", class_threshold=1, train_split=None, verbose=0, max_epochs=2, batch_size=2, lr=0.1)
        net.set_params(callbacks=list(net.callbacks) + [spy])
        torch.manual_seed(0)
        r.step()
        _, e = raises(lambda: net.fit(X, y, d))  # noqa: B023
        ctx = lambda: f"{sc} domains {dom} order {order}"  # noqa: E731, B023
        if not r.check(e is None and len(dict(net.callbacks_)) > 0, "centroids", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
            return
        out = [cb for _, cb in net.callbacks_ if isinstance(cb, Spy)][0].out
        r.check(len(out) == 2, "centroids-every-epoch", lambda: f"{ctx()}: {len(out)}")  # noqa: B023
        for ep, (km, (W, H, b)) in enumerate(out):
            Fs, Ft = Xs.astype(float) @ W.T, Xt.astype(float) @ W.T
            C0 = np.stack([unit(Fs[lab == c]).sum(0) for c in range(K)])
            r.check(km is not None and same(km.initial_centroids, C0, 1e-4), "centroids-initial", lambda: f"{ctx()} epoch {ep}: {km.initial_centroids} class sums {C0}")  # noqa: B023
            C, tl, it, clean = lloyd(Ft, C0)
            U = unit(Ft)
            if clean:
                r.check(same(unit(km.cluster_centers_.numpy().astype(float)), unit(C), 1e-3), "centroids-refined", lambda: f"{ctx()} epoch {ep}: {km.cluster_centers_.tolist()} reference {C.tolist()}")  # noqa: B023
                r.check(same(km.predict(torch.tensor(Ft, dtype=torch.float32)), tl), "centroids-labels", lambda: f"{ctx()} epoch {ep}")  # noqa: B023
            r.state(sc["lab"], dom, order, ep, clean, U.round(4))
    r.trace()
    r.outcome(K)


def run_epochs(sc, r):
    net = SPA(Feat(), "enc", num_features=2, train_split=None, verbose=0, max_epochs=4, batch_size=3, lr=0.01)
    X = np.concatenate([XS, XS + 1, XT, XT + 0.5])
    d = np.array([1] * 4 + [-1] * 6)
    y = np.array([0, 1, 0, 1] + [-1] * 6)
    for k, n in enumerate(sc["hist"]):
        net.set_params(max_epochs=n)
        loss = net.get_params()["criterion__adapt_criterion"]
        seen = []
        inner = type(loss).forward

        def spy(**kw):
            seen.append((loss.n_epochs, loss.training, net.module_.training))  # noqa: B023
            v = inner(loss, **kw)  # noqa: B023
            r.check(bool(torch.isfinite(v)), "finite", lambda: f"{sc} fit {k}: {v}")  # noqa: B023
            return v
        loss.forward = spy
        r.step()
        _, e = raises(lambda: net.fit(X, y, d))  # noqa: B023
        ctx = lambda: f"{sc} fit {k} of {n} epochs"  # noqa: E731, B023
        if not r.check(e is None, "training", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
            return
        r.check([v[0] for v in seen] == [i for i in range(1, n + 1) for _ in range(2)], "epoch-count", lambda: f"{ctx()}: epochs seen by the loss {[v[0] for v in seen]}")  # noqa: B023
        r.check(all(v[2] for v in seen), "training-mode", lambda: f"{ctx()}: {seen}")  # noqa: B023
        r.check(len(net.history) == n, "history", lambda: f"{ctx()}: {len(net.history)}")  # noqa: B023
        r.check(tuple(loss.memory_features.shape) == (6, 2), "memory-size", lambda: f"{ctx()}: {loss.memory_features.shape}")  # noqa: B023
        r.state(sc["hist"], k, seen)
    r.trace()
    r.outcome(sum(sc["hist"]))


class Count(Callback):
    def __init__(self, n=0):
        self.n = n

    def on_epoch_end(self, net, **k):
        self.n += 1


def run_lists(sc, r):
    for name, f, want in (("CAN", lambda cb: CAN(Feat(), "enc", class_threshold=1, callbacks=cb, train_split=None, verbose=0, max_epochs=2, batch_size=2), [ComputeSourceCentroids]),
                          ("SPA", lambda cb: SPA(Feat(), "enc", num_features=2, callbacks=cb, train_split=None, verbose=0, max_epochs=2, batch_size=2), [MemoryBank, CountEpochs])):
        mine = Count()
        cb = {"none": None, "list": [mine], "one": mine, "named": [("mine", mine), EpochScoring("accuracy", on_train=False)][:1], "empty": []}[sc["kind"]]
        before = list(cb) if isinstance(cb, list) else cb
        nets = [f(cb), f(cb)]
        ctx = lambda: f"{name} {sc}"  # noqa: E731, B023
        for net in nets:
            r.step()
            r.check((list(cb) if isinstance(cb, list) else cb) == before, "callbacks-unchanged", lambda: f"{ctx()}: the given list is now {cb}")  # noqa: B023
            X = np.concatenate([XS, XS + 1, XT, XT + 0.5])
            _, e = raises(lambda: net.fit(X, np.array([0, 1, 0, 1] + [-1] * 6), np.array([1] * 4 + [-1] * 6)))  # noqa: B023
            if not r.check(e is None, "training", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
                return
            for cls in want:
                r.check(sum(isinstance(c, cls) for _, c in net.callbacks_) == 1, "callbacks-present", lambda: f"{ctx()}: {[n for n, _ in net.callbacks_]}")  # noqa: B023
            if sc["kind"] in ("list", "one", "named"):
                r.check(sum(isinstance(c, Count) for _, c in net.callbacks_) == 1, "callbacks-present", lambda: f"{ctx()}: {[n for n, _ in net.callbacks_]}")  # noqa: B023
        if sc["kind"] in ("list", "one", "named"):
            r.check(mine.n == 4, "callbacks-called", lambda: f"{ctx()}: called {mine.n} times in 4 epochs")  # noqa: B023
        r.state(name, sc["kind"])
    r.trace()
    r.outcome(sc["kind"])


def run(sc, r):
    globals()["run_" + sc["what"].replace("-", "_")](sc, r)
