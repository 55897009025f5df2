import copy
import itertools
import pickle
import warnings

import numpy as np
import pandas as pd
import torch
from skorch.callbacks import Callback
from skorch.dataset import Dataset
from sklearn.base import clone

from mc.util import raises, same
from skada.deep import CAN, CDAN, DAN, DANN, MCC, MDD, SPA, DeepCoral, DeepJDOT
from skada.deep import SourceOnly, TargetOnly
from skada.deep.base import BaseDALoss, DeepDADataset, DomainAwareCriterion, DomainAwareModule, DomainAwareNet, DomainBalancedDataLoader

torch.set_num_threads(1)
warnings.filterwarnings("ignore")

ID = "P24"
TECHNIQUE = ("exhaustive enumeration of domain layouts, target labellings, options, representations and short operation histories executed on the real deep nets; every training step is replayed by an explicit "
             "gradient-descent reference and every call of the adaptation loss is monitored for row routing")
LEVEL = "model_checking"
NOTE = "Random orders follow a fixed torch seed here (P23 enumerates the loaders' orders); the reference uses the batches the net really drew. With sample weights only the supervised part is specified."
ASSUMPTIONS = ["CPU, float32, one thread", "networks are one linear layer for the training reference and a two-layer net for the shipped methods"]


def BOUNDS(tier):
    return ("criterion: all layouts of %d rows over 4 domain labels; training reference: all layouts of 6 rows with 2+2, weights on/off, source/target supervision; every target labelling of 4 rows for all 11 methods; "
            "prediction: all layouts up to %d rows x representations; histories up to depth %d" % ((4, 4, 3) if tier == "quick" else (5, 5, 4)))


DOM = (2, 0, -1, -3)
METHODS = ("source", "target", "coral", "dan", "can", "dann", "cdan", "cdanr", "mdd", "jdot", "mcc", "spa")
OPS = ("fit", "clone", "deepcopy", "pickle", "predict", "refit-other")


def scenarios(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 5 if q else 6):
        for lay in itertools.product(DOM, repeat=n):
            out.append({"what": "criterion", "lay": lay})
    for lay in itertools.product((0, 1), repeat=6 if q else 8):
        if 2 <= sum(lay) <= len(lay) - 2:
            for bs in (1, 2):
                out.append({"what": "train", "lay": lay, "bs": bs})
    for m in METHODS:
        for v in range(0, 81, 9):
            out.append({"what": "labels", "method": m, "from": v, "to": v + 9})
        out.append({"what": "route", "method": m})
    for n in range(1, 5 if q else 6):
        for lay in itertools.product((1, 0, -1), repeat=n):
            out.append({"what": "predict", "lay": lay})
    for depth in range(1, 4 if q else 5):
        for ops in itertools.product(OPS, repeat=depth):
            out.append({"what": "history", "ops": ops, "quiet": False})
            if depth > 1:
                out.append({"what": "history", "ops": ops, "quiet": True})
    return out


class Linear(torch.nn.Module):
    """logits = W x + b, with an identity layer to collect features from; accepts no sample weight when plain."""

    def __init__(self, W, b):
        super().__init__()
        W = torch.as_tensor(np.asarray(W, np.float32))
        self.feat = torch.nn.Identity()
        self.lin = torch.nn.Linear(W.shape[1], W.shape[0])
        with torch.no_grad():
            self.lin.weight.copy_(W)
            self.lin.bias.copy_(torch.as_tensor(np.asarray(b, np.float32)))

    def forward(self, X):
        return self.lin(self.feat(X))


class LinearW(Linear):
    def forward(self, X, sample_weight=None):
        return super().forward(X)


class Record(BaseDALoss):
    def __init__(self, coef=0.0):
        super().__init__()
        self.calls, self.coef = [], coef

    def forward(self, **k):
        self.calls.append({n: None if v is None else v.detach().clone() for n, v in k.items()})
        return torch.tensor(self.coef) if not k or k.get("features_s") is None else self.coef * (k["y_pred_s"].sum() - 2 * k["y_pred_t"].sum())


def softmax(z):
    z = z - z.max(1, keepdims=True)
    e = np.exp(z)
    return e / e.sum(1, keepdims=True)


# ---------------------------------------------------------------- criterion
def run_criterion(sc, r):
    d = torch.tensor(sc["lay"])
    n = len(d)
    S, T = np.flatnonzero(np.array(sc["lay"]) >= 0), np.flatnonzero(np.array(sc["lay"]) < 0)
    yp = torch.tensor([[i * 0.5, 1.0 - i, 0.25 * i * i] for i in range(n)])
    y = torch.tensor([(i + 1) % 3 for i in range(n)])
    dp = torch.arange(n) * 1.5 + 1
    ft = torch.arange(2 * n).reshape(n, 2).float()
    ix = torch.arange(n) + 10
    logp = np.log(softmax(yp.numpy().astype(float)))
    for tot, has, reg, red in itertools.product((False, True), range(8), (0, 0.5, 2), ("mean", "sum", "none")):
        a, b, c = (dp if has & 1 else None), (ft if has & 2 else None), (ix if has & 4 else None)

        class Const(Record):
            def forward(self, **k):
                super().forward(**k)
                return 3.0
        rec = Const()
        base = torch.nn.CrossEntropyLoss()
        crit = DomainAwareCriterion(base, rec, reg=reg, reduction=red, train_on_target=tot)
        r.step()
        r.check(base.reduction == red, "reduction", lambda: f"{sc} {red}: {base.reduction}")  # noqa: B023
        loss, e = raises(lambda: crit((yp, a, b, d, c), y))  # noqa: B023
        rows = T if tot else S
        ctx = lambda: f"{sc} train_on_target={tot} has={has} reg={reg} reduction={red}"  # noqa: E731, B023
        if len(rows) == 0 and e is not None:
            continue
        if not r.check(e is None and len(rec.calls) == 1, "criterion", lambda: f"{ctx()}: {e!r}"):
            return
        v = -logp[rows, y.numpy()[rows]]
        want = v + 3 * reg if red == "none" else (v.mean() if red == "mean" and len(v) else v.sum()) + 3 * reg
        if len(rows):
            r.check(same(loss.numpy(), want, 1e-5), "supervised-rows", lambda: f"{ctx()}: loss {loss} want {want}")  # noqa: B023
        k = rec.calls[0]
        for name, full in (("y_pred", yp), ("domain_pred", a), ("features", b), ("sample_idx", c)):
            for side, ids in (("s", S), ("t", T)):
                got = k.get(f"{name}_{side}")
                ok = got is None if full is None else (got is not None and same(got, full[ids]))
                r.check(ok, "routing", lambda: f"{ctx()}: {name}_{side} = {got} rows {ids}")  # noqa: B023
        r.check(same(k["y_s"], y[S]), "routing", lambda: f"{ctx()}: y_s {k['y_s']}")  # noqa: B023
        r.state(sc["lay"], tot, has, reg, red)
    r.trace()
    r.outcome(len(S), len(T))


# ---------------------------------------------------------------- training reference
class Batches(Callback):
    def __init__(self, b=None):
        self.b = [] if b is None else b

    def on_batch_begin(self, net, batch=None, training=False, **k):
        X, y = batch
        self.b.append(({n: np.asarray(v).copy() for n, v in X.items()}, np.asarray(y).copy()))


W0 = np.array([[0.5, -0.25], [0.0, 0.75], [-0.5, 0.25]])
B0 = np.array([0.1, 0.0, -0.2])
LR = 0.25


def reference(batches, weights, tot, coef, reg):
    W, b = W0.copy(), B0.copy()
    for X, y in batches:
        x, d = X["X"].astype(float), X["sample_domain"]
        sup = d < 0 if tot else d >= 0
        P = softmax(x @ W.T + b)
        G = np.zeros_like(P)
        ids = np.flatnonzero(sup)
        for i in ids:
            g = P[i].copy()
            g[int(y[i])] -= 1
            G[i] = g * (X["sample_weight"][i] if weights else 1.0) / len(ids)
        # adaptation term coef * (sum of source logits - 2 * sum of target logits)
        G += (reg * coef * np.where(d >= 0, 1.0, -2.0))[:, None]
        W, b = W - LR * G.T @ x, b - LR * G.sum(0)
    return W, b


def run_train(sc, r):
    lay = sc["lay"]
    n = len(lay)
    d = np.array([(0, 3)[i % 2] if v else (-1, -2)[i % 2] for i, v in enumerate(lay)])
    X = np.array([[i - 2.0, (i * i) % 5 * 0.5] for i in range(n)], np.float32)
    y = np.arange(n) % 3
    w = (np.arange(n) + 1) * 0.25
    for kind in ("source", "target", "adapt"):
        for weights in (False, True) if kind != "adapt" else (False,):
            cb = Batches()
            rec = Record(0.125 if kind == "adapt" else 0.0)
            mod = (LinearW if weights else Linear)(W0, B0)
            args = dict(batch_size=sc["bs"], train_split=None, callbacks=[cb], max_epochs=2, lr=LR, verbose=0, optimizer=torch.optim.SGD)
            if weights:
                args["criterion__reduction"] = "none"
            if kind == "source":
                net = SourceOnly(mod, "feat", **args)
            elif kind == "target":
                net = TargetOnly(mod, "feat", **args)
            else:
                net = DomainAwareNet(DomainAwareModule, module__base_module=mod, module__layer_name="feat", iterator_train=DomainBalancedDataLoader, criterion=DomainAwareCriterion,
                                     criterion__base_criterion=torch.nn.CrossEntropyLoss(), criterion__adapt_criterion=rec, criterion__reg=0.5, **args)
            torch.manual_seed(0)
            r.step()
            _, e = raises(lambda: net.fit(X, y, d, w.astype(np.float32) if weights else None))  # noqa: B023
            ctx = lambda: f"{sc} {kind} weights={weights}"  # noqa: E731, B023
            if not r.check(e is None, "training", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
                return
            for bx, by in cb.b:
                ids = [int(np.flatnonzero((X == row).all(1))[0]) for row in bx["X"]]
                ok = same(by, y[ids]) and same(bx["sample_domain"], d[ids]) and (not weights or same(bx["sample_weight"], w[ids], 1e-6))
                r.check(ok, "batch-rows", lambda: f"{ctx()}: {bx} {by}")  # noqa: B023
                keep = {"source": d[ids] >= 0, "target": d[ids] < 0, "adapt": np.ones(len(ids), bool)}[kind]
                r.check(bool(keep.all()), "batch-domain", lambda: f"{ctx()}: {bx}")  # noqa: B023
            Wr, br = reference(cb.b, weights, kind == "target", rec.coef, 0.5)
            got = net.module_.base_module_.lin
            r.check(same(got.weight.detach(), Wr, 1e-4) and same(got.bias.detach(), br, 1e-4), "training-step",
                    lambda: f"{ctx()}: after {len(cb.b)} steps weight {got.weight.tolist()}, gradient descent gives {Wr.tolist()}")  # noqa: B023
            r.state(sc, kind, weights, Wr.round(5))
    r.trace()
    r.outcome(sum(lay), sc["bs"])


# ---------------------------------------------------------------- shipped methods
class Net2(torch.nn.Module):
    def __init__(self, k=2):
        super().__init__()
        self.enc = torch.nn.Linear(2, 3)
        self.head = torch.nn.Linear(3, k)

    def forward(self, X):
        return self.head(torch.tanh(self.enc(X)))


def build(m, seed=0, **kw):
    torch.manual_seed(seed)
    mod = Net2()
    a = dict(batch_size=4, train_split=None, max_epochs=2, lr=0.1, verbose=0)
    a.update(kw)
    return {"source": lambda: SourceOnly(mod, "enc", **a), "target": lambda: TargetOnly(mod, "enc", **a), "coral": lambda: DeepCoral(mod, "enc", **a),
            "dan": lambda: DAN(mod, "enc", **a), "can": lambda: CAN(mod, "enc", class_threshold=1, **a), "dann": lambda: DANN(mod, "enc", num_features=3, **a),
            "cdan": lambda: CDAN(mod, "enc", num_features=3, n_classes=2, **a), "cdanr": lambda: CDAN(mod, "enc", num_features=3, n_classes=2, max_features=4, **a),
            "mdd": lambda: MDD(mod, "enc", num_features=3, n_classes=2, **a), "jdot": lambda: DeepJDOT(mod, "enc", **a), "mcc": lambda: MCC(mod, "enc", **a),
            "spa": lambda: SPA(mod, "enc", num_features=3, **a | {"max_epochs": a["max_epochs"]})}[m]()


XS = np.array([[0, 0], [1, 0.5], [2, -1], [0.5, 2], [-1, 1], [1.5, 1.5], [-2, 0], [0, -1.5]], np.float32)
YS = np.array([0, 1, 1, 0, 0, 1, 0, 1])
XT = np.array([[3, 1], [2, 2.5], [4, 0], [2.5, 3], [1, 2], [3.5, 2]], np.float32)


def params(net):
    return np.concatenate([p.detach().numpy().ravel() for p in net.module_.parameters()])


def run_labels(sc, r):
    """Target labels never influence training (source labels never influence target-only training)."""
    m = sc["method"]
    X = np.concatenate([XS[:4], XT[:2], XS[4:], XT[2:]])
    d = np.array([1] * 4 + [-2] * 2 + [1] * 4 + [-2] * 4)
    ys = np.concatenate([YS[:4], [9, 9], YS[4:], [9] * 4])
    labelled = d < 0 if m == "target" else d >= 0
    hidden = np.flatnonzero(~labelled)
    y = ys.copy()
    if m == "target":
        y[labelled] = [0, 1, 1, 0, 1, 0]
    ref = None
    combos = list(itertools.product((-1, 0, 1), repeat=4))
    for lab in [(-1, -1, -1, -1)] + combos[sc["from"]:sc["to"]]:
        yy = y.copy()
        yy[hidden] = [lab[i % 4] for i in range(len(hidden))]
        if m == "target":  # source labels cannot be masked; they are simply unused
            yy[hidden] = np.abs(yy[hidden])
        net = build(m)
        torch.manual_seed(7)
        r.step()
        _, e = raises(lambda: net.fit(X, yy, d))  # noqa: B023
        if not r.check(e is None, "training", lambda: f"{m} hidden labels {lab}: {e!r}"):  # noqa: B023
            return
        p = params(net)
        r.check(bool(np.isfinite(p).all()), "finite", lambda: f"{m} {lab}: {p}")  # noqa: B023
        if ref is None:
            ref = p
            other = build(m)
            torch.manual_seed(7)
            y2 = yy.copy()
            y2[np.flatnonzero(labelled)] = 1 - y2[np.flatnonzero(labelled)]
            _, e = raises(lambda: other.fit(X, y2, d))  # noqa: B023
            r.check(e is None and not same(params(other), ref), "labels-used", lambda: f"{m}: swapping the supervised labels changes nothing {e!r}")  # noqa: B023
        r.check(same(p, ref), "hidden-labels-unused", lambda: f"{m}: hidden labels {lab} change the trained network by {np.abs(p - ref).max()}")  # noqa: B023
        r.state(m, lab)
    r.trace()
    r.outcome(m, True)


def run_route(sc, r):
    """Every call of the shipped adaptation loss receives its own rows, labels and sample numbers."""
    m = sc["method"]
    X = np.concatenate([XS[:3], XT[:3], XS[3:], XT[3:]])
    for sd, td in itertools.product(((1, 1), (0, 0), (0, 2)), ((-1, -1), (-2, -3))):
        d = np.array([sd[0]] * 3 + [td[0]] * 3 + [sd[1]] * 5 + [td[1]] * 3)
        if m == "spa" and td[0] != td[1]:
            continue
        y = np.concatenate([YS[:3], [-1] * 3, YS[3:], [-1] * 3])
        if m == "target":
            y[y < 0] = [0, 1, 1, 0, 1, 0]
        num = np.array([int((d[:i] == d[i]).sum()) for i in range(len(d))])
        net = build(m)
        net.initialize()
        loss = net.criterion_.adapt_criterion
        calls = []
        inner = loss.forward

        def spy(**k):
            calls.append(({n: None if v is None else v.detach().numpy().copy() for n, v in k.items()}, [p.detach().numpy().copy() for p in net.module_.base_module_.parameters()]))  # noqa: B023
            return inner(**k)  # noqa: B023
        loss.forward = spy
        torch.manual_seed(3)
        r.step()
        _, e = raises(lambda: net.partial_fit(DeepDADataset(X, y, d), None, is_fit=True))  # noqa: B023
        ctx = lambda: f"{m} sources {sd} targets {td}"  # noqa: E731, B023
        if not r.check(e is None and len(calls) > 0, "training", lambda: f"{ctx()}: {e!r}, {len(calls)} losses"):  # noqa: B023
            return
        for k, (w1, b1, w2, b2) in calls:
            feat = X.astype(float) @ w1.T + b1
            out = np.tanh(feat) @ w2.T + b2
            for side in "st":
                f, o, ix = k[f"features_{side}"], k[f"y_pred_{side}"], k[f"sample_idx_{side}"]
                pool = np.flatnonzero((d >= 0) == (side == "s"))
                ids = []
                for row in f:
                    near = pool[np.argmin(np.abs(feat[pool] - row).sum(1))]
                    ids.append(near)
                    r.check(same(feat[near], row, 1e-4), "features", lambda: f"{ctx()}: features_{side} {row} belong to no row of that side")  # noqa: B023
                r.check(len(f) == len(o) == len(ix), "alignment", lambda: f"{ctx()}: {side} lengths {len(f)} {len(o)} {len(ix)}")  # noqa: B023
                r.check(same(o, out[ids], 1e-4) and same(ix, num[ids]), "alignment", lambda: f"{ctx()}: {side} rows {ids}: outputs {o} numbers {ix}, want {out[ids]} {num[ids]}")  # noqa: B023
                if side == "s":
                    r.check(same(k["y_s"], y[ids]), "alignment", lambda: f"{ctx()}: y_s {k['y_s']} want {y[ids]}")  # noqa: B023
                dp = k.get(f"domain_pred_{side}")
                if m in ("dann", "cdan", "cdanr", "mdd", "spa"):
                    r.check(dp is not None and len(dp) == len(f), "domain-predictions", lambda: f"{ctx()}: {dp}")  # noqa: B023
            r.state(m, sd, td, len(calls))
        want = {"source": 2, "target": 1}.get(m, 2)
        r.check(len(calls) == 2 * want, "steps", lambda: f"{ctx()}: {len(calls)} steps")  # noqa: B023
    r.trace()
    r.outcome(m)


# ---------------------------------------------------------------- prediction
def representations(X, y, d):
    f = X.astype(np.float32)
    yield "arrays", (f, y, d)
    yield "tensors", (torch.tensor(f), torch.tensor(y), torch.tensor(d))
    yield "dict", ({"X": f, "sample_domain": d}, y, None)
    yield "dict-y", ({"X": f, "y": y, "sample_domain": d}, None, None)
    yield "dataset", (DeepDADataset(f, y, d), y, None)
    yield "dataset-y", (DeepDADataset(f, y, d), None, None)
    yield "skorch", (Dataset({"X": f, "sample_domain": d}, y), y, None)
    yield "frame", (pd.DataFrame({"X": list(f), "sample_domain": d}), y, None)


def run_predict(sc, r):
    lay = np.array(sc["lay"])
    n = len(lay)
    X = np.array([[(i * 3) % 5 - 2.0, (i * 2) % 5 - 1.5] for i in range(n)])
    y = (np.arange(n) * 2 + 1) % 3
    w = np.arange(n) + 1.0
    net = SourceOnly(Linear(W0 * 3, B0), "feat", train_split=None, max_epochs=0, verbose=0, batch_size=2)
    net.fit(np.concatenate([X, X]).astype(np.float32), np.concatenate([y, y]), np.array([1] * n + [-2] * n))
    raw = SourceOnly(Linear(W0 * 3, B0), "feat", train_split=None, max_epochs=0, verbose=0, batch_size=2, predict_nonlinearity=None)
    raw.fit(np.concatenate([X, X]).astype(np.float32), np.concatenate([y, y]), np.array([1] * n + [-2] * n))
    weighted = SourceOnly(LinearW(W0 * 3, B0), "feat", train_split=None, max_epochs=0, verbose=0, batch_size=2)
    weighted.initialize()
    logits = X @ (W0 * 3).T + B0
    for (name, (a, b, c)), src in itertools.product(representations(X, y, lay), (False, True)):
        rows = np.arange(n) if src else np.flatnonzero(lay < 0)
        ctx = lambda: f"{sc} {name} allow_source={src}"  # noqa: E731, B023
        r.step()
        P, e = raises(lambda: net.predict_proba(a, c, allow_source=src))  # noqa: B023
        if len(rows) == 0:
            r.check(e is not None or len(P) == 0, "nothing-to-predict", lambda: f"{ctx()}: {P}")  # noqa: B023
            continue
        if not r.check(e is None, "predict_proba", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
            return
        want = softmax(logits[rows])
        r.check(same(P, want, 1e-5), "predict_proba", lambda: f"{ctx()}: {P.tolist()} want {want.tolist()}")  # noqa: B023
        p, e = raises(lambda: net.predict(a, c, allow_source=src))  # noqa: B023
        r.check(e is None and same(p, want.argmax(1)), "predict", lambda: f"{ctx()}: {p} {e!r}")  # noqa: B023
        z, e = raises(lambda: raw.predict_proba(a, c, allow_source=src))  # noqa: B023
        r.check(e is None and same(z, logits[rows], 1e-5), "predict_nonlinearity", lambda: f"{ctx()}: {z} {e!r}")  # noqa: B023
        hit = want.argmax(1) == y[rows]
        s, e = raises(lambda: net.score(a, b, c, allow_source=src))  # noqa: B023
        r.check(e is None and same(s, hit.mean(), 1e-9), "score", lambda: f"{ctx()}: score {s} {e!r} want {hit.mean()}")  # noqa: B023
        if name == "arrays":
            s, e = raises(lambda: weighted.score(a, b, c, sample_weight=w, allow_source=src))  # noqa: B023
            r.check(e is None and same(s, (hit * w[rows]).sum() / w[rows].sum(), 1e-9), "weighted-score", lambda: f"{ctx()}: score {s} {e!r}")  # noqa: B023
            s, e = raises(lambda: net.score(a[rows], b[rows], c[rows], allow_source=src))  # noqa: B023
            r.check(e is None and same(s, hit.mean(), 1e-9), "score", lambda: f"{ctx()} rows only: score {s} {e!r}")  # noqa: B023
        if c is None:
            F, e = raises(lambda: net.predict_features(a))  # noqa: B023
            r.check(e is None and same(F, X, 1e-6), "predict_features", lambda: f"{ctx()}: {F} {e!r}")  # noqa: B023
        r.state(sc["lay"], name, src)
    F, e = raises(lambda: net.predict_features(X.astype(np.float32)))
    r.check(e is None and same(F, X, 1e-6), "predict_features", lambda: f"{sc}: {F} {e!r}")
    if n:
        for rep in (X.astype(np.float32), {"X": X.astype(np.float32)}):  # no domain: everything is a source
            r.step()
            P, e = raises(lambda: net.predict_proba(rep, allow_source=True))  # noqa: B023
            r.check(e is None and same(P, softmax(logits), 1e-5), "default-domain", lambda: f"{sc}: {P} {e!r}")  # noqa: B023
    r.trace()
    r.outcome((lay < 0).sum() > 0)


# ---------------------------------------------------------------- histories
def run_history(sc, r):
    """After any history the predictions are those of the network trained by the operations so far."""
    dS = np.array([1] * 4 + [-2] * 4)
    A = (np.concatenate([XS[:4], XT[:4]]), np.array([0, 1, 1, 0, -1, -1, -1, -1]), dS)
    Bd = (np.concatenate([XS[4:], XT[2:]]), np.array([0, 1, 0, 1, -1, -1, -1, -1]), dS)
    args = dict(batch_size=2, train_split=None, max_epochs=1, lr=LR, verbose=0, optimizer=torch.optim.SGD, callbacks=[("batches", Batches())])
    net = SourceOnly(Linear(W0[:2], B0[:2]), "feat", **args)
    Wm, bm = W0[:2].copy(), B0[:2].copy()
    fitted = False
    torch.manual_seed(1)
    for i, op in enumerate(sc["ops"]):
        ctx = lambda: f"{sc['ops'][:i + 1]}"  # noqa: E731, B023
        r.step()
        if op in ("fit", "refit-other"):
            cb = dict(net.callbacks)["batches"]
            cb.b.clear()
            _, e = raises(lambda: net.fit(*(A if op == "fit" else Bd)))  # noqa: B023
            if not r.check(e is None, "fit", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
                return
            for X, y in cb.b:
                x = X["X"].astype(float)
                G = softmax(x @ Wm.T + bm)
                G[np.arange(len(y)), y] -= 1
                G /= len(y)
                Wm, bm = Wm - LR * G.T @ x, bm - LR * G.sum(0)
            r.check(len(cb.b) == 2, "batches", lambda: f"{ctx()}: {len(cb.b)} batches")  # noqa: B023
            fitted = True
        elif op == "clone":
            net2, e = raises(lambda: clone(net))  # noqa: B023
            if not r.check(e is None, "clone", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
                return
            net, fitted = net2, False
        elif op == "deepcopy":
            net, e = raises(lambda: copy.deepcopy(net))  # noqa: B023
            if not r.check(e is None, "deepcopy", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
                return
        elif op == "pickle":
            net, e = raises(lambda: pickle.loads(pickle.dumps(net)))  # noqa: B023
            if not r.check(e is None, "pickle", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
                return
        if sc["quiet"] and op != "predict" and i < len(sc["ops"]) - 1:
            continue
        P, e = raises(lambda: net.predict_proba(A[0], A[2]))  # noqa: B023
        if not fitted:
            r.check(e is not None, "unfitted", lambda: f"{ctx()}: an untrained net predicts {P}")  # noqa: B023
        else:
            want = softmax(A[0][4:].astype(float) @ Wm.T + bm)
            r.check(e is None and same(P, want, 1e-4), "history", lambda: f"{ctx()}: probabilities {P} {e!r}, want {want.tolist()}")  # noqa: B023
            F, e = raises(lambda: net.predict_features(A[0]))  # noqa: B023
            r.check(e is None and same(F, A[0], 1e-6), "history-features", lambda: f"{ctx()}: {F} {e!r}")  # noqa: B023
        r.state(sc["ops"], i, Wm.round(5), fitted)
    r.trace()
    r.outcome(fitted)


def run(sc, r):
    globals()["run_" + sc["what"]](sc, r)
