import copy
import itertools
import pickle

import numpy as np
import torch
from sklearn.base import clone

from mc.util import raises, same
from skada.deep import DANN, DeepCoral
from skada.deep.base import DomainAwareModule
from skada.deep.modules import DomainClassifier, GradientReversalLayer, MNISTtoUSPSNet, ToyCNN, ToyModule2D

ID = "P33"
TECHNIQUE = ("exhaustive exploration of call histories over a module and its clones, copies and pickles for every layer of every network in an alphabet, plus every size "
             "setting of the shipped networks, executed on the real modules; each answer is compared with an independent forward pass of the base network")
LEVEL = "model_checking"
NOTE = "Weights and inputs are fixed generic numbers; all layer names, call histories and size settings within the bounds are visited."
ASSUMPTIONS = ["a layer is called once per forward pass and returns one tensor", "CPU, single thread"]
torch.set_num_threads(1)


def BOUNDS(tier):
    d, s = (3, 5) if tier == "quick" else (4, 8)
    return ("histories of %d calls over 4 holders (module, clone, deep copy, pickle) x 3 call kinds x 2 modes (strided), %d networks x every layer; ToyCNN: 1-2 channels, inputs and "
            "kernels up to %d, 1-2 filters, 1-3 classes; batches of 1-3 rows" % (d, len(NETS), s))


class Nested(torch.nn.Module):
    """layers inside layers, one of them with a 3-dimensional output."""

    def __init__(self):
        super().__init__()
        self.body = torch.nn.ModuleDict({"enc": torch.nn.Sequential(torch.nn.Linear(3, 4), torch.nn.Tanh()), "shape": torch.nn.Unflatten(1, (2, 2))})
        self.head = torch.nn.Sequential(torch.nn.Flatten(), torch.nn.Dropout(0.5), torch.nn.Linear(4, 2))

    def forward(self, X, sample_weight=None):
        return self.head(self.body["shape"](self.body["enc"](X)))


class Twin(torch.nn.Module):
    """layer names that are prefixes of each other and same-shaped neighbours."""

    def __init__(self):
        super().__init__()
        self.fc = torch.nn.Linear(3, 2)
        self.fc1 = torch.nn.Linear(2, 2)
        self.fc10 = torch.nn.Linear(2, 2)

    def forward(self, X, sample_weight=None):
        return self.fc10(torch.relu(self.fc1(torch.sigmoid(self.fc(X)))))


NETS = {
    "toy": (lambda: ToyModule2D(n_classes=3, num_features=4), (2,)),
    "toy-proba": (lambda: ToyModule2D(n_classes=2, num_features=3, nonlin=torch.nn.Tanh(), proba=True), (2,)),
    "cnn": (lambda: ToyCNN(n_channels=2, input_size=5, n_classes=2, kernel_size=3, out_channels=3), (2, 5)),
    "nested": (Nested, (3,)),
    "twin": (Twin, (3,)),
}
KINDS = ["plain", "features", "fit"]
WHO = ["module", "clone", "deepcopy", "pickle"]


def layers(net):
    return [n for n, m in net.named_modules() if n and not isinstance(m, torch.nn.ModuleDict)]


def scenarios(tier):
    out = []
    for net in NETS:
        for lay in layers(NETS[net][0]()):
            if net != "toy-proba" and lay == "softmax":
                continue  # never called
            for i in range(len(WHO) * len(KINDS)):
                out.append({"what": "hist", "net": net, "layer": lay, "first": i, "depth": 3 if tier == "quick" else 4, "stride": 5 if tier == "quick" else 11})
            out.append({"what": "rows", "net": net, "layer": lay})
    m = 5 if tier == "quick" else 8
    for ch, size in itertools.product((1, 2), range(1, m + 1)):
        out.append({"what": "cnn", "ch": ch, "size": size, "kmax": m})
    for c, f in itertools.product((1, 2, 3), (1, 2, 5)):
        out.append({"what": "toy", "c": c, "f": f})
        out.append({"what": "domain", "c": c, "f": f})
    out.append({"what": "mnist"})
    out.append({"what": "reversal"})
    return out


def generic(net, seed=0):
    """fixed weights and running statistics without any symmetry."""
    g = torch.Generator().manual_seed(100 + seed)
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.randn(p.shape, generator=g) * 0.7 + 0.1)
        for n, b in net.named_buffers():
            if "running" in n:
                b.copy_(torch.rand(b.shape, generator=g) + 0.5)
    return net


def batch(shape, n, k=0):
    return torch.randn((n, *shape), generator=torch.Generator().manual_seed(7 * n + k))


def alone(base, layer):
    """an independent copy of a base network that records what the layer returns."""
    ref = copy.deepcopy(base)
    for m in ref.modules():
        m._forward_hooks.clear()
    got = []
    dict(ref.named_modules())[layer].register_forward_hook(lambda m, i, o: got.append(o))
    return ref, got


def expect(ref, got, X, train, seed):
    ref.train(train)
    got.clear()
    torch.manual_seed(seed)
    with torch.no_grad():
        out = ref(X)
    f = got[-1]
    return out.numpy(), f.reshape(len(X), -1).numpy()


def run_hist(sc, r):
    make, shape = NETS[sc["net"]]
    mod = DomainAwareModule(generic(make()), sc["layer"])
    holders = {"module": mod}
    mod(batch(shape, 2))
    for who, f in (("clone", lambda: clone(mod)), ("deepcopy", lambda: copy.deepcopy(mod)), ("pickle", lambda: pickle.loads(pickle.dumps(mod)))):
        holders[who], e = raises(f)
        r.step()
        if not r.check(e is None, "copy-refused", lambda: f"{sc} {who}: {e!r}"):  # noqa: B023
            return
    refs = {}
    for i, who in enumerate(WHO):
        if i:
            generic(holders[who].base_module_, i)  # every holder gets weights of its own
        refs[who] = alone(holders[who].base_module_, sc["layer"])
    calls = list(itertools.product(WHO, KINDS))
    order = 0
    for rest in itertools.product(range(len(calls)), repeat=sc["depth"] - 1):
        order += 1
        if (order + sc["first"]) % sc["stride"]:
            continue
        for step, c in enumerate((sc["first"], *rest)):
            who, kind = calls[c]
            n, train = 1 + (step + c) % 3, bool((step + order) % 2)
            X = batch(shape, n, step)
            h = holders[who]
            h.train(train)
            out, feat = expect(*refs[who], X, train, order)
            torch.manual_seed(order)
            kw = {"plain": {}, "features": {"return_features": True}, "fit": {"is_fit": True, "sample_domain": torch.arange(n) - 1, "sample_idx": torch.arange(n) + 4}}[kind]
            if kind == "plain" and step % 2:
                kw = {"sample_weight": torch.ones(n)}
            with torch.no_grad():
                got, e = raises(lambda: h(X, **kw))  # noqa: B023
            r.step()
            ctx = lambda: f"{sc['net']}.{sc['layer']} {[calls[x] for x in (sc['first'], *rest)]} step {step}"  # noqa: E731, B023
            if not r.check(e is None, "refused", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
                return
            p = got if kind == "plain" else got[0]
            if not r.check(same(p, out, 1e-6), "prediction", lambda: f"{ctx()}: {p} want {out}"):  # noqa: B023
                return
            if kind == "features":
                f = got[1]
            elif kind == "fit":
                f = got[2]
                r.check(got[1] is None and same(got[3], np.arange(n) - 1) and same(got[4], np.arange(n) + 4), "passed-through", ctx)
            else:
                continue
            if not r.check(tuple(f.shape) == feat.shape and same(f, feat, 1e-6), "layer-output", lambda: f"{ctx()}: {f} want {feat}"):  # noqa: B023
                return
        r.trace()
        r.state(sc["net"], sc["layer"], sc["first"], rest)
    r.outcome(sc["net"], sc["layer"])


def run_rows(sc, r):
    """through the nets: features and predictions are row by row, for every batching."""
    make, shape = NETS[sc["net"]]
    base = generic(make())
    ref, got = alone(base, sc["layer"])
    X = batch(shape, 5).numpy()
    single = [expect(ref, got, torch.from_numpy(X[i:i + 1]), False, 0) for i in range(5)]
    for bs in (1, 2, 3, 5):
        net = DeepCoral(copy.deepcopy(base), sc["layer"], batch_size=bs, train_split=None, predict_nonlinearity=None)
        net.initialize()
        net.module_.base_module_.load_state_dict(base.state_dict())
        for rows in [list(p) for k in (1, 2, 3) for p in itertools.permutations(range(3), k)] + [[4, 4], [0, 1, 2, 3, 4], [4, 3, 2, 1, 0]]:
            want = np.concatenate([single[i][1] for i in rows])
            for form in ({"X": X[rows]}, X[rows]):
                F, e = raises(lambda: net.predict_features(form))  # noqa: B023
                r.step()
                if not r.check(e is None and same(F, want, 1e-5), "net-features", lambda: f"{sc} batch {bs} rows {rows}: {F} want {want} {e!r}"):  # noqa: B023
                    return
            P, e = raises(lambda: net.predict_proba(X[rows], np.full(len(rows), -1)))  # noqa: B023
            want = np.concatenate([single[i][0] for i in rows])
            r.step()
            if not r.check(e is None and same(P, want, 1e-5), "net-predictions", lambda: f"{sc} batch {bs} rows {rows}: {P} want {want} {e!r}"):  # noqa: B023
                return
            r.state(sc["net"], sc["layer"], bs, rows)
        r.trace()
    r.outcome(sc["net"], sc["layer"])


def forward_rows(r, net, X, want, key, ctx):
    """evaluation mode: every row alone, in any batch, with or without weights."""
    net.eval()
    with torch.no_grad():
        for rows in [[0], [1], [2], [0, 1], [2, 0], [1, 1], [0, 1, 2], [2, 1, 0]]:
            Y, e = raises(lambda: net(X[rows]))  # noqa: B023
            r.step()
            if not r.check(e is None and same(np.asarray(Y).reshape(len(rows), -1), want[rows], 1e-5), key, lambda: f"{ctx} rows {rows}: {Y} want {want[rows]} {e!r}"):  # noqa: B023
                return False
            Z, e = raises(lambda: net(X[rows], sample_weight=torch.arange(len(rows)) + 1.0))  # noqa: B023
            if not r.check(e is None and same(Z, Y, 0), key + "-weights", lambda: f"{ctx} rows {rows}: {Z} {e!r}"):  # noqa: B023
                return False
    return True


def state(net):
    return {k: v.detach().double().numpy() for k, v in net.state_dict().items()}


def run_cnn(sc, r):
    ch, size = sc["ch"], sc["size"]
    for k, filt, c in itertools.product(range(1, sc["kmax"] + 1), (1, 2), (1, 2, 3)):
        net, e = raises(lambda: ToyCNN(ch, size, c, kernel_size=k, out_channels=filt))  # noqa: B023
        r.step()
        ctx = f"ToyCNN({ch}, {size}, {c}, {k}, {filt})"
        if k > size:
            r.check(e is not None, "kernel-too-large", ctx)
            continue
        if not r.check(e is None, "refused", lambda: f"{ctx}: {e!r}"):  # noqa: B023
            return
        r.check(net.num_features == filt * (size - k + 1), "num-features", lambda: f"{ctx}: {net.num_features}")  # noqa: B023
        r.check(all(m.training for m in net.modules()), "training-mode", ctx)
        generic(net)
        X = batch((ch, size), 3)
        w = list(state(net).values())
        W, b, V, a = w
        x = X.double().numpy()
        conv = np.array([[[(x[i, :, t:t + k] * W[f]).sum() + b[f] for t in range(size - k + 1)] for f in range(filt)] for i in range(3)])
        pooled = np.maximum(conv, 0).mean(2)
        if not forward_rows(r, net, X, pooled @ V.T + a, "cnn", ctx):
            return
        r.state(ctx)
        r.trace()
    r.outcome(ch, size)


def run_toy(sc, r):
    acts = {"relu": (torch.nn.ReLU(), lambda v: np.maximum(v, 0)), "tanh": (torch.nn.Tanh(), np.tanh)}
    for (nm, (layer, f)), proba in itertools.product(acts.items(), (False, True)):
        net = generic(ToyModule2D(n_classes=sc["c"], num_features=sc["f"], nonlin=layer, proba=proba))
        s = state(net)
        X = batch((2,), 3)
        z = f(X.double().numpy() @ s["dense0.weight"].T + s["dense0.bias"]) @ s["dense1.weight"].T + s["dense1.bias"]
        if proba:
            z = np.exp(z) / np.exp(z).sum(1, keepdims=True)
        forward_rows(r, net, X, z, "toy", f"{sc} {nm} {proba}")
        r.state(sc, nm, proba)
        r.trace()
    # the default activation and number of features
    net = ToyModule2D()
    r.check(isinstance(net.nonlin, torch.nn.ReLU) and net.dense0.out_features == 10 and net.dense1.out_features == 2 and not net.proba, "toy-defaults", str(net))
    r.outcome(sc["c"], sc["f"])


def run_domain(sc, r):
    for al in (0.0, 0.5, 1.0):
        net = generic(DomainClassifier(num_features=sc["f"], n_classes=sc["c"], alpha=al))
        s = state(net)
        X = batch((sc["f"],), 3)
        h = X.double().numpy() @ s["classifier.0.weight"].T + s["classifier.0.bias"]
        h = (h - s["classifier.1.running_mean"]) / np.sqrt(s["classifier.1.running_var"] + 1e-5) * s["classifier.1.weight"] + s["classifier.1.bias"]
        z = np.maximum(h, 0) @ s["classifier.3.weight"].T + s["classifier.3.bias"]
        z = 1 / (1 + np.exp(-z)) if sc["c"] == 1 else np.exp(z - z.max(1, keepdims=True)) / np.exp(z - z.max(1, keepdims=True)).sum(1, keepdims=True)
        forward_rows(r, net, X, z, "domain-classifier", f"{sc} alpha {al}")
        # gradients towards the features are reversed and scaled, those of the classifier are not
        net.eval()
        A = X.clone().requires_grad_(True)
        net(A).sum().backward()
        g1 = [p.grad.clone() for p in net.parameters()]
        net.zero_grad()
        B = X.clone().requires_grad_(True)
        net.classifier(B).sum().backward()
        g2 = [p.grad.clone() for p in net.parameters()]
        r.step(2)
        r.check(same(A.grad, -al * B.grad, 1e-5), "reversed-gradient", lambda: f"{sc} alpha {al}: {A.grad} {B.grad}")  # noqa: B023
        r.check(all(same(a, b, 1e-5) for a, b in zip(g1, g2)), "classifier-gradient", lambda: f"{sc} alpha {al}")  # noqa: B023
        r.state(sc, al)
        r.trace()
    # the classifier a method builds is the size of the layer it is attached to
    net = DANN(generic(ToyModule2D(n_classes=2, num_features=sc["f"])), "dropout", num_features=sc["f"], train_split=None)
    net.initialize()
    lin = [m for m in net.module_.domain_classifier_.modules() if isinstance(m, torch.nn.Linear)]
    r.check(lin[0].in_features == sc["f"] and lin[-1].out_features == 1, "built-classifier", f"{sc}: {lin}")
    r.outcome(sc["c"], sc["f"])


def run_mnist(sc, r):
    import torch.nn.functional as F
    net = generic(MNISTtoUSPSNet())
    with torch.no_grad():
        for p in net.parameters():
            p.mul_(0.05)
    s = {k: v.double() for k, v in net.state_dict().items()}
    X = batch((1, 28, 28), 3)
    h = F.relu(F.conv2d(X.double(), s["conv1.weight"], s["conv1.bias"]))
    h = F.max_pool2d(F.relu(F.conv2d(h, s["conv2.weight"], s["conv2.bias"])), 2).flatten(1)
    h = F.relu(h @ s["fc1.weight"].T + s["fc1.bias"])
    z = (h @ s["fc2.weight"].T + s["fc2.bias"]).numpy()
    forward_rows(r, net, X, z, "mnist", "MNISTtoUSPSNet")
    r.check(z.shape == (3, 10) and np.ptp(z, axis=0).min() > 1e-4, "vacuous", lambda: f"{z}")
    # an image size the network was not built for is refused, or answered row by row
    for size, n in itertools.product((20, 24, 27, 29, 32, 36, 40, 52), (1, 2, 3, 4, 9)):
        try:
            out = net(batch((1, size, size), n))
        except Exception:  # noqa: BLE001
            r.outcome("refused", size)
        else:
            r.check(tuple(out.shape) == (n, 10), "image-size", f"{n} images of size {size}: {tuple(out.shape)}")
        r.step()
        r.state("size", size, n)
    r.state("mnist")
    r.trace()
    r.outcome("mnist")


def run_reversal(sc, r):
    for shape, al, twice in itertools.product([(1,), (3,), (2, 3), (2, 1, 2)], (0.0, 0.25, 1.0, 2.0, -1.0), (False, True)):
        x = batch(shape, 2).requires_grad_(True)
        y = GradientReversalLayer.apply(x, al)
        if twice:
            y = GradientReversalLayer.apply(y, 3.0)
        r.step()
        r.check(same(y.detach(), x.detach(), 0), "reversal-forward", f"{shape} {al}")
        g = batch(shape, 2, 5)
        y.backward(g)
        r.check(same(x.grad, g * (-al if not twice else 3 * al), 1e-6), "reversal-gradient", lambda: f"{shape} {al}: {x.grad}")  # noqa: B023
        r.state(shape, al, twice)
        r.trace()
    r.outcome("reversal")


def run(sc, r):
    torch.set_num_threads(1)
    globals()["run_" + sc["what"]](sc, r)
