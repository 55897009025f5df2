import copy
import itertools

import numpy as np
import pandas as pd
import torch

from mc.util import raises, same
from skada.datasets import DomainAwareDataset
from skada.deep.base import DeepDADataset

torch.set_num_threads(1)

ID = "P22"
TECHNIQUE = ("exhaustive exploration of operation sequences (construction, merging, domain addition, weighting, selection, splitting, conversion) up to a depth bound on the real container, each state "
             "compared with a list model of the samples")
LEVEL = "model_checking"
NOTE = "The complete content (rows, labels, domains, weights, per-domain numbers, items, dictionaries, arrays) is compared with the model after every operation of every sequence."
ASSUMPTIONS = ["a label of NaN is an ordinary label value of the container (only -1 means unlabelled)", "merging drops weights unless asked to keep them (documented); adding a domain may drop weights",
               "a refused in-place operation ends the sequence"]

BASES = [  # ids, labels, domains, weights
    ([1, 2, 3, 4], [0, 1, -1, 1], [1, -2, 1, -2], [1.0, 2.0, 3.0, 4.0]),
    ([1, 2, 3], [1, 0, 2], [0, 3, 0], None),
    ([1, 2], [-1, -1], [-1, -1], [0.5, 0.25]),
    ([], [], [], None),
    ([1, 2, 3, 4], [0.5, -2.5, -1.0, -0.5], [1, -2, 0, -2], None),
]
OTHERS = [([11, 12, 13], [1, -1, 0], [5, -2, 1], [7.0, 8.0, 9.0]), ([21], [2], [-4], None)]


def ops():
    out = []
    for k in range(len(OTHERS)):
        out += [("merge", k, False, True), ("merge", k, True, True), ("merge", k, False, False), ("merge", k, True, False)]
        out += [("add", k, rep) for rep in ("dict", "tuple", "ds")]
    out += [("weight",), ("unweight",)]
    out += [("select", s, rw) for s in ("source", "target", "dom1", "dom-2", "labels", "y1", "X", "sd", "w", "none") for rw in (True, False)]
    out += [("split", 0), ("split", 1), ("dict",), ("arrays",), ("copy",), ("self",)]
    return out


OPS = ops()


def BOUNDS(tier):
    return "%d starting datasets of 0-4 samples x all sequences of %d operations out of %d (each followed by every %s operation); %d construction forms" % (
        len(BASES), 2 if tier == "quick" else 3, len(OPS), "3rd" if tier == "quick" else "11th", 300)


def scenarios(tier):
    out = []
    for b in range(len(BASES)):
        for i, j in itertools.product(range(len(OPS)), repeat=2):
            out.append({"what": "seq", "base": b, "ops": (i, j), "depth": 3 if tier == "quick" else 4, "stride": 3 if tier == "quick" else 11})
    for b in range(len(BASES)):
        if not BASES[b][0]:
            continue
        for shape in ("1d", "2d", "4d"):
            out.append({"what": "rep", "base": b, "shape": shape})
    return out


def feats(ids, shape="2d"):
    ids = np.asarray(ids, float)
    if shape == "1d":
        return ids * 1.5
    X = np.stack([ids, ids * 0.5 + 100], 1)
    return X if shape == "2d" else X[:, None, :, None]


class Model:
    def __init__(self, ids, y, d, w):
        self.ids, self.y, self.d = list(ids), list(y), list(d)
        self.w = None if w is None or len(ids) == 0 else list(w)

    def pick(self, keep, rw=True):
        keep = [bool(k) for k in keep]
        f = lambda v: [a for a, k in zip(v, keep) if k]  # noqa: E731
        return Model(f(self.ids), f(self.y), f(self.d), None if self.w is None or not rw else f(self.w))

    def join(self, o, keep):
        w = None
        if keep:
            a = [] if not self.ids else self.w
            b = [] if not o.ids else o.w
            if (a is None and b) or (b is None and a):
                return None
            w = None if a is None or b is None else a + b
        return Model(self.ids + o.ids, self.y + o.y, self.d + o.d, w)

    def numbers(self):
        seen = {}
        out = []
        for v in self.d:
            out.append(seen.get(v, 0))
            seen[v] = out[-1] + 1
        return out


def build(m, cls=DeepDADataset):
    X = torch.tensor(feats(m.ids).reshape(-1, 2))
    return cls(X, torch.tensor(m.y, dtype=torch.float64 if any(v % 1 for v in m.y) else torch.int64), torch.tensor(m.d, dtype=torch.int64), None if m.w is None else torch.tensor(m.w))


def ids_of(X):
    X = np.asarray(X, float)
    return X.reshape(len(X), -1)[:, 0].round(6).tolist() if len(X) else []


def compare(r, ds, m, ctx):
    n = len(m.ids)
    ok = r.check(len(ds) == n and ds.is_empty() == (n == 0), "length", lambda: f"{ctx()}: {len(ds)} samples, want {n}")
    X, y, d = ds.as_arrays(return_weights=False)
    ok = ok and r.check(same(np.asarray(X).reshape(n, -1) if n else np.zeros((0, 2)), feats(m.ids).reshape(n, -1) if n else np.zeros((0, 2)), 1e-6), "features", lambda: f"{ctx()}: {X.tolist()} want {m.ids}")
    ok = ok and r.check(same(np.asarray(y).reshape(-1), np.array(m.y, float)), "labels", lambda: f"{ctx()}: {y.tolist()} want {m.y}")
    ok = ok and r.check(same(np.asarray(d).reshape(-1), np.array(m.d, float)), "domains", lambda: f"{ctx()}: {d.tolist()} want {m.d}")
    ok = ok and r.check(bool(ds.has_weights) == (m.w is not None), "weights", lambda: f"{ctx()}: has_weights {ds.has_weights}, want {m.w}")
    full = ds.as_arrays()
    ok = ok and r.check(len(full) == (3 if m.w is None else 4) and (m.w is None or same(full[3], m.w, 1e-6)), "weights", lambda: f"{ctx()}: {full[3:]} want {m.w}")
    if not ok:
        return False
    dd = ds.as_dict()
    r.check(same(dd["X"], X) and same(dd["y"], y) and same(dd["sample_domain"], d) and ("sample_weight" in dd) == (m.w is not None) and (m.w is None or same(dd["sample_weight"], m.w, 1e-6)),
            "dictionary", lambda: f"{ctx()}: {dd}")
    r.check(same(np.asarray(dd["sample_idx"]).reshape(-1), np.array(m.numbers(), float)), "sample-numbers", lambda: f"{ctx()}: {dd['sample_idx'].tolist()} want {m.numbers()} for domains {m.d}")
    r.check("sample_idx" not in ds.as_dict(sample_indices=False), "dictionary", ctx)
    r.check(tuple(ds.domains()) == tuple(sorted(set(m.d))), "domain-list", lambda: f"{ctx()}: {ds.domains()} want {sorted(set(m.d))}")
    num = m.numbers()
    for i in range(n):
        it, e = raises(lambda: ds[i])  # noqa: B023
        if not r.check(e is None, "item", lambda: f"{ctx()} item {i}: {e!r}"):  # noqa: B023
            return False
        x, yy = it
        good = same(np.asarray(x["X"]).ravel(), feats([m.ids[i]]).ravel(), 1e-6) and same([float(yy)], [float(m.y[i])]) and int(x["sample_domain"]) == m.d[i] and int(x["sample_idx"]) == num[i]
        good = good and ("sample_weight" in x) == (m.w is not None) and (m.w is None or abs(float(x["sample_weight"]) - m.w[i]) < 1e-6)
        r.check(good, "item", lambda: f"{ctx()} item {i}: {it}")  # noqa: B023
    return not r.failures


def step(r, ds, m, op, ctx):
    """apply op to a private copy; returns (dataset, model) or None when the sequence ends."""
    src = copy.deepcopy(ds)
    inplace = False
    k = op[0]
    want = None
    if k == "merge":
        o = Model(*OTHERS[op[1]])
        other = build(o)
        want = m.join(o, op[2])
        inplace = not op[3]
        call = lambda: src.merge(other, keep_weights=op[2], out=op[3])  # noqa: E731
    elif k == "add":
        o = Model(*OTHERS[op[1]])
        want = m.join(o, False)
        X, y, d = feats(o.ids), np.array(o.y), np.array(o.d)
        arg = {"dict": lambda: {"X": X, "y": y, "sample_domain": d}, "tuple": lambda: (X, y, d), "ds": lambda: build(o)}[op[2]]()
        call = lambda: src.add_domain(arg)  # noqa: E731
    elif k == "weight":
        w = [0.1 * i + 0.3 for i in m.ids]
        want = Model(m.ids, m.y, m.d, w)
        inplace = True
        call = lambda: src.add_weights(np.array(w))  # noqa: E731
    elif k == "unweight":
        want = Model(m.ids, m.y, m.d, None)
        inplace = True
        call = src.remove_weights
    elif k == "select":
        s, rw = op[1], op[2]
        arr = np.array
        keep = {"source": lambda: arr(m.d) >= 0, "target": lambda: arr(m.d) < 0, "dom1": lambda: arr(m.d) == 1, "dom-2": lambda: arr(m.d) == -2, "labels": lambda: arr(m.y) != -1,
                "y1": lambda: (arr(m.y) <= 1) & (arr(m.y) != -1), "X": lambda: arr(m.ids) % 2 == 0, "sd": lambda: np.abs(arr(m.d)) == 2,
                "w": lambda: arr(m.w if m.w is not None else []) > 1.5, "none": lambda: arr(m.d) > 99}[s]
        if s == "w" and m.w is None:
            _, e = raises(lambda: src.select(lambda w: w > 1.5, on="sample_weight", return_weights=rw))
            r.check(isinstance(e, ValueError), "select-without-weights", lambda: f"{ctx()}: {e!r}")
            return None
        want = m.pick(np.asarray(keep(), bool).reshape(-1) if len(m.ids) else [], rw)
        call = {"source": lambda: src.select_source(rw), "target": lambda: src.select_target(rw), "dom1": lambda: src.select_domain(1, rw), "dom-2": lambda: src.select_domain(-2, rw),
                "labels": lambda: src.select_with_labels(rw), "y1": lambda: src.select(lambda y: y <= 1, on="y", return_weights=rw),
                "X": lambda: src.select(lambda X: X.reshape(len(X), -1)[:, 0] % 2 == 0 if len(X) else torch.zeros(0, dtype=bool), on="X", return_weights=rw),
                "sd": lambda: src.select(lambda d: d.abs() == 2, on="sample_domain", return_weights=rw), "w": lambda: src.select(lambda w: w > 1.5, on="sample_weight", return_weights=rw),
                "none": lambda: src.select(lambda d: d > 99, on="sample_domain", return_weights=rw)}[s]
    elif k == "split":
        parts, e = raises(src.per_domain_split)
        if not r.check(e is None and sorted(parts) == sorted(set(m.d)), "split", lambda: f"{ctx()}: {e!r} {parts}"):
            return None
        if len(parts) <= op[1]:
            return None
        d = sorted(parts)[op[1]]
        want = m.pick(np.array(m.d) == d)
        call = lambda: parts[d]  # noqa: E731
    elif k == "dict":
        want = m
        call = lambda: DeepDADataset(src.as_dict())  # noqa: E731
    elif k == "arrays":
        want = m
        call = lambda: DeepDADataset(*src.as_arrays())  # noqa: E731
    elif k == "copy":
        want = m
        call = lambda: DeepDADataset(src)  # noqa: E731
    else:
        want = m.join(m, True)
        call = lambda: src.merge(src, keep_weights=True)  # noqa: E731
    out, e = raises(call)
    r.step()
    if want is None:
        r.check(isinstance(e, (AssertionError, ValueError)), "mixed-weights-accepted", lambda: f"{ctx()}: {e!r}")
        return None
    if not r.check(e is None, f"refused-{k}", lambda: f"{ctx()}: {e!r}"):
        return None
    if inplace:
        if k != "merge":
            r.check(out is src, "in-place", ctx)
        out = src
    elif k != "split":
        compare(r, src, m, lambda: ctx() + " (the dataset it was applied to)")
        if k == "merge":
            compare(r, other, o, lambda: ctx() + " (the merged dataset)")
    compare(r, out, want, ctx)
    return None if r.failures else (out, want)


def run_seq(sc, r):
    m = Model(*BASES[sc["base"]])
    ds = build(m)
    hist = []

    def go(ds, m, depth):
        names = lambda: f"dataset {sc['base']} operations {[OPS[i] for i in hist]}"  # noqa: E731
        r.state(sc["base"], m.ids, m.y, m.d, m.w)
        if depth == sc["depth"]:
            r.trace()
            return
        for i in ([sc["ops"][depth]] if depth < 2 else range(sum(hist) % sc["stride"] if depth == sc["depth"] - 1 else 0, len(OPS), sc["stride"] if depth == sc["depth"] - 1 else 1)):
            hist.append(i)
            nxt = step(r, ds, m, OPS[i], names)
            if nxt is not None and len(nxt[1].ids) <= 16:
                go(nxt[0], nxt[1], depth + 1)
            hist.pop()
            if r.failures:
                return

    if not compare(r, ds, m, lambda: f"dataset {sc['base']}"):
        return
    go(ds, m, 0)
    r.outcome(sc["base"], sc["ops"][0])


def run_rep(sc, r):
    ids, y, d, w = BASES[sc["base"]]
    w = w or [0.3, 0.6, 0.9, 1.2][:len(ids)]
    X = feats(ids, sc["shape"])

    def forms(v):
        a = np.array(v)
        yield "array", a
        yield "list", a.tolist()
        yield "tuple", tuple(a.tolist())
        yield "tensor", torch.tensor(a)
        if a.dtype.kind == "f":
            yield "tensor32", torch.tensor(a, dtype=torch.float32)
            yield "array32", a.astype(np.float32)
        else:
            yield "tensor32", torch.tensor(a, dtype=torch.int32)
            yield "array8", a.astype(np.int8)

    def ask(nm, call, hy, hd, hw):
        dom = d if hd is True else [0] * len(ids) if hd is False else [hd] * len(ids)
        m = Model(ids, y if hy else [-1] * len(ids), dom, w if hw else None)
        ds, e = raises(call)
        r.step()
        ctx = lambda: f"{sc} form {nm} y {hy} domain {hd} weight {hw}"  # noqa: E731
        if not r.check(e is None, "refused-construction", lambda: f"{ctx()}: {e!r}"):
            return
        n = len(ids)
        got = ds.as_dict()
        r.check(same(np.asarray(got["X"]).reshape(n, -1), X.reshape(n, -1), 1e-6) and tuple(got["X"].shape) == X.shape, "features", ctx)
        r.check(same(got["y"], m.y) and same(got["sample_domain"], m.d), "labels", lambda: f"{ctx()}: {got}")
        r.check(("sample_weight" in got) == hw and (not hw or same(got["sample_weight"], w, 1e-6)), "weights", lambda: f"{ctx()}: {got}")
        r.check(same(got["sample_idx"], m.numbers()), "sample-numbers", lambda: f"{ctx()}: {got}")
        r.check(all(isinstance(v, torch.Tensor) for v in got.values()), "not-tensors", ctx)
        r.check(same(ds.select_with_labels().as_arrays(False)[1], [v for v in m.y if v != -1]), "labelled", ctx)
        if sc["shape"] == "2d":
            compare(r, ds, m, ctx)
        r.state(sc, nm, hy, hd, hw)

    for hy, hd, hw in itertools.product((True, False), (True, False, 4, -3), (True, False)):
        for (nx, fx), (ny, fy) in itertools.product(forms(X), forms(y)):
            fd = dict(forms(d)).get(ny, d)
            fw = dict(forms(w)).get(nx, w)
            kw = {}
            if hy:
                kw["y"] = fy
            if hd is True:
                kw["sample_domain"] = fd
            elif hd is not False:
                kw["sample_domain"] = hd
            if hw:
                kw["sample_weight"] = fw
            ask(f"args {nx}/{ny}", lambda: DeepDADataset(fx, **kw), hy, hd, hw)  # noqa: B023
            ask(f"dict {nx}/{ny}", lambda: DeepDADataset({"X": fx, **kw}), hy, hd, hw)  # noqa: B023
            ask(f"dict+args {nx}/{ny}", lambda: DeepDADataset({"X": fx}, **kw), hy, hd, hw)  # noqa: B023
            ask(f"dataset {nx}/{ny}", lambda: DeepDADataset(DeepDADataset(fx, **kw)), hy, hd, hw)  # noqa: B023
            if r.failures:
                return
        cols = {"X": list(X.tolist())}
        if hy:
            cols["y"] = y
        if hd is True:
            cols["sample_domain"] = d
        elif hd is not False:
            cols["sample_domain"] = [hd] * len(ids)
        if hw:
            cols["sample_weight"] = w
        ask("frame", lambda: DeepDADataset(pd.DataFrame(cols)), hy, hd, hw)  # noqa: B023
        ask("frame-index", lambda: DeepDADataset(pd.DataFrame(cols, index=range(7, 7 + len(ids)))), hy, hd, hw)  # noqa: B023
        if hd is not True and hd is not False:
            continue
        rest = {k: v for k, v in cols.items() if k != "X"}
        ask("frame+args", lambda: DeepDADataset(pd.DataFrame({"X": cols["X"]}), **rest), hy, hd, hw)  # noqa: B023
    # packed from the domain-aware container
    src = [i for i, v in enumerate(d) if v >= 0]
    tgt = [i for i, v in enumerate(d) if v < 0]
    if src and tgt and sc["shape"] == "2d":
        da = DomainAwareDataset()
        da.add_domain(X[src], np.array(y)[src], "a").add_domain(X[tgt], np.array(y)[tgt], "b")
        for mask in (True, False):
            ds = da.pack(as_sources=["a"], as_targets=["b"], mask_target_labels=mask, return_type="DeepDADataset")
            A, b, c = da.pack(as_sources=["a"], as_targets=["b"], mask_target_labels=mask, return_type="array")
            r.check(isinstance(ds, DeepDADataset), "packed", f"{sc}")
            compare(r, ds, Model(ids_of(A), b.tolist(), c.tolist(), None), lambda: f"{sc} packed mask {mask}")  # noqa: B023
    for bad in (lambda: DeepDADataset(X, np.array(y)[:-1]), lambda: DeepDADataset(X, y, np.array(d)[:-1]), lambda: DeepDADataset(X, y, d, np.array(w)[:-1]), lambda: DeepDADataset({"y": y}),
                lambda: DeepDADataset(X, y, d).add_weights(np.array(w)[:-1]), lambda: DeepDADataset(X, y, d).merge({"X": X}), lambda: DeepDADataset(X, y, d).select(lambda v: v > 0, on="z"),
                lambda: DeepDADataset("abc")):
        if len(ids) < 2:
            continue
        _, e = raises(bad)
        r.check(e is not None, "misaligned-accepted", f"{sc}")
    r.trace()
    r.outcome("rep", sc["base"], sc["shape"])


def run(sc, r):
    (run_seq if sc["what"] == "seq" else run_rep)(sc, r)
