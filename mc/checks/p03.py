import itertools
import re

import numpy as np
import torch

from mc.util import same
from skada.datasets import DomainAwareDataset, select_domain

ID = "P03"
TECHNIQUE = "exhaustive exploration of all operation histories of the real DomainAwareDataset in lock step with a list-based reference model"
LEVEL = "model_checking"
NOTE = ("All histories up to the depth over the operation alphabet, each followed by every pack request with up to two source and two "
        "target domains in every order and every return type.")
ASSUMPTIONS = ["domains of one to three rows stand for domains of any size"]

# every operation is (kind, name, labelled, rows) or a merge of a prebuilt dataset
OPS = [
    ("add", None, True, 2),
    ("add", None, False, 1),
    ("add", "a", True, 1),
    ("add", "b", False, 2),
    ("add", "_2", True, 1),
    ("merge", [("a", True, 1)], None),
    ("merge", [("a", True, 2), ("c", False, 1)], {"a": "e", "zz": "q"}),
    ("merge", [("c", True, 1), ("b", True, 2)], {"c": "b"}),
    ("merge", [("f", False, 1), ("a", True, 2)], None),
    ("merge", [(None, True, 1), (None, False, 2)], None),
    ("merge", [], None),
]
CTORS = [None, "list", "dict", "empty"]


def BOUNDS(tier):
    return ("histories of up to %d operations out of %d after each of 4 constructors, arrays and tensors, 1-D and 2-D features; all "
            "requests of <=2 sources and <=2 targets" % (3 if tier == "quick" else 4, len(OPS)))


def scenarios(tier):
    depth = 3 if tier == "quick" else 4
    for cont in ("array", "tensor"):
        for ctor in CTORS:
            for k in range(depth + 1):
                if ctor in ("list", "dict") and k == depth:
                    continue
                if cont == "tensor" and k == depth:
                    continue
                for h in itertools.product(range(len(OPS)), repeat=k):
                    yield {"container": cont, "ctor": ctor, "ops": list(h)}


def frag(tag, n, labelled, cont, two_d):
    X = tag * 100.0 + np.arange(n) + 0.5
    if two_d:
        X = np.stack([X, -X], 1)
    y = (tag * 10 + np.arange(n)) if labelled else None
    if cont == "tensor":
        return torch.as_tensor(X), (torch.as_tensor(y) if labelled else None)
    return X, y


def contents(ds):
    return (dict(ds.domain_names_), [tuple(np.array(a) for a in d) for d in ds.domains_])


def eq_contents(a, b):
    return a[0] == b[0] and list(a[0]) == list(b[0]) and len(a[1]) == len(b[1]) and all(
        len(x) == len(y) and all(same(u, v) for u, v in zip(x, y)) for x, y in zip(a[1], b[1]))


def check_model(ds, model, r, where):
    names = [m[0] for m in model]
    ok = list(ds.domain_names_) == names and [ds.domain_names_[n] for n in names] == list(range(1, len(model) + 1))
    r.check(ok and len(ds.domains_) == len(model), "identifiers", lambda: f"{where}: {ds.domain_names_} want {names}")
    for n, X, y in model:
        d = ds.get_domain(n)
        r.check(same(d[0], X) and (len(d) < 2 or d[1] is None if y is None else len(d) == 2 and same(d[1], y)), "stored-data",
                lambda: f"{where}: {n}: {d} want {X} {y}")
    m = re.search(r"Number of domains: (\d+)\s+Total size: (\d+)", repr(ds))
    r.check(m and int(m[1]) == len(model) and int(m[2]) == sum(len(x[1]) for x in model), "repr", lambda: repr(ds))


def run(sc, r):
    cont = sc["container"]
    two_d = len(sc["ops"]) % 2 == 1
    tag = 1
    model = []  # [name, X, y]
    r.trace()
    if sc["ctor"] is None:
        ds = DomainAwareDataset()
    elif sc["ctor"] == "empty":
        ds = DomainAwareDataset([])
    else:
        A, B, C = (frag(i, n, lab, cont, two_d) for i, n, lab in ((1, 2, True), (2, 1, True), (3, 2, False)))
        tag = 4
        if sc["ctor"] == "list":
            ds = DomainAwareDataset([(A[0], A[1], "a"), (B[0], B[1]), (C[0],)])
            nm = list(ds.domain_names_)
            r.check(len(nm) == 3 and nm[0] == "a", "ctor-names", lambda: f"{nm}")
            if len(nm) != 3:
                return
            model = [["a", *A], [nm[1], *B], [nm[2], *C]]
        else:
            ds = DomainAwareDataset({"x": (A[0], A[1]), "a": (B[0], B[1]), "y": (C[0],)})
            model = [["x", *A], ["a", *B], ["y", *C]]
    check_model(ds, model, r, "ctor")
    for k, o in enumerate(sc["ops"]):
        op = OPS[o]
        names = [m[0] for m in model]
        before = contents(ds)
        err = None
        r.step()
        if op[0] == "add":
            _, name, lab, n = op
            X, y = frag(tag, n, lab, cont, two_d)
            tag += 1
            legal = name is None or name not in names
            try:
                if name is None:
                    res = ds.add_domain(X, y) if lab else ds.add_domain(X)
                else:
                    res = ds.add_domain(X, y, name) if lab else ds.add_domain(X, domain_name=name)
            except Exception as e:  # noqa: BLE001
                err = e
            if legal and err is None:
                if name is None:
                    new = [q for q in ds.domain_names_ if q not in names]
                    if not r.check(len(new) == 1, "auto-name", lambda: f"{names} -> {ds.domain_names_}"):
                        return
                    name = new[0]
                model.append([name, X, y])
        else:
            _, parts, mapping = op
            other = DomainAwareDataset()
            add = []
            for name, lab, n in parts:
                X, y = frag(tag, n, lab, cont, two_d)
                tag += 1
                was = set(other.domain_names_)
                other.add_domain(X, y, name) if lab else other.add_domain(X, domain_name=name)
                name = name if name is not None else (set(other.domain_names_) - was).pop()
                add.append([(mapping or {}).get(name, name), X, y])
            new = [a[0] for a in add]
            legal = len(set(new)) == len(new) and not set(new) & set(names)
            ob = contents(other)
            try:
                res = ds.merge(other, mapping) if mapping is not None else ds.merge(other)
            except Exception as e:  # noqa: BLE001
                err = e
            r.check(eq_contents(ob, contents(other)), "merge-changed-argument", lambda: f"{sc}")
            if legal and err is None:
                model += add
        if legal:
            r.check(err is None, "legal-operation-refused", lambda: f"step {k} {op}: {err!r} on {names}")
            if err is not None:
                return
            r.check(res is ds, "chaining", lambda: f"step {k} {op} returned {res!r}")
        else:
            r.check(err is not None, "collision-accepted", lambda: f"step {k} {op} on {names}")
            r.check(eq_contents(before, contents(ds)), "rejected-but-changed", lambda: f"step {k} {op}: {before[0]} -> {contents(ds)[0]}")
            if err is None:
                return
        check_model(ds, model, r, f"step {k} {op}")
        r.state(cont, [[m[0], len(m[1]), m[2] is None] for m in model])
    packs(ds, model, cont, sc, r)
    check_model(ds, model, r, "after packing")


def packs(ds, model, cont, sc, r):
    names = [m[0] for m in model]
    ids = {n: i + 1 for i, n in enumerate(names)}
    data = {m[0]: (m[1], m[2]) for m in model}
    # all requests on the last three domains (and the first), longer histories reuse them
    pool = names if len(names) <= 4 else names[:1] + names[-3:]
    reqs = [p for k in range(3) for p in itertools.permutations(pool, k)]
    kmax = len(sc["ops"])
    for S in reqs:
        for T in reqs:
            if not S and not T:
                continue
            if kmax >= 3 and len(S) + len(T) > 3:
                continue
            rows = [(n, +1) for n in S] + [(n, -1) for n in T]
            wX = np.concatenate([np.asarray(data[n][0]) for n, _ in rows])
            wy = np.concatenate([np.full(len(data[n][0]), -1) if data[n][1] is None else np.asarray(data[n][1]) for n, _ in rows])
            wd = np.concatenate([np.full(len(data[n][0]), s * ids[n]) for n, s in rows])
            types = ["auto", "array", "tensor", "Bunch"]
            if len(S) + len(T) <= 2:
                types.append("DeepDADataset")
            for rt in types:
                out = ds.pack(as_sources=list(S), as_targets=list(T), mask_target_labels=False, return_type=rt)
                r.step()
                if rt == "Bunch":
                    X, y, d = out["X"], out["y"], out["sample_domain"]
                    want = {n: ids[n] for n in S}
                    want.update({n: -ids[n] for n in T})
                    r.check(dict(out["domain_names"]) == want, "bunch-names", lambda: f"{S} {T}: {out['domain_names']}")
                elif rt == "DeepDADataset":
                    X, y, d = out.X, out.y, out.sample_domain
                else:
                    X, y, d = out
                isT = isinstance(X, torch.Tensor)
                r.check(isT == (rt in ("tensor", "DeepDADataset") or rt == "auto" and cont == "tensor") and
                        (isT or isinstance(X, np.ndarray)), "return-type", lambda: f"{rt}: {type(X)}")
                r.check(same(X, wX) and same(y, wy) and same(d, wd), "packed-rows",
                        lambda: f"{S}/{T} {rt}: X={X!r} y={y!r} d={d!r}; want {wX!r} {wy!r} {wd!r}")
            if len(S) + len(T) <= 2:
                for which in [p for k in (1, 2) for p in itertools.product(pool, repeat=k)] + [(a, b, a) for a, b in itertools.permutations(pool, 2)]:
                    w = np.isin(np.abs(wd), [ids[n] for n in which])
                    m = ds.select_domain(wd, list(which))
                    r.step()
                    r.check(same(np.asarray(m, bool), w), "select", lambda: f"{which} of {wd}: {m}")
                    if len(which) == 1:
                        r.check(same(np.asarray(ds.select_domain(wd, which[0]), bool), w), "select-str", lambda: f"{which}")
                    packed = {**{n: ids[n] for n in S}, **{n: -ids[n] for n in T}}
                    if all(n in packed for n in which):
                        w2 = np.isin(wd, [packed[n] for n in which])
                        r.check(same(np.asarray(select_domain(packed, wd, list(which)), bool), w2), "select-packed", lambda: f"{which}")
    if names:
        n0 = names[0]
        # packed rows belong to the caller: overwriting them must not reach the dataset
        out = ds.pack(as_sources=[n0], as_targets=[n0], mask_target_labels=False)
        for a in out:
            a[...] = 0
        wX = np.concatenate([np.asarray(data[n][0]) for n in names] * 2)
        wd = np.concatenate([np.full(len(data[n][0]), s * ids[n]) for s in (1, -1) for n in names])
        ws = np.concatenate([np.full(len(data[n][0]), -1) if data[n][1] is None else np.asarray(data[n][1]) for n in names])
        for rt, kw in (("auto", {}), ("array", {"return_type": "array"}), ("tensor", {"return_type": "tensor"}), ("Bunch", {"return_type": "Bunch"})):
            out = ds.pack_lodo(**kw)
            r.step()
            X, y, d = (out["X"], out["y"], out["sample_domain"]) if rt == "Bunch" else out
            ns = len(ws)
            r.check(same(X, wX) and same(d, wd) and same(y[:ns], ws) and same(y[ns:], np.full(ns, -1)), "pack-lodo",
                    lambda: f"{rt}: {X!r} {y!r} {d!r}")
        for bad in (["nope"], [n0, "nope"]):
            for kw in ({"as_sources": bad, "as_targets": []}, {"as_sources": [], "as_targets": bad}):
                try:
                    ds.pack(mask_target_labels=False, **kw)
                    r.fail("unknown-domain", f"{kw}")
                except Exception:  # noqa: BLE001
                    pass
        r.step(4)
    r.outcome(len(names))
