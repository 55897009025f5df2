import itertools

import numpy as np
import torch

from mc.util import same
from skada.datasets import DomainAwareDataset

ID = "P04"
TECHNIQUE = ("exhaustive enumeration of dataset configurations and packing histories on the real code; non-interference decided by comparing "
             "the packings of twin datasets that differ in target labels only")
LEVEL = "model_checking"
NOTE = "All label kinds per domain, all ordered requests, masks, return types and packing sequences within the bound."
ASSUMPTIONS = ["label dtypes are those of the alphabet; at most four domains"]

DISC = ["i8", "i16", "i32", "i64", "u8", "bool", "obj_int", "str", "none"]
CONT = ["f32", "f64", "f16", "obj_float"]
T_DISC = ["t_i64", "t_i32", "t_u8", "t_bool", "t_none"]
T_CONT = ["t_f32", "t_f64"]
MASKS = [None, -1, -10, 7, "nan"]


def BOUNDS(tier):
    return "3 domains (thorough: 4), 20 label kinds mixed within discrete / continuous / tensor families, 5 masks, all ordered requests"


def scenarios(tier):
    fams = [DISC[:7] + ["none"], CONT + ["none"], T_DISC, T_CONT + ["t_none"], ["str", "none"], ["i64", "f64"]]
    nd = 3 if tier == "quick" else 4
    seen = set()
    for fam in fams:
        for kinds in itertools.product(fam, repeat=nd):
            # keep every ordering of at most two different kinds
            if len(set(kinds)) > 2 or kinds in seen:
                continue
            seen.add(kinds)
            for mask in MASKS:
                if "str" in kinds and mask not in (None, -1, -10):
                    continue
                yield {"kinds": list(kinds), "mask": mask}


def labels(kind, n, tag, flip):
    """Deterministic labels of domain `tag`; `flip` gives other values of the same kind."""
    v = (np.arange(n) + tag + (3 * flip + 1)) % 5 + 1
    t = kind.startswith("t_")
    k = kind[2:] if t else kind
    if k == "none":
        return None
    if k == "bool":
        y = (np.arange(n) + flip) % 2 == 0
    elif k in ("i8", "i16", "i32", "i64", "u8"):
        y = v.astype({"i8": "int8", "i16": "int16", "i32": "int32", "i64": "int64", "u8": "uint8"}[k])
    elif k in ("f16", "f32", "f64"):
        y = (v + 0.5).astype({"f16": "float16", "f32": "float32", "f64": "float64"}[k])
    elif k == "obj_int":
        y = np.array([int(x) for x in v], dtype=object)
    elif k == "obj_float":
        y = np.array([float(x) + 0.5 for x in v], dtype=object)
    elif k == "str":
        y = np.array([chr(96 + int(x)) * (1 + int(x) % 2) for x in v])
    return torch.as_tensor(y) if t else y


def build(kinds, flips):
    ds, data = DomainAwareDataset(), {}
    for i, k in enumerate(kinds):
        n = 2 if i % 2 == 0 else 1
        X = np.stack([np.arange(n) + 10.0 * i, np.ones(n)], 1)
        if kinds[0].startswith("t_"):
            X = torch.as_tensor(X)
        y = labels(k, n, i, flips[i])
        ds.add_domain(X, y, f"d{i}") if y is not None else ds.add_domain(X, domain_name=f"d{i}")
        data[f"d{i}"] = (X, y)
    return ds, data


def unpack(out, rt):
    if rt == "Bunch":
        return out["X"], out["y"], out["sample_domain"]
    if rt == "DeepDADataset":
        return out.X, out.y, out.sample_domain
    return out


def is_masked(y, val):
    y = np.asarray(y)
    if y.dtype.kind in "US":
        return all(str(v) == str(val) for v in y)
    y = y.astype(float)
    return bool(np.all(np.isnan(y))) if val != val else bool(np.all(y == val))


def run(sc, r):
    kinds = sc["kinds"]
    mask = float("nan") if sc["mask"] == "nan" else sc["mask"]
    nd = len(kinds)
    names = [f"d{i}" for i in range(nd)]
    reqs = []
    for S in itertools.chain.from_iterable(itertools.permutations(names, k) for k in range(3)):
        for T in itertools.chain.from_iterable(itertools.permutations(names, k) for k in range(1, nd + 1)):
            if len(S) + len(T) <= nd + 1:
                reqs.append((S, T))
    tensor = kinds[0].startswith("t_")
    rts = ["auto", "array", "Bunch"] + ([] if any(k.startswith(("str", "obj")) for k in kinds) else ["tensor", "DeepDADataset"])
    if any(k == "str" for k in kinds):
        rts = ["auto", "Bunch"]
    r.trace()
    for S, T in reqs:
        ds, data = build(kinds, [0] * nd)
        ds2, _ = build(kinds, [1 if f"d{i}" in T and f"d{i}" not in S else 0 for i in range(nd)])
        kw = dict(as_sources=list(S), as_targets=list(T))
        cats = {("c" if kinds[int(n[1:])].split("_")[-1] in ("f16", "f32", "f64", "float") else "d")
                for n in S + T if not kinds[int(n[1:])].endswith("none")}
        ns = sum(len(data[n][0]) for n in S)
        for rt in rts if len(S) + len(T) <= 3 else ["auto"]:
            first = None
            for rep in range(2):  # masked, unmasked, masked again ...
                X, y, d = unpack(ds.pack(mask_target_labels=True, return_type=rt, mask=mask, **kw), rt)
                X2, y2, d2 = unpack(ds2.pack(mask_target_labels=True, return_type=rt, mask=mask, **kw), rt)
                r.step(2)
                yt = y[ns:]
                if mask is not None:
                    allowed = [mask]
                elif cats == {"c"}:
                    allowed = [float("nan")]
                elif cats in ({"d"}, set()):
                    allowed = [-1]
                else:
                    allowed = [-1, float("nan")]
                r.check(len(y) == len(X) == len(d) and any(is_masked(yt, v) for v in allowed), "target-label-visible",
                        lambda: f"{S}->{T} {rt} mask={mask}: target labels {yt!r}")
                r.check(same(y, y2) and same(X, X2) and same(d, d2) and y.dtype == y2.dtype, "target-label-leak",
                        lambda: f"{S}->{T} {rt}: {y!r} vs {y2!r}")
                src = [data[n][1] for n in S]
                off = 0
                for n, ys in zip(S, src):
                    m = len(data[n][0])
                    got = y[off:off + m]
                    if ys is not None:
                        ok = [str(a) for a in got] == [str(b) for b in ys] if np.asarray(ys).dtype.kind == "U" else same(got, ys)
                        r.check(ok, "source-label-changed", lambda: f"{S}->{T} {rt}: {got!r} want {ys!r}")
                    off += m
                if first is None:
                    first = y
                r.check(same(first, y), "packing-not-repeatable", lambda: f"{first!r} then {y!r}")
                # the stored data still has the true labels
                Xu, yu, du = unpack(ds.pack(mask_target_labels=False, return_type=rt, **kw), rt)
                r.step()
                off = ns
                for n in T:
                    m, yt_true = len(data[n][0]), data[n][1]
                    if yt_true is not None:
                        got = yu[off:off + m]
                        ok = [str(a) for a in got] == [str(b) for b in yt_true] if np.asarray(yt_true).dtype.kind == "U" else same(got, yt_true)
                        r.check(ok, "true-labels-lost", lambda: f"{S}->{T} {rt}: {got!r} want {yt_true!r}")
                    off += m
            r.state(kinds, sc["mask"], S, T, rt)
            r.outcome(rt, str(np.asarray(yt).dtype))
        if mask is None and len(T) == 1 and not S:
            continue
        # the deprecated entry points and the train alias mask alike
        out = ds.pack_train(list(S), list(T), mask=mask)
        ref = ds.pack(mask_target_labels=True, mask=mask, return_type="array", **kw)
        r.check(same(out[1], ref[1]), "pack-train", lambda: f"{out[1]!r} {ref[1]!r}")
        out = ds.pack(mask_target_labels=False, train=True, mask=mask, return_type="array", **kw)
        r.check(same(out[1], ref[1]), "train-alias", lambda: f"{out[1]!r} {ref[1]!r}")
        out = ds.pack(mask_target_labels=True, train=False, return_type="array", **kw)
        ref = ds.pack(mask_target_labels=False, return_type="array", **kw)
        r.check(same(out[1], ref[1]), "train-alias", lambda: f"{out[1]!r} {ref[1]!r}")
        if not S:
            out = ds.pack_test(list(T))
            r.check(same(out[1], ref[1]), "pack-test", lambda: f"{out[1]!r} {ref[1]!r}")
        r.step(4)
    if sc["mask"] is None:
        ds, data = build(kinds, [0] * nd)
        N = sum(len(v[0]) for v in data.values())
        for rt in rts:
            X, y, d = unpack(ds.pack_lodo(return_type=rt), rt)
            cats = {("c" if k.split("_")[-1] in ("f16", "f32", "f64", "float") else "d") for k in kinds if not k.endswith("none")}
            allowed = [float("nan")] if cats == {"c"} else [-1] if cats in ({"d"}, set()) else [-1, float("nan")]
            r.check(len(y) == 2 * N and any(is_masked(y[N:], v) for v in allowed), "lodo-target-label-visible", lambda: f"{rt}: {y!r}")
            r.check(same(np.asarray(d[:N]), -np.asarray(d[N:])) and bool((np.asarray(d[:N]) > 0).all()), "lodo-domains", lambda: f"{d}")
            r.step()
