import itertools

import numpy as np

from mc.util import layouts, same
from skada.utils import (
    extract_domains_indices,
    extract_source_indices,
    per_domain_split,
    source_target_merge,
    source_target_split,
)

ID = "P01"
TECHNIQUE = "exhaustive enumeration of domain layouts on the real split/merge code against a list-based reference model"
LEVEL = "model_checking"
NOTE = ("Every domain layout up to the bound (any interleaving, several source and target domains, domain 0), every dtype pair and "
        "array rank in the alphabet; beyond the bound nothing is claimed.")
ASSUMPTIONS = ["arrays longer than the bound behave like short ones (code has no length-dependent branch)"]


def BOUNDS(tier):
    return ("all layouts over {0,1,2,-1,-2} up to length %d, over {1,2,-1,-3} at length %d and over the 32-bit identifiers "
            "{0,127,128,32768,2^31-1,-128,-129,-32769,-2^31} up to length %d" % ((4, 5, 3) if tier == "quick" else (5, 7, 4)))


def scenarios(tier):
    a, b = (4, 5) if tier == "quick" else (5, 7)
    for sd in layouts([0, 1, 2, -1, -2], 1, a):
        yield {"sd": sd}
    for sd in itertools.product([1, 2, -1, -3], repeat=b):
        yield {"sd": sd}
    for sd in layouts([0, 127, 128, 32768, 2**31 - 1, -128, -129, -32769, -2**31], 1, 3 if tier == "quick" else 4):
        if any(abs(d) > 2 for d in sd):
            yield {"sd": sd}


def arrays_of(n):
    base = np.arange(n)
    return {
        "int": base * 7 + 1,
        "float": base * 0.5 + 0.25,
        "X2": np.stack([base + 0.125, -base * 3.0], 1),
        "X3": (np.arange(n * 4).reshape(n, 2, 2) + 0.5),
        "str": np.array([f"c{'x' * (i % 3)}{i}" for i in base]),
        "obj": np.array([("k", int(i)) for i in base] + [None], dtype=object)[:-1],
        "bool": base % 2 == 0,
        "int8": (base - 1).astype(np.int8),
        "f32": (base * 1.5).astype(np.float32),
        "fint": base.astype(float),
    }


def run(sc, r):
    sd = np.array(sc["sd"])
    n = len(sd)
    rows = list(range(n))
    src = [i for i in rows if sd[i] >= 0]
    tgt = [i for i in rows if sd[i] < 0]
    doms = sorted(set(sc["sd"]))
    arrs = arrays_of(n)
    r.trace()
    # ---- indices
    m = extract_source_indices(sd)
    r.check(np.array_equal(np.asarray(m, bool), sd >= 0) and len(m) == n, "source-mask", lambda: f"{sd} -> {m}")
    small = np.int8 if np.abs(sd.astype(float)).max() < 100 else np.int32
    for sdx in (sd.astype(small), sd.astype(float), list(sc["sd"])):
        r.check(np.array_equal(extract_source_indices(sdx), sd >= 0), "source-mask-dtype", lambda: f"{sdx!r}")
    d = extract_domains_indices(sd)
    r.check(sorted(int(k) for k in d) == doms and all(list(d[k]) == [i for i in rows if sd[i] == k] for k in doms),
            "domain-indices", lambda: f"{sd} -> {d}")
    ds, dt = extract_domains_indices(sd, split_source_target=True)
    r.check(sorted(map(int, ds)) == [k for k in doms if k >= 0] and sorted(map(int, dt)) == [k for k in doms if k < 0]
            and all(list({**ds, **dt}[k]) == [i for i in rows if sd[i] == k] for k in doms), "domain-indices-split", lambda: f"{sd}")
    r.step(6)
    # ---- split: one call with every array (and a None) must equal one call per array
    names = list(arrs)
    combos = [(a,) for a in names] + [("X2", "int"), ("X2", "float", "int"), tuple(names), ("X2", None), ("X2", "int", None)]
    for combo in combos:
        given = [None if c is None else arrs[c] for c in combo]
        out = source_target_split(*given, sample_domain=sd)
        r.step()
        ok = len(out) == 2 * len(combo)
        for j, c in enumerate(combo):
            if not ok:
                break
            if c is None:
                ok = out[2 * j] is None and out[2 * j + 1] is None
            else:
                ok = same(out[2 * j], arrs[c][src]) and same(out[2 * j + 1], arrs[c][tgt])
        r.check(ok, "split", lambda: f"sd={sd} arrays={combo} -> {out}")
        S, T = per_domain_split(*given, sample_domain=sd)
        r.step()
        ok = sorted(map(int, S)) == [k for k in doms if k >= 0] and sorted(map(int, T)) == [k for k in doms if k < 0]
        for k in doms if ok else []:
            part = (S if k >= 0 else T)[k]
            idx = [i for i in rows if sd[i] == k]
            ok = ok and len(part) == len(combo) and all(
                (p is None) if c is None else same(p, arrs[c][idx]) for p, c in zip(part, combo))
        r.check(ok, "per-domain-split", lambda: f"sd={sd} arrays={combo} -> {S} {T}")
        r.state(sc["sd"], combo)
    # ---- merge round trip, same and mixed dtypes
    pairs = [(a, a) for a in names] + [("int", "float"), ("float", "int"), ("int8", "int"), ("f32", "float"), ("bool", "float"), ("int", "f32")]
    for a, b in pairs:
        As, Bt = arrs[a][src], arrs[b][tgt]
        want = [None] * n
        for i, v in zip(src, As):
            want[i] = v
        for i, v in zip(tgt, Bt):
            want[i] = v
        X, sd2 = source_target_merge(As.copy(), Bt.copy(), sample_domain=sd)
        r.step()
        r.check(len(X) == n and same(np.asarray(sd2), sd), "merge-shape", lambda: f"{sd}")
        ok = all(np.array_equal(np.asarray(X[i]), np.asarray(want[i])) or X[i] == want[i]
                 for i in rows) if len(X) == n else False
        r.check(ok, "merge", lambda: f"sd={sd} source={As!r} target={Bt!r} -> {X!r}")
        r.outcome(np.asarray(X).dtype.kind, ok, n)
    # several pairs at once
    Xm, ym, sd2 = source_target_merge(arrs["X2"][src], arrs["X2"][tgt], arrs["int"][src], arrs["int"][tgt], sample_domain=sd)
    r.step()
    r.check(same(Xm, arrs["X2"]) and same(ym, arrs["int"]) and same(sd2, sd), "merge-multi", lambda: f"{sd}")
    # ---- absent side is filled with the masked label
    for name in ("int", "float", "fint", "int8", "f32"):
        lab = np.abs(arrs[name]) if name != "float" else arrs[name]
        frac = bool(np.any(np.asarray(lab, float) % 1 != 0))
        for side, idx in (("target", src), ("source", tgt)):
            if not idx:
                continue
            vals = lab[idx]
            frac = bool(np.any(np.asarray(vals, float) % 1 != 0))
            fill = np.nan if frac else -1
            for missing in (None, vals[:0]):
                args = (vals, missing) if side == "target" else (missing, vals)
                # the feature pair is complete, the label pair misses one side
                Xm, ym, _ = source_target_merge(arrs["X2"][src], arrs["X2"][tgt], *args, sample_domain=sd) \
                    if src and tgt else (arrs["X2"], None, None)
                if ym is None:
                    continue
                r.step()
                want = np.full(n, fill, dtype=float)
                want[idx] = vals
                r.check(same(ym, want) and same(Xm, arrs["X2"]), "merge-fill",
                        lambda: f"sd={sd} {name} missing {side}: {ym!r} want {want!r}")
                r.state(sc["sd"], name, side, missing is None)
    # ---- inferred domains: source rows then target rows
    if src and tgt:
        X, sdi = source_target_merge(arrs["X2"][src], arrs["X2"][tgt])
        r.step()
        r.check(same(X, np.concatenate([arrs["X2"][src], arrs["X2"][tgt]])) and
                list(np.asarray(sdi) >= 0) == [True] * len(src) + [False] * len(tgt), "merge-inferred", lambda: f"{sdi}")
    # ---- inconsistent sizes must be refused
    if src and tgt:
        for As, Bt in ((arrs["int"][src][:-1] if len(src) > 1 else None, arrs["int"][tgt]),
                       (arrs["int"][src], np.concatenate([arrs["int"][tgt], [5]]))):
            if As is None:
                continue
            try:
                source_target_merge(As, Bt, sample_domain=sd)
                r.fail("merge-inconsistent", f"accepted {len(As)}+{len(Bt)} rows for {sd}")
            except ValueError:
                pass
            r.step()
