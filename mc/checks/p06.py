import itertools

import numpy as np

from mc.checks.p05 import sizes
from mc.rng import explore
from mc.util import snapshot, unchanged
from skada.model_selection import LeaveOneDomainOut

ID = "P06"
TECHNIQUE = "exhaustive enumeration of domain layouts and of every answer of the random generator (explorer-owned RandomState) on the real splitter"
LEVEL = "model_checking"
NOTE = "All interleavings of two doubled domains, selected interleavings of three and four domains, every order in which domains and rows may be drawn."
ASSUMPTIONS = ["splitters draw through the numpy RandomState interface handed to them"]
SIZES = [(0.5, None), (None, 0.5), (1, 1), (None, None)]


def BOUNDS(tier):
    return "2 domains: all interleavings of up to 8 rows; 3-4 domains: rotations, reversals and block orders; max_n_splits 1,2,3,10; 4 size settings"


def scenarios(tier):
    def perms(ms):
        return sorted(set(itertools.permutations(ms)))

    step = 6 if tier == "quick" else 1
    for base, st in (((1, 2, -1, -2), 1), ((1, 1, 2, -1, -2), 1), ((1, 1, 2, 2, -1, -1, -2, -2), step), ((3, 3, 7, 7, -3, -3, -7, -7), step * 2),
                     ((1, 1, 2, 2, -1, -2, -2), step), ((0, 0, 1, 1, -1, -1), 1), ((1, 1, 2, 2, -1, -1), 1), ((1, 1, 2, 2, -1, -1, -3), step)):
        for p in perms(base)[::st]:
            for si in (0, 2) if len(p) > 5 else range(4):
                for mx in (1, 10):
                    yield {"sd": p, "size": si, "max": mx}
    b3 = [1, 2, 3, -1, -1, -2, -2, -3, -3]
    b4 = [1, 2, 3, 4, -1, -1, -2, -2, -3, -3, -4, -4]
    for b in (b3, b4):
        orders = [b[k:] + b[:k] for k in range(len(b))] + [b[::-1]] + [b[i::k] + [x for j in range(k) if j != i for x in b[j::k]] for k in (2, 3) for i in range(k)]
        for o in orders:
            for mx in (1, 2, 3, 10):
                if b is b4 and mx > 2 and tier == "quick":
                    continue
                yield {"sd": o, "size": 0 if b is b3 else 2, "max": mx, "light": b is b4 or mx > 1}


def run(sc, r):
    sd = np.array(sc["sd"])
    n = len(sd)
    test, train = SIZES[sc["size"]]
    X = np.arange(2.0 * n).reshape(n, 2)
    doms = sorted({d for d in sc["sd"] if d >= 0})
    want = {}
    for d in doms:
        ns, nt = sum(1 for e in sc["sd"] if e >= 0 and e != d), sum(1 for e in sc["sd"] if e == -d and e < 0)
        want[d] = (sizes(ns, test, train) if ns else None, sizes(nt, test, train) if nt else None)
    feasible = all(a and b for a, b in want.values())
    none_feasible = not any(a and b for a, b in want.values())
    snap = snapshot(X, sd)
    r.trace()

    def go(rng):
        sp = LeaveOneDomainOut(max_n_splits=sc["max"], test_size=test, train_size=train, random_state=rng)
        out = []
        try:
            for a, b in sp.split(X, None, sd):
                out.append((np.array(a), np.array(b)))
            return out, None, sp
        except ValueError as e:
            return out, e, sp

    def judge(out, err, sp, script):
        nsp = min(sc["max"], len(doms))
        if feasible:
            r.check(err is None, "split-refused", lambda: f"{err!r}")
        if err is None:
            r.check(len(out) == nsp == sp.get_n_splits(X, None, sd), "n-splits", lambda: f"{len(out)} want {nsp}, announced {sp.get_n_splits(X, None, sd)}")
            r.check(not none_feasible, "impossible-split-accepted", lambda: f"{out}")
        held = []
        for tr, te in out:
            where = lambda: f"train={tr}:{sd[tr]} test={te}:{sd[te]} script={script}"  # noqa: E731
            al = list(map(int, tr)) + list(map(int, te))
            if not r.check(all(0 <= i < n for i in al) and len(set(al)) == len(al), "partition", where):
                return
            tg = {int(-sd[i]) for i in al if sd[i] < 0}
            if not r.check(len(tg) == 1, "one-target-domain", where):
                return
            h = tg.pop()
            held.append(h)
            r.check(not any(sd[i] == h for i in al), "held-out-source-rows", where)
            for side in (True, False):
                w = want.get(h, (None, None))[0 if side else 1]
                got = tuple(sum(1 for i in q if (sd[i] >= 0) == side) for q in (tr, te))
                r.check(got == w and min(got) >= 1, "side-sizes", lambda: f"{'source' if side else 'target'} {got} want {w}; {where()}")
            r.state(sc["sd"], sorted(al[:len(tr)]), sorted(al[len(tr):]))
        r.check(len(set(held)) == len(held) and set(held) <= set(doms), "held-out-repeated", lambda: f"{held}")
        if err is None and nsp == len(doms):
            r.check(sorted(held) == doms, "held-out-missing", lambda: f"{held}")
        return held

    first = set()
    k = 0
    gen = explore(go)
    if sc.get("light"):
        # every order of the domains; row draws follow the first answers
        def light():
            D = len(doms)
            import math
            from mc.rng import OwnedRandomState
            for c in range(math.factorial(D)):
                for j in (0, 1):
                    rng = OwnedRandomState([c] + [j] * (2 * D))
                    yield go(rng), rng
        gen = light()
    for (out, err, sp), rng in gen:
        k += 1
        r.step()
        held = judge(out, err, sp, rng.script)
        if held:
            first.add(held[0])
        if len(r.failures) > 5 or none_feasible:
            break
    if feasible and not r.failures:
        r.check(first == set(doms), "never-held-out", lambda: f"{first} of {doms}: no draw holds out the others first")
    for seed in (0, 3):
        a = go(seed)
        b = go(seed)
        judge(a[0], a[1], a[2], f"seed {seed}")
        r.check(len(a[0]) == len(b[0]) and all(np.array_equal(u[i], v[i]) for u, v in zip(a[0], b[0]) for i in (0, 1)), "seed", f"{seed}")
        r.step(2)
    g = go(None)
    judge(g[0], g[1], g[2], "global state")
    r.check(unchanged(snap, X, sd), "inputs-changed", "")
    r.outcome(k, feasible, len(doms))
