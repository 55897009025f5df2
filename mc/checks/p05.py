import itertools
import math

import numpy as np

from mc.rng import OwnedRandomState, explore
from mc.util import layouts, snapshot, unchanged
from skada.model_selection import DomainShuffleSplit, SourceTargetShuffleSplit, StratifiedDomainShuffleSplit

ID = "P05"
TECHNIQUE = "exhaustive enumeration of domain/label layouts, size settings and every answer of the random generator (explorer-owned RandomState) on the real splitters"
LEVEL = "model_checking"
NOTE = "Every layout up to the bound and every permutation/choice the generator can return there; draws over more than 5 rows use rotations and reversals."
ASSUMPTIONS = ["splitters draw through the numpy RandomState interface handed to them"]

SIZES = [(None, None), (0.5, None), (None, 0.5), (1, None), (1, 1), (2, 1), (0.3, 0.4), (0.25, 0.75), (None, 2), (0.9, 0.5)]


def BOUNDS(tier):
    return "layouts over {0,2,-1,-3}, lengths 2..%d (all interleavings), %d size settings, 1-2 splits, under_sampling in {0.5,0.8,1}" % (
        6 if tier == "quick" else 7, len(SIZES))


def scenarios(tier):
    nmax = 6 if tier == "quick" else 7
    for sd in layouts([0, 2, -1, -3], 2, nmax):
        if min(sd) >= 0 or max(sd) < 0:
            continue
        if len(sd) == nmax and (2 in sd) != (-3 in sd):
            continue
        if len(sd) == nmax:
            yield {"k": "st", "sd": sd, "size": 1 + 3 * (sd[0] == 0), "n": 1}
            if sd.count(0) <= 3:
                yield {"k": "dom", "sd": sd, "size": 1, "us": 0.8, "n": 1}
            continue
        for si in range(len(SIZES)):
            yield {"k": "st", "sd": sd, "size": si, "n": 1}
        for us in (0.5, 0.8, 1):
            for si in (0, 1, 4) if len(sd) > 3 else range(len(SIZES)):
                yield {"k": "dom", "sd": sd, "size": si, "us": us, "n": 1}
    for sd in [(1, -1, 0, -2), (-1, 0, 1, -1, 2), (1, -1), (0, -1, 1)]:
        for si in range(len(SIZES)):
            yield {"k": "st", "sd": sd, "size": si, "n": 2}
            if len(sd) < 5:
                yield {"k": "dom", "sd": sd, "size": si, "us": 0.8, "n": 2}
    # one-sided data
    for sd in [(1, 1, 2), (-1, -2)]:
        for k in ("st", "dom"):
            yield {"k": k, "sd": sd, "size": 1, "us": 1, "n": 1}
    # stratified: all arrangements of groups (domain,label)
    specs = [
        [(1, 0), (-1, 0)], [(1, 0), (1, 1), (-1, 0)], [(1, 0), (1, 1), (-2, 0), (-2, 1)], [(1, 0), (2, 0), (-1, -1)], [(1, 0)],
    ]
    for spec in specs:
        for cnt in itertools.product((1, 2, 3), repeat=len(spec)):
            n = sum(cnt)
            if n > (6 if tier == "quick" else 8):
                continue
            g = [i for i, c in enumerate(cnt) for _ in range(c)]
            orders = sorted(set(itertools.permutations(g))) if n <= 5 else [g, g[::-1], g[::2] + g[1::2]]
            for o in orders if len(orders) <= 30 else orders[::len(orders) // 30 + 1]:
                for si in (1, 3, 6, 0, 4):
                    for lab in ("int", "str", "2d") if n <= 4 else ("int",):
                        yield {"k": "strat", "sd": [spec[i][0] for i in o], "y": [spec[i][1] for i in o], "size": si, "lab": lab, "n": 1}
    # larger inputs, one generator stream per seed
    for k in ("st", "dom", "strat"):
        for n in (12, 20, 33):
            for si in (0, 1, 2, 6):
                for seed in (0, 1, 2, 3):
                    sd = [[1, -1, 2, -3][(i * i + i // 3) % 4] for i in range(n)]
                    yield {"k": k, "sd": sd, "y": [(i // 2) % 2 for i in range(n)], "size": si, "us": 0.8, "n": 3, "seed": seed, "lab": "int"}


def sizes(n, test, train, default=0.1):
    """(n_train, n_test) requested, or None if the request cannot be met."""
    for v, f in ((test, "t"), (train, "r")):
        if isinstance(v, float) and not 0 < v < 1:
            return None
        if isinstance(v, int) and not 0 < v < n:
            return None
    if test is None and train is None:
        test = default
    if isinstance(test, float) and isinstance(train, float) and test + train > 1:
        return None
    nte = math.ceil(test * n) if isinstance(test, float) else test
    ntr = math.floor(train * n) if isinstance(train, float) else train
    if test is None:
        nte = n - ntr
    if train is None:
        ntr = n - nte
    if ntr + nte > n or ntr <= 0:
        return None
    return ntr, nte


def run(sc, r):
    sd = np.array(sc["sd"])
    n = len(sd)
    test, train = SIZES[sc["size"]]
    X = np.arange(2.0 * n).reshape(n, 2)
    y = None
    kw = dict(n_splits=sc["n"], test_size=test, train_size=train)
    side_rows = {True: np.flatnonzero(sd >= 0), False: np.flatnonzero(sd < 0)}
    cls = {"st": SourceTargetShuffleSplit, "dom": DomainShuffleSplit, "strat": StratifiedDomainShuffleSplit}[sc["k"]]
    want, groups = {}, None
    if sc["k"] == "st":
        for s in (True, False):
            want[s] = sizes(len(side_rows[s]), test, train)
    elif sc["k"] == "dom":
        kw["under_sampling"] = sc["us"]
        keep = {d: int(math.floor(round(np.sum(sd == d) * sc["us"], 9))) for d in set(sc["sd"])}
        for s in (True, False):
            want[s] = sizes(sum(c for d, c in keep.items() if (d >= 0) == s), test, train)
    else:
        lab = np.array(sc["y"])
        groups = {}
        for i in range(n):
            groups.setdefault((sc["sd"][i], sc["y"][i]), []).append(i)
        nn = sizes(n, test, train)
        if nn is None or min(map(len, groups.values())) < 2 or min(nn) < len(groups):
            want[0] = None
        y = lab if sc["lab"] == "int" else np.array(["c%d" % v for v in lab]) if sc["lab"] == "str" else np.stack([lab, lab * 0 + 1], 1)
    bad = any(v is None for v in want.values())
    ids = snapshot(X, sd) + snapshot(y)
    r.trace()
    if not bad and (n <= 3 or sd[0] == sd[-1]):  # nested lists and n-dimensional features
        Xin = X.tolist() if n == 2 or sd[1] < 0 else X.reshape(n, 2, 1)
    else:
        Xin = X

    def go(rng):
        sp = cls(random_state=rng, **kw)
        try:
            return [(np.array(a), np.array(b)) for a, b in sp.split(Xin, y, sd)], sp
        except ValueError as e:
            return e, sp

    reach = {True: set(), False: set()}  # rows seen in some training / test part
    runs = explore(go) if "seed" not in sc else ((go(sc["seed"]), None) for _ in range(1))
    k = 0
    for (out, sp), rng in runs:
        k += 1
        r.step()
        if bad:
            r.check(isinstance(out, Exception), "impossible-size-accepted", lambda: f"{sc}: {out}")
            break
        if not r.check(not isinstance(out, Exception), "split-refused", lambda: f"{out!r}"):
            break
        r.check(len(out) == sc["n"] == sp.get_n_splits(X, y, sd), "n-splits", lambda: f"{len(out)} {sp.get_n_splits(X, y, sd)}")
        for tr, te in out:
            reach[True] |= set(map(int, tr))
            reach[False] |= set(map(int, te))
            where = lambda: f"train={tr} test={te} script={getattr(rng, 'script', None)}"  # noqa: E731
            al = list(map(int, tr)) + list(map(int, te))
            if not r.check(all(0 <= i < n for i in al) and len(set(al)) == len(al), "partition", where):
                return
            for s in want:
                if sc["k"] != "strat":
                    a, b = (sum(1 for i in q if (sd[i] >= 0) == s) for q in (tr, te))
                    r.check((a, b) == want[s], "side-sizes", lambda: f"{'source' if s else 'target'} {a},{b} want {want[s]}; {where()}")
            if sc["k"] == "dom":
                for d, c in keep.items():
                    got = sum(1 for i in al if sd[i] == d)
                    full = sum(want[d >= 0]) == sum(e for k2, e in keep.items() if (k2 >= 0) == (d >= 0))
                    r.check(got == c if full else got <= c, "under-sampling", lambda: f"domain {d}: {got} want {c}; {where()}")
            if sc["k"] == "strat":
                r.check((len(tr), len(te)) == nn, "sizes", lambda: f"{len(tr)},{len(te)} want {nn}")
                for g, rows in groups.items():
                    a, b = len(set(rows) & set(map(int, tr))), len(set(rows) & set(map(int, te)))
                    sa, sb = nn[0] * len(rows) / n, nn[1] * (len(rows) - a) / (n - nn[0])
                    r.check(abs(a - sa) < 1 and abs(b - sb) < 1, "proportion", lambda: f"group {g}: {a},{b} expected about {sa},{sb}; {where()}")
            r.state(sc["k"], sc["sd"], sorted(al[:len(tr)]), sorted(al[len(tr):]))
        if len(r.failures) > 10:
            return
    r.outcome(sc["k"], bad, k)
    if not bad and "seed" not in sc and not r.failures:
        # over all draws every row gets its turn on both sides
        for i in range(n):
            for part, name in ((True, "train"), (False, "test")):
                size = (nn if sc["k"] == "strat" else want[bool(sd[i] >= 0)])[0 if part else 1]
                r.check(size == 0 or i in reach[part], "row-never-drawn", lambda: f"row {i} (domain {sd[i]}) is in the {name} part of no draw")  # noqa: B023
    r.check(unchanged(ids, X, sd, y), "inputs-changed", "")
    # the same seed gives the same splits, twice and on a fresh object
    if not bad:
        for seed in (0, 7):
            sp = cls(random_state=seed, **kw)
            a, b = list(sp.split(X, y, sd)), list(sp.split(X, y, sd))
            c = list(cls(random_state=seed, **kw).split(X, y, sd))
            r.step(3)
            r.check(all(np.array_equal(u[i], v[i]) and np.array_equal(u[i], w[i]) for u, v, w in zip(a, b, c) for i in (0, 1)) and
                    len(a) == len(b) == len(c), "seed", f"{seed}")
    _ = OwnedRandomState
