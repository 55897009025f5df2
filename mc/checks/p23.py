import itertools
import math

import numpy as np
import torch
from skorch.dataset import Dataset

from mc.rng import nth_arrangement
from mc.util import raises, same
from skada.deep.base import DeepDADataset, DomainBalancedDataLoader, DomainBalancedSampler, DomainOnlyDataLoader, DomainOnlySampler

torch.set_num_threads(1)

ID = "P23"
TECHNIQUE = ("exhaustive enumeration of domain layouts, batch sizes and length settings together with every answer of torch's permutation generator (owned by the explorer), executed on the real samplers "
             "and data loaders; batches are monitored for balance, coverage, alignment and announced length")
LEVEL = "model_checking"
NOTE = "torch.randperm is replaced by the explorer, which enumerates every permutation of up to 4 samples depth first; longer histories follow a bounded number of deviations from the identity."
ASSUMPTIONS = ["random orders come from torch.randperm; other sources of randomness would only be sampled", "a domain without samples must be refused loudly when it is needed"]
LIMIT = 150


def BOUNDS(tier):
    return "all layouts of up to %d samples over source and target, batch sizes 1-3, 4 length settings / 2 domains; every permutation of every draw up to %d runs per configuration" % (6 if tier == "quick" else 8, LIMIT if tier == "quick" else 16 * LIMIT)


def scenarios(tier):
    q = tier == "quick"
    out = []
    for n in range(2, 7 if q else 9):
        for i, lay in enumerate(itertools.product((0, 1), repeat=n)):
            if q and n == 6 and i % 3:
                continue
            for bs in (1, 2, 3):
                if min(sum(lay), n - sum(lay)):
                    for m in ("max", "min", "source", "target"):
                        out.append({"what": "balanced", "lay": lay, "bs": bs, "max": m, "limit": LIMIT if q else 16 * LIMIT})
                for m in ("source", "target"):
                    out.append({"what": "only", "lay": lay, "bs": bs, "max": m, "limit": LIMIT if q else 16 * LIMIT})
    return out


class Owned:
    """torch.randperm decided by a script."""

    def __init__(self, script):
        self.script, self.arity = list(script), []

    def randperm(self, n, *a, **k):
        i = len(self.arity)
        total = math.factorial(n) if n <= 4 else 2 * n
        self.arity.append(total)
        if i >= len(self.script):
            self.script.append(0)
        c = self.script[i]
        if n <= 4:
            p = nth_arrangement(n, n, c)
        else:
            p = list(range(n)) if c < n else list(range(n))[::-1]
            p = p[c % n:] + p[:c % n]
        return torch.tensor(p, dtype=k.get("dtype") or torch.int64)


def explore(run, limit):
    script = []
    for _ in range(limit):
        o = Owned(script)
        real = torch.randperm
        torch.randperm = o.randperm
        try:
            yield run(), o
        finally:
            torch.randperm = real
        # next script: the earliest draws vary fastest so that every draw is varied within the limit
        s, a = o.script[:len(o.arity)], o.arity
        i = 0
        while i < len(a) and s[i] + 1 >= a[i]:
            s[i] = 0
            i += 1
        if i == len(a):
            return
        s[i] += 1
        script = s


SRC, TGT = (1, 0, 3), (-2, -1)


def data(sc, kind):
    lay = sc["lay"]
    n = len(lay)
    d = np.array([SRC[i % 3] if v else TGT[i % 2] for i, v in enumerate(lay)])
    ids = np.arange(n)
    X = np.stack([ids, ids * 2 + 0.5], 1).astype(np.float32)
    y = np.where(d >= 0, ids % 3, -1)
    w = (ids + 1) * 0.25
    if kind == "deep":
        return DeepDADataset(X, y, d), d, y, None
    if kind == "weighted":
        return DeepDADataset(X, y, d, w), d, y, w
    return Dataset({"X": X, "sample_domain": d}, y), d, y, None


def epochs(loader, n):
    out = []
    for _ in range(n):
        ep = []
        for x, y in loader:
            ep.append({k: np.asarray(v) for k, v in x.items()} | {"y": np.asarray(y)})
        out.append(ep)
    return out


def aligned(r, ctx, batch, d, y, w):
    ids = batch["X"][:, 0].astype(int)
    ok = same(batch["X"][:, 1], ids * 2 + 0.5) and same(batch["sample_domain"], d[ids]) and same(batch["y"], y[ids])
    if w is not None:
        ok = ok and same(batch["sample_weight"], w[ids], 1e-6)
    if "sample_idx" in batch:
        num = np.array([int((d[:i] == d[i]).sum()) for i in range(len(d))])
        ok = ok and same(batch["sample_idx"], num[ids])
    r.check(ok, "batch-alignment", lambda: f"{ctx()}: {batch}")
    return ids


def blocks(r, ctx, seq, members, key):
    """within a domain no sample returns before the whole domain has been used."""
    m = len(members)
    for k in range(0, len(seq), m):
        b = seq[k:k + m]
        r.check(len(set(b)) == len(b) and set(b) <= members, key, lambda: f"{ctx()}: order {seq} repeats inside a pass over {sorted(members)}")  # noqa: B023


def run_balanced(sc, r):
    bs = sc["bs"]
    for kind in ("deep", "weighted", "dict"):
        ds, d, y, w = data(sc, kind)
        S, T = set(np.flatnonzero(d >= 0).tolist()), set(np.flatnonzero(d < 0).tolist())
        full = {"source": len(S) // bs * bs, "target": len(T) // bs * bs}
        full["max"], full["min"] = max(full.values()), min(full.values())
        want = full[sc["max"]]
        n = 0
        for (eps, e), o in explore(lambda: raises(lambda: (lambda ld: (len(ld), epochs(ld, 2)))(DomainBalancedDataLoader(ds, bs, max_samples=sc["max"]))), sc["limit"] if kind == "deep" else 30):  # noqa: B023
            n += 1
            r.step()
            ctx = lambda: f"{sc} {kind} draws {o.script}"  # noqa: E731, B023
            if not r.check(e is None, "loader", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
                return
            ln, eps = eps
            r.check(ln == want // bs, "announced-length", lambda: f"{ctx()}: {ln} batches announced, want {want // bs}")  # noqa: B023
            for ep in eps:
                r.check(len(ep) == want // bs, "batches", lambda: f"{ctx()}: {len(ep)} batches, want {want // bs}")  # noqa: B023
                s_seq, t_seq = [], []
                for b in ep:
                    ids = aligned(r, ctx, b, d, y, w)
                    s = d[ids] >= 0
                    r.check(len(ids) == 2 * bs and s.sum() == bs, "balance", lambda: f"{ctx()}: batch {ids.tolist()} domains {d[ids].tolist()}")  # noqa: B023
                    s_seq += ids[s].tolist()
                    t_seq += ids[~s].tolist()
                blocks(r, ctx, s_seq, S, "early-repeat")
                blocks(r, ctx, t_seq, T, "early-repeat")
                r.check(len(s_seq) == len(t_seq) == want, "samples", lambda: f"{ctx()}: {len(s_seq)} source {len(t_seq)} target samples, want {want}")  # noqa: B023
            r.state(sc, kind, [[b["X"][:, 0].tolist() for b in ep] for ep in eps])
            if r.failures:
                return
        smp = DomainBalancedSampler(ds, bs, max_samples=sc["max"])
        r.check(len(smp) == 2 * want and len(list(smp)) == 2 * want, "announced-length", lambda: f"{sc}: {len(smp)}, {len(list(smp))} want {2 * want}")
    smp = DomainBalancedDataLoader(ds, bs)
    r.check(len(smp) == full["max"] // bs, "default-length", f"{sc}")
    r.trace()
    r.outcome(sc["max"], want > 0)


def run_only(sc, r):
    bs = sc["bs"]
    for kind in ("deep", "weighted", "dict"):
        ds, d, y, w = data(sc, kind)
        M = set(np.flatnonzero(d >= 0 if sc["max"] == "source" else d < 0).tolist())
        want = len(M) // bs * bs
        for (out, e), o in explore(lambda: raises(lambda: (lambda ld: (len(ld), epochs(ld, 2)))(DomainOnlyDataLoader(ds, bs, domain_used=sc["max"]))), sc["limit"] if kind == "deep" else 30):  # noqa: B023
            r.step()
            ctx = lambda: f"{sc} {kind} draws {o.script}"  # noqa: E731, B023
            if not M:
                r.check(e is not None or all(not ep for ep in out[1]), "empty-domain", lambda: f"{ctx()}: {out}")  # noqa: B023
                break
            if not r.check(e is None, "loader", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
                return
            ln, eps = out
            r.check(ln == want // bs, "announced-length", lambda: f"{ctx()}: {ln}")  # noqa: B023
            for ep in eps:
                seq = []
                for b in ep:
                    ids = aligned(r, ctx, b, d, y, w)
                    r.check(len(ids) == bs, "batches", lambda: f"{ctx()}: {ids}")  # noqa: B023
                    seq += ids.tolist()
                r.check(set(seq) <= M and len(set(seq)) == len(seq), "single-domain", lambda: f"{ctx()}: {seq} of {M}")  # noqa: B023
                r.check(len(seq) == want, "samples", lambda: f"{ctx()}: {len(seq)} samples, want {want}")  # noqa: B023
            r.state(sc, kind, [[b["X"][:, 0].tolist() for b in ep] for ep in eps])
            if r.failures:
                return
        if M:
            smp = DomainOnlySampler(ds, bs, domain_used=sc["max"])
            r.check(len(smp) == want, "announced-length", f"{sc}")
    _, e = raises(lambda: DomainOnlyDataLoader(ds, bs, domain_used="both"))
    r.check(isinstance(e, ValueError), "unknown-domain-accepted", f"{e!r}")
    if M and sc["max"] == "source":
        _, e = raises(lambda: list(DomainOnlyDataLoader(ds, bs)))
        r.check(e is None, "default-domain", f"{sc}")
    r.trace()
    r.outcome("only", sc["max"], want > 0)


def run(sc, r):
    (run_balanced if sc["what"] == "balanced" else run_only)(sc, r)
