import itertools
import warnings

import numpy as np
from scipy.stats import multivariate_normal, norm

from mc.util import raises, same
from skada.datasets import DomainAwareDataset, make_dataset_from_moons_distribution, make_shifted_blobs, make_shifted_datasets, make_variable_frequency_dataset

warnings.filterwarnings("ignore")

ID = "P27"
TECHNIQUE = ("exhaustive enumeration of the generators' documented option space (sizes, shifts, label kinds, noise forms, ratios, positions, return modes, seeds as int or RandomState) on the real generators; every data set is "
             "monitored against the announced geometry (pointwise cluster membership, exact shifts, counts, density-valued labels)")
LEVEL = "model_checking"
NOTE = "Pointwise membership uses 7 standard deviations; noise levels are compared with the noise-free data where the draw order makes them comparable, otherwise through the empirical standard deviation of many points."
ASSUMPTIONS = ["positions on the moons are in [0, 1)", "sigma_ch and n_frequency_source of the frequency data are documented but unused"]


def BOUNDS(tier):
    return "sizes %s, all shifts x labels x noise x standardise x return modes x %d seeds" % (("1-6", 2) if tier == "quick" else ("1-12", 5))


SHIFTS, LABELS = ("covariate_shift", "target_shift", "conditional_shift", "subspace"), ("binary", "multiclass", "regression")


def scenarios(tier):
    q = tier == "quick"
    seeds = range(2 if q else 5)
    sizes = (1, 2, 3, 6) if q else (1, 2, 3, 4, 5, 6, 7, 12)
    out = []
    for sh, lb, ns, nt, sd in itertools.product(SHIFTS, LABELS, sizes, sizes, seeds):
        out.append({"what": "shifted", "shift": sh, "label": lb, "ns": ns, "nt": nt, "seed": sd})
    for n, f, c, sd in itertools.product((3, 4, 7, 20) if q else (3, 4, 5, 7, 12, 20), (1, 2, 3), (None, 2, 4, "array", "list"), seeds):
        out.append({"what": "blobs", "n": n, "f": f, "centers": c, "seed": sd})
    for a, b, ns, nt, sd in itertools.product(POS, POS, (1, 4), (1, 3), seeds):
        out.append({"what": "moons", "src": a, "tgt": b, "ns": ns, "nt": nt, "seed": sd})
    for k, f, c, df, sd in itertools.product((1, 2, 3), (1, 2), (1, 2, 3), (0, 1, 3.5), seeds):
        out.append({"what": "freq", "classes": k, "freqs": f, "channels": c, "delta": df, "seed": sd})
    for g in range(4):
        out.append({"what": "noise", "gen": g})
        out.append({"what": "modes", "gen": g})
    return out


POS = (0.1, 0.0, 0.99, np.float64(0.5), (0.2,), (0.1, 0.3, 0.9), np.array([0.4, 0.7]))


def split(out):
    X, y, d = out
    return X[d >= 0], y[d >= 0], X[d < 0], y[d < 0]


def layout(r, ctx, X, y, d, n_s, n_t, shape, labels=(1, -2)):
    r.check(len(X) == len(y) == len(d) == n_s + n_t and X.shape[1:] == shape, "layout", lambda: f"{ctx()}: {X.shape} {y.shape} {d.shape}, want {n_s}+{n_t} of {shape}")
    r.check(bool(np.isfinite(X).all() and np.isfinite(y.astype(float)).all()), "finite", lambda: f"{ctx()}")
    r.check(int((d >= 0).sum()) == n_s and int((d < 0).sum()) == n_t, "layout", lambda: f"{ctx()}: domains {d.tolist()}")
    if labels:
        r.check(set(d[d >= 0].tolist()) <= {labels[0]} and set(d[d < 0].tolist()) <= {labels[1]}, "domain-labels", lambda: f"{ctx()}: {set(d.tolist())}")


# ---------------------------------------------------------------- shifted data sets
CL = [((-1.5, 3), [[0.15, 0], [0, 0.3]]), ((-0.5, 1), [[0.2, -0.1], [-0.1, 0.2]]), ((1, -0.4), [[0.17, -0.05], [-0.05, 0.17]]), ((3, -1), [[0.3, 0], [0, 0.15]])]


def member(x, k):
    """is x a possible draw of cluster k (0: the disc, 1-4: Gaussians)?"""
    if k == 0:
        return np.linalg.norm(np.linalg.solve(np.array([[2, -0.5], [-0.5, 2]]).T, x - np.array([2, 2]))) <= 1 + 1e-9
    m, S = CL[k - 1]
    return np.linalg.norm(np.linalg.solve(np.array(S, float).T, x - np.array(m))) < 7


def member_sub(x, k):
    m, s = ((-1, 1), 0.5) if k == 0 else ((1.5, 0.5), 0.1) if k in (1, 2) else ((-0.5, -1.5), 0.2)
    return np.linalg.norm((x - np.array(m)) / s) < 7


def run_shifted(sc, r):
    ns, nt, sh, lb = sc["ns"], sc["nt"], sc["shift"], sc["label"]
    combos = [{}]
    if sh == "target_shift":
        combos += [{"ratio": v} for v in (0.0, 0.25, 0.5, 1.0)]
    if sh == "conditional_shift":
        combos += [{"mean": -2.0, "sigma": 3.0}, {"mean": 0, "sigma": 1}, {"sigma": 0.5}, {"mean": (1.0, -2.0)}]
    if sh == "covariate_shift":
        combos += [{"gamma": 0.5, "center_cov_shift": (2, 0)}, {"gamma": 0.0}]
    if lb == "regression":
        combos += [{"regression_scaling_constant": 2}]
        combos += [{"mu_regression": 0.5, "sigma_regression": 2.0}] if sh == "subspace" else [{"mu_regression": np.array([1.0, 0.5]), "sigma_regression": np.array([[2.0, 0.3], [0.3, 1.0]])}]
    K = 4 if sh == "subspace" else 8
    for kw in combos:
        ctx = lambda: f"{sc} {kw}"  # noqa: E731, B023
        r.step()
        out, e = raises(lambda: make_shifted_datasets(ns, nt, shift=sh, label=lb, random_state=sc["seed"], **kw))  # noqa: B023
        if not r.check(e is None, "generate", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
            return
        X, y, d = out
        layout(r, ctx, X, y, d, K * ns, K * nt, (2,))
        if r.failures:
            return
        xs, ys, xt, yt = split(out)
        if sh == "conditional_shift":
            xt = (xt - np.asarray(kw.get("mean", 1))) / kw.get("sigma", 0.7)
        if sh == "subspace":
            xt = -xt
        for side, x, yy, n in (("source", xs, ys, ns), ("target", xt, yt, nt)):
            if lb == "regression":
                c = kw.get("regression_scaling_constant", 27)
                if sh == "subspace":
                    want = norm(kw.get("mu_regression", 0), np.sqrt(kw.get("sigma_regression", 1))).pdf(x.sum(1) / 2) * c
                else:
                    want = multivariate_normal(kw.get("mu_regression", np.zeros(2)), kw.get("sigma_regression", np.eye(2))).pdf(x) * c
                r.check(same(yy, np.atleast_1d(want), 1e-9), "regression-labels", lambda: f"{ctx()} {side}: labels {yy[:4]} density {np.atleast_1d(want)[:4]}")  # noqa: B023
                continue
            f = member_sub if sh == "subspace" else member
            for xi, yi in zip(x, yy):
                if lb == "multiclass":
                    ok = yi in range(5) and f(xi, yi)
                else:
                    ok = yi in (0, 1) and (f(xi, 0) if yi == 0 else any(f(xi, k) for k in range(1, 5)))
                r.check(ok, "label-of-cluster", lambda: f"{ctx()} {side}: point {xi} cannot belong to class {yi}")  # noqa: B023
            zeros = int((yy == 0).sum())
            if side == "target" and sh == "target_shift":
                want = K * n * kw.get("ratio", 0.9)
                r.check(abs(zeros - want) < 1 + 1e-9, "class-ratio", lambda: f"{ctx()}: {zeros} of {K * n} target points in class 1, want about {want}")  # noqa: B023
            elif side == "source" or sh != "covariate_shift":
                r.check(zeros == K * n // 2, "class-count", lambda: f"{ctx()} {side}: {zeros} of {K * n} points in the first class")  # noqa: B023
                if lb == "multiclass":
                    cnt = [int((yy == k).sum()) for k in range(1, 5)]
                    ok = sum(cnt) == K * n // 2 and (sh == "subspace" and max(cnt) - min(cnt) <= 1 or cnt == [n] * 4)
                    r.check(ok, "class-count", lambda: f"{ctx()} {side}: class sizes {cnt}")  # noqa: B023
        if sh == "covariate_shift" and nt >= 3:
            g, c = kw.get("gamma", 2), np.array(kw.get("center_cov_shift", (0, 2)))
            a, b = ((xt - c) ** 2).sum(1).mean(), ((xs - c) ** 2).sum(1).mean()
            if g:
                r.check(a < 1.5 / g + 1 and a < b, "covariate-shift", lambda: f"{ctx()}: mean squared distance to the centre {a} (target) {b} (source)")  # noqa: B023
        if sh == "target_shift":
            r.check(len(np.unique(xt, axis=0)) == len(xt), "distinct-points", ctx)
        # standardisation applies to both domains together
        z, e = raises(lambda: make_shifted_datasets(ns, nt, shift=sh, label=lb, random_state=sc["seed"], standardize=True, **kw))  # noqa: B023
        m, s = X.mean(0), X.std(0)
        r.check(e is None and same(z[0], (X - m) / s, 1e-9) and same(z[1], y) and same(z[2], d), "standardize", lambda: f"{ctx()}: {e!r}")  # noqa: B023
        r.state(sc, str(kw))
    _, e = raises(lambda: make_shifted_datasets(2, 2, shift="nope"))
    _, e2 = raises(lambda: make_shifted_datasets(2, 2, shift=sh, label="nope"))
    r.check(isinstance(e, ValueError) and isinstance(e2, ValueError), "unknown-option", lambda: f"{e!r} {e2!r}")
    r.trace()
    r.outcome(sh, lb)


# ---------------------------------------------------------------- blobs
def run_blobs(sc, r):
    f, n = sc["f"], sc["n"]
    cen = {"array": np.arange(3 * f).reshape(3, f) * 50.0, "list": None}.get(sc["centers"], sc["centers"])
    samples = [n, 1, 2] if sc["centers"] == "list" else n
    total = n + 3 if sc["centers"] == "list" else n
    k = 3 if sc["centers"] in (None, "array", "list") else sc["centers"]
    for shift in (0.10, 0.0, -3, np.arange(1, f + 1) * 0.5, list(range(f))):
        for std in (1.0, 0.01) if sc["centers"] != "array" else (0.01, np.array([0.01, 0.1, 1.0])):
            r.step()
            out, e = raises(lambda: make_shifted_blobs(n_samples=samples, n_features=f, shift=shift, centers=cen, cluster_std=std, random_state=sc["seed"]))  # noqa: B023
            ctx = lambda: f"{sc} shift {shift} std {std}"  # noqa: E731, B023
            if not r.check(e is None, "generate", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
                return
            layout(r, ctx, *out, total, total, (f,))
            xs, ys, xt, yt = split(out)
            r.check(same(xt, xs + np.asarray(shift), 1e-12) and same(ys, yt), "constant-shift", lambda: f"{ctx()}: {xt - xs}")  # noqa: B023
            cnt = np.bincount(ys.astype(int), minlength=k)
            if sc["centers"] == "list":
                r.check(cnt.tolist() == samples, "class-count", lambda: f"{ctx()}: {cnt}")  # noqa: B023
            else:
                r.check(len(cnt) == k and cnt.max() - cnt.min() <= 1, "class-count", lambda: f"{ctx()}: {cnt}")  # noqa: B023
            if sc["centers"] == "array":
                s = np.broadcast_to(std, (3,))
                ok = all(np.abs(x - cen[int(c)]).max() < 7 * s[int(c)] for x, c in zip(xs, ys))
                r.check(ok, "label-of-cluster", lambda: f"{ctx()}: {xs} {ys}")  # noqa: B023
            elif std == 0.01:
                for c in range(k):
                    r.check(bool((np.ptp(xs[ys == c], axis=0) < 0.14).all()) if (ys == c).sum() > 1 else True, "cluster-spread", lambda: f"{ctx()}: class {c} {xs[ys == c]}")  # noqa: B023
            r.state(sc, str(shift), str(std))
    r.trace()
    r.outcome(f, k)


# ---------------------------------------------------------------- moons
def centres(pos):
    t = np.pi * int(pos * 100) / 99
    return np.array([np.cos(t), np.sin(t)]), np.array([1 - np.cos(t), 0.5 - np.sin(t)])


def run_moons(sc, r):
    a, b, ns, nt = sc["src"], sc["tgt"], sc["ns"], sc["nt"]
    la = [a] if np.ndim(a) == 0 else list(a)
    lb = [b] if np.ndim(b) == 0 else list(b)
    ctx = lambda: f"{sc}"  # noqa: E731
    r.step()
    ds, e = raises(lambda: make_dataset_from_moons_distribution(ns, nt, pos_source=a, pos_target=b, random_state=sc["seed"], return_dataset=True))
    out, e2 = raises(lambda: make_dataset_from_moons_distribution(ns, nt, pos_source=a, pos_target=b, random_state=sc["seed"]))
    if not r.check(e is None and e2 is None, "generate", lambda: f"{ctx()}: {e!r} {e2!r}"):
        return
    X, y, d = out
    layout(r, ctx, X, y, d, 2 * ns * len(la), 2 * nt * len(lb), (2,), None)
    names_s = ["s"] if np.ndim(a) == 0 else [f"s{i}" for i in range(len(la))]
    names_t = ["t"] if np.ndim(b) == 0 else [f"t{i}" for i in range(len(lb))]
    ids = ds.domain_names_
    r.check(list(ids) == names_s + names_t, "domain-names", lambda: f"{ctx()}: {ids}")
    for side, names, pos, n, sg in (("source", names_s, la, ns, 1), ("target", names_t, lb, nt, -1)):
        for nm, p in zip(names, pos):
            m = d == sg * ids[nm]
            x, yy = X[m], y[m]
            if not r.check(len(x) == 2 * n, "layout", lambda: f"{ctx()}: {nm} has {len(x)} samples"):  # noqa: B023
                return
            r.check([int((yy == c).sum()) for c in (0, 1)] == [n, n], "class-count", lambda: f"{ctx()}: {nm} {yy}")  # noqa: B023
            c = centres(p)
            ok = all(np.linalg.norm(xi - c[int(yi)]) < 0.7 for xi, yi in zip(x, yy))
            r.check(ok, "position", lambda: f"{ctx()}: {nm} at {p}: points {x.tolist()} labels {yy} centres {c}")  # noqa: B023
    r.state(sc["src"], sc["tgt"], ns, nt, sc["seed"])
    r.trace()
    r.outcome(len(la), len(lb))


# ---------------------------------------------------------------- frequencies
def spectrum(x):
    return np.abs(np.fft.rfft(x, axis=-1)) ** 2


def run_freq(sc, r):
    k, f, c, n = sc["classes"], sc["freqs"], sc["channels"], 2
    r.step()
    out, e = raises(lambda: make_variable_frequency_dataset(n, n + 1, n_channels=c, n_frequencies=f, n_classes=k, delta_f=sc["delta"], band_size=1, sigma_freq=0.0, random_state=sc["seed"]))
    ctx = lambda: f"{sc}"  # noqa: E731
    if not r.check(e is None, "generate", lambda: f"{ctx()}: {e!r}"):
        return
    layout(r, ctx, *out, n * k, (n + 1) * k, (c, 3000))
    xs, ys, xt, yt = split(out)
    r.check([int((ys == i).sum()) for i in range(k)] == [n] * k and [int((yt == i).sum()) for i in range(k)] == [n + 1] * k, "class-count", lambda: f"{ctx()}: {ys} {yt}")
    hz = np.fft.rfftfreq(3000, 1 / 100)
    bands = []
    for i in range(k):
        # fraction of the energy inside every unit band starting at an integer frequency
        ps, pt = spectrum(xs[ys == i]).sum((0, 1)), spectrum(xt[yt == i]).sum((0, 1))
        es = np.array([ps[(hz >= q - 0.05) & (hz <= q + 1.05)].sum() for q in range(15)]) / ps.sum()
        et = np.array([pt[(hz >= q + sc["delta"] - 0.05) & (hz <= q + sc["delta"] + 1.05)].sum() for q in range(15)]) / pt.sum()
        # the chosen bands hold most of the energy, in the target after the shift
        own = sorted(np.argsort(es)[-f:].tolist())
        best = max(itertools.combinations(range(15), f), key=lambda b: sum(ps[np.any([(hz >= q - 0.05) & (hz <= q + 1.05) for q in b], 0)] for _ in (0,)).sum())
        cover = lambda p, dlt: p[np.any([(hz >= q + dlt - 0.05) & (hz <= q + dlt + 1.05) for q in best], 0)].sum() / p.sum()  # noqa: E731, B023
        r.check(cover(ps, 0) > 0.9, "class-band", lambda: f"{ctx()} class {i}: only {cover(ps, 0)} of the energy in bands {best} {own}")  # noqa: B023
        r.check(cover(pt, sc["delta"]) > 0.9, "frequency-shift", lambda: f"{ctx()} class {i}: only {cover(pt, sc['delta'])} of the target energy in bands {best} shifted by {sc['delta']} ({es} {et})")  # noqa: B023
        bands.append(best)
        # channels carry different fixed gains; no time sample stands out
        for x in np.concatenate([xs[ys == i], xt[yt == i]]):
            late = np.abs(x[:, 1500:]).max()
            r.check(bool(np.abs(x).max() <= 6 * late), "time-homogeneous", lambda: f"{ctx()}: an early sample dominates")  # noqa: B023
    r.check(len(set(itertools.chain(*bands))) == k * f, "distinct-bands", lambda: f"{ctx()}: {bands}")
    r.state(sc, bands)
    r.trace()
    r.outcome(k, f)


# ---------------------------------------------------------------- noise and return modes
GENS = [(lambda **k: make_shifted_blobs(**({"n_samples": 400, "cluster_std": 0.0, "centers": 1, "shift": 0.0} | k)), "blobs"),
        (lambda **k: make_shifted_datasets(**({"n_samples_source": 60, "n_samples_target": 50} | k)), "shifted"),
        (lambda **k: make_dataset_from_moons_distribution(**({"n_samples_source": 300, "n_samples_target": 250} | k)), "moons"),
        (lambda **k: make_variable_frequency_dataset(**({"n_samples_source": 2, "n_samples_target": 2, "n_classes": 2} | k)), "freq")]


def run_noise(sc, r):
    g, name = GENS[sc["gen"]]
    variants = [{}]
    if name == "shifted":
        variants = [{"shift": s, "label": lb} for s in SHIFTS for lb in ("binary", "regression")]
    if name == "moons":
        variants = [{}, {"pos_source": (0.1, 0.4), "pos_target": (0.2, 0.6, 0.8)}]
    for v, seed in itertools.product(variants, (0, 1)):
        clean = split(g(random_state=seed, **v))
        zero = split(g(random_state=seed, noise=0.0, **v))
        ctx = lambda: f"{name} {v} seed {seed}"  # noqa: E731, B023
        sequential = name != "moons"  # the data are drawn before the noise
        if sequential:
            r.check(all(same(a, b) for a, b in zip(clean, zero)), "noise-zero", lambda: f"{ctx()}: noise=0 changes the data")  # noqa: B023
        for noise, ss, st in ((0.3, 0.3, 0.3), ((0.5, 2.0), 0.5, 2.0), ([2.0, 0.1], 2.0, 0.1), (np.array([0.0, 1.0]), 0.0, 1.0), ((1.0, 0.0), 1.0, 0.0), (np.float64(0.7), 0.7, 0.7), (1, 1.0, 1.0)):
            r.step()
            out, e = raises(lambda: g(random_state=seed, noise=noise, **v))  # noqa: B023
            if not r.check(e is None, "generate", lambda: f"{ctx()} noise {noise}: {e!r}"):  # noqa: B023
                return
            xs, ys, xt, yt = split(out)
            if sequential:
                r.check(same(ys, clean[1]) and same(yt, clean[3]), "noise-labels", lambda: f"{ctx()} noise {noise}: labels change")  # noqa: B023
                for side, x, x0, s in (("source", xs, clean[0], ss), ("target", xt, clean[2], st)):
                    dev = x - x0
                    r.check(abs(dev.std() - s) < 0.15 * s + 1e-12 and abs(dev.mean()) < 0.3 * s + 1e-12, "noise-level", lambda: f"{ctx()} noise {noise}: {side} noise has deviation {dev.std()}, want {s}")  # noqa: B023
                a, b = (xs - clean[0]).ravel(), (xt - clean[2]).ravel()
                m = min(len(a), len(b))
                if ss and st:
                    r.check(abs(np.corrcoef(a[:m], b[:m])[0, 1]) < 0.2, "noise-independent", lambda: f"{ctx()} noise {noise}: both domains get the same noise")  # noqa: B023
            else:
                X, y, d = out
                for lab in np.unique(d):
                    for c in (0, 1):
                        x = X[(d == lab) & (y == c)]
                        s = np.sqrt(0.01 + (ss if lab >= 0 else st) ** 2)
                        r.check(abs(x.std(0).mean() / s - 1) < 0.15, "noise-level", lambda: f"{ctx()} noise {noise}: domain {lab} has deviation {x.std(0)}, want {s}")  # noqa: B023
            r.state(name, str(v), seed, str(noise))
    r.trace()
    r.outcome(name)


def run_modes(sc, r):
    g, name = GENS[sc["gen"]]
    small = {"blobs": {"n_samples": 7, "cluster_std": 1.0, "centers": 3}, "shifted": {"n_samples_source": 2, "n_samples_target": 3}, "moons": {"n_samples_source": 3, "n_samples_target": 2, "pos_target": (0.2, 0.4)},
             "freq": {"n_samples_source": 1, "n_samples_target": 1, "n_classes": 2}}[name]
    variants = [{"noise": x} for x in (None, 0.1, (0.1, 0.2))]
    if name == "shifted":
        variants = [dict(v, shift=s, label=lb, standardize=st) for v in variants for s in SHIFTS for lb in LABELS for st in (False, True)]
    seen = {}
    for v, seed in itertools.product(variants, (0, 5)):
        kw = small | v
        ctx = lambda: f"{name} {kw} seed {seed}"  # noqa: E731, B023
        st = np.random.get_state()[1].copy()
        r.step(5)
        (X, y, d), e = raises(lambda: g(random_state=seed, **kw))  # noqa: B023
        again = g(random_state=seed, **kw)
        inst = g(random_state=np.random.RandomState(seed), **kw)
        bunch = g(random_state=seed, return_X_y=False, **kw)
        ds = g(random_state=seed, return_dataset=True, **kw)
        r.check(bool((st == np.random.get_state()[1]).all()), "global-generator", lambda: f"{ctx()}: a seeded call changes the global generator")  # noqa: B023
        r.check(all(same(a, b) for a, b in zip((X, y, d), again)), "seed", lambda: f"{ctx()}: two calls differ")  # noqa: B023
        inst2 = g(random_state=np.random.RandomState(seed), **kw)
        r.check(all(same(a, b) for a, b in zip(inst, inst2)) and inst[0].shape == X.shape, "seed-instance", lambda: f"{ctx()}: two calls with equal RandomState instances differ")  # noqa: B023
        r.check(same(bunch.X, X) and same(bunch.y, y) and same(bunch.sample_domain, d), "bunch", lambda: f"{ctx()}")  # noqa: B023
        r.check(isinstance(ds, DomainAwareDataset), "dataset", lambda: f"{ctx()}: {type(ds)}")  # noqa: B023
        ids = ds.domain_names_
        r.check(bunch.domain_ids == ids if "domain_ids" in bunch else True, "bunch", lambda: f"{ctx()}: {bunch.keys()}")  # noqa: B023
        S, T = [n for n in ids if n[0] == "s"], [n for n in ids if n[0] == "t"]
        p = ds.pack(as_sources=S, as_targets=T, mask_target_labels=False)
        r.check(all(same(a, b) for a, b in zip((X, y, d), p)), "dataset", lambda: f"{ctx()}: the returned dataset packs to other data")  # noqa: B023
        r.check(X.flags.writeable and not np.shares_memory(X[d >= 0], X[d < 0]), "own-memory", ctx)
        seen.setdefault(str(v), []).append(X)
        r.state(name, str(v), seed)
    for v, xs in seen.items():
        r.check(not same(*xs), "seed-matters", lambda: f"{name} {v}: seeds 0 and 5 give the same data")  # noqa: B023
    a, b = g(random_state=None, **small), g(random_state=None, **small)
    r.check(not same(a[0], b[0]), "unseeded", lambda: f"{name}: two unseeded calls agree")
    r.trace()
    r.outcome(name)


def run(sc, r):
    globals()["run_" + sc["what"]](sc, r)
