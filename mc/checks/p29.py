"""P29: loading a cached real dataset returns every stored row with its own label."""
import itertools
import os
import shutil
import tempfile
import warnings
from pathlib import Path

import numpy as np

from mc import archives as A
from mc.util import raises, same

ID = "P29"
TECHNIQUE = "exhaustive enumeration of small cache contents x loading options on the real loaders, compared with the list of stored rows"
NOTE = "every cache content within the bounds is built as an archive, installed through the real fetcher (network stand-in) and loaded with every option; MNIST and USPS are replaced by small stand-ins"
ASSUMPTIONS = ["each domain of an Office-31 cache contains at least one file per category it lists",
               "Office-31 label numbers are compared through target_names",
               "torchvision's dataset classes return image i together with its target"]
BOUNDS = lambda tier: "office31: 1-2 files in each of 1-3 categories per domain; office-home: all domain columns of length <= 4 (quick: 3); amazon: all label patterns of 1-2 rows per domain; mnist/usps: 12 images, every subset size, class limit and option"  # noqa: E731
CHUNK = 20
CALTECH = ["back_pack", "bike", "calculator", "headphones", "keyboard", "laptop_computer", "monitor", "mouse", "mug",
           "projector"]


def scenarios(tier):
    # office 31: three categories (two of the Caltech list)
    cats = ("bike", "mug", "ruler")
    for kind in ("surf", "decaf"):
        for counts in itertools.product((0, 1, 2), repeat=3):
            if not any(counts):
                continue
            yield {"what": "office31", "kind": kind, "counts": counts, "cats": cats, "extra": sum(counts) % 2 == 0}
        yield {"what": "office31", "kind": kind, "counts": (1,) * 12, "cats": sorted(CALTECH + ["desk_chair", "pen"]),
               "extra": False}
    for n in range(1, 5 if tier != "quick" else 4):
        for doms in itertools.product(range(4), repeat=n):
            yield {"what": "home", "doms": doms, "case": sum(doms) % 3}
    for pat in itertools.product((0, 1), repeat=4):
        for n in itertools.product((1, 2), repeat=4):
            if tier == "quick" and sum(n) not in (5, 8):
                continue
            yield {"what": "amazon", "first": pat, "sizes": n, "column": sum(pat) % 2 == 0}
    for arg, env, made in itertools.product(("none", "str", "path", "tilde"), ("unset", "set", "tilde"), (False, True)):
        yield {"what": "home-folder", "arg": arg, "env": env, "made": made}
    for f in ("surf", "decaf", "home", "amazon"):
        yield {"what": "names", "fetcher": f}
    for k in range(0, 13):
        for n_classes in (1, 2, 3, 5, 10):
            for train in (False, True):
                yield {"what": "mnist", "k": k, "n_classes": n_classes, "train": train}


def run(sc, r):
    scratch = tempfile.mkdtemp(prefix="p29-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        globals()["run_" + sc["what"].replace("-", "_")](sc, r, scratch)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


SEEDS = (0, 1, 2, 3)


def rows_of(X, y, cols, lab=lambda v: v):
    return [(tuple(np.asarray(x, dtype=float)[cols].tolist()), lab(v)) for x, v in zip(X, y)]


def full_rows_ok(r, X, y, dim, extra_zero):
    r.check(len(X) == len(y), "length-mismatch", f"{np.shape(X)} {np.shape(y)}")
    if len(X):
        r.check(np.shape(X)[1] == dim, "dimension", f"{np.shape(X)}")
        r.check(not np.any(np.asarray(X)[:, extra_zero]), "features-altered", "")


def permutations_ok(r, base, per_seed, key):
    """every shuffled result is a permutation, and some seed moves something"""
    for s, rows in per_seed.items():
        r.check(sorted(rows, key=str) == sorted(base, key=str), f"{key}-shuffle-changes-rows", f"seed {s}: {rows} {base}")
    if len(set(map(str, base))) > 3:
        r.check(any(rows != base for rows in per_seed.values()), f"{key}-shuffle-ineffective", "")


def run_office31(sc, r, scratch):
    import skada.datasets as D

    kind = sc["kind"]
    contents = {d: {c: (1 + (n + d) % 2 if n else 0) for c, n in zip(sc["cats"], sc["counts"]) if n} for d in range(3)}
    data, rows = A.office31(kind, contents, extra=sc["extra"])
    one = getattr(D, f"fetch_office31_{kind}")
    every = getattr(D, f"fetch_office31_{kind}_all")
    have = sorted(c for c, n in zip(sc["cats"], sc["counts"]) if n)
    cols = slice(0, 4)
    dim = 800 if kind == "surf" else 1000
    net = A.Network(data)
    with net.patched():
        sels = [("none", None, have), ("all", D.Office31CategoriesPreset.ALL, have),
                ("caltech", D.Office31CategoriesPreset.CALTECH256, [c for c in have if c in CALTECH])]
        for k in range(1, min(4, len(have) + 1)):
            for sub in itertools.combinations(have[:4], k):
                sels.append((f"list{sub}", list(reversed(sub)), sorted(sub)))
                sels.append((f"missing{sub}", list(sub) + ["unicorn"], sorted(sub)))
        for name, cat, keep in sels:
            kw = dict(categories=cat, data_home=scratch)
            if not keep:
                v, e = raises(lambda: one("amazon", **kw))
                r.check(e is not None or len(v.X) == 0, "empty-selection", f"{name}: {v}")
                r.step()
                continue
            want_all = {}
            for di, dom in enumerate(A.OFFICE):
                want = sorted(((tuple(float(v) for v in x), c) for x, c in rows[dom] if c in keep))
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    b = one([dom, dom.upper(), D.Office31Domain(dom)][di], **kw)
                r.step()
                r.check(any("unicorn" in str(x.message) for x in w) == name.startswith("missing"), "missing-category-warning",
                        f"{name}: {[str(x.message) for x in w]}")
                got = rows_of(b.X, b.y, cols, lambda v: b.target_names[int(v)])
                r.check(sorted(got) == want, "office31-rows", f"{name} {dom}: {sorted(got)} expected {want}")
                r.check(sorted(b.target_names) == keep, "target-names", f"{b.target_names} {keep}")
                full_rows_ok(r, b.X, b.y, dim, slice(4, -1))
                r.check(np.all(np.asarray(b.X)[:, -1] == 9), "features-altered", "")
                r.check(len(b.filenames) == len(b.y) and
                        all(os.path.basename(os.path.dirname(p)) == b.target_names[int(v)] and
                            int(os.path.basename(p).split("_")[1].split(".")[0]) == int(x[2]) - 1 and f"{os.sep}{dom}{os.sep}" in p
                            for p, v, x in zip(b.filenames, b.y, b.X)), "filenames-misaligned", f"{name} {b.filenames} {b.y}")
                X2, y2 = one(dom, return_X_y=True, **kw)
                r.check(rows_of(X2, y2, cols, lambda v: b.target_names[int(v)]) == got, "return-X-y", "")
                want_all[dom] = (got, b.target_names)
                per = {}
                for s in SEEDS:
                    bs = one(dom, shuffle=True, random_state=s, **kw)
                    bt = one(dom, shuffle=True, random_state=np.random.RandomState(s), **kw)
                    r.step(2)
                    per[s] = rows_of(bs.X, bs.y, cols, lambda v: bs.target_names[int(v)])
                    r.check(per[s] == rows_of(bt.X, bt.y, cols, lambda v: bt.target_names[int(v)]), "shuffle-not-reproducible", "")
                    r.check(all(os.path.basename(os.path.dirname(p)) == bs.target_names[int(v)]
                                for p, v in zip(bs.filenames, bs.y)), "filenames-misaligned", f"shuffled {name}")
                permutations_ok(r, got, per, "office31")
                r.state(kind, name, dom, got)
            ds = every(**kw)
            r.step()
            r.check(list(ds.domain_names_) == list(A.OFFICE), "all-domains", f"{list(ds.domain_names_)}")
            for dom, (got, names) in want_all.items():
                X, y = ds.get_domain(dom)
                r.check(rows_of(X, y, cols, lambda v: names[int(v)]) == got, "all-versus-one", f"{name} {dom}")
            ds = every(shuffle=True, random_state=1, **kw)
            for dom, (got, names) in want_all.items():
                X, y = ds.get_domain(dom)
                r.check(sorted(rows_of(X, y, cols, lambda v: names[int(v)])) == sorted(got), "all-shuffled", f"{name} {dom}")
        r.check(net.calls == 1, "network-calls", f"{net.calls}")
    r.trace()
    r.outcome(kind, have, sorted(map(str, rows)))


def _dataset_rows(obj, dom, cols, lab):
    """rows of what a fetcher returns with return_X_y=False (a dataset, or a Bunch)"""
    if hasattr(obj, "get_domain"):
        X, y = obj.get_domain(dom)
    else:
        X, y = obj.X, obj.y
    return rows_of(X, y, cols, lab)


def _check_simple(r, D, one, every, enum, domains, rows, cols, lab, scratch, key, dim, zero):
    for di, dom in enumerate(domains):
        kw = dict(data_home=scratch)
        X, y = one([dom, dom.capitalize(), enum(dom), dom.upper()][di], return_X_y=True, **kw)
        got = rows_of(X, y, cols, lab)
        r.step()
        r.check(got == rows[dom], f"{key}-rows", f"{dom}: {got} expected {rows[dom]}")
        full_rows_ok(r, X, y, dim, zero)
        r.check(_dataset_rows(one(dom, **kw), dom, cols, lab) == got, f"{key}-dataset", dom)
        per = {}
        for s in SEEDS:
            a = one(dom, shuffle=True, random_state=s, return_X_y=True, **kw)
            b = one(dom, shuffle=True, random_state=np.random.RandomState(s), return_X_y=True, **kw)
            r.step(2)
            per[s] = rows_of(*a, cols, lab)
            r.check(per[s] == rows_of(*b, cols, lab), f"{key}-shuffle-not-reproducible", "")
        permutations_ok(r, got, per, key)
        r.state(key, dom, got)
    ds = every(data_home=scratch)
    r.check(list(ds.domain_names_) == list(domains), f"{key}-all-domains", f"{list(ds.domain_names_)}")
    for dom in domains:
        r.check(rows_of(*ds.get_domain(dom), cols, lab) == rows[dom], f"{key}-all-versus-one",
                lambda: f"{dom}: {rows_of(*ds.get_domain(dom), cols, lab)} {rows[dom]}")
    for s in SEEDS[:2]:
        ds = every(data_home=scratch, shuffle=True, random_state=s)
        d2 = every(data_home=scratch, shuffle=True, random_state=s)
        r.step(2)
        for dom in domains:
            g = rows_of(*ds.get_domain(dom), cols, lab)
            r.check(sorted(g) == sorted(rows[dom]), f"{key}-all-shuffled", f"{dom}: {g} {rows[dom]}")
            r.check(g == rows_of(*d2.get_domain(dom), cols, lab), f"{key}-all-shuffle-not-reproducible", "")


def run_home(sc, r, scratch):
    import skada.datasets as D

    names = [("Art", "Clipart", "Product", "RealWorld"), ("art", "clipart", "product", "realworld"),
             ("Art", "clipart", "PRODUCT", "Realworld")][sc["case"]]
    labels = ["Alarm_Clock", "Bed", "Pen, blue", "Alarm_Clock"]
    lines = [(names[d], labels[(d + i) % 4]) for i, d in enumerate(sc["doms"])]
    data, rows = A.office_home(lines)
    net = A.Network(data)
    with net.patched():
        _check_simple(r, D, D.fetch_office_home, D.fetch_office_home_all, D.OfficeHomeDomain, A.HOME, rows, [0, 1, 2, -1], str,
                      scratch, "office-home", 2048, slice(3, -1))
    r.check(net.calls == 1, "network-calls", f"{net.calls}")
    r.trace()
    r.outcome("home", sc["doms"])


def run_amazon(sc, r, scratch):
    import skada.datasets as D

    labels = {d: [(sc["first"][k] + i) % 2 for i in range(sc["sizes"][k] * 2)] for k, d in enumerate(A.AMAZON)}
    data, rows = A.amazon(labels, sc["column"])
    net = A.Network(data)
    with net.patched():
        _check_simple(r, D, D.fetch_amazon_review, D.fetch_amazon_review_all, D.AmazonReviewDomain, A.AMAZON, rows, [0, 1, 2, -1],
                      float, scratch, "amazon", 400, slice(3, -1))
    r.check(net.calls == 1, "network-calls", f"{net.calls}")
    r.trace()
    r.outcome("amazon", sc["first"], sc["sizes"])


def run_names(sc, r, scratch):
    """unknown domains are refused, whatever the state of the cache"""
    import skada.datasets as D
    from mc.checks import p28

    data, rows = p28.archive(sc["fetcher"])
    f = {"surf": D.fetch_office31_surf, "decaf": D.fetch_office31_decaf, "home": D.fetch_office_home,
         "amazon": D.fetch_amazon_review}[sc["fetcher"]]
    net = A.Network(data)
    with net.patched():
        for cached in (False, True):
            for bad in ("", "unknown", "caltech", list(rows)[0] + "s", list(rows)[0][:-1], " " + list(rows)[0]):
                v, e = raises(lambda: f(bad, data_home=scratch))
                r.step()
                r.check(isinstance(e, ValueError), "unknown-domain-accepted", f"{bad!r}: {e!r}")
                r.state(sc["fetcher"], bad, cached)
            if not cached:
                r.check(net.calls == 0, "unknown-domain-downloads", "")
                v, e = raises(lambda: f(list(rows)[0], data_home=scratch, download_if_missing=False))
                r.check(isinstance(e, OSError) and net.calls == 0, "disabled-download", f"{e!r}")
            f(list(rows)[0], data_home=scratch)
        r.check(net.calls == 1, "network-calls", f"{net.calls}")
    r.trace()


def run_home_folder(sc, r, scratch):
    from skada.datasets import get_data_home

    user = os.path.join(scratch, "user")
    os.mkdir(user)
    saved = {k: os.environ.get(k) for k in ("HOME", "SKADA_DATA_FOLDER")}
    try:
        os.environ["HOME"] = user
        os.environ.pop("SKADA_DATA_FOLDER", None)
        if sc["env"] == "set":
            os.environ["SKADA_DATA_FOLDER"] = os.path.join(scratch, "env", "deep")
        elif sc["env"] == "tilde":
            os.environ["SKADA_DATA_FOLDER"] = "~/env"
        arg = {"none": None, "str": os.path.join(scratch, "arg", "x"), "path": Path(scratch) / "argp", "tilde": "~/arg"}[sc["arg"]]
        if arg is not None:
            want = os.path.join(user, "arg") if sc["arg"] == "tilde" else str(arg)
        else:
            want = {"unset": os.path.join(user, "skada_datasets"), "set": os.path.join(scratch, "env", "deep"),
                    "tilde": os.path.join(user, "env")}[sc["env"]]
        if sc["made"]:
            os.makedirs(want)
            Path(want, "keep").write_text("x")
        got = get_data_home(arg)
        again = get_data_home(arg)
        r.step(2)
        r.check(str(got) == want and str(again) == want, "data-home", f"{got} expected {want}")
        r.check(os.path.isdir(want), "data-home-not-created", want)
        r.check(not sc["made"] or os.path.exists(os.path.join(want, "keep")), "data-home-altered", "")
        others = {p for p in ("user/skada_datasets", "env", "user/env", "arg", "argp", "user/arg")
                  if os.path.exists(os.path.join(scratch, p)) and not want.startswith(os.path.join(scratch, p))}
        r.check(not others, "other-folder-created", f"{others}")
        # a fetcher uses the same folder
        data, _ = A.amazon({d: [0, 1] for d in A.AMAZON})
        from skada.datasets import fetch_amazon_review
        net = A.Network(data)
        with net.patched():
            _, e = raises(lambda: fetch_amazon_review("books", data_home=arg))
        inside = set(os.listdir(want)) - {"keep"}
        r.check(e is None and len(inside) == 1, "fetcher-data-home", f"{e!r} {inside}")
        r.state(sc["arg"], sc["env"], sc["made"])
        r.trace()
    finally:
        for k, v in saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def run_mnist(sc, r, scratch):
    import torch
    import torchvision
    from PIL import Image

    from skada.datasets import DomainAwareDataset, load_mnist_usps

    asked = []
    N = {True: 12, False: 9}

    class Fake:
        def __init__(self, root, train=False, transform=None, download=False, **k):
            asked.append(train)
            n = N[train]
            self.transform = transform
            self.data = np.zeros((n, self.S, self.S), dtype=np.uint8)
            self.data[:, 2, 3] = 10 * (np.arange(n) + 1)
            self.data[:, 5, 1] = 100 + self.B + 50 * train
            t = (np.arange(n) * 2 + self.B) % 4
            self.targets = torch.tensor(t) if self.B == 0 else t.tolist()
            self.lab = t

        def __len__(self):
            return len(self.data)

        def __getitem__(self, i):
            im = Image.fromarray(self.data[i])
            return (self.transform(im) if self.transform else im), int(self.lab[i])

    class MNIST(Fake):
        S, B = 28, 0

    class USPS(Fake):
        S, B = 16, 1

    saved = torchvision.datasets.MNIST, torchvision.datasets.USPS
    torchvision.datasets.MNIST, torchvision.datasets.USPS = MNIST, USPS
    try:
        n_samples = sc["k"] / 12
        kw = dict(n_samples=n_samples, n_classes=sc["n_classes"], train=sc["train"])
        base = {}
        for name, F in (("mnist", MNIST), ("usps", USPS)):
            f = F("", train=sc["train"])
            off = 0 if F.B == 0 else 6
            rows = []
            for im, lab in zip(f.data, f.lab):
                if lab < sc["n_classes"]:
                    full = np.zeros((28, 28))
                    full[off:off + F.S, off:off + F.S] = im
                    rows.append(((full / 255 - 0.1307) / 0.3081, int(lab)))
            base[name] = rows
        asked.clear()

        def ident(X, y, name):
            out = []
            for x, v in zip(X, y):
                x = np.asarray(x, dtype=float)
                hit = [i for i, (w, lab) in enumerate(base[name]) if x.shape == (1, 28, 28) and np.abs(x[0] - w).max() < 1e-4]
                if not hit or base[name][hit[0]][1] != int(v):
                    return None
                out.append(hit[0])
            return out

        seen = {}
        for seed in (0, 1, 2):
            ds = load_mnist_usps(return_dataset=True, random_state=seed, **kw)
            r.step()
            r.check(isinstance(ds, DomainAwareDataset) and list(ds.domain_names_) == ["mnist", "usps"], "mnist-dataset", "")
            for name in base:
                X, y = ds.get_domain(name)
                want_n = int(n_samples * len(base[name]))
                ids = ident(X, y, name)
                r.check(len(X) == want_n == len(y), "mnist-size", f"{name}: {len(X)} expected {want_n}")
                r.check(ids is not None, "mnist-row-or-label", f"{name}: {y}")
                r.check(ids is None or len(set(ids)) == len(ids), "mnist-repeated-sample", f"{name}: {ids}")
                seen[seed, name] = ids
                r.state(name, sc["k"], sc["n_classes"], ids)
            if not any(len(base[n]) and int(n_samples * len(base[n])) for n in base):
                continue
            out = load_mnist_usps(return_X_y=True, random_state=seed, **kw)
            b = load_mnist_usps(return_X_y=False, random_state=np.random.RandomState(seed), **kw)
            r.step(2)
            X, y, sd = out
            y, sd = np.asarray(y), np.asarray(sd)
            for name, m in (("mnist", sd >= 0), ("usps", sd < 0)):
                ids = ident(np.asarray(X)[m], y[m], name)
                r.check(ids == seen[seed, name], "mnist-pack", f"{name}: {ids} {seen[seed, name]}")
            r.check(same(b.X, X, 1e-9) and same(b.y, y) and same(b.sample_domain, sd), "mnist-bunch", "")
        r.check(set(asked) == {sc["train"]}, "mnist-train-flag", f"{asked}")
        for bad in (-0.1, 1.1):
            _, e = raises(lambda: load_mnist_usps(n_samples=bad))
            r.check(isinstance(e, ValueError), "mnist-bad-size", f"{e!r}")
        r.trace()
        r.outcome(sc["k"], sc["n_classes"], str(seen))
    finally:
        torchvision.datasets.MNIST, torchvision.datasets.USPS = saved
