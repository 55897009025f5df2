"""Synthetic archives of the real datasets, and a stand-in for the network.

Nothing leaves the scratch folder: `urlretrieve` is replaced by a function which
copies an archive built here, and the checksum comparison succeeds exactly for
these bytes.
"""
import contextlib
import io
import os
import tarfile
import zipfile

import numpy as np

OFFICE = ("amazon", "webcam", "dslr")
HOME = ("art", "clipart", "product", "realworld")
AMAZON = ("books", "dvd", "kitchen", "elec")


class _Any(str):
    """A checksum equal to any other one."""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    __hash__ = str.__hash__


def _mat(**kw):
    from scipy.io import savemat

    b = io.BytesIO()
    savemat(b, kw)
    return b.getvalue()


def vec(kind, d, c, i):
    """Feature vector which identifies file i of category c of domain d."""
    n, dt = (800, np.uint8) if kind == "surf" else (1000, np.float64)
    v = np.zeros(n, dtype=dt)
    v[:4] = [d + 1, c + 1, i + 1, 7]
    v[-1] = 9
    return v


def office31(kind, contents, extra=False):
    """contents: {domain index: {category name: number of files}} -> bytes, rows."""
    cats = sorted({c for v in contents.values() for c in v})
    rows = {}
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:gz") as t:
        def add(name, data):
            ti = tarfile.TarInfo(name)
            ti.size = len(data)
            t.addfile(ti, io.BytesIO(data))
        for d, by_cat in contents.items():
            rows[OFFICE[d]] = []
            for c, n in by_cat.items():
                base = f"{OFFICE[d]}/" + (f"interest_points/{c}" if kind == "surf" else f"decaf-fts/{c}")
                if kind == "surf":
                    base = "domain_adaptation_features/" + base
                for i in range(n):
                    v = vec(kind, d, cats.index(c), i)
                    if kind == "surf":
                        add(f"{base}/histogram_{i:04d}.SURF_SURF.amazon_800.SURF_SURF.mat", _mat(histogram=v[None]))
                        if extra:
                            add(f"{base}/histogram_{i:04d}.SURF_SURF.amazon_600.SURF_SURF.mat",
                                _mat(histogram=v[None, :600]))
                    else:
                        add(f"{base}/frame_{i:04d}.mat", _mat(fc8=v[None]))
                    rows[OFFICE[d]].append((tuple(v[:4].tolist()), c))
    return b.getvalue(), rows


def office_home(lines):
    """lines: [(domain text, label)] in file order."""
    b = io.BytesIO()
    rows = {d: [] for d in HOME}
    txt = [",".join([f"f{j}" for j in range(2048)] + ["label", "domain"])]
    for i, (d, lab) in enumerate(lines):
        v = np.zeros(2048)
        v[:3] = [i + 1, 0.5, i * 0.25]
        v[-1] = 3.5 + i
        q = f'"{lab}"' if "," in lab else lab
        txt.append(",".join([repr(float(x)) for x in v] + [q, d]))
        rows[d.lower()].append(((i + 1.0, 0.5, i * 0.25, 3.5 + i), lab))
    with zipfile.ZipFile(b, "w") as z:
        z.writestr("OfficeHomeResnet50.csv", "\n".join(txt) + "\n")
    return b.getvalue(), rows


def amazon(labels, column=True):
    """labels: {domain: [labels]}."""
    b = io.BytesIO()
    rows = {}
    with zipfile.ZipFile(b, "w") as z:
        for k, d in enumerate(AMAZON):
            ls = labels[d]
            fts = np.zeros((len(ls), 400))
            rows[d] = []
            for i, lab in enumerate(ls):
                fts[i, :3] = [k + 1, i + 1, 0.5]
                fts[i, -1] = i
                rows[d].append(((k + 1.0, i + 1.0, 0.5, float(i)), float(lab)))
            y = np.array(ls, dtype=float)
            z.writestr(f"amazon_review/{d}_400.mat", _mat(fts=fts, labels=y[:, None] if column else y[None]))
    return b.getvalue(), rows


class Network:
    """Stand-in of the remote: `fault(tag)` is called before each partial write."""

    def __init__(self, data, point=lambda tag: None):
        self.data, self.calls, self.point = data, 0, point

    def urlretrieve(self, url, path=None, *a, **k):
        self.calls += 1
        self.point("net:start")
        with open(path, "wb") as f:
            f.write(self.data[: len(self.data) // 2])
            f.flush()
            self.point("net:half")
            f.write(self.data[len(self.data) // 2:])
        self.point("net:end")
        return str(path), None

    def sha(self, path):
        with open(path, "rb") as f:
            return _Any("ok") if f.read() == self.data else "corrupted"

    @contextlib.contextmanager
    def patched(self):
        import urllib.request

        import sklearn.datasets._base as skb

        saved = skb.urlretrieve, skb._sha256, urllib.request.urlretrieve, skb.time
        skb.urlretrieve = urllib.request.urlretrieve = self.urlretrieve
        skb._sha256 = self.sha

        class T:
            sleep = staticmethod(lambda s: None)

        skb.time = T
        try:
            yield self
        finally:
            skb.urlretrieve, skb._sha256, urllib.request.urlretrieve, skb.time = saved


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        out[os.path.relpath(d, root)] = None
        for f in fs:
            with open(os.path.join(d, f), "rb") as h:
                out[os.path.relpath(os.path.join(d, f), root)] = h.read()
    return out
