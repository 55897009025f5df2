"""P28: an interrupted download never poisons the dataset cache.

Explicit-state exploration of the real fetchers over a scratch data folder.  A
state is the content of the folder (names of temporary entries normalised).
Actions: a normal call, a call with downloading disabled, and a call interrupted
at its k-th file system effect, for every k, by a kill (forked process, _exit at
that point; from the second interruption on, in the same process with every later
effect suppressed), an OSError or a KeyboardInterrupt.  Two simultaneous calls are
explored under a controlled scheduler which switches at file system effects.
"""
import hashlib
import os
import re
import shutil
import sys
import tempfile
import threading

import numpy as np

from mc import archives as A

ID = "P28"
TECHNIQUE = "explicit-state exploration of the data folder under every crash and fault point of the real fetchers"
LEVEL = "fault_enumeration"
RULE = "a data folder content (temporary names normalised) counts once per fetcher"
NOTE = "every fetcher is interrupted at every file system effect (kill, OSError, KeyboardInterrupt) from every reachable folder state up to the depth bound; network replaced by a stand-in"
ASSUMPTIONS = ["data already written by a killed process stays on disk in program order (no reordering by the kernel)",
               "the content of a remote archive does not change between calls",
               "the number of identical left-over temporary entries does not matter"]
CHUNK = 1
FETCHERS = ["surf", "decaf", "home", "amazon"]
MODES = ["kill", "oserror", "interrupt"]


def BOUNDS(tier):
    return f"histories of at most {2 if tier == 'quick' else 3} interrupted calls per fetcher; archives of 4 to 7 members; two simultaneous calls with at most {1 if tier == 'quick' else 2} preemptions; one call paused at every effect while another is interrupted at every effect"


def scenarios(tier):
    depth = 2 if tier == "quick" else 3
    for f in FETCHERS:
        for api in ("one", "all"):
            yield {"what": "history", "fetcher": f, "api": api, "depth": depth if api == "one" else depth - 1}
            for first in (0, 1):
                yield {"what": "concurrent", "fetcher": f, "api": api, "first": first, "preempt": 1 if tier == "quick" else 2}
        for mode in MODES:
            for other in ("one", "all") if tier != "quick" else ("one",):
                yield {"what": "beside", "fetcher": f, "api": other, "mode": mode}


def archive(f):
    if f in ("surf", "decaf"):
        return A.office31(f, {0: {"bike": 2, "mug": 1}, 1: {"bike": 1, "mug": 1}, 2: {"bike": 1, "mug": 1}})
    if f == "home":
        return A.office_home([("Art", "a"), ("Clipart", "b"), ("Art", "b"), ("Product", "a"), ("RealWorld", "a")])
    return A.amazon({d: [0, 1, 1] for d in A.AMAZON})


def call(f, api, home, download=True):
    """Rows per domain as sorted lists: comparable with the archive's content."""
    import skada.datasets as D

    kw = dict(data_home=home, download_if_missing=download)
    cols = {"surf": slice(0, 4), "decaf": slice(0, 4), "home": [0, 1, 2, -1], "amazon": [0, 1, 2, -1]}[f]
    name = {"surf": "fetch_office31_surf", "decaf": "fetch_office31_decaf", "home": "fetch_office_home",
            "amazon": "fetch_amazon_review"}[f]
    domains = {"surf": A.OFFICE, "decaf": A.OFFICE, "home": A.HOME, "amazon": A.AMAZON}[f]
    out = {}
    if api == "one":
        X, y = getattr(D, name)(domains[0], return_X_y=True, **kw)
        out[domains[0]] = (X, y)
    else:
        ds = getattr(D, name + "_all")(**kw)
        for d in domains:
            out[d] = ds.get_domain(d)
    return {d: sorted((tuple(np.asarray(x, dtype=float)[cols].tolist()), str(l)) for x, l in zip(X, y))
            for d, (X, y) in out.items()}


def expected(f, api, rows):
    doms = list(rows)[:1] if api == "one" else list(rows)
    if f in ("surf", "decaf"):
        return {d: sorted((tuple(float(v) for v in x), str(sorted({c for _, c in rows[d]}).index(c))) for x, c in rows[d])
                for d in doms}
    if f == "amazon":
        return {d: sorted((x, str(np.float32(c))) for x, c in rows[d]) for d in doms}
    return {d: sorted((x, c) for x, c in rows[d]) for d in doms}


# ---------------------------------------------------------------- fault points
class Ctl:
    root = None      # scratch folder, None: inactive
    hook = None      # callable(tag)


_installed = False
_FS = {"os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate"}


def _audit(event, args):
    if Ctl.root is None:
        return
    if event == "open":
        p, flags = args[0], args[2]
        if not isinstance(p, (str, bytes)) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            return
        p = os.fsdecode(p)
        if not p.startswith(Ctl.root):
            return
        Ctl.hook("open")
    elif event in _FS:
        p = args[0]
        p = os.fsdecode(p) if isinstance(p, (str, bytes)) else str(p)
        if os.path.isabs(p) and not p.startswith(Ctl.root):
            return
        Ctl.hook(event)


def _install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.addaudithook(_audit)
    import tarfile

    def wrap(orig):
        def copyfileobj(src, dst, length=None, *a, **k):
            if Ctl.root is None:
                return orig(src, dst, *(() if length is None else (length,)), *a, **k)
            data = src.read() if orig is shutil_copy or length is None else src.read(length)
            Ctl.hook("write:start")
            dst.write(data[: len(data) // 2])
            dst.flush()
            Ctl.hook("write:half")
            dst.write(data[len(data) // 2:])
        return copyfileobj

    shutil_copy = shutil.copyfileobj
    shutil.copyfileobj = wrap(shutil_copy)
    tarfile.copyfileobj = wrap(tarfile.copyfileobj)


def prefork():
    import torch  # noqa: F401  (imported once, before the forks)
    import skada.datasets  # noqa: F401

    _install()


class _Dead(BaseException):
    pass


class Counter:
    def __init__(self, k, mode):
        self.n, self.k, self.mode, self.dead = 0, k, mode, False

    def __call__(self, tag):
        if self.dead:  # after a simulated kill no effect happens any more
            raise _Dead()
        self.n += 1
        if self.n - 1 == self.k:
            if self.mode == "kill":
                os._exit(77)
            if self.mode == "sim":
                self.dead = True
                raise _Dead()
            if self.mode == "interrupt":
                raise KeyboardInterrupt("planned")
            raise OSError(28, "planned fault")


def attempt(f, api, home, data, k=None, mode=None, download=True):
    """One call of the fetcher; -> (status, value, events, network calls)."""
    cnt = Counter(-1 if k is None else k, mode)
    net = A.Network(data, cnt)
    old = os.path.realpath(home)
    with net.patched():
        Ctl.root, Ctl.hook = old, cnt
        try:
            return "ok", call(f, api, old, download), cnt.n, net.calls
        except (KeyboardInterrupt, _Dead) as e:
            return "exc", e, cnt.n, net.calls
        except OSError as e:
            return "oserror", e, cnt.n, net.calls
        except Exception as e:  # noqa: BLE001
            return "exc", e, cnt.n, net.calls
        finally:
            Ctl.root = None


def killed(f, api, home, data, k):
    pid = os.fork()
    if pid == 0:
        try:
            attempt(f, api, home, data, k, "kill")
        finally:
            os._exit(0)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


KNOWN = {"."}  # entries of the data folder after an undisturbed call


def canon(home):
    """Folder content, temporary names normalised, as a set."""
    out = set()
    for p, c in A.tree(home).items():
        top, _, rest = p.partition(os.sep)
        if top not in KNOWN:
            p = os.path.join("*", rest)
        p = re.sub(r"part_[A-Za-z0-9_]+", "part_", p)
        p = re.sub(r"tmp[a-z0-9_]{8}", "tmp", p)
        out.add((p, None if c is None else hashlib.md5(c).hexdigest()))
    return hashlib.md5(repr(sorted(out, key=str)).encode()).hexdigest()


def run(sc, r):
    prefork()
    data, rows = archive(sc["fetcher"])
    want = expected(sc["fetcher"], sc["api"], rows)
    scratch = tempfile.mkdtemp(prefix="p28-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        {"history": history, "concurrent": concurrent, "beside": beside}[sc["what"]](sc, r, scratch, data, want)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def history(sc, r, scratch, data, want):
    f, api = sc["fetcher"], sc["api"]
    n = [0]

    def fresh(src):
        n[0] += 1
        d = os.path.join(scratch, f"s{n[0]}")
        if src is None:
            os.mkdir(d)
        else:
            shutil.copytree(src, d)
        return d

    start = fresh(None)
    h = fresh(None)
    attempt(f, api, h, data)
    KNOWN.update(os.listdir(h))
    seen = {canon(start): (start, ())}
    level = [(start, ())]
    for depth in range(sc["depth"] + 1):
        nxt = []
        for home, hist in level:
            r.state(f, api, canon(home))
            # -- downloading disabled: complete data or OSError, nothing fetched
            h = fresh(home)
            st, v, _, calls = attempt(f, api, h, data, download=False)
            r.step()
            r.check(calls == 0, "download-although-disabled", f"{hist}")
            r.check(st == "oserror" or (st == "ok" and v == want), "partial-data-when-disabled",
                    f"{hist}: {st} {v}")
            shutil.rmtree(h)
            # -- normal call: complete data; then the cache is complete
            h = fresh(home)
            st, v, events, calls = attempt(f, api, h, data)
            r.step()
            r.trace()
            r.outcome(f, api, st, calls)
            if not r.check(st == "ok", "call-fails-after-interruption", f"after {hist}: {type(v).__name__}: {v}"):
                shutil.rmtree(h)
                continue
            r.check(v == want, "partial-data", f"after {hist}: {v} expected {want}")
            if not hist:
                left = [p for p, c in A.tree(h).items() if c == data]
                r.check(not left, "archive-lingers", f"{left}")
                r.check(calls == 1, "network-calls", f"{calls}")
            st2, v2, _, calls2 = attempt(f, api, h, data, download=False)
            st3, v3, _, calls3 = attempt(f, api, h, data)
            r.step(2)
            r.check(st2 == "ok" and v2 == want and st3 == "ok" and v3 == want, "cache-incomplete-after-success",
                    f"after {hist}: {st2} {v2} {st3} {v3}")
            r.check(calls2 == 0 and calls3 == 0, "download-although-cached", f"{hist}")
            before = canon(h)
            shutil.rmtree(h)
            r.state(f, api, before)
            if depth == sc["depth"]:
                continue
            # -- interruptions at every effect
            for mode in MODES:
                for k in range(events):
                    h = fresh(home)
                    if mode == "kill" and depth == 0:
                        killed(f, api, h, data, k)
                    else:
                        st, v, _, _ = attempt(f, api, h, data, k, "sim" if mode == "kill" else mode)
                        r.check(st != "ok" or v == want, "partial-data-despite-fault", f"{hist} {mode} {k}")
                    r.step()
                    key = canon(h)
                    if key in seen:
                        shutil.rmtree(h)
                    else:
                        seen[key] = h
                        nxt.append((h, hist + ((mode, k),)))
        level = nxt


def beside(sc, r, scratch, data, want):
    """While one call is under way (paused at any effect), another one is interrupted at any effect."""
    f, api, mode = sc["fetcher"], sc["api"], sc["mode"]
    old = os.path.realpath(scratch)

    def go(a, k):
        home = os.path.join(old, "b%d-%d" % (a, k))
        os.mkdir(home)
        n = [0]

        def hook(tag):
            n[0] += 1
            if n[0] - 1 != a:
                return
            saved = Ctl.root, Ctl.hook
            try:
                if mode == "kill" and k % 4 == 0:
                    killed(f, api, home, data, k)
                else:
                    st, v, _, _ = attempt(f, api, home, data, k, "sim" if mode == "kill" else mode)
                    r.check(st != "ok" or v == want, "partial-data-beside", f"{mode} at {k} beside {a}: {v}")
            finally:
                Ctl.root, Ctl.hook = saved
            r.step()

        net = A.Network(data, hook)
        with net.patched():
            Ctl.root, Ctl.hook = home, hook
            try:
                st, v = "ok", call(f, api, home)
            except Exception as e:  # noqa: BLE001
                st, v = "exc", e
            finally:
                Ctl.root = None
        r.trace()
        r.check(st == "ok" and v == want, "call-beside-interrupted", f"{mode} at {k} beside {a}: {st} {v!r}")
        st, v, _, calls = attempt(f, api, home, data, download=False)
        r.check(st == "ok" and v == want and calls == 0, "cache-incomplete-beside", f"{mode} at {k} beside {a}: {st} {v!r}")
        r.state(f, api, canon(home))
        shutil.rmtree(home)
        return n[0]

    total = go(-1, 0)
    r.outcome(f, mode, total > 5)
    for a in range(total):
        for k in range(total):
            go(a, k)


# ---------------------------------------------------------------- two calls
class Sched:
    """Runs two threads one at a time, switching only at planned points."""

    def __init__(self, first, switches):
        self.turn, self.switches = first, dict(switches)
        self.cv = threading.Condition()
        self.done = [False, False]
        self.count = [0, 0]
        self.ids = {}
        self.total = 0

    def me(self):
        return self.ids[threading.get_ident()]

    def point(self, tag):
        if threading.get_ident() not in self.ids:
            return
        i = self.me()
        with self.cv:
            self.total += 1
            if self.switches.get(self.total) and not self.done[1 - i]:
                self.turn = 1 - i
                self.cv.notify_all()
            self.wait(i)

    def wait(self, i):
        if not self.cv.wait_for(lambda: self.turn == i, timeout=60):
            raise RuntimeError("scheduler stuck")

    def finish(self, i):
        with self.cv:
            self.done[i] = True
            if not self.done[1 - i]:
                self.turn = 1 - i
            self.cv.notify_all()


def interleave(f, api, home, data, first, switches):
    s = Sched(first, {p: True for p in switches})
    res = [None, None]
    net = A.Network(data, s.point)

    def body(i):
        s.ids[threading.get_ident()] = i
        with s.cv:
            s.wait(i)
        try:
            res[i] = ("ok", call(f, api, home))
        except BaseException as e:  # noqa: BLE001
            res[i] = ("exc", e)
        finally:
            s.finish(i)

    with net.patched():
        Ctl.root, Ctl.hook = home, s.point
        try:
            ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in (0, 1)]
            [t.start() for t in ts]
            [t.join(120) for t in ts]
        finally:
            Ctl.root = None
    return res, s.total


def concurrent(sc, r, scratch, data, want):
    f, api = sc["fetcher"], sc["api"]
    n = 0

    def go(switches):
        nonlocal n
        n += 1
        home = os.path.realpath(os.path.join(scratch, f"c{n}"))
        os.mkdir(home)
        res, total = interleave(f, api, home, data, sc["first"], switches)
        r.step(total)
        r.trace()
        for st, v in res:
            r.check(st == "ok", "concurrent-call-fails", f"switches {switches}: {type(v).__name__}: {v}")
            r.check(st != "ok" or v == want, "concurrent-partial-data", f"switches {switches}: {v}")
        st, v, _, calls = attempt(f, api, home, data, download=False)
        r.check(st == "ok" and v == want and calls == 0, "cache-incomplete-after-concurrent", f"{switches}: {st} {v}")
        r.state(f, api, canon(home))
        shutil.rmtree(home)
        return total

    total = go(())
    for a in range(1, total + 1):
        t2 = go((a,))
        if sc["preempt"] > 1:
            for b in range(a + 1, t2 + 1):
                go((a, b))
