"""Controlled scheduler: real threads of which exactly one runs at a time, switched at chosen lines of skada's source.

A plan is a list of (thread, steps): the thread runs `steps` line events inside skada (all of them for None), then hands over.
Threads that have ended are skipped; what is left runs to the end in thread order.
"""
import os
import sys
import threading

import sklearn

REPO = os.path.realpath(os.environ.get("SKADA_REPO", "/repo"))
SRC = os.path.join(REPO, "skada") + os.sep
_KNOWN = {}
WAIT = 120


def _mine(code):
    f = code.co_filename
    if f not in _KNOWN:
        _KNOWN[f] = os.path.realpath(f).startswith(SRC) and os.sep + "tests" + os.sep not in f
    return _KNOWN[f]


class _Lines:
    """line events of skada's code in the thread that is running, through sys.monitoring (no cost elsewhere)."""

    tool = None
    hook = None

    @classmethod
    def on(cls, hook):
        mon = sys.monitoring
        if cls.tool is None:
            cls.tool = mon.PROFILER_ID
            mon.use_tool_id(cls.tool, "sched")
            mon.register_callback(cls.tool, mon.events.PY_START, cls._start)
            mon.register_callback(cls.tool, mon.events.LINE, cls._line)
            mon.set_events(cls.tool, mon.events.PY_START)
        cls.hook = hook

    @classmethod
    def _start(cls, code, offset):
        mon = sys.monitoring
        if _mine(code):
            mon.set_local_events(cls.tool, code, mon.events.LINE)
        return mon.DISABLE

    @classmethod
    def _line(cls, code, line):
        if cls.hook is not None:
            cls.hook(code, line)


def points(fn, per_line=2):
    """(result or exception, step numbers of the first `per_line` and the last visit of every line, all steps)."""
    _Lines.on(None)
    outcome(fn)  # every function is instrumented from its second call on
    visits, n = {}, 0

    def hook(code, line):
        nonlocal n
        visits.setdefault((code.co_filename, line), []).append(n)
        n += 1

    _Lines.on(hook)
    try:
        out = outcome(fn)
    finally:
        _Lines.on(None)
    pts = sorted({i for v in visits.values() for i in v[:per_line] + v[-1:]})
    return out, pts, n


def outcome(fn):
    try:
        return fn(), None
    except Exception as e:  # noqa: BLE001
        return None, e


class Deadlock(Exception):
    pass


class Run:
    def __init__(self, fns, plan):
        self.fns, self.plan = fns, list(plan)
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * len(fns)
        self.out = [None] * len(fns)
        self.left = None
        self.finished = threading.Event()
        self.switches = 0
        self.ids = {}

    def _next(self, me):
        """hand over to the next thread of the plan; True when `me` has to wait."""
        while self.plan:
            t, steps = self.plan.pop(0)
            if self.done[t] or steps == 0:
                continue
            break
        else:
            alive = [t for t in range(len(self.fns)) if not self.done[t]]
            if not alive:
                self.finished.set()
                return False
            t, steps = (me if me in alive else alive[0]), None
        self.left = steps
        if t == me:
            return False
        self.switches += 1
        self.sems[t].release()
        return True

    def _wait(self, t):
        if not self.sems[t].acquire(timeout=WAIT):
            raise Deadlock("a thread waited %d s" % WAIT)

    def _hook(self, code, line):
        t = self.ids.get(threading.get_ident())
        if t is None or self.left is None:
            return
        if self.left == 0:
            if self._next(t):
                self._wait(t)
        if self.left is not None:
            self.left -= 1

    def _thread(self, t):
        sklearn.set_config(enable_metadata_routing=True)  # scikit-learn keeps its settings per thread
        self._wait(t)
        self.ids[threading.get_ident()] = t
        try:
            self.out[t] = outcome(self.fns[t])
        finally:
            self.done[t] = True
            del self.ids[threading.get_ident()]
            self._next(t)

    def go(self):
        ths = [threading.Thread(target=self._thread, args=(t,), daemon=True) for t in range(len(self.fns))]
        for th in ths:
            th.start()
        _Lines.on(self._hook)
        try:
            self._next(-1)
            if not self.finished.wait(WAIT):
                raise Deadlock("no progress")
            for th in ths:
                th.join(WAIT)
        finally:
            _Lines.on(None)
        return self.out
