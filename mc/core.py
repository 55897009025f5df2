"""Shared explorer: runs every scenario of a finite space on the real code,
records states/transitions/traces, writes evidence and replay artefacts.

A check module defines
    ID, LEVEL (default "model_checking"), ASSUMPTIONS, BOUNDS(tier) -> str
    scenarios(tier) -> iterable of JSON-able dicts (the complete bounded space)
    run(sc, r)      -> executes ONE scenario on the real code, comparing with the
                       reference model; reports through the Recorder `r`.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SKADA_REPO", "/repo")
SCENARIO_TIMEOUT = 240


def setup_env():
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    os.environ["PYTHONWARNINGS"] = "ignore"


def canon(obj):
    """Canonical, hashable text of a (nested) state."""
    import numpy as np

    if isinstance(obj, np.ndarray):
        if obj.dtype.kind == "f":
            obj = np.where(np.isnan(obj), 9.25e300, np.round(obj, 9) + 0.0)
        return f"a{obj.shape}{obj.dtype.kind}{obj.tolist()}"
    if isinstance(obj, dict):
        return "{" + ",".join(f"{canon(k)}:{canon(v)}" for k, v in sorted(
            obj.items(), key=lambda kv: str(kv[0]))) + "}"
    if isinstance(obj, (list, tuple)):
        return "[" + ",".join(canon(v) for v in obj) + "]"
    if isinstance(obj, float):
        return f"{round(obj, 9)}"
    return str(obj)


def h64(obj):
    return int.from_bytes(hashlib.blake2b(canon(obj).encode(), digest_size=8).digest(), "big")


class Violation(Exception):
    pass


class Recorder:
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.failures = []  # (key, message, scenario)
        self.samples = []
        self.sc = None

    # -- reporting API used by checks
    def state(self, *obj):
        self.states.add(h64(obj))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *obj):
        self.outcomes.add(h64(obj))

    def fail(self, key, msg):
        self.failures.append((key, str(msg)[:2000], self.sc))

    def check(self, cond, key, msg=""):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)


class _Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise _Timeout()


def run_one(mod, sc, r):
    r.sc = sc
    before_t, before_s = r.transitions, len(r.states)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(SCENARIO_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(sc, r)
    except Violation as e:
        r.fail(str(e.args[0]), e.args[1] if len(e.args) > 1 else "")
    except _Timeout:
        r.fail("no-termination", f"scenario did not finish in {SCENARIO_TIMEOUT}s")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inner = [f for f in tb if "/skada/" in f.filename]
        where = f"{os.path.basename(inner[-1].filename)}:{inner[-1].name}" if inner else "?"
        r.fail(f"exception:{type(e).__name__}",
               f"{type(e).__name__}: {e} (in {where})\n" + traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    if len(r.samples) < 2:
        r.samples.append({"scenario": sc, "transitions": r.transitions - before_t})
    _ = before_s


_MOD = None


def _worker(chunk):
    r = Recorder()
    import io
    import contextlib
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        for sc in chunk:
            run_one(_MOD, sc, r)
            if len(r.failures) > 40:
                break
    return (r.states, r.outcomes, r.transitions, r.traces, r.failures[:60], r.samples[:1], len(chunk))


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                out.append(d)
    return out


def _matches(known, key, sc):
    """A known finding names the failure key and the exact scenario fields."""
    if known["key"] != key:
        return False
    return all(sc.get(k) == v for k, v in known.get("scenario", {}).items())


def main(modname):
    global _MOD
    setup_env()
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = modname
    try:
        mod = importlib.import_module(f"mc.checks.{modname.lower()}")
    except Exception as e:  # the public API the property is about cannot even be imported
        rp = write_replay(pid, 0, "import", traceback.format_exc(), {})
        print(f"import of the code under test failed: {e}")
        print(f"VIOLATION property={pid} replay={rp}")
        write_evidence(pid, tier, seed, Recorder(), 0, t0, 1, None)
        sys.exit(1)
    _MOD = mod
    scs = list(mod.scenarios(tier))
    # seed only permutes the order in which the (complete) space is visited
    import random
    order = list(range(len(scs)))
    random.Random(seed).shuffle(order)
    nproc = min(int(os.environ.get("MC_PROCS", "8")), os.cpu_count() or 1, max(1, len(scs)))
    csize = max(1, min(getattr(mod, "CHUNK", 200), len(scs) // (nproc * 16) or 1))
    chunks = [[scs[i] for i in order[k:k + csize]] for k in range(0, len(order), csize)]
    total = Recorder()
    executed = 0
    ctx = mp.get_context("fork")
    if hasattr(mod, "prefork"):
        mod.prefork()
    if nproc == 1:
        results = map(_worker, chunks)
        pool = None
    else:
        pool = ctx.Pool(nproc, maxtasksperchild=getattr(mod, "MAXTASKS", None))
        results = pool.imap_unordered(_worker, chunks)
    for st, oc, tr, tc, fl, sm, n in results:
        total.states |= st
        total.outcomes |= oc
        total.transitions += tr
        total.traces += tc
        total.failures += fl
        total.samples += sm
        executed += n
        if len(total.failures) > 2000:
            break
    if pool is not None:
        pool.terminate()
        pool.join()
    if hasattr(mod, "finish"):
        mod.finish(total, tier)
    known = load_known(pid)
    seen_known, new = {}, {}
    for key, msg, sc in total.failures:
        for i, k in enumerate(known):
            if _matches(k, key, sc or {}):
                seen_known[i] = msg
                break
        else:
            size = len(json.dumps(sc, default=str))
            if key not in new or size < new[key][2]:
                new[key] = (msg, sc, size)
    for i in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {known[i]['what']}")
    print(f"{pid} tier={tier} seed={seed} scenarios={len(scs)} executed={executed} states={len(total.states)} "
          f"transitions={total.transitions} traces={total.traces} distinct_outcomes={len(total.outcomes)} "
          f"wall={time.time() - t0:.1f}s")
    total.samples.sort(key=lambda s: len(json.dumps(s, default=str)))
    write_evidence(pid, tier, seed, total, executed, t0, len(new), mod)
    if new:
        for n, (key, (msg, sc, _)) in enumerate(sorted(new.items())):
            rp = write_replay(pid, n, key, msg, sc)
            print(f"--- [{key}] {msg[:700]}\n    scenario={json.dumps(sc, default=str)[:500]}")
            print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    if executed != len(scs):
        print(f"incomplete exploration: {executed} of {len(scs)} scenarios")
        sys.exit(2)
    if not total.states or not total.transitions:
        print("vacuous exploration: nothing was executed")
        sys.exit(2)
    sys.exit(0)


def write_replay(pid, n, key, msg, sc):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}-{n}.json")
    with open(p, "w") as f:
        json.dump({"property": pid, "key": key, "message": msg, "scenario": sc,
                   "replay": f"cd /verif && ./mc/run.sh replay {p}"}, f, indent=1, default=str)
    return p


def write_evidence(pid, tier, seed, total, executed, t0, nviol, mod):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {
        "states": len(total.states),
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "scenarios_executed": executed,
        "distinct_outcomes": len(total.outcomes),
        "samples": [json.loads(json.dumps(s, default=str)) for s in total.samples[:3]],
        "exhaustive": True,
        "bounds": mod.BOUNDS(tier) if mod is not None and hasattr(mod, "BOUNDS") else "",
    }
    if level == "fault_enumeration":
        cov["evaluations"] = executed
        cov["distinct_nontrivial"] = len(total.states)
        cov["rule"] = getattr(mod, "RULE", "")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) if mod else [],
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(os.path.join(d, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    setup_env()
    d = json.load(open(path))
    mod = importlib.import_module(f"mc.checks.{d['property'].lower()}")
    if hasattr(mod, "prefork"):
        mod.prefork()
    r = Recorder()
    run_one(mod, d["scenario"], r)
    for key, msg, _ in r.failures:
        print(f"[{key}] {msg}")
    print("REPRODUCED" if r.failures else "not reproduced")
    sys.exit(1 if r.failures else 0)


if __name__ == "__main__":
    from mc import core  # one module instance, shared with the checks

    if sys.argv[1] == "replay":
        core.replay(sys.argv[2])
    else:
        core.main(sys.argv[1])
