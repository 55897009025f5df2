"""Mutation sweep used to measure and strengthen the checks (development tool,
no registered command runs it).

  mutate.py cover OUT.json [P01 ...]          which skada lines each check executes
  mutate.py sweep COVER.json OUT.jsonl FILE.. mutate FILE (relative to the repo) and
                                              run the checks that reach each mutant
Environment: MUT_PROCS workers, MUT_BUDGET seconds per check and mutant, MUT_LINES=a-b.

A mutant is killed when some scenario of a covering check fails.  Scenarios are
visited round-robin over their kinds, for at most MUT_BUDGET seconds per check,
so a survivor has to be confirmed with the complete check.
"""
import ast
import copy
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SKADA_REPO", "/repo")
CHECKS = [f"P{i:02d}" for i in range(1, 100) if os.path.exists(f"{VERIF}/mc/checks/p{i:02d}.py")]
BUDGET = float(os.environ.get("MUT_BUDGET", "10"))
PROCS = int(os.environ.get("MUT_PROCS", "8"))
SCRATCH = f"/tmp/mutate_{os.getpid()}"
KILLS = {}


def preload():
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    os.environ["PYTHONWARNINGS"] = "ignore"
    sys.path.insert(0, VERIF)
    for m in ("numpy", "scipy.linalg", "scipy.optimize", "sklearn.pipeline", "sklearn.linear_model", "sklearn.svm", "sklearn.model_selection", "sklearn.ensemble",
              "sklearn.neighbors", "sklearn.mixture", "sklearn.manifold", "torch", "skorch", "skorch.callbacks", "ot", "ot.da", "pandas", "torchvision"):
        try:
            importlib.import_module(m)
        except Exception:
            pass


def kind(sc):
    ks = sorted(sc)
    first = next(iter(sc.items()))
    sig = [first[0], str(first[1])[:40]]
    for k in ks:
        if isinstance(sc[k], str):
            sig.append((k, sc[k][:40]))
    return str(ks) + str(sig)


def robin(groups):
    gs, out, i = list(groups), [], 0
    while gs:
        gs = [g for g in gs if len(g) > i]
        out += [g[i] for g in gs]
        i += 1
    return out


def ordered(scs):
    """round-robin over the sets of keys, then over the kinds inside each."""
    scs = list(scs)
    random.Random(7).shuffle(scs)
    groups = {}
    for s in scs:
        groups.setdefault(str(sorted(s)), {}).setdefault(kind(s), []).append(s)
    return robin([robin(g.values()) for g in groups.values()])


def explore(pid, tree, budget, stop=True):
    """in a child process: run scenarios of one check against `tree`."""
    os.environ["SKADA_REPO"] = tree
    sys.path.insert(0, tree)
    from mc import core
    core.REPO = tree
    core.SCENARIO_TIMEOUT = 30
    t0 = time.process_time()
    try:
        mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    except Exception as e:
        return ("import", repr(e)[:200], None)
    if hasattr(mod, "prefork"):
        mod.prefork()
    r = core.Recorder()
    n = 0
    known = core.load_known(pid)
    for sc in ordered(mod.scenarios("quick")):
        core.run_one(mod, sc, r)
        n += 1
        r.samples = []
        r.failures = [f for f in r.failures if not any(core._matches(k, f[0], f[2] or {}) for k in known)]
        if r.failures and stop:
            k, m, s = r.failures[0]
            return (k, m[:200], n)
        if time.process_time() - t0 > budget:
            break
    return (None, None, n)


def in_child(f, *a, timeout=120):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            os.setpgid(0, 0)
            out = f(*a)
            with os.fdopen(wr, "w") as fh:
                fh.write(json.dumps(out))
        except BaseException as e:  # noqa: B036
            try:
                os.write(wr, json.dumps(("crash", repr(e)[:300], None)).encode())
            except OSError:
                pass
        os._exit(0)
    os.close(wr)
    import select
    end, data = time.time() + timeout, b""
    while True:
        left = end - time.time()
        if left <= 0:
            data = json.dumps(("hang", f"no result in {timeout}s", None)).encode()
            break
        if select.select([rd], [], [], left)[0]:
            b = os.read(rd, 1 << 16)
            if not b:
                break
            data += b
    os.close(rd)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    return json.loads(data) if data else ("died", "", None)


# ------------------------------------------------------------------ coverage
def cover_one(pid):
    hits = set()
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "c")

    def line(code, ln):
        if "/skada/" in code.co_filename and code.co_filename.startswith(REPO):
            if code.co_name != "<module>":
                hits.add((os.path.relpath(code.co_filename, REPO), ln))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    out = explore(pid, REPO, BUDGET * 2, stop=False)
    res = {}
    for f, ln in hits:
        res.setdefault(f, []).append(ln)
    return [out[2], res]


# ------------------------------------------------------------------ mutants
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div], ast.MatMult: [],
       ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.Mod: [ast.FloorDiv]}


def variants(node):
    """mutated copies of one node (expression or statement)."""
    out = []

    def v(**kw):
        n = copy.copy(node)
        for k, x in kw.items():
            setattr(n, k, x)
        out.append(n)
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for o in CMP.get(type(node.ops[0]), []):
            v(ops=[o()])
    elif isinstance(node, ast.BinOp):
        for o in BIN.get(type(node.op), []):
            v(op=o())
    elif isinstance(node, ast.BoolOp):
        v(op=ast.Or() if isinstance(node.op, ast.And) else ast.And())
        for i in range(len(node.values)):
            rest = node.values[:i] + node.values[i + 1:]
            out.append(rest[0] if len(rest) == 1 else ast.BoolOp(op=node.op, values=rest))
    elif isinstance(node, ast.UnaryOp):
        if isinstance(node.op, (ast.Not, ast.Invert, ast.USub)):
            out.append(node.operand)
    elif isinstance(node, ast.Constant):
        x = node.value
        if isinstance(x, bool):
            v(value=not x)
        elif isinstance(x, int) and x < 10:
            v(value=x + 1)
            if x > 0:
                v(value=x - 1)
        elif isinstance(x, float):
            v(value=x * 2 if x else 1.0)
    elif isinstance(node, ast.IfExp):
        out += [node.body, node.orelse]
    elif isinstance(node, ast.Call):
        for i, k in enumerate(node.keywords):
            v(keywords=node.keywords[:i] + node.keywords[i + 1:])
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]):
            v(args=[node.args[1], node.args[0]] + node.args[2:])
        f = node.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        alt = {"mean": ["sum"], "sum": ["mean"], "min": ["max"], "max": ["min"], "argmin": ["argmax"], "argmax": ["argmin"], "std": ["var"], "var": ["std"], "ones": ["zeros"],
               "zeros": ["ones"], "logical_and": ["logical_or"], "logical_or": ["logical_and"], "any": ["all"], "all": ["any"], "abs": ["square"], "maximum": ["minimum"],
               "minimum": ["maximum"], "exp": ["sqrt"], "log": ["sqrt"], "sqrt": ["abs"], "sort": [], "hstack": ["vstack"], "vstack": ["hstack"], "ceil": ["floor"], "floor": ["ceil"]}
        for a in alt.get(name, []):
            g = copy.copy(f)
            if isinstance(f, ast.Attribute):
                g.attr = a
            else:
                g.id = a
            v(func=g)
        if name in ("clone", "copy", "abs", "detach", "ravel", "unique", "sorted", "asarray", "check_random_state", "deepcopy", "list") and (
                node.args or isinstance(f, ast.Attribute)):
            out.append(node.args[0] if node.args else f.value)
    elif isinstance(node, ast.Slice):
        for a in ("lower", "upper", "step"):
            if getattr(node, a) is not None:
                v(**{a: None})
    elif isinstance(node, ast.Attribute):
        if node.attr == "T":
            out.append(node.value)
    elif isinstance(node, (ast.If, ast.While)):
        if isinstance(node, ast.If):
            v(test=ast.Constant(True))
        v(test=ast.Constant(False))
    elif isinstance(node, ast.AugAssign):
        for o in BIN.get(type(node.op), []):
            v(op=o())
        out.append(ast.Pass())
        out.append(ast.Assign(targets=[node.target], value=node.value))
    elif isinstance(node, ast.Expr):
        if not isinstance(node.value, ast.Constant):
            out.append(ast.Pass())
    elif isinstance(node, (ast.Break, ast.Continue)):
        out.append(ast.Pass())
    elif isinstance(node, ast.Assign):
        if isinstance(node.targets[0], ast.Attribute) or isinstance(node.targets[0], ast.Subscript):
            out.append(ast.Pass())
        elif isinstance(node.targets[0], ast.Name) and isinstance(node.value, (ast.Call, ast.BinOp, ast.Subscript)) and any(
                isinstance(x, ast.Name) and x.id == node.targets[0].id for x in ast.walk(node.value)):
            out.append(ast.Pass())  # x = f(x)
    return out


SKIPCALL = {"warn", "warning", "info", "debug", "append_doc"}


def mutants(src):
    tree = ast.parse(src)
    res = []

    def walk(node, func, parent_field):
        for field, value in ast.iter_fields(node):
            if isinstance(node, ast.Raise) or field in ("decorator_list", "annotation", "returns"):
                continue
            items = value if isinstance(value, list) else [value]
            for i, ch in enumerate(items):
                if not isinstance(ch, ast.AST):
                    continue
                if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant):
                    continue
                if isinstance(ch, ast.Call) and getattr(ch.func, "attr", "") in SKIPCALL:
                    continue
                if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Call) and getattr(ch.value.func, "attr", "") in SKIPCALL:
                    continue
                if hasattr(ch, "lineno"):
                    for mv in variants(ch):
                        res.append((node, field, i if isinstance(value, list) else None, ch, mv, func))
                walk(ch, ch if isinstance(ch, (ast.FunctionDef,)) else func, field)
    walk(tree, None, None)
    out = []
    for node, field, i, old, new, func in res:
        val = getattr(node, field)
        if i is None:
            setattr(node, field, new)
        else:
            val[i] = new
        try:
            text = ast.unparse(ast.fix_missing_locations(tree))
            compile(text, "x", "exec")
        except Exception:
            text = None
        if i is None:
            setattr(node, field, old)
        else:
            val[i] = old
        if text is None:
            continue

        def short(x):
            try:
                return ast.unparse(ast.fix_missing_locations(copy.deepcopy(x))).split("\n")[0][:160]
            except Exception:
                return type(x).__name__
        out.append(dict(line=old.lineno, end=getattr(old, "end_lineno", old.lineno), func=func.name if func is not None else None,
                        span=(func.lineno, func.end_lineno) if func is not None else None, old=short(old), new=short(new), text=text))
    return out


def relevant(cov, f, m):
    """checks that execute the mutated line, the ones most focused on this file first."""
    out = []
    common = set.intersection(*(set(c[1].get(f, [])) for c in cov.values())) if len(cov) > 5 else set()
    for pid, (n, files) in cov.items():
        lines = set(files.get(f, [])) - common  # class bodies run at import
        if not lines:
            continue
        rng = range(m["line"], m["end"] + 1)
        hit = any(x in lines for x in rng)
        if not hit and m["span"]:
            body = [x for x in lines if m["span"][0] < x <= m["span"][1]]
            hit = bool(body) and (m["line"] <= min(body))  # defaults of the signature
        if not hit and m["func"] is None:
            hit = True
        if hit:
            out.append((-len(lines) / (1 + sum(len(v) for v in files.values())), pid))
    return [p for _, p in sorted(out)]


def worker(args):
    f, m, pids = args
    wid = mp.current_process()._identity[0]
    tree = f"{SCRATCH}/w{wid}"
    if not os.path.exists(tree):
        shutil.copytree(f"{SCRATCH}/base", tree)
    path = f"{tree}/{f}"
    shutil.copy(f"{SCRATCH}/base/{f}", path)
    with open(path, "w") as fh:
        fh.write(m["text"])
    t0, ran = time.time(), []
    res = None
    fk = (f, m["func"])
    mine = KILLS.get(fk, {})
    allf = KILLS.get(f, {})
    pids = sorted(pids, key=lambda p: (-mine.get(p, 0), -allf.get(p, 0)))  # stable: most focused first
    for i, pid in enumerate(pids[:7]):
        b = BUDGET if i < 3 else BUDGET / 2
        k, msg, n = in_child(explore, pid, tree, b, timeout=b * 4 + 60)
        ran.append([pid, n])
        if k is not None:
            res = [pid, k, msg, n]
            for key in (fk, f):
                d = dict(KILLS.get(key, {}))
                d[pid] = d.get(pid, 0) + 1
                KILLS[key] = d
            break
    shutil.copy(f"{SCRATCH}/base/{f}", path)
    return dict(file=f, line=m["line"], func=m["func"], old=m["old"], new=m["new"], killed=res, ran=ran, wall=round(time.time() - t0, 1))


def main():
    global KILLS
    preload()
    ctx = mp.get_context("fork")
    if sys.argv[1] == "cover":
        pids = sys.argv[3:] or CHECKS
        old = json.load(open(sys.argv[2])) if os.path.exists(sys.argv[2]) else {}
        with ctx.Pool(PROCS, maxtasksperchild=1) as p:
            for pid, c in zip(pids, p.imap(cover_one, pids, chunksize=1)):
                old[pid] = c
                print(pid, c[0], {k: len(v) for k, v in c[1].items()}, flush=True)
        json.dump(old, open(sys.argv[2], "w"))
        return
    cov = json.load(open(sys.argv[2]))
    only = os.environ.get("MUT_CHECKS")
    if only:
        cov = {k: v for k, v in cov.items() if k in only.split(",")}
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(SCRATCH)
    shutil.copytree(f"{REPO}", f"{SCRATCH}/base", ignore=lambda d, n: [x for x in n if x in (".git", "tests", "__pycache__", "docs", "examples", "build")])
    done = set()
    if os.path.exists(sys.argv[3]):
        for ln in open(sys.argv[3]):
            d = json.loads(ln)
            done.add((d["file"], d["line"], d["old"], d["new"]))
    jobs = []
    want = None
    if os.environ.get("MUT_ONLY"):  # a file of survivors (jsonl) to be run again, with lines FILE:N,N,...
        want = set()
        for s in os.environ["MUT_ONLY"].split():
            f, ls = s.split(":")
            want |= {(f, int(x)) for x in ls.split(",")}
    for f in sys.argv[4:]:
        src = open(f"{REPO}/{f}").read()
        for m in mutants(src):
            if os.environ.get("MUT_LINES"):
                a, b = map(int, os.environ["MUT_LINES"].split("-"))
                if not a <= m["line"] <= b:
                    continue
            if want is not None and (f, m["line"]) not in want:
                continue
            if (f, m["line"], m["old"], m["new"]) in done:
                continue
            jobs.append((f, m, relevant(cov, f, m)))
    random.Random(3).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    KILLS = mp.Manager().dict()
    with ctx.Pool(PROCS) as p, open(sys.argv[3], "a") as fh:
        n = k = 0
        for d in p.imap_unordered(worker, jobs, chunksize=1):
            n += 1
            k += d["killed"] is not None
            fh.write(json.dumps(d) + "\n")
            fh.flush()
            if n % 50 == 0:
                print(n, "done", k, "killed", flush=True)
    print(n, "done", k, "killed", flush=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    main()
