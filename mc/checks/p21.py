import itertools
import warnings

import numpy as np
import torch
from scipy.optimize import linprog

from mc.util import raises, same, snapshot, unchanged
from skada.utils import frank_wolfe, qp_solve, torch_minimize

ID = "P21"
TECHNIQUE = ("exhaustive enumeration of small integer quadratic programs and constraint patterns; every answer of the real solvers compared with all feasible "
             "points of a fine grid and with the constraints themselves")
LEVEL = "model_checking"
NOTE = "One-sided optimality: no feasible grid point may have a lower objective than the answer (beyond the stated accuracy), so no convergence assumption is needed."
ASSUMPTIONS = ["convex quadratic forms (positive semi-definite Q)", "Frank-Wolfe accuracy 2 C / (k + 2) as proved for the method",
               "scipy's SLSQP (accepted weaknesses: stops when two consecutive objective values agree, redundant constraints)"]
QS = [((1,),), ((3,),)]
QS2 = [[[a, b], [b, c]] for a in (1, 2, 3) for c in (1, 2) for b in (-1, 0, 1) if a * c - b * b >= 0]
QS3 = [np.eye(3), [[2, 1, 0], [1, 2, -1], [0, -1, 2]], [[3, -1, 1], [-1, 1, 0], [1, 0, 2]]]
CS = (-2, 0, 1)
A2 = [None, ([[1, 1]], [1]), ([[1, 1], [-1, -1]], [2, -1]), ([[1, 1], [-1, -1]], [1, 2]), ([[1, -1]], [0]), ([[-1, 0], [0, -1]], [0, -1]), ([[2, 1], [-2, -1]], [2, 1]), ([[1, 2], [-1, -2]], [2, -2])]
E2 = [None, ([[1, 1]], [1]), ([[1, 2]], [2]), ([[1, -1]], [0])]
LB = [None, 0, -1]
UB = [None, 2, 0.5]


def BOUNDS(tier):
    return "d=1..3; %d+%d+%d quadratic forms, linear terms %s^d, %d inequality x %d equality patterns, bounds %s x %s, both solvers" % (
        len(QS), len(QS2), len(QS3), CS, len(A2), len(E2), LB, UB)


def scenarios(tier):
    for q in QS:
        yield {"Q": [list(map(float, r)) for r in q]}
    for q in QS2:
        for c in itertools.product(CS, repeat=2):
            yield {"Q": [list(map(float, r)) for r in q], "c": list(c)}
    for q in QS3:
        for c in itertools.product(CS if tier == "thorough" else (-2, 1), repeat=3):
            yield {"Q": np.asarray(q, float).tolist(), "c": list(c)}
    yield {"refuse": True}
    for k in range(6):
        yield {"torch": k}


def grid(d, lo, hi, step):
    ax = np.arange(lo, hi + step / 2, step)
    return np.stack(np.meshgrid(*([ax] * d), indexing="ij"), -1).reshape(-1, d)


GR = {1: grid(1, -6, 6, 1 / 32), 2: grid(2, -5, 5, 1 / 16), 3: grid(3, -2, 2, 1 / 8)}


def infeasible(d, A, b, Aeq, beq, L, U):
    lo = [-np.inf] * d if L is None else L
    hi = [np.inf] * d if U is None else U
    return linprog(np.zeros(d), A_ub=A, b_ub=b, A_eq=Aeq, b_eq=beq, bounds=list(zip(lo, hi))).status == 2


def run(sc, r):
    if "torch" in sc:
        return run_torch(sc["torch"], r)
    if sc.get("refuse"):
        return run_refuse(r)
    Q = np.array(sc["Q"])
    d = len(Q)
    cs = [np.array(sc["c"], float)] if "c" in sc else [np.array([float(v)]) for v in CS]
    cs = cs + [None] if ("c" not in sc or not any(sc["c"])) else cs
    for c in cs:
        def f(x):
            return 0.5 * np.einsum("...i,ij,...j", x, Q, x) + (0 if c is None else x @ c)  # noqa: B023
        G = GR[d]
        fg = f(G)
        ineq = A2 if d == 2 else [None, ([[1] * d], [1]), ([[1] * d, [-1] * d], [2, -1])]
        eq = E2 if d == 2 else [None, ([[1] * d], [1])]
        for a, e, lb, ub in itertools.product(ineq, eq, LB, UB):
            A, b = (None, None) if a is None else (np.array(a[0], float), np.array(a[1], float))
            Aeq, beq = (None, None) if e is None else (np.array(e[0], float), np.array(e[1], float))
            L = None if lb is None else np.full(d, float(lb))
            U = None if ub is None else np.full(d, float(ub))
            ok = np.ones(len(G), bool)
            if A is not None:
                ok &= (G @ A.T <= b + 1e-12).all(1)
            if Aeq is not None:
                ok &= np.isclose(G @ Aeq.T, beq).all(1)
            if L is not None:
                ok &= (G >= L).all(1)
            if U is not None:
                ok &= (G <= U).all(1)
            for solver in ("scipy", "frank-wolfe"):
                ctx = lambda: f"{solver} Q={Q.tolist()} c={c} A={a} eq={e} lb={lb} ub={ub}"  # noqa: E731, B023
                if solver == "frank-wolfe":
                    supported = lb == 0 and (a is None) != (e is None)
                    if supported:
                        row = A if a is not None else Aeq
                        supported = (row[0] > 0).all() and (len(row) == 1 or (len(row) == 2 and np.allclose(row[0], -row[1])))
                    if e is None and a is not None and supported and len(A) == 1:
                        continue  # see run_refuse (known finding)
                    if not supported and lb is None:
                        continue  # lb=None reads as 0 for this solver (its documentation)
                # documented start: ones by default, or the caller's point
                for x0 in (None, np.array([1.37, 0.61, 0.2])[:d]):
                    if x0 is not None and (solver == "frank-wolfe" or d == 3 or lb is not None or e is not None):
                        continue
                    snap = snapshot(Q, c, A, b, Aeq, beq, L, U, x0)
                    with warnings.catch_warnings(record=True) as ws:
                        warnings.simplefilter("always")
                        out, exc = raises(lambda: qp_solve(Q, c, A=A, b=b, Aeq=Aeq, beq=beq, lb=L, ub=U, x0=x0, solver=solver,  # noqa: B023
                                                           tol=1e-9, max_iter=1000))
                    r.step()
                    r.check(unchanged(snap, Q, c, A, b, Aeq, beq, L, U, x0), "inputs-changed", ctx)
                    if solver == "frank-wolfe" and not supported:
                        r.check(exc is not None, "unsupported-accepted", ctx)
                        continue
                    if not ok.any():
                        if not infeasible(d, A, b, Aeq, beq, L, U):
                            continue  # feasible points between the grid points only
                        r.outcome("infeasible")
                        r.check(exc is not None or len(ws) > 0, "infeasible-silent", lambda: f"{ctx()} -> {out}")  # noqa: B023
                        continue
                    if exc is not None:
                        r.fail("refused", f"{ctx()}: {exc!r}")
                        continue
                    x, val = out[:2]
                    if np.abs(G[ok][fg[ok].argmin()]).max() >= np.abs(G).max():
                        continue  # no minimum inside the grid (unbounded problem)
                    if solver == "scipy" and A is not None and Aeq is not None:
                        rows = np.vstack([A, Aeq])
                        if np.linalg.matrix_rank(rows[[0, -1]]) < 2:
                            continue  # the same row as inequality and equality: SLSQP itself is not reliable
                    r.trace()
                    r.state(solver, Q, c, a, e, lb, ub)
                    r.outcome(np.round(x, 3))
                    t = 1e-6
                    feas = x.shape == (d,) and np.isfinite(x).all()
                    feas = feas and (A is None or (A @ x <= b + t).all()) and (Aeq is None or np.allclose(Aeq @ x, beq, atol=t))
                    feas = feas and (L is None or (x >= L - t).all()) and (U is None or (x <= U + t).all())
                    if not r.check(feas, "infeasible-answer", lambda: f"{ctx()} -> {x}"):  # noqa: B023
                        continue
                    r.check(abs(val - f(x)) <= 1e-9 * (1 + abs(val)), "value", lambda: f"{ctx()} -> {x} {val} want {f(x)}")  # noqa: B023
                    best = fg[ok].min()
                    start = np.ones(d) if x0 is None else x0
                    if solver == "scipy" and abs(f(start) - val) < 1e-9 and np.abs(start - x).max() > 1e-3:
                        r.outcome("SLSQP stops when two consecutive values agree")
                        continue
                    if solver == "scipy":
                        tol = 1e-5 if not ws and x0 is None else 1e-3  # SLSQP stops when two values agree
                    else:
                        diam = np.ptp(G[ok], axis=0)
                        tol = 2 * np.linalg.eigvalsh(Q)[-1] * float(diam @ diam + 1e-3) / 1002 + 1e-9
                    r.check(val <= best + tol, "not-optimal", lambda: f"{ctx()} -> {x} {val}, feasible {G[ok][fg[ok].argmin()]} has {best} (tol {tol})")  # noqa: B023
                    if solver == "scipy" and x0 is None and a is None and e is None:
                        out3 = qp_solve(Q, c, lb=L, ub=U, log=True)
                        r.check(len(out3) == 3 and same(out3[0], out3[2]["x"]) and out3[1] == out3[2]["fun"], "log", ctx)


def run_refuse(r):
    Q = np.array([[2.0, 0.5], [0.5, 1.0]])
    one = np.ones(1)
    r.state("refuse")
    bad = {"no-constraint": dict(), "two-equalities": dict(Aeq=np.eye(2), beq=np.ones(2)), "three-inequalities": dict(A=np.ones((3, 2)), b=np.ones(3)),
           "not-opposite": dict(A=np.eye(2), b=np.ones(2)), "crossed": dict(A=np.array([[1.0, 1], [-1, -1]]), b=np.array([1.0, -2])),
           "both": dict(A=np.ones((1, 2)), b=one, Aeq=np.ones((1, 2)), beq=one), "negative-coefficient": dict(Aeq=np.array([[1.0, -1]]), beq=one),
           "zero-coefficient": dict(Aeq=np.array([[1.0, 0]]), beq=one), "lower-bound": dict(Aeq=np.ones((1, 2)), beq=one, lb=-np.ones(2)),
           "upper-bound-infeasible": dict(Aeq=np.ones((1, 2)), beq=one, ub=np.ones(2) * 0.25)}
    for k, kw in bad.items():
        r.step()
        out, e = raises(lambda: qp_solve(Q, np.ones(2), solver="frank-wolfe", **kw))  # noqa: B023
        r.check(isinstance(e, ValueError), "unsupported-accepted", lambda: f"{k}: {out}")  # noqa: B023
    out, e = raises(lambda: qp_solve(Q, solver="nope"))
    r.check(isinstance(e, ValueError), "unsupported-accepted", "solver name")
    # one inequality: a single row is a "<=" constraint
    x, v = qp_solve(Q, np.ones(2), A=np.ones((1, 2)), b=one, solver="frank-wolfe")
    r.step()
    r.check(v <= 0.01, "single-inequality", f"min 1/2 x'Qx + x.1 over x >= 0, x1 + x2 <= 1 is 0 at x = 0; got {v} at {x}")
    # the building block itself
    for clb, cub, ub in itertools.product((0.0, 0.5, 1.0, -1.0), (1.0, 2.0), (None, 0.75, np.array([0.4, 3.0]))):
        for g in ([1.0, 1], [-1.0, -1], [1, -2], [-1, 2]):
            for c in (np.ones(2), np.array([2.0, 1.0])):
                g_ = np.array(g)
                x = frank_wolfe(lambda x: g_, c, clb, cub, max_iter=50, ub=ub) if ub is not None else frank_wolfe(lambda x: g_, c, clb, cub, max_iter=50)  # noqa: B023
                G = GR[2]
                ok = (G >= 0).all(1) & (G @ c >= clb - 1e-12) & (G @ c <= cub + 1e-12)
                if ub is not None:
                    ok &= (G <= ub).all(1)
                r.step()
                r.state("fw", clb, cub, ub, g, c)
                feas = (x >= -1e-9).all() and max(clb, 0) - 1e-9 <= x @ c <= cub + 1e-9 and (ub is None or (x <= np.asarray(ub) + 1e-9).all())
                r.check(feas and x @ g_ <= (G[ok] @ g_).min() + 1e-6, "linear-minimum", lambda: f"{clb} {cub} {ub} {g} {c}: {x}")  # noqa: B023


def run_torch(k, r):
    Qs = [np.array(q, float) for q in QS2 if np.linalg.det(q) > 0.5]
    for Q in Qs:
        for c in itertools.product(CS, repeat=2):
            c = np.array(c, float)
            Qt, ct = torch.tensor(Q), torch.tensor(c)
            starts = [np.zeros(2), np.array([3.0, -2.0])]
            x0 = starts[k % 2]
            if k < 2:
                args, loss = x0, lambda x: 0.5 * x @ Qt @ x + ct @ x  # noqa: B023
            elif k < 4:
                args = [x0[:1].copy(), x0[1:].copy()]

                def loss(u, v):
                    x = torch.cat([u, v])
                    return 0.5 * x @ Qt @ x + ct @ x  # noqa: B023
            else:
                args = torch.tensor(x0)

                def loss(x):
                    z = 0.5 * x @ Qt @ x + ct @ x  # noqa: B023
                    return z + (x ** 4).sum() / 10
            snap = snapshot(*(args if isinstance(args, list) else [np.asarray(args)]))
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                sol, val = torch_minimize(loss, args, tol=1e-6)
            r.step()
            r.trace()
            r.check(unchanged(snap, *(args if isinstance(args, list) else [np.asarray(args)])), "inputs-changed", f"{Q} {c}")
            r.check(isinstance(sol, list) == isinstance(args, list), "solution-structure", f"{type(sol)}")
            x = np.concatenate([np.ravel(s) for s in sol]) if isinstance(sol, list) else np.asarray(sol)
            g = Q @ x + c + (0.4 * x ** 3 if k >= 4 else 0)
            true = 0.5 * x @ Q @ x + c @ x + ((x ** 4).sum() / 10 if k >= 4 else 0)
            r.state("torch", k, Q, c)
            warned = any("did not converge" in str(w.message) for w in ws)
            r.check(np.abs(g).max() <= 1e-6 * 1.01 or warned, "not-stationary", lambda: f"{k} {Q.tolist()} {c}: x={x} grad={g}")  # noqa: B023
            r.check(not warned or np.abs(g).max() > 1e-6 * 0.99, "warned-at-optimum", lambda: f"{k} {Q.tolist()} {c}: x={x} grad={g}")  # noqa: B023
            r.check(np.abs(g).max() <= 1e-3, "far-from-stationary", lambda: f"{k} {Q.tolist()} {c}: x={x} grad={g}")  # noqa: B023
            r.check(abs(val - true) < 1e-9, "torch-value", lambda: f"{val} want {true}")  # noqa: B023
            r.outcome(np.round(x, 4))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        torch_minimize(lambda x: (x ** 4).sum() + x.sum(), np.array([5.0, -4.0]), max_iter=1, tol=1e-9)
    r.check(any("did not converge" in str(w.message) for w in ws), "no-convergence-warning", "")
