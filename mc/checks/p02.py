import itertools

import numpy as np

from mc.util import layouts, same
from skada.utils import check_X_domain, check_X_y_domain

ID = "P02"
TECHNIQUE = "exhaustive enumeration of domain layouts x restriction flags on the real validators against a set-based reference"
LEVEL = "model_checking"
NOTE = "Complete up to the length bound for every combination of flags; longer inputs are not claimed."
ASSUMPTIONS = ["feature values are finite numeric matrices (non-finite features are rejected by scikit-learn, outside this property)"]
FLAGS = ["allow_source", "allow_multi_source", "allow_target", "allow_multi_target", "allow_common_domain_idx"]


def BOUNDS(tier):
    return "layouts over {0,1,2,-1,-2,-3} up to length %d; all 2^5 flag sets; label vectors over {-2,-1,0,1} / {nan,.5,1.5}" % (3 if tier == "quick" else 4)


def scenarios(tier):
    for sd in layouts([0, 1, 2, -1, -2, -3], 1, 3 if tier == "quick" else 4):
        yield {"kind": "flags", "sd": sd}
    for n in range(2, 5 if tier == "quick" else 6):
        for y in itertools.product([-2, -1, 0, 1], repeat=n):
            yield {"kind": "mask", "y": y}
        for y in itertools.product(["nan", 0.5, 1.5], repeat=n):
            yield {"kind": "mask", "y": y}


def ref(sd, f):
    S, T = {d for d in sd if d >= 0}, {d for d in sd if d < 0}
    if not f["allow_source"] and S:
        return False
    if not f["allow_target"] and T:
        return False
    if not f["allow_multi_source"] and len(S) > 1:
        return False
    if not f["allow_multi_target"] and len(T) > 1:
        return False
    if not f["allow_common_domain_idx"] and {abs(d) for d in T} & {d for d in S}:
        return False
    return True


def attempt(f, *a, **k):
    try:
        return f(*a, **k), None
    except ValueError as e:
        return None, e


def run(sc, r):
    r.trace()
    if sc["kind"] == "mask":
        return run_mask(sc, r)
    sd = np.array(sc["sd"])
    n = len(sd)
    X = np.arange(2 * n).reshape(n, 2) + 0.5
    Xnd = np.arange(4 * n).reshape(n, 2, 2) + 0.5
    ys = {"int": np.arange(n) % 3, "float": np.arange(n) + 0.5, "masked": np.where(sd >= 0, np.arange(n) % 2, -1),
          "nan": np.where(sd >= 0, np.arange(n) + 0.5, np.nan)}
    for bits in itertools.product([True, False], repeat=5):
        f = dict(zip(FLAGS, bits))
        want = ref(sc["sd"], f)
        r.state(sc["sd"], bits)
        for form in (sd, sd.astype(np.int8), list(sc["sd"])) if all(bits) else (sd,):
            out, err = attempt(check_X_domain, X, form, **f)
            r.step()
            r.check((err is None) == want, "X-flags", lambda: f"sd={sc['sd']} {f}: {'accepted' if err is None else err}")
            if err is None:
                r.check(same(out[0], X) and same(out[1], sd), "X-values", lambda: f"{out}")
            for yn, y in ys.items():
                if yn != "int" and not all(bits) and sum(bits) < 4:
                    continue
                out, err = attempt(check_X_y_domain, X, y, form, **f)
                r.step()
                r.check((err is None) == want, "Xy-flags", lambda: f"sd={sc['sd']} y={yn} {f}: {'accepted' if err is None else err}")
                if err is None:
                    r.check(same(out[0], X) and same(out[1], y) and same(out[2], sd), "Xy-values", lambda: f"{out}")
        r.outcome(want)
    # known-domain restriction (with one-sided wildcards)
    for allowed in ({1}, {1, -1}, {0, 1, 2}, {np.inf}, {-np.inf, 1}, {np.inf, -np.inf}, {-1, -2, -3}):
        want = all(d in allowed or (np.inf if d >= 0 else -np.inf) in allowed for d in sc["sd"])
        out, err = attempt(check_X_domain, X, sd, allow_domains=allowed)
        r.step()
        r.check((err is None) == want, "allow-domains", lambda: f"sd={sc['sd']} allowed={allowed}: {err}")
    # n-d features only when allowed
    for fn in (lambda nd: check_X_domain(Xnd, sd, allow_nd=nd), lambda nd: check_X_y_domain(Xnd, ys["int"], sd, allow_nd=nd)):
        r.step(2)
        out, err = attempt(fn, True)
        r.check(err is None and same(out[0], Xnd), "nd", lambda: f"{err}")
        r.check(attempt(fn, False)[1] is not None, "nd-refused", "3-d features accepted with allow_nd=False")
    # lengths must agree
    for bad in (np.r_[sd, 1], sd[:-1]):
        if len(bad) == 0:
            continue
        r.step(2)
        r.check(attempt(check_X_domain, X, bad)[1] is not None, "length-X", lambda: f"{n} rows, {len(bad)} domains accepted")
        r.check(attempt(check_X_y_domain, X, ys["int"], bad)[1] is not None, "length-Xy", lambda: f"{n} rows, {len(bad)} domains accepted")
    r.check(attempt(check_X_y_domain, X, np.r_[ys["int"], 0], sd)[1] is not None, "length-y", "")
    # missing / scalar domain labels
    for fn in (lambda **k: check_X_domain(X, None, **k), lambda **k: check_X_y_domain(X, ys["masked"], None, **k)):
        r.check(attempt(fn, allow_auto_sample_domain=False)[1] is not None, "auto-refused", "missing domain labels accepted")
        r.step()
    out, err = attempt(check_X_domain, X, None)
    r.check(err is None and len(out[1]) == n and all(np.asarray(out[1]) < 0), "auto-X", lambda: f"{out} {err}")
    for s in (0, 1, 2, -1, -3):
        for fn in (lambda: check_X_domain(X, s)[1], lambda: check_X_y_domain(X, ys["int"], s)[2], lambda: check_X_y_domain(X, ys["float"], s)[2]):
            out, err = attempt(fn)
            r.step()
            r.check(err is None and len(out) == n and all(np.asarray(out) == s), "scalar", lambda: f"{s}: {out} {err}")
        for flag, bad in (("allow_source", s >= 0), ("allow_target", s < 0)):
            r.check((attempt(check_X_domain, X, s, **{flag: False})[1] is not None) == bad, "scalar-flag", f"{s} {flag}")
            r.check((attempt(check_X_y_domain, X, ys["int"], s, **{flag: False})[1] is not None) == bad, "scalar-flag-y", f"{s} {flag}")
    # NaN labels only when masks are allowed
    if np.isnan(ys["nan"]).any():
        r.check(attempt(check_X_y_domain, X, ys["nan"], sd, allow_label_masks=False)[1] is not None, "label-mask-refused", "")
        r.check(attempt(check_X_y_domain, X, ys["nan"], sd, allow_label_masks=True)[1] is None, "label-mask-accepted", "")


def run_mask(sc, r):
    cont = any(v == "nan" or v != int(v) for v in sc["y"])
    for dt in (float,) if cont else (int, np.int32, float):
        y = np.array([np.nan if v == "nan" else v for v in sc["y"]], dtype=dt)
        n = len(y)
        X = np.arange(2 * n).reshape(n, 2) + 0.5
        if cont:
            masked = np.isnan(y)
            ok = masked.any()
        else:
            masked = y == -1
            ok = masked.any() and not (y < -1).any()
        out, err = attempt(check_X_y_domain, X, y)
        r.step()
        r.state(sc["y"], str(dt))
        r.outcome(ok)
        r.check((err is None) == bool(ok), "mask-derivation-accept", lambda: f"y={y}: {out} {err}")
        if err is None and ok:
            r.check(np.array_equal(np.asarray(out[2]) < 0, masked) and same(out[1], y) and same(out[0], X)
                    and len(set(np.asarray(out[2]).tolist())) <= 2,
                    "mask-derivation", lambda: f"y={y} -> {out[2]}")
