import itertools
import warnings

import numpy as np
import torch

from mc.checks.p18 import exact, masses
from mc.util import raises, same
from skada.deep import CAN, CDAN, DAN, DANN, MCC, MDD, SPA, DeepCoral, DeepJDOT
from skada.deep._adversarial import CDANLoss, CDANModule, DANNLoss, MDDLoss, ModifiedCrossEntropyLoss
from skada.deep._class_confusion import MCCLoss
from skada.deep._divergence import CANLoss, DANLoss, DeepCoralLoss
from skada.deep._graph_alignment import SPALoss
from skada.deep._optimal_transport import DeepJDOTLoss
from skada.deep.losses import cdd_loss, dan_loss, deepcoral_loss, deepjdot_loss, gda_loss, mcc_loss, nap_loss
from skada.deep.modules import DomainClassifier, GradientReversalLayer
from skada.deep.utils import SphericalKMeans, check_generator

torch.set_num_threads(1)
warnings.filterwarnings("ignore")

ID = "P25"
TECHNIQUE = ("exhaustive enumeration of small feature/output batches, batch sizes and options through the real loss functions, modules and method constructors; values and gradients are compared with independent "
             "double-precision implementations of the formulas (exact assignment enumeration for transport)")
LEVEL = "model_checking"
NOTE = "The multi-kernel uses exp(-distance/sigma) as implemented; terms of the class-conditional discrepancy whose class has no source row count zero."
ASSUMPTIONS = ["float32 arithmetic within 1e-4 of the double-precision formula", "gradients are compared where the formula is differentiable"]
GRID = ((-1.0, 0.0), (0.0, 1.0), (1.0, 1.5), (2.0, -1.0))


def BOUNDS(tier):
    return "all multisets of %s grid points per side with sizes 2-3 (outputs: grid of logits), every option; %s seeds of modules" % (("4", "2") if tier == "quick" else ("5", "4"))


def multis(pts, sizes):
    for n in sizes:
        yield from itertools.combinations_with_replacement(range(len(pts)), n)


def scenarios(tier):
    q = tier == "quick"
    sizes = (2, 3) if q else (2, 3, 4)
    out = []
    src = list(multis(GRID, sizes))
    for s in src:
        out.append({"what": "feature", "src": s, "sizes": sizes})
        for lab in itertools.product((0, 1, 2), repeat=len(s)):
            if len(s) <= 3 and (not q or (lab[0] <= 1 and len(set(s)) == len(s))):
                out.append({"what": "cdd", "src": s, "lab": lab})
        if not q or len(set(s)) == len(s):
            out.append({"what": "nap", "src": s})
    for s in multis(LOGITS, sizes):
        out.append({"what": "output", "src": s, "sizes": sizes})
    for s in multis(GRID, (2, 3)):
        for lab in itertools.product((0, 1), repeat=len(s)) if not q or len(set(s)) == len(s) else ():
            out.append({"what": "jdot", "src": s, "lab": lab})
    for a in (0.0, 0.5, 1, 2.0):
        for seed in range(2 if q else 4):
            out.append({"what": "modules", "alpha": a, "seed": seed})
    for m in WIRING:
        for reg in (0, 1, 0.5, 3.0):
            out.append({"what": "wiring", "method": m, "reg": reg})
    for me, n in itertools.product((1, 4, 10), range(0, 6)):
        out.append({"what": "spa", "max": me, "n": n})
    out.append({"what": "generator"})
    return out


LOGITS = ((0.0, 0.0, 0.0), (2.0, -1.0, 0.0), (-1.0, 0.5, 1.5), (0.0, 3.0, -3.0), (1.0, 1.0, -2.0))


def pts(ids, P=GRID, shift=0.0):
    return np.array([P[i] for i in ids], float) + shift


# ---------------------------------------------------------------- oracles (double precision torch, so that gradients exist)
def dist(a, b):
    q = ((a[:, None] - b[None]) ** 2).sum(-1)
    safe = torch.where(q > 0, q, torch.ones_like(q))
    return torch.where(q > 0, safe.sqrt(), torch.zeros_like(q))


def o_coral(s, t):
    def cov(x):
        c = x - x.mean(0)
        return c.T @ c / (len(x) - 1)
    return ((cov(s) - cov(t)) ** 2).sum() / (4 * s.shape[1] ** 2)


def bandwidths(s, sigmas, eps):
    if sigmas is not None:
        return [float(v) for v in sigmas]
    v = torch.sort(dist(s, s).flatten()).values
    med = v[(len(v) - 1) // 2] + eps
    return [2 ** (-8 + i / 2) * med for i in range(33)]


def kern(a, b, sg):
    return sum(torch.exp(-dist(a, b) / v) for v in sg)


def o_dan(s, t, sigmas=None, eps=1e-7):
    sg = bandwidths(s, sigmas, eps)
    return kern(s, s, sg).mean() + kern(t, t, sg).mean() - 2 * kern(s, t, sg).mean()


def o_cdd(ys, s, t, centers, sigmas, thr, cnt, eps=1e-7):
    C = centers.double()
    cos = (t @ C.T) / (t.norm(dim=1)[:, None] * C.norm(dim=1)[None])
    dis = 0.5 * (1 - cos)
    lab, best = dis.argmin(1), dis.min(1).values
    keep = best < thr
    K = len(C)
    n = [int((keep & (lab == k)).sum()) for k in range(K)]
    ok = [c >= cnt for c in n]
    sg = bandwidths(s, sigmas, eps)
    intra = inter = torch.zeros((), dtype=torch.double)
    for a, b in itertools.product(range(K), repeat=2):
        if not (ok[a] and ok[b]):
            continue
        A, Bt = s[ys == a], t[keep & (lab == b)]
        e = torch.zeros((), dtype=torch.double)
        if len(A):
            e = e + kern(A, A, sg).mean()
        if len(Bt):
            e = e + kern(Bt, Bt, sg).mean()
        if len(A) and len(Bt):
            e = e - 2 * kern(A, Bt, sg).mean()
        intra, inter = (intra + e, inter) if a == b else (intra, inter + e)
    return intra / K - inter / (K * (K - 1))


def logsoftmax(z):
    return z - torch.logsumexp(z, 1, keepdim=True)


def o_mcc(z, T=1.0, eps=1e-7):
    p = logsoftmax(z / T).exp()
    H = -(p * (p + eps).log()).sum(1)
    w = 1 + (-H).exp()
    w = len(z) * w / w.sum()
    K = z.shape[1]
    C = torch.stack([torch.stack([(w * p[:, j] * p[:, k]).sum() for k in range(K)]) for j in range(K)])
    C = C / C.sum(1, keepdim=True)
    return (C.sum() - C.diag().sum()) / K


def o_mce(z, y, smoothing=0.1):
    p = logsoftmax(z).exp()
    p = (1 - smoothing) * p + smoothing / z.shape[1]
    return torch.stack([(1 - p[i, y[i]]).log() for i in range(len(z))]).mean()


def o_ce(z, y):
    return -torch.stack([logsoftmax(z)[i, y[i]] for i in range(len(z))]).mean()


def o_bce(ps, pt):
    c = lambda v: v.clamp_min(1e-44).log().clamp_min(-100)  # noqa: E731
    return -c(1 - ps).mean() - c(pt).mean()


def o_gda(s, t, metric, lap):
    def spec(x):
        x = x.double().numpy()
        n = len(x)
        A = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                d = np.sqrt(((x[i] - x[j]) ** 2).sum())
                nn = max(np.linalg.norm(x[i]), 1e-12) * max(np.linalg.norm(x[j]), 1e-12)
                A[i, j] = {"euc": d, "gauss": np.exp(-0.5 * d * d / 1.5 ** 2), "cos": x[i] @ x[j] / nn}[metric]
        v = A.sum(1)
        if lap == "laplac1":
            L = -A / (v + 1e-7)[:, None]
        elif lap == "laplac2":
            L = np.diag(v) - A
        else:
            D = np.diag(1 / np.sqrt(v + 1e-7))
            L = np.eye(n) - D @ A @ D
        return np.sort(np.linalg.svd(L, compute_uv=False))[::-1] if np.isfinite(L).all() else None
    a, b = spec(s), spec(t)
    return None if a is None or b is None else np.linalg.norm(a - b)


def o_nap(f, z, mf, mo, idx, K):
    d = ((f[:, None] - mf[None]) ** 2).sum(-1).detach().numpy().copy()
    tot, den, unique = 0.0, 0.0, True
    for i in range(len(f)):
        d[i, idx[i]] = np.inf
        o = np.argsort(d[i], kind="stable")
        unique &= bool(d[i, o[K - 1]] < d[i, o[K]] - 1e-6)
        q = mo[o[:K]].mean(0)
        w, c = q.max(), int(q.argmax())
        unique &= bool((q > w - 1e-6).sum() == 1)
        tot = tot + w * -logsoftmax(z)[i, c]
        den += w
    return tot / (den + 1e-7), unique


def agree(r, key, ctx, got_f, want_f, *args, tol=2e-4, grad=True, gtol=2e-3):
    """compare value and gradients of two functions of float arrays."""
    A = [torch.tensor(a, dtype=torch.float32, requires_grad=True) for a in args]
    B = [torch.tensor(a, dtype=torch.double, requires_grad=True) for a in args]
    r.step()
    got, e = raises(lambda: got_f(*A))
    if not r.check(e is None, key, lambda: f"{ctx()}: {e!r}"):
        return None
    want = want_f(*B)
    got_t = got if torch.is_tensor(got) else torch.tensor(float(got))
    if not r.check(got_t.dim() == 0 and same(got_t.detach(), want.detach(), tol), key, lambda: f"{ctx()}: value {got_t.tolist()} formula {want.tolist()}"):
        return None
    if grad and want.requires_grad:
        gw = torch.autograd.grad(want, B, allow_unused=True)
        gw = [torch.zeros_like(b) if g is None else g for g, b in zip(gw, B)]
        if all(torch.isfinite(g).all() for g in gw):
            nz = max(float(g.abs().max()) for g in gw)
            if not got_t.requires_grad:
                r.check(nz < gtol, key + "-gradient", lambda: f"{ctx()}: the loss is cut off from its inputs (gradient up to {nz})")
                return got_t
            gg = torch.autograd.grad(got_t, A, allow_unused=True)
            gg = [torch.zeros_like(a) if g is None else g for g, a in zip(gg, A)]
            r.check(all(same(x, y, gtol) for x, y in zip(gg, gw)), key + "-gradient", lambda: f"{ctx()}: gradient {[g.tolist() for g in gg]} formula {[g.tolist() for g in gw]}")
    return got_t


# ---------------------------------------------------------------- scenarios
def run_feature(sc, r):
    s = pts(sc["src"])
    for t_ids in multis(GRID, sc["sizes"]):
        for sh in (0.0, 0.25):
            t = pts(t_ids, shift=sh)
            ctx = lambda: f"{sc} target {t.tolist()}"  # noqa: E731, B023
            for ac in (False, True):
                if ac and (np.abs(s.mean(0)).max() > 1e-9 or np.abs(t.mean(0)).max() > 1e-9):
                    continue
                v = agree(r, "coral", ctx, lambda a, b: deepcoral_loss(a, b, ac), o_coral, s, t)  # noqa: B023
                agree(r, "coral", ctx, lambda a, b: DeepCoralLoss(assume_centered=ac)(features_s=a, features_t=b, y_s=None), o_coral, s, t)  # noqa: B023
            v = agree(r, "coral", ctx, deepcoral_loss, o_coral, s, t)
            if v is not None and sh == 0 and t_ids == sc["src"]:
                r.check(abs(float(v)) < 1e-6, "coral-zero", lambda: f"{ctx()}: {v}")  # noqa: B023
            for sg in (None, [1.0], [0.5, 2.0, 8.0]):
                v = agree(r, "dan", ctx, lambda a, b: dan_loss(a, b, sg), lambda a, b: o_dan(a, b, sg), s, t, grad=sg is not None or len(set(sc["src"])) == len(s), tol=1e-3, gtol=2e-2)  # noqa: B023
                if v is not None and sh == 0 and t_ids == sc["src"]:
                    r.check(abs(float(v)) < 1e-4, "dan-zero", lambda: f"{ctx()}: {v}")  # noqa: B023
            agree(r, "dan", ctx, lambda a, b: DANLoss(sigmas=[0.5, 3.0])(features_s=a, features_t=b, y_s=None), lambda a, b: o_dan(a, b, [0.5, 3.0]), s, t)
            agree(r, "dan", ctx, lambda a, b: DANLoss(eps=0.5)(features_s=a, features_t=b), lambda a, b: o_dan(a, b, None, 0.5), s, t, grad=False, tol=1e-3)
            if len(s) == len(t):
                for m, lp in itertools.product(("euc", "cos", "gauss"), ("laplac1", "laplac2", "laplac3")):
                    ts, tt = torch.tensor(s), torch.tensor(t)
                    want = o_gda(ts, tt, m, lp)
                    if want is None or not np.isfinite(want) or want > 1e3:
                        continue
                    r.step()
                    got, e = raises(lambda: gda_loss(ts, tt, m, lp))  # noqa: B023
                    r.check(e is None and same(got, want, 1e-5), "spectral", lambda: f"{ctx()} {m} {lp}: {got} {e!r} want {want}")  # noqa: B023
                    perm, e = raises(lambda: gda_loss(ts.flip(0), tt.roll(1, 0), m, lp))  # noqa: B023
                    r.check(e is None and same(perm, want, 1e-5), "spectral-order", lambda: f"{ctx()} {m} {lp}: {perm} {e!r} want {want}")  # noqa: B023
            r.state(s.tolist(), t.tolist())
    for bad in ("x",):
        _, e = raises(lambda: gda_loss(torch.tensor(s), torch.tensor(s), metric=bad))  # noqa: B023
        _, e2 = raises(lambda: gda_loss(torch.tensor(s), torch.tensor(s), laplac=bad))  # noqa: B023
        r.check(isinstance(e, ValueError) and isinstance(e2, ValueError), "unknown-option", lambda: f"{e!r} {e2!r}")  # noqa: B023
    r.trace()
    r.outcome(len(s))


CENTERS = {2: ((1.0, 0.2), (-0.5, 1.0)), 3: ((1.0, 0.2), (-0.5, 1.0), (-1.0, -1.0))}
TARGETS = ((1.0, 0.5), (2.0, -0.5), (-0.5, 2.0), (0.25, 1.0), (-2.0, -1.0), (-1.0, 0.0))


def kmeans(K):
    km = SphericalKMeans(n_clusters=K)
    km.cluster_centers_ = torch.tensor(CENTERS[K])
    return km


def run_cdd(sc, r):
    s, ys = pts(sc["src"]), torch.tensor(sc["lab"])
    for K in (2, 3):
        if ys.max() >= K:
            continue
        km = kmeans(K)
        for n in (2, 4):
            for t_ids in itertools.combinations(range(6), n):
                t = pts(t_ids, TARGETS)
                for thr, cnt, sg in ((0.5, 1, [1.0]), (0.05, 1, [0.5, 2.0]), (0.5, 2, [1.0]), (0.02, 2, [1.0]), (0.5, 1, None), (0.5, 3, [1.0])):
                    if n == 4 and (sg is None or thr < 0.5):
                        continue
                    ctx = lambda: f"{sc} clusters {K} target {t.tolist()} threshold {thr} count {cnt} sigmas {sg}"  # noqa: E731, B023
                    agree(r, "class-conditional", ctx, lambda a, b: cdd_loss(ys, a, b, km, sigmas=sg, distance_threshold=thr, class_threshold=cnt),  # noqa: B023
                          lambda a, b: o_cdd(ys, a, b, km.cluster_centers_, sg, thr, cnt), s, t, tol=1e-3, grad=sg is not None)  # noqa: B023
                    r.state(sc["src"], sc["lab"], K, t_ids, thr, cnt)
        t = pts((0, 1, 2, 3), TARGETS)
        for name, args in (("dt", {"distance_threshold": 0.02}), ("ct", {"class_threshold": 3}), ("sg", {"sigmas": [2.0]}), ("none", {})):
            o = {"distance_threshold": 0.5, "class_threshold": 3, "sigmas": None, "eps": 1e-7} | args
            agree(r, "class-conditional", lambda: f"{sc} CANLoss {name}", lambda a, b: CANLoss(target_kmeans=km, **args)(y_s=ys, features_s=a, features_t=b),  # noqa: B023
                  lambda a, b: o_cdd(ys, a, b, km.cluster_centers_, o["sigmas"], o["distance_threshold"], o["class_threshold"]), s, t, tol=1e-3, grad=False)  # noqa: B023
    _, e = raises(lambda: cdd_loss(ys, torch.tensor(s), torch.tensor(s), None))
    r.check(isinstance(e, ValueError), "uninitialised-clusters", lambda: f"{e!r}")
    r.trace()
    r.outcome(len(s), len(set(sc["lab"])))


def run_nap(sc, r):
    f = pts(sc["src"], shift=0.125)
    n = len(f)
    mem = torch.tensor([[0.0, 0.1], [1.0, 0.0], [-1.0, 0.3], [0.7, 1.2], [2.2, -1.0]])
    mo = torch.tensor([[0.5, 0.3, 0.2], [0.1, 0.6, 0.3], [0.2, 0.1, 0.7], [0.8, 0.15, 0.05], [0.05, 0.35, 0.6]])
    for z_ids in itertools.product(range(len(LOGITS)), repeat=n):
        if n > 2 and len(set(z_ids)) < 2:
            continue
        z = pts(z_ids, LOGITS)
        for idx, K in itertools.product((tuple(range(n)), tuple(range(4, 4 - n, -1)), (1,) * n), (1, 2, 3)):
            ft = torch.tensor(f, dtype=torch.float32)
            want, uniq = o_nap(torch.tensor(f), torch.tensor(z), mem.double(), mo.double(), idx, K)
            if not uniq:
                continue
            agree(r, "neighbourhood", lambda: f"{sc} logits {z.tolist()} idx {idx} K {K}", lambda a: nap_loss(ft, a, mem, mo, torch.tensor(idx), K=K),  # noqa: B023
                  lambda a: o_nap(torch.tensor(f), a, mem.double(), mo.double(), idx, K)[0], z)  # noqa: B023
            r.state(sc["src"], z_ids, idx, K)
        if n > 2 and z_ids[0] > 1:
            break
    r.trace()
    r.outcome(n)


def run_output(sc, r):
    z = pts(sc["src"], LOGITS)
    n = len(z)
    for T in (1, 0.5, 2.5):
        agree(r, "class-confusion", lambda: f"{sc} T={T}", lambda a: mcc_loss(a, T=T), lambda a: o_mcc(a, T), z)  # noqa: B023
        agree(r, "class-confusion", lambda: f"{sc} T={T}", lambda a: MCCLoss(T=T)(y_pred_t=a, y_s=None), lambda a: o_mcc(a, T), z)  # noqa: B023
        agree(r, "class-confusion", lambda: f"{sc} reversed", lambda a: mcc_loss(a.flip(0), T=T), lambda a: o_mcc(a, T), z)  # noqa: B023
    agree(r, "class-confusion", lambda: f"{sc} eps", lambda a: MCCLoss(eps=0.1)(y_pred_t=a), lambda a: o_mcc(a, 1, 0.1), z)
    for y in itertools.product(range(3), repeat=n):
        ty = torch.tensor(y)
        for sm in (0.1, 0.0, 0.4):
            agree(r, "modified-cross-entropy", lambda: f"{sc} labels {y} smoothing {sm}", lambda a: ModifiedCrossEntropyLoss(sm)(a, ty), lambda a: o_mce(a, ty, sm), z, tol=1e-3, gtol=1e-2)  # noqa: B023
        agree(r, "modified-cross-entropy", lambda: f"{sc} labels {y}", lambda a: ModifiedCrossEntropyLoss()(a, ty), lambda a: o_mce(a, ty), z)  # noqa: B023
        r.state(sc["src"], y)
    # pseudo labels of outputs with a unique maximum
    rows = [i for i in range(len(LOGITS)) if sorted(LOGITS[i])[-1] > sorted(LOGITS[i])[-2]]
    for t_ids in itertools.combinations_with_replacement(rows, 2):
        for p_ids in itertools.product(rows, repeat=n):
            zt, zs = pts(t_ids, LOGITS), pts(p_ids, LOGITS)
            ds, dt = z, pts([(i + 1) % 5 for i in t_ids], LOGITS)
            ys, yt = torch.tensor(zs.argmax(1)), torch.tensor(zt.argmax(1))
            for g in (4.0, 1.0, 0.0):
                agree(r, "margin-disparity", lambda: f"{sc} target {t_ids} outputs {p_ids} gamma {g}",  # noqa: B023
                      lambda a, b: MDDLoss(gamma=g)(y_pred_s=torch.tensor(zs, dtype=torch.float32), y_pred_t=torch.tensor(zt, dtype=torch.float32), domain_pred_s=a, domain_pred_t=b, features_s=None),  # noqa: B023
                      lambda a, b: g * o_ce(a, ys) - o_mce(b, yt), ds, dt)  # noqa: B023
    agree(r, "margin-disparity", lambda: f"{sc} default gamma", lambda a: MDDLoss()(y_pred_s=torch.tensor(z, dtype=torch.float32), y_pred_t=torch.tensor(z, dtype=torch.float32), domain_pred_s=a, domain_pred_t=a),
          lambda a: 4.0 * o_ce(a, torch.tensor(z.astype(np.float32)).argmax(1)) - o_mce(a, torch.tensor(z.astype(np.float32)).argmax(1)), z)
    ps = 1 / (1 + np.exp(-z[:, 0]))
    for q in itertools.product((0.1, 0.5, 0.9), repeat=2):
        pt = np.array(q)
        for nm, L in (("dann", DANNLoss), ("cdan", CDANLoss)):
            agree(r, "adversarial", lambda: f"{sc} {nm} target {q}", lambda a, b: L()(domain_pred_s=a, domain_pred_t=b, features_s=a, features_t=b, y_s=None), o_bce, ps, pt)  # noqa: B023
            agree(r, "adversarial", lambda: f"{sc} {nm} squared error, target {q}", lambda a, b: L(domain_criterion=torch.nn.MSELoss())(domain_pred_s=a, domain_pred_t=b, features_s=a, features_t=b),  # noqa: B023
                  lambda a, b: (a ** 2).mean() + ((b - 1) ** 2).mean(), ps, pt)
    r.trace()
    r.outcome(n)


def run_jdot(sc, r):
    s, ys = pts(sc["src"]), torch.tensor(sc["lab"])
    n = len(s)
    for m in (2, 3):
        for t_ids in itertools.combinations_with_replacement(range(4), m):
            t = pts(t_ids, shift=0.2)
            for zi in ((1, 2, 3), (3, 3, 4), (0, 2, 4)):
                z = pts(zi[:m], LOGITS)
                ce = -logsoftmax(torch.tensor(z)).numpy()
                D2 = ((s[:, None] - t[None]) ** 2).sum(-1)
                L = np.array([[ce[j, sc["lab"][i]] for j in range(m)] for i in range(n)])
                Q = np.array([[((z[j] - np.eye(3)[sc["lab"][i]]) ** 2).sum() for j in range(m)] for i in range(n)])
                for rd, rc, crit, w in ((1, 1, None, None), (0.5, 2.0, None, None), (0, 1, None, None), (1, 0, None, None), (1, 1, "sq", None), (1, 0.5, None, "w")):
                    if crit:
                        cf = lambda p, y: ((p - torch.nn.functional.one_hot(y, 3).permute(0, 2, 1)) ** 2).sum(1)  # noqa: E731
                    else:
                        cf = None
                    wts = None if w is None else (([1, 3], [2, 1, 1][:n])[n - 2], ([3, 1], [1, 1, 2])[m - 2])
                    a, b = masses(n, m, wts)
                    M = rd * D2 + rc * (Q if crit else L)
                    cost, plan, _ = exact(M, a, b)
                    fs, ft, zz = (torch.tensor(v, dtype=torch.float32, requires_grad=True) for v in (s, t, z))
                    kw = {} if w is None else {"sample_weights": torch.tensor(a).float() / sum(a), "target_sample_weights": torch.tensor(b).float() / sum(b)}
                    r.step()
                    got, e = raises(lambda: deepjdot_loss(ys, zz, fs, ft, rd, rc, criterion=cf, **kw))  # noqa: B023
                    ctx = lambda: f"{sc} target {t.tolist()} logits {zi} reg {rd},{rc} {crit} weights {w}"  # noqa: E731, B023
                    if not r.check(e is None and same(float(got), cost, 1e-4), "joint-transport", lambda: f"{ctx()}: {got} {e!r}, exact transport cost {cost}"):  # noqa: B023
                        return
                    if w is None:
                        got2, e = raises(lambda: DeepJDOTLoss(rd, rc, cf)(y_s=ys, y_pred_t=zz, features_s=fs, features_t=ft, y_pred_s=None))  # noqa: B023
                        r.check(e is None and same(float(got2), cost, 1e-4), "joint-transport", lambda: f"{ctx()} loss module: {got2} {e!r} want {cost}")  # noqa: B023
                    if plan is not None and rd and not crit:
                        g = torch.autograd.grad(got, (fs, ft))
                        G = 2 * rd * (plan[:, :, None] * (s[:, None] - t[None]))
                        r.check(same(g[0], G.sum(1), 1e-3) and same(g[1], -G.sum(0), 1e-3), "joint-transport-gradient", lambda: f"{ctx()}: {g} want {G.sum(1)}")  # noqa: B023
                    r.state(sc["src"], sc["lab"], t_ids, zi, rd, rc, crit, w)
    r.trace()
    r.outcome(n)


def run_modules(sc, r):
    al, seed = sc["alpha"], sc["seed"]
    rng = np.random.RandomState(seed)
    for shape in ((1, 1), (3, 2), (2, 3, 2)):
        x = torch.tensor(rng.randn(*shape), requires_grad=True)
        g = torch.tensor(rng.randn(*shape))
        r.step()
        y = GradientReversalLayer.apply(x, al)
        r.check(same(y.detach(), x.detach()), "reversal-forward", lambda: f"{sc} {shape}")  # noqa: B023
        gx, = torch.autograd.grad((y * g).sum(), x)
        r.check(same(gx, -al * g, 1e-12), "reversal", lambda: f"{sc} {shape}: gradient {gx} upstream {g}")  # noqa: B023
    for K in (1, 2, 3):
        torch.manual_seed(seed)
        dc = DomainClassifier(num_features=2, n_classes=K, alpha=al)
        r.check(DomainClassifier(2).alpha == 1, "reversal-default", "default strength is 1")
        X = torch.tensor([[0.0, 1.0], [2.0, -1.0], [-1.5, 0.5], [1.0, 1.0]], requires_grad=True)
        for mode in ("train", "eval"):
            getattr(dc, mode)()
            r.step()
            out = dc(X)
            r.check(tuple(out.shape) == ((4,) if K == 1 else (4, K)), "classifier-shape", lambda: f"{sc} K={K}: {tuple(out.shape)}")  # noqa: B023
            o = out.detach().numpy()
            r.check(bool((o > 0).all() and (o < 1).all()), "classifier-probabilities", lambda: f"{sc} K={K} {mode}: {o}")  # noqa: B023
            if K > 1:
                r.check(same(o.sum(1), np.ones(4), 1e-5), "classifier-probabilities", lambda: f"{sc} K={K}: {o}")  # noqa: B023
            r.check(bool(np.ptp(o, axis=0).max() > 1e-4), "classifier-informative", lambda: f"{sc} K={K} {mode}: constant output {o}")  # noqa: B023
            x2 = X.detach().clone().requires_grad_(True)
            ref = dc.classifier(x2)
            c = torch.arange(1, ref.numel() + 1).float().reshape(ref.shape)
            g1, = torch.autograd.grad((dc(X).reshape(ref.shape) * c).sum(), X)
            g2, = torch.autograd.grad((ref * c).sum(), x2)
            r.check(same(g1, -al * g2, 1e-5) and float(g2.abs().max()) > 0, "classifier-reversal", lambda: f"{sc} K={K} {mode}: {g1} vs {g2}")  # noqa: B023
            gp = torch.autograd.grad((dc(X).reshape(ref.shape) * c).sum(), list(dc.parameters()))
            gq = torch.autograd.grad((dc.classifier(X).reshape(ref.shape) * c).sum(), list(dc.parameters()))
            r.check(all(same(a, b, 1e-5) for a, b in zip(gp, gq)), "classifier-own-gradient", lambda: f"{sc} K={K} {mode}")  # noqa: B023
            r.state(sc, K, mode)
    # conditional map
    for mf in (6, 4096, 5, 4):
        base = torch.nn.Sequential(torch.nn.Linear(3, 3), torch.nn.Linear(3, 2))
        seen = []

        class Spy(torch.nn.Module):
            def forward(self, v):
                seen.append(v.detach().clone())  # noqa: B023
                return v.sum(1)
        mod = CDANModule(base, "0", Spy(), max_features=mf, random_state=seed)
        X = torch.tensor([[0.0, 1.0, 2.0], [2.0, -1.0, 0.5]])
        f = base[0](X).detach()
        o = base[1](base[0](X)).detach()
        st = torch.get_rng_state()
        r.step()
        yp, dp, ft, sd, ix = mod(X, sample_domain=torch.tensor([1, -1]), sample_idx=torch.tensor([5, 6]), is_fit=True)
        r.check(torch.equal(st, torch.get_rng_state()), "global-generator", lambda: f"{sc} max_features={mf}: a forward pass changes torch's global generator")  # noqa: B023
        r.check(same(yp.detach(), o, 1e-6) and same(ft.detach(), f, 1e-6) and same(sd, [1, -1]) and same(ix, [5, 6]), "conditional-outputs", lambda: f"{sc} {mf}")  # noqa: B023
        v = seen[-1]
        if mf >= 6:
            want = torch.stack([torch.outer(o[i], f[i]).flatten() for i in range(2)])
            r.check(same(v, want, 1e-5), "conditional-map", lambda: f"{sc} {mf}: {v} want {want}")  # noqa: B023
        else:
            r.check(tuple(v.shape) == (2, mf), "conditional-map", lambda: f"{sc} {mf}: {tuple(v.shape)}")  # noqa: B023
            gen = torch.Generator().manual_seed(seed)
            R1, R2 = torch.randn(3, mf, generator=gen), torch.randn(2, mf, generator=gen)
            want = (f @ R1) * (o @ R2) / mf ** 0.5
            r.check(same(v, want, 1e-4), "conditional-map", lambda: f"{sc} {mf}: {v} want {want}")  # noqa: B023
        mod(X, is_fit=True)
        r.check(same(seen[-1], v, 1e-6), "conditional-map-repeatable", lambda: f"{sc} {mf}")  # noqa: B023
        out, e = raises(lambda: (mod(X), mod(X, return_features=True)))  # noqa: B023
        r.check(e is None and same(out[0].detach(), o, 1e-6) and same(out[1][0].detach(), o, 1e-6) and same(out[1][1].detach(), f, 1e-6), "conditional-predict", lambda: f"{sc} {mf}: {out} {e!r}")  # noqa: B023
        c = mod.__sklearn_clone__()
        r.check((c.max_features, c.random_state, c.layer_name) == (mf, seed, "0"), "conditional-clone", lambda: f"{sc} {mf}: {c.max_features} {c.random_state}")  # noqa: B023
    r.trace()
    r.outcome(al)


# ---------------------------------------------------------------- constructors
class Body(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.enc = torch.nn.Linear(2, 2)
        self.head = torch.nn.Linear(2, 2)

    def forward(self, X):
        return self.head(self.enc(X))


FS = np.array([[0.0, 1.0], [1.0, -1.0], [2.0, 0.5]])
FT = np.array([[1.0, 0.5], [0.25, 2.0], [-1.0, 0.75]])
ZS = np.array([[1.0, -0.5], [0.25, 0.5], [-1.0, 1.0]])
ZT = np.array([[0.5, -1.0], [-0.25, 0.5], [2.0, 1.0]])
YS = [0, 1, 1]
CE = {"coral": lambda **k: DeepCoral(Body(), "enc", **k), "dan": lambda **k: DAN(Body(), "enc", **k), "can": lambda **k: CAN(Body(), "enc", **k), "dann": lambda **k: DANN(Body(), "enc", num_features=2, **k),
      "cdan": lambda **k: CDAN(Body(), "enc", num_features=2, n_classes=2, **k), "mdd": lambda **k: MDD(Body(), "enc", num_features=2, n_classes=2, **k), "jdot": lambda **k: DeepJDOT(Body(), "enc", **k),
      "mcc": lambda **k: MCC(Body(), "enc", **k), "spa": lambda **k: SPA(Body(), "enc", num_features=2, **k)}
WIRING = {"coral": [{}], "dan": [{}, {"sigmas": [0.5, 2.0]}], "can": [{"class_threshold": 1}, {"class_threshold": 1, "sigmas": [1.0]}, {"class_threshold": 1, "distance_threshold": 0.05}, {}],
          "dann": [{}, {"domain_criterion": torch.nn.MSELoss()}], "cdan": [{}, {"domain_criterion": torch.nn.MSELoss()}, {"max_features": 3}], "mdd": [{}, {"gamma": 2.0}],
          "jdot": [{}, {"reg_dist": 0.5, "reg_cl": 3.0}, {"target_criterion": torch.nn.CrossEntropyLoss(reduction="none", label_smoothing=0.5)}], "mcc": [{}, {"T": 2.5}],
          "spa": [{}, {"reg_adv": 2.0}, {"reg_gsa": 3.0}, {"reg_nap": 4.0}, {"max_epochs": 7}, {"domain_criterion": torch.nn.MSELoss()}]}


def o_jd(zt, fs, ft, rd, rc, smooth=0.0):
    lp = logsoftmax(torch.tensor(zt)).numpy()
    L = np.array([[-(1 - smooth) * lp[j, YS[i]] - smooth * lp[j].mean() for j in range(3)] for i in range(3)])
    a, b = masses(3, 3, None)
    return exact(rd * ((fs[:, None] - ft[None]) ** 2).sum(-1) + rc * L, a, b)[0]


def run_wiring(sc, r):
    m, reg = sc["method"], sc["reg"]
    d = torch.tensor([1, -1, 0, -2, 3, -1])
    order = [0, 0, 1, 1, 2, 2]
    pick = lambda s, t: torch.tensor(np.array([(s if d[i] >= 0 else t)[order[i]] for i in range(6)]))  # noqa: E731
    y = torch.tensor([0, -1, 1, -1, 1, -1])
    ts, tt = torch.tensor(FS), torch.tensor(FT)
    dp_s, dp_t = (ZS, ZT) if m == "mdd" else (1 / (1 + np.exp(-ZS[:, 0])), 1 / (1 + np.exp(-ZT[:, 0])))
    for opt in WIRING[m]:
        for base in (None, torch.nn.CrossEntropyLoss(label_smoothing=0.3)):
            kw = dict(opt)
            if m not in ("jdot", "spa"):
                kw["reg"] = reg
            elif m == "jdot":
                kw = {"reg_dist": kw.get("reg_dist", 1) * reg, "reg_cl": kw.get("reg_cl", 1) * reg} | {k: v for k, v in kw.items() if k == "target_criterion"}
            elif reg != 1 and "max_epochs" not in opt:
                kw["reg_gsa"] = reg
            if base is not None:
                kw["base_criterion"] = base
            r.step()
            net, e = raises(lambda: CE[m](train_split=None, verbose=0, **kw).initialize())  # noqa: B023
            ctx = lambda: f"{m} {kw}"  # noqa: E731, B023
            if not r.check(e is None, "constructor", lambda: f"{ctx()}: {e!r}"):  # noqa: B023
                return
            loss = net.criterion_.adapt_criterion
            crit_dom = opt.get("domain_criterion")
            adv = float(o_bce(torch.tensor(dp_s), torch.tensor(dp_t))) if crit_dom is None and m != "mdd" else float((dp_s ** 2).mean() + ((dp_t - 1) ** 2).mean()) if m != "mdd" else None
            if m == "coral":
                want = float(o_coral(ts, tt))
            elif m == "dan":
                want = float(o_dan(ts, tt, opt.get("sigmas")))
            elif m == "can":
                km = kmeans(2)
                loss.target_kmeans = km
                want = float(o_cdd(torch.tensor(YS), ts, tt, km.cluster_centers_, opt.get("sigmas"), opt.get("distance_threshold", 0.5), opt.get("class_threshold", 3)))
            elif m in ("dann", "cdan"):
                want = adv
            elif m == "mdd":
                want = float(opt.get("gamma", 4.0) * o_ce(torch.tensor(dp_s), torch.tensor(ZS).argmax(1)) - o_mce(torch.tensor(dp_t), torch.tensor(ZT).argmax(1)))
            elif m == "jdot":
                want = o_jd(ZT, FS, FT, kw["reg_dist"], kw["reg_cl"], 0.5 if "target_criterion" in opt else 0.0)
            elif m == "mcc":
                want = float(o_mcc(torch.tensor(ZT), opt.get("T", 1)))
            else:
                mem = np.array([[0.0, 0.1], [1.0, 0.0], [-1.0, 0.3], [0.7, 1.2], [2.2, -1.0], [0.3, -0.4], [0.9, 0.9]])
                mo = np.array([[0.6, 0.4], [0.1, 0.9], [0.2, 0.8], [0.8, 0.2], [0.05, 0.95], [0.3, 0.7], [0.45, 0.55]])
                loss.memory_features, loss.memory_outputs = torch.tensor(mem, dtype=torch.float32), torch.tensor(mo, dtype=torch.float32)
                loss.n_epochs = 3
                me = opt.get("max_epochs", 100)
                r.check(net.max_epochs == me and loss.max_epochs == me, "epoch-limit", lambda: f"{ctx()}: {net.max_epochs} {loss.max_epochs}")  # noqa: B023
                nap = float(o_nap(tt, torch.tensor(ZT), torch.tensor(mem), torch.tensor(mo), [0, 1, 2], 5)[0])
                want = kw.get("reg_adv", 1) * (2 / (1 + np.exp(-10 * 3 / me)) - 1) * adv + kw.get("reg_gsa", 1) * o_gda(ts, tt, "gauss", "laplac1") + kw.get("reg_nap", 1) * 3 / me * nap
            total_reg = 1 if m in ("jdot", "spa") else reg
            lp = logsoftmax(torch.tensor(ZS))
            sm = 0.3 if base is not None else 0.0
            sup = float(np.mean([-(1 - sm) * lp[i, YS[i]] - sm * lp[i].mean() for i in range(3)]))
            tup = (pick(ZS, ZT).float(), pick(dp_s, dp_t).float(), pick(FS, FT).float(), d, torch.tensor(order))
            got, e = raises(lambda: net.criterion_(tup, y))  # noqa: B023
            r.check(e is None and same(float(got), sup + total_reg * want, 1e-3), "method-loss", lambda: f"{ctx()}: total loss {got} {e!r}, supervised {sup} + {total_reg} * {want}")  # noqa: B023
            r.state(m, str(kw))
    if m in ("dann", "cdan", "mdd", "spa"):
        own = DomainClassifier(2 if m != "cdan" else 4, n_classes=2 if m == "mdd" else 1, alpha=3)
        f = {"dann": DANN, "cdan": CDAN, "mdd": MDD, "spa": SPA}[m]
        a = {"disc_classifier" if m == "mdd" else "domain_classifier": own}
        net, e = raises(lambda: f(Body(), "enc", train_split=None, **a).initialize())
        r.check(e is None and net.module_.domain_classifier_ is own, "own-classifier", lambda: f"{m}: {e!r}")
        _, e = raises(lambda: f(Body(), "enc"))
        r.check(isinstance(e, ValueError), "missing-size", lambda: f"{m}: {e!r}")
    r.trace()
    r.outcome(m)


def run_spa(sc, r):
    me, n = sc["max"], sc["n"]
    mem = torch.tensor([[0.0, 0.1], [1.0, 0.0], [-1.0, 0.3], [0.7, 1.2], [2.2, -1.0]])
    mo = torch.tensor([[0.6, 0.4], [0.1, 0.9], [0.2, 0.8], [0.8, 0.2], [0.05, 0.95]])
    for ra, rg, rn, K in itertools.product((0, 1, 2.0), (0, 1, 0.5), (0, 1, 3.0), (1, 3)):
        L = SPALoss(max_epochs=me, memory_features=mem, memory_outputs=mo, K=K, reg_adv=ra, reg_gsa=rg, reg_nap=rn)
        r.check(L.n_epochs == 0, "epoch-start", lambda: f"{sc}")
        L.n_epochs = n
        ps, pt = torch.tensor([0.2, 0.6, 0.7]), torch.tensor([0.4, 0.9, 0.1])
        fs, ft, zt = (torch.tensor(v, dtype=torch.float32) for v in (FS, FT, ZT))
        r.step()
        got, e = raises(lambda: L(y_pred_t=zt, domain_pred_s=ps, domain_pred_t=pt, features_s=fs, features_t=ft, sample_idx_t=torch.tensor([4, 0, 2]), y_s=None))  # noqa: B023
        nap = float(o_nap(ft.double(), zt.double(), mem.double(), mo.double(), [4, 0, 2], K)[0])
        want = ra * (2 / (1 + np.exp(-10 * n / me)) - 1) * float(o_bce(ps.double(), pt.double())) + rg * o_gda(fs, ft, "gauss", "laplac1") + rn * n / me * nap
        r.check(e is None and same(float(got), want, 1e-3), "spectral-alignment-total", lambda: f"{sc} reg {ra} {rg} {rn} K {K}: {got} {e!r} want {want}")  # noqa: B023
        r.state(sc, ra, rg, rn, K)
    r.trace()
    r.outcome(n)


def run_generator(sc, r):
    for seed in range(5):
        r.step()
        st = torch.get_rng_state()
        a, b = check_generator(seed), check_generator(seed)
        r.check(torch.equal(torch.randn(4, generator=a), torch.randn(4, generator=b)), "seeded-generator", f"{seed}")
        r.check(torch.equal(torch.randn(4, generator=check_generator(np.int64(seed))), torch.randn(4, generator=torch.Generator().manual_seed(seed))), "seeded-generator", f"{seed}")
        r.check(torch.equal(st, torch.get_rng_state()), "global-generator", f"check_generator({seed}) disturbs torch's global generator")
        g = torch.Generator().manual_seed(seed)
        r.check(check_generator(g) is g, "own-generator", f"{seed}")
    torch.manual_seed(5)
    v = torch.randn(3, generator=check_generator(None))
    torch.manual_seed(5)
    r.check(torch.equal(v, torch.randn(3)), "default-generator", "check_generator(None) is not torch's global generator")
    for bad in ("a", 1.5, [1]):
        _, e = raises(lambda: check_generator(bad))  # noqa: B023
        r.check(isinstance(e, ValueError), "bad-seed", f"{bad}: {e!r}")
    r.state("g")
    r.trace()
    r.outcome("g")


def run(sc, r):
    globals()["run_" + sc["what"]](sc, r)
