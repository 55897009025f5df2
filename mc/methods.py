"""Registry of the shipped shallow adaptation methods, used by several checks.

make(name) builds a fresh pipeline.  Flags:
  kinds   label kinds supported ("clf"/"reg")
  adapter output of the adapter: "X" features, "w" weights, "y" labels, "-" final estimator only
  perm    relative tolerance for order independence, None when documented to depend on order
  batch   target rows are answered independently of the batch
  multi   needs the individual domain labels (one mapping per domain)
  labels  uses source labels in the adapter
"""
import numpy as np
import ot
from sklearn.base import BaseEstimator, clone
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.mixture import GaussianMixture
from sklearn.preprocessing import StandardScaler
from sklearn.svm import SVC

import skada
from skada import make_da_pipeline
from skada._gradual_da import GradualEstimator


def C():
    return LogisticRegression(tol=1e-10, max_iter=2000)


def CW():
    return C().set_fit_request(sample_weight=True)


def RW():
    return Ridge(alpha=0.1).set_fit_request(sample_weight=True)


def base(kind, weighted=False):
    if kind == "clf":
        return CW() if weighted else C()
    return RW() if weighted else Ridge(alpha=0.1)


M = {}


def reg(name, factory, kinds="clf reg", adapter="X", perm=1e-6, batch=True, multi=False, cost=1, min_target=2):
    M[name] = dict(name=name, factory=factory, kinds=kinds.split(), adapter=adapter, perm=perm, batch=batch, multi=multi, cost=cost,
                   min_target=min_target)


def fresh(kw):
    """settings with estimators replaced by new ones, so that no two built methods share an object."""
    return {k: clone(v) if isinstance(v, BaseEstimator) else v for k, v in kw.items()}


def _b(f, **kw):
    return lambda kind: f(base_estimator=base(kind), **fresh(kw))


def _w(f, **kw):
    return lambda kind: f(base_estimator=base(kind, True), **fresh(kw))


s = skada
reg("OT", _b(s.OTMapping))
reg("OT-euclidean", _b(s.OTMapping, metric="euclidean", norm="max"))
reg("EntropicOT", _b(s.EntropicOTMapping, reg_e=0.5))
reg("ClassRegOT-lpl1", _b(s.ClassRegularizerOTMapping, reg_e=0.5), kinds="clf")
reg("ClassRegOT-l1l2", _b(s.ClassRegularizerOTMapping, norm="l1l2", reg_e=0.5), kinds="clf", cost=3)
reg("LinearOT", _b(s.LinearOTMapping, reg=1e-8))
reg("LinearOT-nobias", _b(s.LinearOTMapping, reg=1e-3, bias=False))
reg("MultiLinear", _b(s.MultiLinearMongeAlignment), multi=True)
reg("CORAL", _b(s.CORAL))
reg("CORAL-0.1", _b(s.CORAL, reg=0.1))
reg("CORAL-centered", _b(s.CORAL, reg=0.1, assume_centered=True))
reg("MMDLSCons", _b(s.MMDLSConSMapping, gamma=0.1), perm=0.2, cost=6)
reg("SubspaceAlignment", _b(s.SubspaceAlignment, n_components=1, random_state=0))
reg("SubspaceAlignment-2", _b(s.SubspaceAlignment, n_components=2, random_state=0))
reg("TCA", _b(s.TransferComponentAnalysis, n_components=2))
reg("TCA-linear", _b(s.TransferComponentAnalysis, n_components=1, kernel="linear", mu=1.0))
reg("TJM", _b(s.TransferJointMatching, n_components=2, max_iter=5), cost=2, perm=2e-2)
reg("TJM-linear", _b(s.TransferJointMatching, n_components=1, kernel="linear", max_iter=3), cost=2, perm=2e-2)
for m in ("pca", "flda", "lpp"):
    reg("TSL-" + m, _b(s.TransferSubspaceLearning, n_components=1, base_method=m, mu=0.1), kinds="clf", perm=1e-3, cost=4)
reg("Density", _w(s.DensityReweight), adapter="w")
reg("Gaussian", _w(s.GaussianReweight), adapter="w")
reg("Discriminator", _w(s.DiscriminatorReweight, domain_classifier=C()), adapter="w")
reg("KLIEP", _w(s.KLIEPReweight, gamma=0.7, random_state=0), adapter="w")
reg("NN", _w(s.NearestNeighborReweight), adapter="w")
reg("NN-laplace", _w(s.NearestNeighborReweight, laplace_smoothing=True), adapter="w")
reg("KMM", _w(s.KMMReweight, gamma=0.5), adapter="w", perm=1e-3, cost=2)
reg("KMM-scipy", _w(s.KMMReweight, gamma=0.5, B=5., solver="scipy"), adapter="w", perm=1e-2, cost=2)
reg("MMDTarS", _w(s.MMDTarSReweight, gamma=0.5), adapter="w", kinds="clf", perm=1e-3, cost=4)
reg("OTLabelProp", _w(s.OTLabelProp), adapter="y")
reg("OTLabelProp-reg", _w(s.OTLabelProp, reg=1.0), adapter="y")
reg("JCPOT", _b(s.JCPOTLabelProp), adapter="y", kinds="clf")
reg("JDOT", lambda kind: make_da_pipeline(s.JDOTClassifier(C(), n_iter_max=3) if kind == "clf" else s.JDOTRegressor(Ridge(alpha=0.1), n_iter_max=3)),
    adapter="-", perm=1e-5, cost=2)
reg("JDOT-hinge", lambda kind: make_da_pipeline(s.JDOTClassifier(SVC(kernel="linear"), metric="hinge", n_iter_max=2)), kinds="clf",
    adapter="-", perm=1e-3)
reg("DASVM", lambda kind: make_da_pipeline(s.DASVMClassifier(SVC(kernel="linear"), k=1, max_iter=6)), kinds="clf", adapter="-", perm=1e-3)
reg("Gradual", lambda kind: make_da_pipeline(GradualEstimator(n_steps=2, base_estimator=C())), kinds="clf", adapter="-", perm=1e-5)


def make(name, kind="clf"):
    return M[name]["factory"](kind)


def adapter(name, kind="clf"):
    """the adapter alone (unwrapped), or None."""
    p = make(name, kind)
    if M[name]["adapter"] == "-":
        return None
    return p.steps[0][1].base_estimator


def data(k, ns=5, nt=4, kind="clf", classes=(0, 1)):
    """A generic (tie-free) small dataset; source rows first."""
    r = np.random.RandomState(1000 + k)
    Xs, Xt = r.randn(ns, 2) * [1.5, 1.0], r.randn(nt, 2) * [1.0, 1.6] + [0.7, 0.4]
    s = Xs[:, 0] + 0.3 * Xs[:, 1]
    o = np.argsort(np.argsort(s))
    if kind == "clf":
        K = len(classes)
        ys = np.asarray(classes)[(o * K) // ns]
        t = Xt[:, 0] + 0.3 * Xt[:, 1]
        yt = np.asarray(classes)[(np.argsort(np.argsort(t)) * K) // nt]
    else:
        ys = np.round(2.0 * s + 0.37, 3) + 0.0137
        yt = np.round(2.0 * (Xt[:, 0] + 0.3 * Xt[:, 1]) - 0.21, 3) + 0.0071
    return Xs, ys, Xt, yt
