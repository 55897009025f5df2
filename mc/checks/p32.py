import inspect
import itertools

import numpy as np
from sklearn.base import clone
from sklearn.ensemble import RandomForestClassifier
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.neighbors import KernelDensity
from sklearn.svm import SVC

import skada
from mc import methods as MM
from mc.util import raises, same
from skada import _mapping, _ot, _reweight, _subspace

ID = "P32"
TECHNIQUE = ("exhaustive enumeration of every subset of settings of every method constructor (shallow and deep) on the real code; the built object is compared "
             "with the settings given, and every setting's effect on the result is explored over value pairs")
LEVEL = "model_checking"
NOTE = "All 2^n subsets of non-default settings per constructor; the effect table lists, per setting, values that must change the result on a fixed dataset."
ASSUMPTIONS = ["a setting stored in the adapter is used by it when the effect table shows that it changes the result"]

ALT = {"metric": "cityblock", "norm": "max", "max_iter": 7, "reg_e": 0.3, "reg_cl": 0.7, "tol": 1e-3, "max_inner_iter": 9, "reg": 0.37, "assume_centered": True, "bias": False,
       "gamma": 0.61, "reg_k": 1e-4, "reg_m": 1e-3, "test_time": True, "n_iter_max": 6, "verbose": True, "cv": 3, "n_centers": 4, "random_state": 5, "kernel": "linear",
       "degree": 2, "coef0": 0.5, "B": 8.0, "eps": 0.2, "smooth_weights": True, "solver": "scipy", "n_neighbors": 2, "weights": "distance", "algorithm": "brute", "leaf_size": 11,
       "p": 1, "metric_params": {"w": [1.0, 2.0]}, "n_jobs": 1, "laplace_smoothing": True, "n_components": 1, "mu": 0.45, "tradeoff": 0.2, "base_method": "pca", "length_scale": 3,
       "weight_estimator": KernelDensity(bandwidth=0.77), "domain_classifier": LogisticRegression(C=0.123)}
FUNS = ["ClassRegularizerOTMapping", "CORAL", "EntropicOTMapping", "LinearOTMapping", "MMDLSConSMapping", "OTMapping", "MultiLinearMongeAlignment", "OTLabelProp", "JCPOTLabelProp",
        "DiscriminatorReweight", "GaussianReweight", "KLIEPReweight", "KMMReweight", "DensityReweight", "NearestNeighborReweight", "MMDTarSReweight", "SubspaceAlignment",
        "TransferComponentAnalysis", "TransferJointMatching", "TransferSubspaceLearning"]
WEIGHTS = {"DiscriminatorReweight", "GaussianReweight", "KLIEPReweight", "KMMReweight", "DensityReweight", "NearestNeighborReweight", "MMDTarSReweight"}
DEEP = ["DeepCoral", "DAN", "DeepJDOT", "DANN", "CDAN", "MCC", "MDD", "CAN", "SPA", "SourceOnly", "TargetOnly"]

# (adapter class, common settings, setting, values that must give pairwise different results)
E_ = [
    ("OTMappingAdapter", {}, "metric", ["sqeuclidean", "cityblock"]),
    ("OTMappingAdapter", {}, "max_iter", [1, 100000]),
    ("EntropicOTMappingAdapter", {}, "metric", ["sqeuclidean", "cityblock"]),
    ("EntropicOTMappingAdapter", {}, "reg_e", [0.3, 1.0, 5.0]),
    ("EntropicOTMappingAdapter", {}, "norm", [None, "max"]),
    ("EntropicOTMappingAdapter", {"reg_e": 0.05}, "max_iter", [1, 1000]),
    ("EntropicOTMappingAdapter", {"reg_e": 0.05}, "tol", [1e-1, 1e-9]),
    ("ClassRegularizerOTMappingAdapter", {}, "metric", ["sqeuclidean", "cityblock"]),
    ("ClassRegularizerOTMappingAdapter", {}, "reg_e", [0.5, 1.0, 5.0]),
    ("ClassRegularizerOTMappingAdapter", {}, "reg_cl", [0.1, 1.0, 3.0]),
    ("ClassRegularizerOTMappingAdapter", {"reg_cl": 1.0}, "norm", ["lpl1", "l1l2"]),
    ("ClassRegularizerOTMappingAdapter", {"reg_cl": 1.0}, "max_iter", [1, 10]),
    ("ClassRegularizerOTMappingAdapter", {"reg_e": 0.1}, "max_inner_iter", [1, 200]),
    ("ClassRegularizerOTMappingAdapter", {"reg_e": 0.1}, "tol", [1e-1, 1e-9]),
    ("LinearOTMappingAdapter", {}, "reg", [1e-8, 1e-1, 1.0]),
    ("LinearOTMappingAdapter", {}, "bias", [True, False]),
    ("MultiLinearMongeAlignmentAdapter", {}, "reg", [1e-8, 1e-1, 1.0]),
    ("MultiLinearMongeAlignmentAdapter", {}, "bias", [True, False]),
    ("CORALAdapter", {}, "reg", ["auto", 0.01, 0.5]),
    ("CORALAdapter", {}, "assume_centered", [True, False]),
    ("MMDLSConSMappingAdapter", {}, "gamma", [0.1, 0.5, 1.0]),
    ("MMDLSConSMappingAdapter", {"gamma": 0.5}, "reg_k", [1e-10, 1e-1]),
    ("MMDLSConSMappingAdapter", {"gamma": 0.5}, "reg_m", [1e-10, 1e-1]),
    ("MMDLSConSMappingAdapter", {"gamma": 0.5}, "max_iter", [1, 100]),
    ("MMDLSConSMappingAdapter", {"gamma": 0.5}, "tol", [1e-1, 1e-6]),
    ("OTLabelPropAdapter", {}, "metric", ["sqeuclidean", "cityblock"]),
    ("OTLabelPropAdapter", {}, "reg", [0.1, 1.0, 10.0]),
    ("OTLabelPropAdapter", {"reg": 0.01}, "n_iter_max", [1, 200]),
    ("GaussianReweightAdapter", {}, "reg", ["auto", 0.1, 0.5]),
    ("KLIEPReweightAdapter", {"random_state": 0}, "gamma", [0.1, 0.7, 2.0]),
    ("KLIEPReweightAdapter", {"random_state": 0, "gamma": 0.7}, "n_centers", [1, 2, 100]),
    ("KLIEPReweightAdapter", {"random_state": 0, "gamma": 0.7}, "max_iter", [1, 5, 1000]),
    ("KLIEPReweightAdapter", {"random_state": 0, "gamma": 0.7}, "tol", [1e-1, 1e-6]),
    ("KLIEPReweightAdapter", {"gamma": 0.7, "n_centers": 2}, "random_state", [0, 1, 2]),
    ("KMMReweightAdapter", {}, "kernel", ["rbf", "poly", "sigmoid"]),
    ("KMMReweightAdapter", {}, "gamma", [0.1, 0.5, 2.0]),
    ("KMMReweightAdapter", {"kernel": "poly"}, "degree", [2, 3]),
    ("KMMReweightAdapter", {"kernel": "poly"}, "coef0", [0.2, 1, 3]),
    ("KMMReweightAdapter", {"gamma": 0.5}, "B", [1.2, 1.6]),
    ("KMMReweightAdapter", {"gamma": 2.0}, "eps", [0.01, 0.3]),
    ("KMMReweightAdapter", {"gamma": 0.5}, "max_iter", [1, 1000]),
    ("KMMReweightAdapter", {"gamma": 0.5}, "smooth_weights", [True, False]),
    ("NearestNeighborReweightAdapter", {}, "laplace_smoothing", [True, False]),
    ("NearestNeighborReweightAdapter", {}, "metric", ["minkowski", "chebyshev"]),
    ("MMDTarSReweightAdapter", {}, "gamma", [0.1, 0.5, 2.0]),
    ("MMDTarSReweightAdapter", {"gamma": 0.5}, "reg", [1e-10, 1e-1]),
    ("SubspaceAlignmentAdapter", {}, "n_components", [1, 2]),
    ("TransferComponentAnalysisAdapter", {}, "kernel", ["rbf", "linear"]),
    ("TransferComponentAnalysisAdapter", {}, "n_components", [1, 2, 3]),
    ("TransferComponentAnalysisAdapter", {"n_components": 2}, "mu", [0.01, 0.1, 1.0]),
    ("TransferJointMatchingAdapter", {}, "kernel", ["rbf", "linear"]),
    ("TransferJointMatchingAdapter", {}, "n_components", [1, 2]),
    ("TransferJointMatchingAdapter", {"n_components": 2}, "tradeoff", [0.001, 0.01, 1.0]),
    ("TransferJointMatchingAdapter", {"n_components": 2}, "max_iter", [1, 3]),
    ("TransferJointMatchingAdapter", {"n_components": 2}, "tol", [10.0, 1e-6]),
    ("TransferSubspaceLearningAdapter", {"n_components": 1}, "base_method", ["pca", "flda", "lpp"]),
    ("TransferSubspaceLearningAdapter", {}, "n_components", [1, 2]),
    ("TransferSubspaceLearningAdapter", {"n_components": 1, "base_method": "lpp"}, "length_scale", [0.5, 2, 5]),
    ("TransferSubspaceLearningAdapter", {"n_components": 1}, "mu", [0.1, 1.0, 10.0]),
    ("TransferSubspaceLearningAdapter", {"n_components": 1}, "reg", [0.01, 1.0]),
    ("TransferSubspaceLearningAdapter", {"n_components": 1}, "max_iter", [1, 100]),
    ("TransferSubspaceLearningAdapter", {"n_components": 1}, "tol", [10.0, 1e-3]),
    ("JCPOTLabelPropAdapter", {}, "metric", ["sqeuclidean", "cityblock"]),
    ("JCPOTLabelPropAdapter", {}, "reg", [0.1, 1.0, 5.0]),
    ("DensityReweightAdapter", {}, "weight_estimator", [KernelDensity(bandwidth=0.3), KernelDensity(bandwidth=1.0), KernelDensity(kernel="tophat", bandwidth=2.0)]),
    ("DiscriminatorReweightAdapter", {}, "domain_classifier", [LogisticRegression(C=0.01), LogisticRegression(C=1.0), RandomForestClassifier(n_estimators=5, random_state=0)]),
]


def BOUNDS(tier):
    return ("%d shallow constructors x all subsets of their settings x base estimator given/omitted; %d deep constructors x all subsets of their settings; %d "
            "settings with %d values in the effect table" % (len(FUNS), len(DEEP), len(E_), sum(len(e[3]) for e in E_)))


def scenarios(tier):
    for f in FUNS:
        names = [n for n in inspect.signature(getattr(skada, f)).parameters if n != "base_estimator"]
        for base in (0, 1):
            # split the subsets into blocks by the first two settings
            for head in itertools.product((0, 1), repeat=min(2, len(names))):
                yield {"k": "build", "f": f, "base": base, "head": list(head)}
        yield {"k": "default", "f": f}
    for i in range(len(E_)):
        yield {"k": "effect", "i": i, "name": E_[i][0], "set": E_[i][2]}
    for f in DEEP:
        yield {"k": "deep", "f": f}
    yield {"k": "knn"}
    for name in MM.M:
        for kind in MM.M[name]["kinds"]:
            for d in range(1, 3 if tier == "quick" else 9):
                yield {"k": "score", "name": name, "kind": kind, "d": d}


def value_same(a, b):
    if hasattr(a, "get_params"):
        return type(a) is type(b) and all(value_same(v, b.get_params().get(k)) for k, v in a.get_params().items())
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return same(a, b)
    return type(a) is type(b) and a == b


def run_build(sc, r):
    f = getattr(skada, sc["f"])
    sig = inspect.signature(f).parameters
    names = [n for n in sig if n != "base_estimator"]
    missing = [n for n in names if n not in ALT]
    r.check(not missing, "unknown-setting", f"no alternative value for {missing}")
    names = [n for n in names if n in ALT]
    for tail in itertools.product((0, 1), repeat=max(0, len(names) - len(sc["head"]))):
        chosen = [n for n, c in zip(names, sc["head"] + list(tail)) if c]
        given = {n: ALT[n] for n in chosen}
        base = LogisticRegression(C=0.321).set_fit_request(sample_weight=True) if sc["base"] else None
        p = f(base, **given) if sc["base"] == 1 and len(chosen) % 2 else f(base_estimator=base, **given)
        r.step()
        r.trace()
        what = f"{sc['f']}({'base, ' if base is not None else ''}{given})"
        if not r.check(len(p.steps) == 2, "wrong-steps", lambda: f"{what}: {p.steps}"):
            return
        ad = p.steps[0][1].base_estimator
        r.check(type(ad).__name__ == sc["f"] + "Adapter", "wrong-adapter", lambda: f"{what}: {ad}")
        got = ad.get_params(deep=False)
        own = {k: v.default for k, v in inspect.signature(type(ad).__init__).parameters.items() if k != "self"}
        for n in got:
            want = given[n] if n in given else sig[n].default if n in sig else own[n]
            if n not in given and n == "domain_classifier":
                want = LogisticRegression()
            if n not in given and n == "weight_estimator":
                want = KernelDensity()
            r.check(value_same(want, got[n]), f"setting-lost:{n}", lambda: f"{what}: adapter has {n}={got[n]!r}, expected {want!r}")  # noqa: B023
        r.check(set(chosen) <= set(got), "setting-unknown-to-adapter", lambda: f"{what}: {got}")  # noqa: B023
        b = p.steps[1][1].base_estimator
        if base is not None:
            r.check(value_same(base, b), "base-lost", lambda: f"{what}: final {b}")  # noqa: B023
            r.check(b.get_metadata_routing().fit.requests.get("sample_weight") is True, "base-request-lost", what)
        r.state(sc["f"], chosen, sc["base"])
    r.outcome(sc["f"], sc["base"])


def simple(k=3, kind="clf"):
    """sources of both classes, two targets domains' worth of data in one domain."""
    Xs, ys, Xt, yt = MM.data(k, 7, 6, kind)
    X = np.concatenate([Xs, Xt])
    y = np.concatenate([ys, -np.ones(6, int) if kind == "clf" else np.full(6, np.nan)])
    return X, y, np.array([1] * 7 + [-2] * 6), np.concatenate([ys, yt])


def run_default(sc, r):
    """With no argument at all the method works and its default final estimator uses what the adapter makes."""
    f = getattr(skada, sc["f"])
    for k in (3, 7, 9):
        X, y, sd, yt = simple(k)
        kw = {"random_state": 0} if "random_state" in inspect.signature(f).parameters else {}
        p = f(**kw).fit(X, y, sample_domain=sd)
        r.step()
        got = p.predict(X[sd < 0], sample_domain=sd[sd < 0])
        ad = clone(p.steps[0][1].base_estimator)
        out = ad.fit_transform(X, y, sample_domain=sd)
        Xo, yo, w = X, y, None
        if isinstance(out, tuple):
            Xo = out[0]
            yo = out[1] if len(out) == 3 and out[1] is not None else y
            w = out[-1].get("sample_weight")
        else:
            Xo = out
        m = yo != -1
        final = clone(p.steps[1][1].base_estimator)
        r.check((w is not None) == (sc["f"] in WEIGHTS), "weights-kind", sc["f"])
        if w is not None:
            final.fit(Xo[m], yo[m], sample_weight=w[m])
        else:
            final.fit(Xo[m], yo[m])
        Xt = ad.transform(X[sd < 0], sample_domain=sd[sd < 0]) if not sc["f"].endswith("LabelProp") else X[sd < 0]
        Xt = Xt[0] if isinstance(Xt, tuple) else Xt
        want = final.predict(Xt)
        r.check(same(want, got), "default-final-estimator", lambda: f"{sc['f']} data {k}: predicts {got}, the default final estimator on the adapter's output {want}")  # noqa: B023
        r.state(sc["f"], k, got)
        r.trace()
    r.outcome(sc["f"])


def run_effect(sc, r):
    cls, common, name, values = E_[sc["i"]]
    mod = next(m for m in (_mapping, _ot, _reweight, _subspace) if hasattr(m, cls))
    results = []
    for v in values:
        row = []
        for k in (3, 7, 9):
            X, y, sd, _ = simple(k, "reg" if cls == "OTLabelPropAdapter" else "clf")
            kw = dict(common)
            kw[name] = clone(v) if hasattr(v, "fit") else v
            req = {n: {"gamma": 0.5}.get(n) for n, q in inspect.signature(getattr(mod, cls).__init__).parameters.items() if q.default is inspect._empty and n != "self"}
            a = getattr(mod, cls)(**{**req, **kw})
            out, e = raises(lambda: a.fit_transform(X, y, sample_domain=sd))  # noqa: B023
            r.step()
            if e is not None:
                r.fail("effect-error", f"{cls}({kw}): {e!r}")
                return
            if isinstance(out, tuple):
                out = np.concatenate([np.asarray(out[0], float).ravel(), *[np.asarray(u, float).ravel() for u in out[1:] if not isinstance(u, dict) and u is not None],
                                      *[np.asarray(u, float).ravel() for u in out[-1].values()]])
            out = getattr(a, "yh_continuous_", out)  # the soft labels of JCPOT: its hard labels hide small changes
            row.append(np.abs(np.asarray(out, float).ravel()))
        results.append(row)
        r.trace()
        r.state(cls, name, str(v), row)
    for (i, a), (j, b) in itertools.combinations(enumerate(results), 2):
        diff = any(u.shape != v.shape or not same(u, v, 1e-9) for u, v in zip(a, b))
        r.check(diff, f"setting-ignored:{cls}.{name}", f"{cls} with {name}={values[i]!r} and {values[j]!r} (other settings {common}) gives the same result on every dataset")
        r.outcome(cls, name, i, j)


def run_knn(sc, r):
    """the nearest-neighbour search uses every setting it was given."""
    X, y, sd, _ = simple()
    names = ["n_neighbors", "weights", "algorithm", "leaf_size", "p", "metric", "metric_params", "n_jobs"]
    for bits in itertools.product((0, 1), repeat=len(names)):
        kw = {n: ALT[n] for n, b in zip(names, bits) if b}
        if kw.get("metric") == "cityblock":
            kw.pop("metric_params", None)
        a = _reweight.NearestNeighborReweightAdapter(**kw)
        _, e = raises(lambda: a.fit(X, y, sample_domain=sd))  # noqa: B023
        r.step()
        if e is not None:
            r.fail("knn-error", f"{kw}: {e!r}")
            continue
        if not hasattr(a, "estimator_"):
            continue
        got = a.estimator_.get_params()
        for n in names:
            want = kw.get(n, inspect.signature(type(a).__init__).parameters[n].default)
            r.check(value_same(want, got[n]), f"setting-lost:{n}", lambda: f"NearestNeighborReweightAdapter({kw}): searches with {n}={got[n]!r}")  # noqa: B023
        r.state(bits)
        r.trace()
    r.outcome("knn")


def run_deep(sc, r):
    import torch
    import skada.deep as D
    from skorch.callbacks import Callback

    class CB(Callback):
        pass

    from skada.deep.modules import DomainClassifier, ToyModule2D
    f = getattr(D, sc["f"])
    sig = inspect.signature(f).parameters
    crit, tcrit, dcrit, dc = torch.nn.NLLLoss(), torch.nn.CrossEntropyLoss(label_smoothing=0.1), torch.nn.MSELoss(), DomainClassifier(num_features=3)
    alt = {"reg": 0.25, "assume_centered": True, "sigmas": [0.3, 0.7], "reg_dist": 0.4, "reg_cl": 0.6, "target_criterion": tcrit, "domain_classifier": dc, "num_features": 10,
           "domain_criterion": dcrit, "max_features": 17, "n_classes": 2, "T": 3, "gamma": 2.5, "disc_classifier": dc, "distance_threshold": 0.2, "class_threshold": 2,
           "reg_adv": 0.3, "reg_gsa": 0.4, "reg_nap": 0.6, "max_epochs": 4, "base_criterion": crit, "layer_name": "feature", "callbacks": None}
    names = [n for n in sig if n not in ("module", "kwargs", "layer_name")]
    missing = [n for n in names if n not in alt]
    r.check(not missing, "unknown-setting", f"{sc['f']}: {missing}")
    names = [n for n in names if n in alt]
    needs_dc = "num_features" in names
    dcname = "domain_classifier" if "domain_classifier" in names else "disc_classifier"
    for bits in itertools.product((0, 1), repeat=len(names)):
        given = {n: alt[n] for n, b in zip(names, bits) if b}
        cbs = None
        if "callbacks" in given:
            cbs = [CB()] if sum(bits) % 2 else CB()
            given["callbacks"] = cbs
        mod = ToyModule2D(proba=True)
        extra = {"lr": 0.0625, "batch_size": 6, "iterator_train__drop_last": True} if sum(bits) % 3 == 0 else {}
        if sc["f"] != "SPA" and extra:
            extra["max_epochs"] = 4
        net, e = raises(lambda: f(mod, layer_name="dropout", **given, **extra))  # noqa: B023
        r.step()
        what = f"{sc['f']}({sorted(given)}, {extra})"
        incomplete = needs_dc and dcname not in given and ("num_features" not in given or (sc["f"] == "CDAN" and "n_classes" not in given))
        if incomplete:
            r.check(isinstance(e, ValueError), "incomplete-accepted", lambda: f"{what}: {e!r}")  # noqa: B023
            continue
        if e is not None:
            # the number of classes of the adversarial head is needed as well
            r.check(sc["f"] == "MDD" and dcname not in given and "n_classes" not in given, "refused", lambda: f"{what}: {e!r}")  # noqa: B023
            continue
        for k, v in extra.items():
            r.check(net.get_params(deep=False).get(k, getattr(net, k, None)) == v, f"setting-lost:{k}", lambda: f"{what}: {getattr(net, k, None)}")  # noqa: B023
        _, e = raises(net.initialize)
        if e is not None:
            r.fail("initialize", f"{what}: {e!r}")
            continue
        c, m = net.criterion_, net.module_
        r.check(type(m.base_module_).__name__ == "ToyModule2D" if hasattr(m, "base_module_") else type(m.base_module).__name__ == "ToyModule2D", "module-lost", what)
        r.check(m.layer_name == "dropout", "setting-lost:layer_name", what)
        base = c.base_criterion
        r.check(type(base) is (type(crit) if "base_criterion" in given else torch.nn.CrossEntropyLoss), "setting-lost:base_criterion", lambda: f"{what}: {base}")  # noqa: B023
        reg = {"SourceOnly": 0, "TargetOnly": 0, "DeepJDOT": 1, "SPA": 1}.get(sc["f"], given.get("reg", sig["reg"].default if "reg" in sig else None))
        r.check(c.reg == reg, "setting-lost:reg", lambda: f"{what}: criterion reg {c.reg}")  # noqa: B023
        r.check(c.train_on_target == (sc["f"] == "TargetOnly"), "train-on-target", what)
        a = c.adapt_criterion
        for n in names:
            if n in ("reg", "base_criterion", "callbacks", "num_features", "n_classes", "max_features", "domain_classifier", "disc_classifier", "domain_criterion", "max_epochs"):
                continue
            want = given.get(n, sig[n].default)
            got = a.criterion_ if n == "target_criterion" else getattr(a, n, "missing")
            if n == "target_criterion":
                ok = got is not None and type(got).__name__ == "CrossEntropyLoss" and getattr(got, "label_smoothing", 0) == (0.1 if n in given else 0)
                ok = ok or (n not in given and got is None)
            else:
                ok = value_same(want, got)
            r.check(ok, f"setting-lost:{n}", lambda: f"{what}: loss has {n}={got!r}, expected {want!r}")  # noqa: B023
        if "domain_criterion" in names:
            r.check(type(a.domain_criterion_) is (torch.nn.MSELoss if "domain_criterion" in given else torch.nn.BCELoss), "setting-lost:domain_criterion", lambda: f"{what}: {a.domain_criterion_}")  # noqa: B023
        if needs_dc:
            lin = [u for u in m.domain_classifier_.modules() if isinstance(u, torch.nn.Linear)] if hasattr(m, "domain_classifier_") else [
                u for u in m.domain_classifier.modules() if isinstance(u, torch.nn.Linear)]
            want = 3 if dcname in given else 10 if sc["f"] != "CDAN" else min(20, given.get("max_features", 4096))
            r.check(lin[0].in_features == want, "setting-lost:num_features", lambda: f"{what}: domain classifier takes {lin[0].in_features}, expected {want}")  # noqa: B023
            if sc["f"] == "CDAN":
                r.check(m.max_features == given.get("max_features", 4096), "setting-lost:max_features", what)
            if sc["f"] == "MDD" and dcname not in given:
                r.check(lin[-1].out_features == 2, "setting-lost:n_classes", lambda: f"{what}: {lin[-1]}")  # noqa: B023
        if sc["f"] == "SPA":
            r.check(net.max_epochs == given.get("max_epochs", 100) == a.max_epochs, "setting-lost:max_epochs", what)
        if "callbacks" in names:
            have = [type(cb).__name__ for _, cb in net.callbacks_]
            want = {"CAN": ["ComputeSourceCentroids"], "SPA": ["MemoryBank", "CountEpochs"]}[sc["f"]] + (["CB"] if "callbacks" in given else [])
            r.check(all(have.count(n) == 1 for n in want) and ("CB" in have) == ("callbacks" in given), "setting-lost:callbacks", lambda: f"{what}: {have}")  # noqa: B023
            if isinstance(cbs, list):
                r.check(len(cbs) == 1, "callbacks-modified", what)
        it = net.iterator_train.__name__
        used = {"SourceOnly": "source", "TargetOnly": "target"}.get(sc["f"])
        r.check(it == ("DomainOnlyDataLoader" if used else "DomainBalancedDataLoader"), "wrong-loader", lambda: f"{what}: {it}")  # noqa: B023
        if used:
            r.check(net.get_params(deep=False).get("iterator_train__domain_used", getattr(net, "iterator_train__domain_used", None)) == used, "wrong-loader-side", what)
        r.state(sc["f"], bits)
        r.trace()
    r.outcome(sc["f"])


def run_score(sc, r):
    """what a built method scores is the metric of what it predicts, on every form of rows."""
    from sklearn.metrics import r2_score

    D = MM
    name, kind = sc["name"], sc["kind"]
    Xs, ys, Xt, yt = D.data(sc["d"], kind=kind)
    X, y, sd = np.concatenate([Xs, Xt]), np.concatenate([ys, yt]), np.array([1] * len(Xs) + [-2] * len(Xt))
    order = np.argsort(np.sin(np.arange(len(X)) * (sc["d"] + 1.3)))
    X, y, sd = X[order], y[order], sd[order]
    ym = y.copy()
    ym[sd < 0] = -1 if kind == "clf" else np.nan
    est, e = raises(lambda: D.make(name, kind).fit(X, ym, sample_domain=sd))
    if e is not None and name == "Gradual":
        r.outcome("refused")  # an interpolated set may hold one class only
        return
    r.check(e is None, "score-fit", lambda: f"{sc}: {e!r}")
    if e is not None:
        return
    forms = [(sd < 0, {"sample_domain": sd[sd < 0]}), (sd < 9, {"sample_domain": sd, "allow_source": True})]
    if name != "MultiLinear":  # needs the domain of every row
        forms.append((sd < 0, {}))
    for rows, kw in forms:
        for yq in (y[rows], np.roll(y[rows], 1), y[rows][::-1]):
            p = est.predict(X[rows], **kw)
            v, e = raises(lambda: est.score(X[rows], yq, **kw))  # noqa: B023
            want = np.mean(p == yq) if kind == "clf" else r2_score(yq, p)
            r.check(e is None and abs(v - want) < 1e-9 * max(1, abs(want)), "score-metric", lambda: f"{sc} {list(kw)}: {v} want {want} {e!r}")  # noqa: B023
            r.step()
            r.state(name, kind, sc["d"], int(rows.sum()), len(kw))
    r.trace()
    r.outcome("score", kind)


def run(sc, r):
    {"build": run_build, "default": run_default, "effect": run_effect, "deep": run_deep, "knn": run_knn, "score": run_score}[sc["k"]](sc, r)


_ = (Ridge, SVC)
