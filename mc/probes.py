"""Probe estimators: they log what they are given.  Column 1 of every feature matrix is the
identifier of the original sample and is never changed by a probe; column 0 is."""
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, TransformerMixin

from skada.base import BaseAdapter, DAEstimator

LOG = []


def rec(kind, tag, X, y=None, sd=None, w=None):
    LOG.append((kind, tag, np.array(X, copy=True), None if y is None else np.array(y, copy=True),
                None if sd is None else np.array(sd, copy=True), None if w is None else np.array(w, copy=True)))


class T(TransformerMixin, BaseEstimator):
    """Plain transformer: adds 1 to the feature."""
    __metadata_request__fit = {"sample_weight": False}

    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, X, y=None):
        rec("fit", self.tag, X, y)
        self.fitted_ = True
        return self

    def transform(self, X):
        rec("transform", self.tag, X)
        X = np.array(X)
        X[:, 0] += 1
        return X


class T2(BaseEstimator):
    """Plain transformer without fit_transform."""
    __metadata_request__fit = {"sample_weight": False}

    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, X, y=None):
        rec("fit", self.tag, X, y)
        self.fitted_ = True
        return self

    def transform(self, X):
        rec("transform", self.tag, X)
        X = np.array(X)
        X[:, 0] += 1
        return X


class TW(TransformerMixin, BaseEstimator):
    """Transformer fitted with weights."""
    __metadata_request__fit = {"sample_weight": True}

    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, X, y=None, sample_weight=None):
        rec("fit", self.tag, X, y, None, sample_weight)
        self.fitted_ = True
        return self

    def transform(self, X):
        rec("transform", self.tag, X)
        X = np.array(X)
        X[:, 0] += 1
        return X


class _A(BaseAdapter):
    __metadata_request__fit = {"sample_domain": True, "sample_weight": True}

    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, X, y=None, *, sample_domain=None, sample_weight=None):
        self.fit_transform(X, y, sample_domain=sample_domain, sample_weight=sample_weight)
        return self

    def fit_transform(self, X, y=None, *, sample_domain=None, sample_weight=None):
        rec("fit", self.tag, X, y, sample_domain, sample_weight)
        self.fitted_ = True
        return self.emit(np.array(X), y, sample_domain, sample_weight)


def weight_of(ids):
    return np.asarray(ids) * 0.5 + 3.0


def label_of(ids, reg):
    return np.asarray(ids) % 3 + (20.5 if reg else 20)


def domain_of(sd):
    return np.where(np.asarray(sd) >= 0, np.asarray(sd) + 30, np.asarray(sd) - 30)


class W(_A):
    """Adapter emitting weights and new features."""

    def emit(self, X, y, sd, w):
        X[:, 0] += 10
        return X, {"sample_weight": weight_of(X[:, 1])}


class L(_A):
    """Adapter emitting labels for targets, masking sources."""

    def __init__(self, tag=0):
        super().__init__(tag)
        self.predicts_target_labels = True

    def emit(self, X, y, sd, w):
        reg = np.asarray(y).dtype.kind == "f"
        yn = np.where(sd < 0, label_of(X[:, 1], reg), np.nan if reg else -1)
        return X, yn if reg else yn.astype(int), {}


class D(_A):
    """Adapter renaming the domains."""

    def emit(self, X, y, sd, w):
        return X, {"sample_domain": domain_of(sd)}


class S(_A):
    """Adapter dropping samples and reversing the rest."""

    def emit(self, X, y, sd, w):
        idx = np.array([i for i in range(len(X)) if int(X[i, 1]) % 4 != 3])[::-1]
        p = {"sample_domain": sd[idx]}
        if w is not None:
            p["sample_weight"] = w[idx]
        return X[idx], (None if y is None else y[idx]), p


class C(ClassifierMixin, BaseEstimator):
    """Plain final estimator."""
    __metadata_request__fit = {"sample_weight": False}

    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, X, y=None):
        rec("fit", self.tag, X, y)
        self.fitted_ = True
        self.classes_ = np.unique(y)
        return self

    def predict(self, X):
        rec("predict", self.tag, X)
        return np.array(X[:, 1])

    def predict_proba(self, X):
        rec("predict", self.tag, X)
        return np.stack([X[:, 1], X[:, 0]], 1)

    def decision_function(self, X):
        rec("predict", self.tag, X)
        return np.array(X[:, 0])

    def score(self, X, y, sample_weight=None):
        rec("score", self.tag, X, y)
        return float(np.dot(X[:, 1], np.arange(1, len(X) + 1)))


class CW(C):
    __metadata_request__fit = {"sample_weight": True}

    def fit(self, X, y=None, sample_weight=None):
        rec("fit", self.tag, X, y, None, sample_weight)
        self.fitted_ = True
        return self


class DC(DAEstimator):
    """Domain aware final estimator."""
    __metadata_request__fit = {"sample_domain": True, "sample_weight": False}
    __metadata_request__score = {"sample_domain": True, "allow_source": True}

    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, X, y=None, sample_domain=None):
        rec("fit", self.tag, X, y, sample_domain)
        self.fitted_ = True
        return self

    def predict(self, X, sample_domain=None, allow_source=False):
        rec("predict", self.tag, X, None, sample_domain)
        return np.array(X[:, 1])

    def predict_proba(self, X, sample_domain=None, allow_source=False):
        rec("predict", self.tag, X, None, sample_domain)
        return np.stack([X[:, 1], X[:, 0]], 1)

    def decision_function(self, X, sample_domain=None, allow_source=False):
        return np.array(X[:, 0])

    def score(self, X, y, sample_domain=None, allow_source=False, sample_weight=None):
        rec("score", self.tag, X, y, sample_domain)
        return float(np.dot(X[:, 1], np.arange(1, len(X) + 1)))


class DCW(DC):
    __metadata_request__fit = {"sample_domain": True, "sample_weight": True}

    def fit(self, X, y=None, sample_domain=None, sample_weight=None):
        rec("fit", self.tag, X, y, sample_domain, sample_weight)
        self.fitted_ = True
        return self


STEPS = {c.__name__: c for c in (T, T2, TW, W, L, D, S)}
FINALS = {c.__name__: c for c in (C, CW, DC, DCW)}
