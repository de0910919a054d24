"""Learners under the simulator's control.

RecReg / RecCls are small deterministic learners whose predictions are functions of the *set* of
training rows, the target, the parameters and the predicted row, perturbed by a tiny hash term so
that every (training run, row) pair has its own prediction value.  Each fit and predict is an event
in the global recorder ``REC``; the recorder is also the seam for learner faults and thread switches.
"""
import hashlib
import threading

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

ID_BASE = 1e6


class Recorder:
    def __init__(self):
        self.reset()

    def reset(self):
        self.events = []
        self.serial = 0
        self.calls = 0
        self.fault = None        # callable(kind, learner, call_no) -> None or raises
        self.hook = None         # callable(kind, learner) : scheduling point
        self.keep = True

    def enter(self, kind, learner):
        self.calls += 1
        n = self.calls
        if self.hook is not None:
            self.hook(kind, learner)
        if self.fault is not None:
            self.fault(kind, learner, n)

    def fit_event(self, learner, ids, y, X, w):
        self.serial += 1
        learner.serial_ = self.serial
        if self.keep:
            self.events.append({"ev": "fit", "serial": self.serial, "ids": ids, "y": y, "X": X, "w": w,
                                "label": learner.label, "params": learner.get_params(deep=False),
                                "digest": learner.digest_, "thread": threading.get_ident()})

    def predict_event(self, learner, ids, X, out, method):
        if self.keep:
            self.events.append({"ev": "predict", "serial": learner.serial_, "ids": ids, "X": X, "out": out,
                                "label": learner.label, "method": method, "digest": learner.digest_})


REC = Recorder()


def row_ids(X):
    """Row ids from the id column (values 1e6 + i), else None; and the index of the id column."""
    X = np.asarray(X, dtype=float)
    if X.ndim == 2 and X.shape[0] > 0:
        for j in range(X.shape[1] - 1, -1, -1):
            if np.all(X[:, j] >= ID_BASE):
                return (X[:, j] - ID_BASE).astype(np.int64), j
    return None, None


def _mix(h, ids):
    """splitmix-style hash of integer ids with a 64 bit key -> floats in (-1, 1)."""
    z = ids.astype(np.uint64) * np.uint64(0x9E3779B97F4A7C15) + np.uint64(h)
    z ^= z >> np.uint64(30)
    z *= np.uint64(0xBF58476D1CE4E5B9)
    z ^= z >> np.uint64(27)
    z *= np.uint64(0x94D049BB133111EB)
    z ^= z >> np.uint64(31)
    return (z >> np.uint64(11)).astype(np.float64) / float(1 << 52) - 1.0


def _hash_rows(X):
    out = np.empty(X.shape[0], dtype=np.uint64)
    for i in range(X.shape[0]):
        out[i] = int.from_bytes(hashlib.blake2b(X[i].tobytes(), digest_size=8).digest(), "little")
    return out


def _design(X, idc):
    X = np.asarray(X, dtype=float)
    if idc is not None:
        X = np.delete(X, idc, axis=1)
    return np.column_stack((np.ones(X.shape[0]), X))


class _RecBase(BaseEstimator):
    def _prep(self, X, y, w):
        X = np.array(X, dtype=float, copy=True)
        y = np.array(y, dtype=float, copy=True)
        w = np.ones(len(y)) if w is None else np.array(w, dtype=float, copy=True)
        ids, idc = row_ids(X)
        key = ids if ids is not None else _hash_rows(X)
        order = np.argsort(key, kind="stable")
        X, y, w = np.ascontiguousarray(X[order]), y[order], w[order]
        sids = ids[order] if ids is not None else None
        h = hashlib.blake2b(digest_size=8)
        h.update(X.tobytes()); h.update(y.tobytes()); h.update(w.tobytes())
        h.update(repr(sorted(self.get_params(deep=False).items())).encode())
        self.digest_ = h.hexdigest()
        self.key_ = int.from_bytes(h.digest(), "little")
        self.n_features_in_ = X.shape[1]
        return X, y, w, sids, idc

    def _noise(self, X):
        X = np.ascontiguousarray(np.asarray(X, dtype=float))
        ids, idc = row_ids(X)
        k = ids if ids is not None else _hash_rows(X)
        return ids, idc, _mix(self.key_, k)


class RecReg(RegressorMixin, _RecBase):
    _dtype = np.float64

    def __init__(self, alpha=1.0, shift=0.0, label=""):
        self.alpha = alpha
        self.shift = shift
        self.label = label

    def fit(self, X, y, sample_weight=None):
        REC.enter("fit", self)
        X, y, w, ids, idc = self._prep(X, y, sample_weight)
        D = _design(X, idc)
        A = (D * w[:, None]).T @ D + max(self.alpha, 1e-8) * np.eye(D.shape[1])
        self.coef_ = np.linalg.solve(A, (D * w[:, None]).T @ y)
        self.scale_ = float(np.mean(np.abs(y))) + 1.0
        REC.fit_event(self, ids, y, X, w)
        return self

    def predict(self, X):
        REC.enter("predict", self)
        ids, idc, noise = self._noise(X)
        out = ((_design(X, idc) * self.coef_).sum(axis=1) + self.shift + 1e-3 * self.scale_ * noise).astype(self._dtype)
        REC.predict_event(self, ids, np.array(X, dtype=float), out.astype(float), "predict")
        return out


class RecCls(ClassifierMixin, _RecBase):
    _dtype = np.float64

    def __init__(self, alpha=1.0, lo=0.1, hi=0.9, label=""):
        self.alpha = alpha
        self.lo = lo
        self.hi = hi
        self.label = label

    def fit(self, X, y, sample_weight=None):
        REC.enter("fit", self)
        yraw = np.asarray(y)
        self.classes_, yi = np.unique(yraw, return_inverse=True)
        X, yv, w, ids, idc = self._prep(X, yraw, sample_weight)
        D = _design(X, idc)
        t = (yv == float(self.classes_[-1])).astype(float)
        # two ridge-Newton steps from zero: deterministic, always defined
        beta = np.zeros(D.shape[1])
        for _ in range(2):
            p = 1.0 / (1.0 + np.exp(-np.clip((D * beta).sum(axis=1), -8, 8)))
            W = np.maximum(p * (1 - p), 1e-3) * w
            A = (D * W[:, None]).T @ D + max(self.alpha, 1e-8) * np.eye(D.shape[1])
            g = (D * w[:, None]).T @ (t - p) - max(self.alpha, 1e-8) * beta
            beta = beta + np.linalg.solve(A, g)
        self.coef_ = beta
        REC.fit_event(self, ids, yv, X, w)
        return self

    def _p1(self, X):
        ids, idc, noise = self._noise(X)
        eta = np.clip((_design(X, idc) * self.coef_).sum(axis=1), -8, 8)
        p = self.lo + (self.hi - self.lo) / (1.0 + np.exp(-eta)) + 1e-4 * noise
        return ids, p

    def predict_proba(self, X):
        REC.enter("predict", self)
        ids, p = self._p1(X)
        one = len(self.classes_) == 1
        out = (np.ones((len(p), 1)) if one else np.column_stack((1.0 - p, p))).astype(self._dtype)
        REC.predict_event(self, ids, np.array(X, dtype=float), out[:, -1].astype(float) * (float(self.classes_[-1]) if one else 1.0), "predict_proba")
        return out

    def predict(self, X):
        REC.enter("predict", self)
        ids, p = self._p1(X)
        out = self.classes_[np.zeros(len(p), dtype=int)] if len(self.classes_) == 1 else self.classes_[(p > 0.5).astype(int)]
        REC.predict_event(self, ids, np.array(X, dtype=float), np.asarray(out, dtype=float), "predict")
        return out


def predicted_again(spec_cls, e, X=None, method="predict"):
    """What the learner of a recorded training run predicts for its own rows (or X), without being recorded."""
    REC.keep, keep = False, REC.keep
    fault, hook, serial = REC.fault, REC.hook, REC.serial
    REC.fault = REC.hook = None
    try:
        m = spec_cls(**e["params"]).fit(e["X"], e["y"], sample_weight=e["w"])
        p = getattr(m, method)(e["X"] if X is None else X)
        return p if p.ndim == 1 else p[:, -1]
    finally:
        REC.keep, REC.fault, REC.hook, REC.serial = keep, fault, hook, serial


class _Quiet:
    """Without the noise that depends on the training data bit by bit (for comparisons across feature orders)."""

    def _noise(self, X):
        ids, idc, noise = super()._noise(X)
        return ids, idc, 0.0 * noise


class QuietReg(_Quiet, RecReg):
    pass


class QuietCls(_Quiet, RecCls):
    pass


class SingleReg(RecReg):
    """Predicts in single precision."""
    _dtype = np.float32


class SingleCls(RecCls):
    _dtype = np.float32


class Forbidden(BaseEstimator):
    """A learner that must never be trained or asked (placeholder for supplied predictions)."""

    def fit(self, X, y, sample_weight=None):
        raise AssertionError("a learner with supplied predictions was trained")

    def predict(self, X):
        raise AssertionError("a learner with supplied predictions was asked for predictions")


class ForbiddenReg(RegressorMixin, Forbidden):
    pass


class ForbiddenCls(ClassifierMixin, Forbidden):
    def predict_proba(self, X):
        raise AssertionError("a learner with supplied predictions was asked for predictions")
