"""Reference models shared by the checks of the estimators."""
import numpy as np

from .data import discount


class RefScaler:
    """Weighted, discounted standardisation computed from all data seen."""

    def __init__(self, k, arg, forget):
        if arg is True:
            self.cols = np.arange(k)
        elif arg is False:
            self.cols = np.arange(0)
        else:
            a = np.asarray(arg)
            self.cols = np.flatnonzero(a) if a.dtype == bool else a
        self.f = forget
        self.X, self.w = [], []

    def see(self, X, w):
        self.X.append(X)
        self.w.append(w)
        if len(self.cols) == 0:
            return
        Z, ww = np.vstack(self.X)[:, self.cols], np.concatenate(self.w)
        d = discount(self.f, len(ww)) * ww
        self.m = (Z * d[:, None]).sum(0) / d.sum()
        self.v = ((Z - self.m) ** 2 * d[:, None]).sum(0) / d.sum()
        self.mag = np.abs(Z).max(0)

    def degenerate(self):
        return len(self.cols) > 0 and bool(np.any(self.v <= 1e-8 * self.mag**2))

    def __call__(self, X):
        out = np.array(X, dtype=float)
        if len(self.cols):
            out[:, self.cols] = (out[:, self.cols] - self.m) / np.sqrt(self.v)
        return out


def intercept(X, on):
    return np.column_stack([np.ones(len(X)), X]) if on else np.array(X, dtype=float)


def scaled_cond(G):
    """Condition number after diagonal scaling (what the coefficients feel)."""
    d = np.sqrt(np.diag(G))
    if not np.all(d > 0):
        return np.inf
    e = np.linalg.eigvalsh(G / np.outer(d, d))
    return np.inf if e[0] <= 0 else e[-1] / e[0]


def sel_arg(rng, k, how):
    """Value of scale_inputs / to_scale."""
    if how == "all":
        return True
    if how == "none":
        return False
    if how == "mask":
        return rng.uniform(size=k) < 0.6
    return np.sort(rng.permutation(k)[: rng.integers(1, k + 1)]).astype(int)
