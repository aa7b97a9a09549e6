"""Simulated data and helpers for the distributional regression checks."""
import numpy as np

from . import dists as R
from .p_links import PDOM


def simulate(rng, name, n, k, kind="all", X=None):
    """Data from the model: predictors for the parameters through natural maps."""
    if X is None:
        X = rng.normal(size=(n, k))
    cols = []
    for j, d in enumerate(PDOM[name]):
        slope = rng.uniform(-0.3, 0.3, size=k) if j < 2 else np.zeros(k)
        if j == 1:
            slope = slope * 0.5
        eta = X @ slope
        if d == "R":
            c = eta + rng.normal() * 0.5
        elif d == "U":
            base = rng.uniform(-0.5, 0.5) if j == 0 else rng.uniform(-1.0, -0.3)
            if name == "ZeroAdjustedGamma":
                base = rng.uniform(-1.5, -0.5)
            c = 1 / (1 + np.exp(-(base + eta)))
        else:
            lo, hi = (0.5, 1.5)
            if j == 1 and name in ("InverseGamma",):
                lo, hi = 0.3, 0.6
            elif j == 1 and name in ("Gamma", "ZeroAdjustedGamma", "LogNormal", "LogNormalMedian", "InverseGaussian"):
                lo, hi = 0.3, 0.8
            elif name == "StudentT" and j == 2:
                lo, hi = 4.0, 8.0
            elif name in ("BetaInflated", "BetaInflatedZero"):
                lo, hi = 0.2, 0.6
            c = rng.uniform(lo, hi) * np.exp(eta)
            if name == "InverseGamma" and j == 1:
                c = np.clip(c, 0.25, 0.65)
        cols.append(c)
    t = np.column_stack(cols)
    return X, R.sample(rng, name, t), t
