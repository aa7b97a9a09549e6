"""Reference laws of the 17 distributions (documented parametrisation, written
down independently of the library) and generators for their parameters."""
import numpy as np
import scipy.stats as ss

from ondil import distributions as D
from ondil import links as L

from .p_links import DISTS, DOM, PDOM


def _beta(mu, s):
    return mu * (1 - s**2) / s**2, (1 - mu) * (1 - s**2) / s**2


def cont(name, t):
    """Frozen scipy law of the continuous part for the columns of t (rows of t are the observations)."""
    c = [t[:, j] for j in range(t.shape[1])]
    if name == "Normal":
        return ss.norm(c[0], c[1])
    if name == "NormalMeanVariance":
        return ss.norm(c[0], np.sqrt(c[1]))
    if name == "StudentT":
        return ss.t(c[2], loc=c[0], scale=c[1])
    if name == "JSU":
        return ss.johnsonsu(c[2], c[3], loc=c[0], scale=c[1])
    if name in ("Gamma", "ZeroAdjustedGamma"):
        return ss.gamma(1 / c[1] ** 2, scale=c[0] * c[1] ** 2)
    if name == "LogNormal":
        return ss.lognorm(c[1], scale=np.exp(c[0]))
    if name == "LogNormalMedian":
        return ss.lognorm(c[1], scale=c[0])
    if name == "Logistic":
        return ss.logistic(c[0], c[1])
    if name == "Exponential":
        return ss.expon(scale=c[0])
    if name in ("Beta", "BetaInflated", "BetaInflatedZero"):
        return ss.beta(*_beta(c[0], c[1]))
    if name == "Gumbel":
        return ss.gumbel_l(c[0], c[1])
    if name == "ReverseGumbel":
        return ss.gumbel_r(c[0], c[1])
    if name == "InverseGaussian":
        return ss.invgauss(c[0] * c[1] ** 2, scale=1 / c[1] ** 2)
    if name == "InverseGamma":
        return ss.invgamma(1 / c[1] ** 2, scale=c[0] * (1 + c[1] ** 2) / c[1] ** 2)
    raise KeyError(name)


def atoms(name, t):
    """[(point, probability per row)]"""
    if name == "BetaInflated":
        s = 1 + t[:, 2] + t[:, 3]
        return [(0.0, t[:, 2] / s), (1.0, t[:, 3] / s)]
    if name == "BetaInflatedZero":
        return [(0.0, t[:, 2] / (1 + t[:, 2]))]
    if name == "ZeroAdjustedGamma":
        return [(0.0, t[:, 2])]
    return []


HAS_ATOMS = ("BetaInflated", "BetaInflatedZero", "ZeroAdjustedGamma")
# open support of the continuous part
RANGE = {d: (-np.inf, np.inf) for d in DISTS}
for _d in ("Gamma", "LogNormal", "LogNormalMedian", "Exponential", "ZeroAdjustedGamma", "InverseGaussian", "InverseGamma"):
    RANGE[_d] = (0.0, np.inf)
for _d in ("Beta", "BetaInflated", "BetaInflatedZero"):
    RANGE[_d] = (0.0, 1.0)


def logpdf(name, y, t):
    lo, hi = RANGE[name]
    a = atoms(name, t)
    rest = 1 - sum((p for _, p in a), np.zeros(len(t)))
    inside = (y > lo) & (y < hi)
    with np.errstate(all="ignore"):
        ys = np.where(inside, y, 0.5)
        out = np.where(inside, np.log(rest) + cont(name, t).logpdf(ys), -np.inf)
        for x, p in a:
            out = np.where(y == x, np.log(p), out)
    return out


def cdf(name, y, t):
    a = atoms(name, t)
    rest = 1 - sum((p for _, p in a), np.zeros(len(t)))
    out = rest * cont(name, t).cdf(y)
    for x, p in a:
        out = out + p * (y >= x)
    return out


def ppf(name, q, t):
    """Generalised inverse of the cdf."""
    a = atoms(name, t)
    p0 = a[0][1] if a else np.zeros(len(t))
    rest = 1 - sum((p for _, p in a), np.zeros(len(t)))
    u = np.clip((q - p0) / rest, 0, 1)
    out = np.where(q <= p0, 0.0, cont(name, t).ppf(u)) if a else cont(name, t).ppf(q)
    if name == "BetaInflated":
        out = np.where(q > p0 + rest, 1.0, out)
    return out


def mean(name, t):
    a = atoms(name, t)
    rest = 1 - sum((p for _, p in a), np.zeros(len(t)))
    return rest * cont(name, t).mean() + sum((x * p for x, p in a), np.zeros(len(t)))


def sample(rng, name, t):
    y = ppf(name, rng.uniform(1e-9, 1 - 1e-9, size=len(t)), t)
    lo, hi = RANGE[name]
    if lo == 0.0:
        at = [x for x, _ in atoms(name, t[:1])]
        tiny = (y <= 1e-12) & (y != 0) if 0.0 in at else y <= 1e-12
        y = np.where(tiny, 1e-12, y)
        if hi == 1.0:
            big = y >= 1 - 1e-12
            if 1.0 in at:
                big &= y != 1
            y = np.where(big, 1 - 1e-12, y)
    return y


def gen_theta(rng, name, n, mode="moderate"):
    """n rows of parameters. moderate: well inside; wide: orders of magnitude."""
    w = mode == "wide"
    cols = []
    scale = np.exp(rng.uniform(np.log(0.2), np.log(3), size=n)) if not w else 10.0 ** rng.uniform(-4, 4, size=n)
    for j, d in enumerate(PDOM[name]):
        if d == "R":
            sd = np.sqrt(scale) if name == "NormalMeanVariance" else scale
            c = rng.normal(size=n) * (3 if not w else sd * 10.0 ** rng.uniform(-1, 2, size=n))
            if name == "JSU" and j == 2:
                c = rng.normal(size=n)
            if name == "LogNormal":
                c = rng.normal(size=n) * (1 if not w else 5)
        elif d == "U":
            c = rng.uniform(0.05, 0.95, size=n) if not w else np.clip(rng.beta(0.5, 0.5, size=n), 0.01, 0.99)
            if j == 1:  # scale of the beta family
                c = rng.uniform(0.1, 0.8, size=n) if not w else rng.uniform(0.03, 0.97, size=n)
        else:
            c = scale
            if j >= 2:  # shape parameters
                c = rng.uniform(2.5, 20, size=n) if name == "StudentT" else np.exp(rng.uniform(np.log(0.3), np.log(3), size=n))
                if w and name.startswith("Beta"):  # odds of the inflation
                    c = 10.0 ** rng.uniform(-4, 3, size=n)
                if w and name == "StudentT":
                    c = np.exp(rng.uniform(np.log(0.7), np.log(200), size=n))
                if name == "JSU":
                    c = rng.uniform(0.7, 4, size=n)
            elif j == 1 and name in ("Gamma", "ZeroAdjustedGamma", "LogNormal", "LogNormalMedian", "InverseGamma", "InverseGaussian"):
                c = rng.uniform(0.2, 1.2, size=n) if not w else np.exp(rng.uniform(np.log(0.03), np.log(3), size=n))
                if name == "InverseGaussian":
                    c = c / np.sqrt(cols[0])  # sigma^2 * mu is what matters
            elif j == 0:
                c = np.exp(rng.normal(size=n)) if not w else 10.0 ** rng.uniform(-4, 4, size=n)
        cols.append(c)
    return np.column_stack(cols)


def make(name, links=None):
    return getattr(D, name)(**(links or {}))


def spread(name, t):
    """Length scale of each parameter of each row (for difference quotients)."""
    out = np.empty_like(t)
    for j, d in enumerate(PDOM[name]):
        if d == "U":
            out[:, j] = np.minimum(t[:, j], 1 - t[:, j])
        elif d == "P":
            out[:, j] = t[:, j]
        else:
            out[:, j] = t[:, 1] if j == 0 and name != "LogNormal" else 1.0
            if name == "NormalMeanVariance":
                out[:, j] = np.sqrt(t[:, 1])
            if name == "LogNormal":
                out[:, j] = t[:, 1]
    return out


def dtheta(fn, t, j, h):
    """5-point difference quotient of fn(theta) in column j."""
    def at(k):
        s = t.copy()
        s[:, j] = t[:, j] + k * h
        return fn(s)

    return (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h)
