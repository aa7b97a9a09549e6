"""Shared building blocks of the generators (specs are JSON-able dicts; arrays
are a pure function of the spec)."""
import numpy as np
from hypothesis import strategies as st

SEEDS = st.integers(0, 2**31 - 1)
X_KINDS = ["normal", "scales", "corr", "offset", "dummy", "ints"]
W_KINDS = ["none", "ones", "unif", "wide", "ints", "zeros"]


def rng_of(spec, *salt):
    return np.random.default_rng([int(spec["seed"]), *[int(s) for s in salt]])


def gen_X(rng, n, k, kind):
    X = rng.normal(size=(n, k))
    if kind == "scales":
        X = X * 10.0 ** rng.integers(-3, 4, size=k)
    elif kind == "vast":
        X = X * 10.0 ** rng.integers(-7, 8, size=k)
    elif kind == "corr":
        z = rng.normal(size=(n, 1))
        X = 0.6 * X + z * rng.choice([-1.0, 1.0], size=k)
    elif kind == "offset":
        X = X + rng.uniform(-50, 50, size=k)
    elif kind == "dummy":
        X[:, 0] = rng.integers(0, 2, size=n)
        if k > 2:
            X[:, 1] = rng.uniform(0, 1, size=n)
    elif kind == "ints":
        X = rng.integers(-3, 4, size=(n, k)).astype(float)
    return X


def gen_w(rng, n, kind):
    """Weights or None."""
    if kind == "none":
        return None
    if kind == "ones":
        return np.ones(n)
    if kind == "unif":
        return rng.uniform(0.2, 3.0, size=n)
    if kind == "wide":
        return 10.0 ** rng.uniform(-2, 2, size=n)
    if kind == "tiny":  # the whole batch weighs less than one observation
        return rng.uniform(0.5, 1.5, size=n) * 0.3 / n
    if kind == "ints":
        return rng.integers(1, 4, size=n).astype(float)
    if kind == "zeros":
        w = rng.uniform(0.2, 3.0, size=n)
        w[rng.uniform(size=n) < 0.3] = 0.0
        if not np.any(w > 0):  # all-zero weights are rejected
            w[int(rng.integers(n))] = 1.5
        return w
    raise ValueError(kind)


def full_w(w, n):
    return np.ones(n) if w is None else np.asarray(w, dtype=float)


def forgets(extra=()):
    return st.sampled_from([0.0, 0.0, 1e-4, 0.003, 0.02, 0.1, 0.3, *extra])


def splits(total, batches):
    """Split range(total) at the given batch sizes -> slices."""
    out, s = [], 0
    for b in batches:
        out.append(slice(s, s + b))
        s += b
    assert s == total
    return out


def discount(forget, n):
    """Reference: (1-forget)^(n-1-i)."""
    return (1.0 - forget) ** np.arange(n - 1, -1, -1, dtype=float)


def eff_len(forget, n):
    if forget == 0:
        return float(n)
    return -np.expm1(n * np.log1p(-forget)) / forget
