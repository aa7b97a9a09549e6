"""C23 sample weights mean replication."""
import numpy as np
from hypothesis import strategies as st

from . import dists as R
from .core import Part, Prop, Result, Violation, call, require
from .data import gen_w, rng_of
from .p_links import PDOM
from .zoo import Diverged, build, est_spec, one_batch, same, state, step, warm

WI = ["ints", "zeros_ints", "const"]


def int_w(rng, n, kind):
    if kind == "const":
        return np.full(n, float(rng.integers(1, 4)))
    if kind == "ints":
        return rng.integers(1, 4, size=n).astype(float)
    w = rng.integers(0, 4, size=n).astype(float)
    if not w.any():
        w[int(rng.integers(n))] = 2.0
    return w


def expand(rng, X, y, w, shuffle):
    i = np.repeat(np.arange(len(y)), w.astype(int))
    if shuffle:
        i = rng.permutation(i)
    return X[i], y[i]


@st.composite
def weight_spec(draw, kinds, exact=True, methods=("ols", "ols_obj", "ridge", "ridge_auto", "lasso", "enet"), dists=None):
    kw = {} if dists is None else {"dists": dists}
    s = draw(est_spec(kinds=kinds, methods=methods, max_batches=3, **kw))
    s["mode"] = draw(st.sampled_from(["replicate", "replicate", "replicate", "none_ones", "rescale"]))
    if s["mode"] == "rescale" and (s["est"] not in ("linear",) or s["method"] not in ("ols", "ols_obj")):
        s["mode"] = "replicate"
    if s["mode"] == "replicate":
        s["forget"] = 0.0
    s["wi"] = [draw(st.sampled_from(WI)) for _ in range(len(s["batches"]) + 1)]
    s["shuffle"] = draw(st.booleans())
    s["factor"] = draw(st.sampled_from([0.5, 2.0, 3.0, 17.0, 1000.0]))
    return s


def batches(spec):
    out = []
    for i, n in enumerate([spec["n"], *spec["batches"]]):
        X, y = one_batch(spec, n, i)
        out.append((X, y))
    return out


def pinned(spec):
    """The distribution with start values that depend on neither weights nor replication: same start values, same iterations."""
    d = R.make(spec["dist"])
    start = np.median(np.asarray(d.initial_values(batches(spec)[0][1]), dtype=float), axis=0)
    d.initial_values = lambda y, *a, **k: np.tile(start, (len(y), 1))
    return d


def run(spec, feeds, pin=True, **over):
    if spec["est"] == "gamlss" and pin:
        over["distribution"] = pinned(spec)
    m = build(spec, **over)
    for i, (X, y, w) in enumerate(feeds):
        step(spec, m, "fit" if i == 0 else "update", X, y, w)
    return m


def pair(spec):
    """two histories that must give the same model"""
    a, b = [], []
    for i, (X, y) in enumerate(batches(spec)):
        rng = rng_of(spec, 61, i)
        n = len(y)
        if spec["mode"] == "replicate":
            w = int_w(rng, n, spec["wi"][i])
            a.append((X, y, w))
            b.append((*expand(rng, X, y, w, spec["shuffle"]), None if i % 2 else np.ones(int(w.sum()))))
        elif spec["mode"] == "none_ones":
            a.append((X, y, None))
            b.append((X, y, np.ones(n)))
        else:
            w = gen_w(rng, n, "unif")
            a.append((X, y, w))
            b.append((X, y, w * spec["factor"]))
    return a, b


def compare(spec, a, b, probe, rtol):
    sa, sb = state(spec, a, probe), state(spec, b, probe)
    if spec["mode"] == "rescale":
        for s in (sa, sb):
            for key in [k for k in s if k.startswith("n_")]:
                s.pop(key)
    same(sa, sb, {"replicate": "integer weights vs repeated observations", "none_ones": "no weights vs unit weights", "rescale": f"weights times {spec['factor']}"}[spec["mode"]], rtol=rtol, atol=1e-10)


def unstable(spec, fa, m, probe, rtol):
    """Does rounding-size noise in the responses change the model (tie in the model selection, chaotic iteration)?"""
    s0 = state(spec, m, probe)
    for r in range(3):
        noise = [(X, y * (1 + 1e-11 * rng_of(spec, 62, r, i).normal(size=len(y))), w) for i, (X, y, w) in enumerate(fa)]
        try:
            same(state(spec, run(spec, noise), probe), s0, "", rtol=rtol / 10, atol=1e-11)
        except (Violation, Diverged):
            return True
    return False


def check(spec, rtol=1e-6):
    probe = one_batch(spec, 4, 77)[0]
    fa, fb = pair(spec)
    try:
        a = run(spec, fa)
    except Diverged:
        return Result(False, skip="numerical breakdown")
    try:
        b = run(spec, fb)
        compare(spec, a, b, probe, rtol)
    except Diverged:
        if unstable(spec, fa, a, probe, rtol):
            return Result(False, skip="unstable under rounding")
        raise Violation("breaks down numerically with " + spec["mode"])
    except Violation:
        if spec["est"] != "scaler" and unstable(spec, fa, a, probe, rtol):
            return Result(False, skip="unstable under rounding")
        raise
    return Result(nontrivial=spec["mode"] != "none_ones" or len(spec["batches"]) > 0,
                  tags=("est=" + spec["est"], "mode=" + spec["mode"], "method=" + spec["method"], f"dist={spec['dist']}", f"scale={spec['scale']}", *{"w=" + w for w in spec["wi"]}))


# --------------------------- arbitrary weights in the distributional fit ----
CONV = ["Normal", "NormalMeanVariance", "Gamma", "LogNormal", "Logistic", "Beta", "Exponential", "ZeroAdjustedGamma", "InverseGaussian", "LogNormalMedian"]
TIGHT = dict(max_it_inner=30, min_it_outer=1, abs_tol_inner=1e-9, abs_tol_outer=1e-11, rel_tol_inner=0.0, rel_tol_outer=0.0)


@st.composite
def conv_spec(draw):
    s = draw(weight_spec(("gamlss",), methods=("ols",), dists=CONV))
    s["mode"] = draw(st.sampled_from(["replicate", "replicate", "rescale"])) if s["method"] == "ols" else "replicate"
    s["forget"] = 0.0
    s["icpt"] = [True] * len(s["icpt"])
    s["batches"] = []
    s["wi"] = [draw(st.sampled_from(["ints", "zeros_ints"]))]
    return s


def check_conv(spec):
    probe = one_batch(spec, 4, 77)[0]
    fa, fb = pair(spec)
    try:
        ms = [[run(spec, f, pin=False, max_it_outer=it, **TIGHT) for it in (40, 80)] for f in (fa, fb)]
    except Diverged:
        return Result(False, skip="numerical breakdown")
    for m1, m2 in ms:
        try:
            same(state(spec, m1, probe), state(spec, m2, probe), "", rtol=1e-6, atol=1e-7)
        except Violation:
            return Result(False, skip="not converged")
    compare(spec, ms[0][1], ms[1][1], probe, 3e-4)
    return Result(tags=("mode=" + spec["mode"], "method=" + spec["method"], f"dist={spec['dist']}", "w=" + spec["wi"][0]))


PROPS = [
    Prop("C23", [
        Part("linear", lambda: weight_spec(("linear", "lasso", "scaler")), check, 1600, 40000, min_nontrivial=0.6),
        Part("distributional", lambda: weight_spec(("gamlss",)), check, 320, 10000, min_nontrivial=0.3),
        Part("distributional_fit", conv_spec, check_conv, 240, 8000, min_nontrivial=0.3),
    ], rule="The same history written with integer (or zero) weights and with repeated (or omitted) rows in drawn order; with and without unit weights for every forget factor; all weights multiplied by a constant (OLS). Oracle: the two models must have the same coefficients, paths, predictions, moments and observation counts (relative 1e-6 for the same iterations, 3e-4 at convergence where the start values differ). Cases where rounding-size noise in the responses changes the model are set aside. Non-trivial: weights differ from one or updates follow.",
        warmup=warm, assumptions=["forget = 0 for replication", "the start values of the distributional fit are unweighted, so fits with unequal weights are compared with pinned start values, or at convergence"]),
]
