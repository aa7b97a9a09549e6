"""Estimators with generated settings and data; observable state of a model."""
import numpy as np
from hypothesis import strategies as st

from ondil import distributions as D  # noqa: F401
from ondil.estimators import OnlineDistributionalRegression as ODR
from ondil.estimators import OnlineLasso, OnlineLinearModel
from ondil.methods import ElasticNetPath, LassoPath, OrdinaryLeastSquares, Ridge
from ondil.scaler import OnlineScaler

from . import dists as R
from .core import Violation, call
from .data import SEEDS, gen_w, rng_of
from .gamlss import simulate
from .p_links import DISTS, PDOM
from .refs import sel_arg

WK = ["none", "none", "ones", "unif", "ints", "zeros"]
EASY = ["Normal", "Normal", "NormalMeanVariance", "Gamma", "LogNormal", "Logistic", "Beta", "InverseGaussian", "Exponential", "ZeroAdjustedGamma",
        "StudentT", "Gumbel", "JSU", "BetaInflated", "BetaInflatedZero", "LogNormalMedian"]
assert set(EASY) <= set(DISTS)


METHODS = ("ols", "ols_obj", "ridge", "ridge_auto", "lasso", "enet", "lasso_str", "lasso_early", "enet_warm", "bounded")


@st.composite
def est_spec(draw, kinds=("linear", "lasso", "gamlss", "scaler"), dists=EASY, kmax=4, methods=METHODS, max_batches=3):
    kind = draw(st.sampled_from(list(kinds)))
    k = draw(st.integers(1, kmax))
    s = {
        "est": kind,
        "k": k,
        "n": draw(st.integers(25, 60)) if kind != "gamlss" else draw(st.integers(50, 90)),
        "batches": draw(st.lists(st.one_of(st.just(1), st.integers(1, 10)), max_size=max_batches)),
        "forget": draw(st.sampled_from([0.0, 0.0, 0.005, 0.03])),
        "scale": draw(st.sampled_from(["all", "all", "none", "mask", "index"])),
        "icpt": draw(st.sampled_from([True, True, True, False])),
        "reg_icpt": draw(st.sampled_from([False, False, True])),
        "ic": draw(st.sampled_from(["aic", "bic", "hqc", "max"])),
        "method": draw(st.sampled_from(list(methods))),
        "lambda_n": draw(st.sampled_from([4, 8])),
        "seed": draw(SEEDS),
    }
    if not s["icpt"]:
        s["reg_icpt"] = False
    wk = WK + ["tiny"] if kind == "scaler" else WK
    s["w"] = [draw(st.sampled_from(wk)) for _ in range(len(s["batches"]) + 1)]
    s["dist"] = None
    if kind == "gamlss":
        s["dist"] = draw(st.sampled_from(list(dists)))
        P = len(PDOM[s["dist"]])
        s["eq"] = [draw(st.sampled_from(["all", "intercept", "mask", "index"])) if p < 2 else "intercept" for p in range(P)]
        s["icpt"] = [True if p or s["eq"][p] == "intercept" else s["icpt"] for p in range(P)]
        s["ms"] = "local_rss" if s["method"] == "lasso_str" else draw(st.sampled_from(["local_rss", "global_ll"]))
        if draw(st.booleans()):
            s["forget"] = [draw(st.sampled_from([0.0, 0.005, 0.03])) for _ in range(P)]
    return s


def tight():
    return dict(tolerance=1e-10, max_iterations=20000)


def make_method(spec):
    path = dict(lambda_n=spec["lambda_n"], lambda_eps=1e-3, **tight())
    if spec["method"] == "bounded":  # bounds need a known number of coefficients
        if spec["est"] != "linear":
            return LassoPath(**path)
        J = spec["k"] + int(spec["icpt"])
        rng = rng_of(spec, 21)
        return LassoPath(beta_lower_bound=-rng.uniform(0.1, 1, size=J), beta_upper_bound=rng.uniform(0.1, 1, size=J), **path)
    return {
        "ols": lambda: "ols", "ols_obj": OrdinaryLeastSquares, "ridge": lambda: Ridge(lambda_reg=1.5, **tight()),
        "lasso": lambda: LassoPath(**path), "enet": lambda: ElasticNetPath(alpha=0.5, **path), "lasso_str": lambda: "lasso", "ridge_auto": lambda: Ridge(**tight()),
        "lasso_early": lambda: LassoPath(early_stop=2, **path), "enet_warm": lambda: ElasticNetPath(alpha=0.8, start_value_initial="average", start_value_update="average", **path),
    }[spec["method"]]()


def scale_of(spec):
    return sel_arg(rng_of(spec, 11), spec["k"], spec["scale"])


def eq_value(spec, p):
    """(value for the library, columns)"""
    k, e = spec["k"], spec["eq"][p]
    if e == "all":
        return "all", np.arange(k)
    if e == "intercept":
        return "intercept", np.arange(0)
    rng = rng_of(spec, 12, p)
    m = rng.uniform(size=k) < 0.6
    if not m.any():
        m[int(rng.integers(k))] = True
    return (m, np.flatnonzero(m)) if e == "mask" else (np.flatnonzero(m), np.flatnonzero(m))


def params(spec):
    """constructor arguments"""
    kind = spec["est"]
    if kind == "scaler":
        return dict(forget=spec["forget"], to_scale=scale_of(spec))
    common = dict(scale_inputs=scale_of(spec), ic=spec["ic"])
    if kind == "lasso":
        return dict(forget=spec["forget"], fit_intercept=spec["icpt"], regularize_intercept=spec["reg_icpt"], lambda_n=spec["lambda_n"], lambda_eps=1e-3, **tight(), **common)
    if kind == "linear":
        return dict(forget=spec["forget"], fit_intercept=spec["icpt"], regularize_intercept=spec["reg_icpt"], method=make_method(spec), **common)
    P = len(PDOM[spec["dist"]])
    f = spec["forget"]
    return dict(distribution=R.make(spec["dist"]), equation={p: eq_value(spec, p)[0] for p in range(P)}, forget=dict(enumerate(f)) if isinstance(f, list) else f,
                method=make_method(spec), fit_intercept=dict(enumerate(spec["icpt"])), regularize_intercept=spec["reg_icpt"], model_selection=spec["ms"], **common)


CLS = {"scaler": OnlineScaler, "lasso": OnlineLasso, "linear": OnlineLinearModel, "gamlss": ODR}


def build(spec, **over):
    kw = params(spec)
    kw.update(over)
    return call(CLS[spec["est"]], **kw)


def forget_of(spec, p=0):
    f = spec["forget"]
    return f[p] if isinstance(f, list) else f


def one_batch(spec, n, salt):
    rng = rng_of(spec, 13, salt)
    k = spec["k"]
    if spec["est"] == "gamlss":
        X, y, _ = simulate(rng, spec["dist"], n, k)
        # the same coefficients for all batches would need the same rng state; drift is fine
        return X, y
    X = rng.normal(size=(n, k)) * rng_of(spec, 14).uniform(0.5, 3, size=k) + rng_of(spec, 15).normal(size=k)
    beta = rng_of(spec, 16).normal(size=k) * rng_of(spec, 17).choice([0, 1], size=k)
    return X, X @ beta + 1.0 + rng.normal(size=n)


def data(spec):
    out = []
    for i, n in enumerate([spec["n"], *spec["batches"]]):
        X, y = one_batch(spec, n, i)
        out.append((X, y, gen_w(rng_of(spec, 18, i), n, spec["w"][i])))
    return out


def feed(spec, m, fn, X, y, w):
    """Call m.<fn>; X, y, w may be any containers."""
    f = getattr(m, fn)
    if spec["est"] == "scaler":
        return f(X) if w is None else f(X, sample_weight=w)
    return f(X, y) if w is None else f(X, y, sample_weight=w)


class Diverged(Exception):
    pass


def step(spec, m, fn, X, y, w):
    """A valid call; numerical breakdown of the distributional fit is not this property's business."""
    try:
        r = feed(spec, m, fn, X, y, w)
    except (np.linalg.LinAlgError, FloatingPointError) as e:
        raise Diverged(str(e)) from e
    except ValueError as e:
        if spec["est"] == "gamlss" and ("finite" in str(e) or "NaN" in str(e) or "invertible" in str(e) or "singular" in str(e).lower()):
            raise Diverged(str(e)) from e
        raise Violation(f"{fn} raised {type(e).__name__}: {e}") from e
    except Exception as e:
        raise Violation(f"{fn} raised {type(e).__name__}: {e}") from e
    if spec["est"] == "gamlss" and not all(np.all(np.isfinite(c)) for c in m.coef_.values()):
        raise Diverged("coefficients are not finite")
    return r


def state(spec, m, probe):
    """Everything a user can observe, as a flat dict of arrays."""
    s = {"n_observations_": np.array(m.n_observations_, dtype=float)}
    if spec["est"] == "scaler":
        for a in ("mean_", "var_", "std_"):
            s[a] = np.array(getattr(m, a), dtype=float)
        s["transform"] = np.array(m.transform(probe), dtype=float)
        return s
    if spec["est"] == "gamlss":
        for p in m.coef_:
            s[f"coef_[{p}]"] = np.array(m.coef_[p], dtype=float)
            s[f"n_training_[{p}]"] = np.array(m.n_training_[p], dtype=float)
            if m.coef_path_[p] is not None:
                s[f"coef_path_[{p}]"] = np.array(m.coef_path_[p], dtype=float)
        s["theta"] = np.array(m.predict_distribution_parameters(probe), dtype=float)
        return s
    s["coef_"] = np.array(m.coef_, dtype=float)
    s["n_training_"] = np.array(m.n_training_, dtype=float)
    if getattr(m, "coef_path_", None) is not None:
        s["coef_path_"] = np.array(m.coef_path_, dtype=float)
    s["predict"] = np.array(m.predict(probe), dtype=float)
    return s


def same(a, b, what, rtol=0.0, atol=0.0):
    if set(a) != set(b):
        raise Violation(f"{what}: different observables {set(a) ^ set(b)}")
    for key in a:
        x, y = a[key], b[key]
        if x.shape != y.shape:
            raise Violation(f"{what}: {key} has shape {x.shape}, expected {y.shape}")
        if rtol == 0 and atol == 0:
            ok = (x == y) | (np.isnan(x) & np.isnan(y))
        else:
            sc = np.max(np.abs(y[np.isfinite(y)]), initial=0.0)
            ok = (np.abs(x - y) <= atol + rtol * np.maximum(np.abs(y), 0.1 * sc)) | (x == y) | (np.isnan(x) & np.isnan(y))
        if not np.all(ok):
            i = np.unravel_index(int(np.argmin(ok)), ok.shape) if ok.ndim else ()
            raise Violation(f"{what}: {key}{list(map(int, i))} is {x[i]!r}, expected {y[i]!r}")


def warm():
    rng = np.random.default_rng(0)
    X, y = rng.normal(size=(30, 2)), rng.normal(size=30)
    for meth in ("ols", LassoPath(lambda_n=3), ElasticNetPath(alpha=0.5, lambda_n=3), Ridge(lambda_reg=1.0)):
        try:
            OnlineLinearModel(method=meth).fit(X, y, np.ones(30)).update(X[:1], y[:1]).update(X, y)
            ODR(equation={0: "all", 1: "all"}, method=meth).fit(X, y, np.ones(30)).update(X[:1], y[:1]).update(X, y)
        except Exception:  # noqa: BLE001
            pass
