"""C24 equivalent ways to write a configuration give the same model."""
import numpy as np
from hypothesis import strategies as st

from ondil.estimators import OnlineDistributionalRegression as ODR
from ondil.estimators import OnlineLasso, OnlineLinearModel
from ondil.methods import ElasticNetPath, LassoPath, OrdinaryLeastSquares, Ridge

from . import dists as R
from .core import Part, Prop, Result, Violation, attempt, call, require
from .data import gen_w, rng_of
from .p_isolation import NAMES, box, box1
from .p_links import PDOM
from .zoo import EASY, SEEDS, Diverged, est_spec, one_batch, same, state, step, tight, warm

SPELL = ["scalar", "dict", "shuffled", "missing"]
DEFAULT = {"forget": 0.0, "method": "ols", "ic": "aic", "fit_intercept": True, "regularize_intercept": False, "step_size": 1.0}
VALUES = {
    "forget": [0.0, 0.0, 0.01, 0.04],
    "method": ["ols", "ols", "lasso", "elasticnet", "ridge_obj", "lasso_obj"],
    "ic": ["aic", "aic", "bic", "hqc", "max"],
    "fit_intercept": [True, True, False],
    "regularize_intercept": [False, False, True],
    "step_size": [1.0, 1.0, 0.5],
}
BOXES = ["numpy", "pandas", "polars", "fortran", "strided", "readonly", "lists"]


@st.composite
def odr_spec(draw):
    name = draw(st.sampled_from(EASY))
    P, k = len(PDOM[name]), draw(st.integers(1, 4))
    s = {"est": "gamlss", "dist": name, "k": k, "n": draw(st.integers(50, 90)), "seed": draw(SEEDS),
         "batches": draw(st.lists(st.integers(1, 8), max_size=2)), "box": draw(st.sampled_from(BOXES)), "w": draw(st.sampled_from(["none", "unif"])),
         "eq": [], "spell_eq": [], "val": {}, "spell": {}}
    default_eq = draw(st.sampled_from([True, False, False]))
    for p in range(P):
        cols = draw(st.lists(st.booleans(), min_size=k, max_size=k)) if p < 2 and not default_eq else [p == 0] * k
        if draw(st.sampled_from([True, False])) and p == 0:
            cols = [True] * k
        how = draw(st.sampled_from(["mask", "index", "all", "names", "names", "missing", "negative", "list"]))
        s["eq"].append([j for j in range(k) if cols[j]])
        if not default_eq and how in ("names", "index", "negative", "list") and draw(st.booleans()):  # spellings that fix an order of the columns
            s["eq"][p] = draw(st.permutations(s["eq"][p]))
        s["spell_eq"].append(how)
    s["none_eq"] = default_eq and draw(st.booleans())
    s["order_eq"] = draw(st.booleans())
    for key, vals in VALUES.items():
        if draw(st.booleans()):
            v = [draw(st.sampled_from(vals))] * P
        else:
            v = [draw(st.sampled_from(vals)) for _ in range(P)]
        if key == "fit_intercept":
            v = [x or not s["eq"][p] for p, x in enumerate(v)]
        s["val"][key] = v
        s["spell"][key] = draw(st.sampled_from(SPELL))
    s["method_obj"] = draw(st.booleans())
    s["scale"] = draw(st.sampled_from(["all", "all", "none", "mask"]))
    s["spell_scale"] = draw(st.booleans())
    s["explicit_order"] = draw(st.booleans())
    s["ms"] = "local_rss" if set(s["val"]["method"]) & {"lasso", "elasticnet"} else draw(st.sampled_from(["local_rss", "global_ll"]))
    return s


def method_value(tag, as_object):
    path = dict(lambda_n=6, lambda_eps=1e-3, **tight())
    if tag == "ridge_obj":
        return Ridge(lambda_reg=1.5, **tight())
    if tag == "lasso_obj":
        return LassoPath(**path)
    if not as_object:
        return tag
    return {"ols": OrdinaryLeastSquares, "lasso": LassoPath, "elasticnet": lambda: ElasticNetPath(alpha=0.5)}[tag]()


def spell_dict(rng, key, vals, how, conv):
    """An equivalent way to write {p: vals[p]}."""
    full = {p: conv(v) for p, v in enumerate(vals)}
    if how == "scalar" and len(set(map(str, vals))) == 1:
        return full[0]
    if how == "missing":
        return {p: full[p] for p in rng.permutation(len(vals)).tolist() if vals[p] != DEFAULT[key]}
    if how == "shuffled":
        return {p: full[p] for p in rng.permutation(len(vals)).tolist()}
    return full


def scale_value(spec, spelled):
    k = spec["k"]
    if spec["scale"] == "none":
        return False
    if spec["scale"] == "all":
        return True if not spelled else (np.ones(k, dtype=bool) if spec["seed"] % 2 else np.arange(k))
    m = rng_of(spec, 71).uniform(size=k) < 0.6
    m[0] = True
    return m if not spelled else np.flatnonzero(m)


def canonical(spec):
    P, v = len(PDOM[spec["dist"]]), spec["val"]
    kw = {key: {p: x for p, x in enumerate(v[key])} for key in v if key != "method"}
    kw["method"] = {p: method_value(x, False) for p, x in enumerate(v["method"])}
    eq = {p: (np.array(c, dtype=int) if c else "intercept") for p, c in enumerate(spec["eq"])}
    return ODR(distribution=R.make(spec["dist"]), equation=eq, scale_inputs=scale_value(spec, False), model_selection=spec["ms"], **kw), P


def variant(spec):
    v, k = spec["val"], spec["k"]
    rng = rng_of(spec, 72)
    kw = {key: spell_dict(rng, key, v[key], spec["spell"][key], lambda x: x) for key in v if key != "method"}
    kw["method"] = spell_dict(rng, "method", v["method"], spec["spell"]["method"], lambda x: method_value(x, spec["method_obj"]))
    eq = {}
    for p, c in enumerate(spec["eq"]):
        how = spec["spell_eq"][p]
        m = np.zeros(k, dtype=bool)
        m[c] = True
        if not c:
            if how != "missing":
                eq[p] = "intercept"
        elif how == "all" and len(c) == k:
            eq[p] = "all"
        elif how == "names" and spec["box"] in ("pandas", "polars"):
            eq[p] = [NAMES[j] for j in c]
        elif how == "negative":
            eq[p] = np.array(c, dtype=int) - k
        elif how == "list" and spec["box"] not in ("pandas", "polars"):
            eq[p] = [int(j) for j in c]
        elif how in ("index", "names", "list") or c != sorted(c):
            eq[p] = np.array(c, dtype=int)
        else:
            eq[p] = m
    if spec["order_eq"]:
        eq = {p: eq[p] for p in reversed(list(eq))}
    if spec["none_eq"]:
        eq = None
    P = len(PDOM[spec["dist"]])
    if spec["explicit_order"]:
        kw["param_order"] = np.arange(P)
    return ODR(distribution=R.make(spec["dist"]), equation=eq, scale_inputs=scale_value(spec, spec["spell_scale"]), model_selection=spec["ms"], **kw)


def feed_all(spec, m, kind, noise=None):
    for i, n in enumerate([spec["n"], *spec["batches"]]):
        X, y = one_batch(spec, n, i)
        if noise is not None:
            y = y * (1 + noise[1] * rng_of(spec, 73, i, noise[0]).normal(size=n))
        w = gen_w(rng_of(spec, 74, i), n, spec["w"])
        step(spec, m, "fit" if i == 0 else "update", box(kind, X), box1(kind, y), box1(kind, w))
    return m


def unstable(spec, make, ref, probe, rtol, size):
    for r in range(3):
        try:
            same(state(spec, feed_all(spec, make(), "numpy", (r, size)), probe), ref, "", rtol=rtol / 10, atol=1e-10)
        except (Violation, Diverged):
            return True
    return False


def judge(spec, make_a, make_b, kind, what, rtol=1e-7, size=1e-11, map_b=None):
    probe = one_batch(spec, 5, 77)[0]
    try:
        a = state(spec, feed_all(spec, call(make_a), "numpy"), probe)
    except Diverged:
        return Result(False, skip="numerical breakdown")
    try:
        mb = feed_all(spec, call(make_b), kind)
        same(state(spec, mb, box(kind, probe)), a, what, rtol=rtol, atol=1e-9)
    except Diverged:
        if unstable(spec, make_a, a, probe, rtol, size):
            return Result(False, skip="unstable under rounding")
        raise Violation(f"{what}: only one spelling breaks down numerically") from None
    except Violation:
        if unstable(spec, make_a, a, probe, rtol, size):
            return Result(False, skip="unstable under rounding")
        raise
    return None


def check_odr(spec):
    what = "the same configuration, spelled differently"
    r = judge(spec, lambda: canonical(spec)[0], lambda: variant(spec), spec["box"], what)
    if r is not None:
        return r
    return Result(tags=("dist=" + spec["dist"], "box=" + spec["box"], f"none_eq={spec['none_eq']}", *[f"{k}={v}" for k, v in spec["spell"].items()], *{f"eq={e}" for e in spec["spell_eq"]}))


# --------------------------------------------------------------- linear ----
@st.composite
def lin_spec(draw):
    s = draw(est_spec(kinds=("linear",), methods=("ols", "lasso", "enet"), max_batches=3))
    s["w"] = draw(st.sampled_from(["none", "unif", "zeros"]))
    s["box"] = draw(st.sampled_from(BOXES))
    s["pair"] = draw(st.sampled_from(["name", "online_lasso", "online_lasso", "container"]))
    s["scale"] = draw(st.sampled_from(["all", "none", "mask"]))
    s["spell_scale"] = draw(st.booleans())
    s["lasso"] = {"early_stop": draw(st.sampled_from([0, 0, 1, 2, 3])), "lambda_n": draw(st.integers(2, 12)), "lambda_eps": draw(st.sampled_from([1e-4, 1e-2])),
                  "start_value": draw(st.sampled_from(["previous_fit", "previous_lambda", "average"])), "tolerance": draw(st.sampled_from([1e-4, 1e-8])), "max_iterations": draw(st.sampled_from([3, 1000])),
                  "selection": "cyclic"}
    s["bounds"] = draw(st.sampled_from([None, None, "lower", "upper", "both"]))
    return s


def bounds(spec):
    J = spec["k"] + int(spec["icpt"])
    rng = rng_of(spec, 75)
    lo = np.where(rng.uniform(size=J) < 0.5, -np.inf, rng.choice([0.0, -0.3], size=J))
    hi = np.where(rng.uniform(size=J) < 0.5, np.inf, rng.choice([0.0, 0.5], size=J))
    return {"beta_lower_bound": lo if spec["bounds"] in ("lower", "both") else None, "beta_upper_bound": hi if spec["bounds"] in ("upper", "both") else None}


def check_lin(spec):
    common = dict(forget=spec["forget"], fit_intercept=spec["icpt"], regularize_intercept=spec["reg_icpt"], ic=spec["ic"])
    tag = {"ols": "ols", "lasso": "lasso", "enet": "elasticnet"}[spec["method"]]
    s0, s1 = scale_value(spec, False), scale_value(spec, spec["spell_scale"])
    if spec["pair"] == "name":
        a = lambda: OnlineLinearModel(method=tag, scale_inputs=s0, **common)  # noqa: E731
        b = lambda: OnlineLinearModel(method=method_value(tag, True), scale_inputs=s1, **common)  # noqa: E731
    elif spec["pair"] == "online_lasso":
        L = spec["lasso"]
        a = lambda: OnlineLasso(scale_inputs=s0, **L, **bounds(spec), **common)  # noqa: E731
        pm = {k: v for k, v in L.items() if k != "start_value"}
        b = lambda: OnlineLinearModel(method=LassoPath(start_value_initial="previous_lambda", start_value_update=L["start_value"], **pm, **bounds(spec)), scale_inputs=s1, **common)  # noqa: E731
    else:
        a = lambda: OnlineLinearModel(method=tag, scale_inputs=s0, **common)  # noqa: E731
        b = lambda: OnlineLinearModel(method=tag, scale_inputs=s1, **common)  # noqa: E731
    r = judge(spec, a, b, spec["box"], spec["pair"])
    if r is not None:
        return r
    return Result(tags=("pair=" + spec["pair"], "box=" + spec["box"], "method=" + spec["method"]))


# ---------------------------------------------------------- permutation ----
@st.composite
def perm_spec(draw):
    # coordinate descent drops coordinates that are zero after the first sweep, so lasso and elastic net paths depend on the column order
    s = draw(est_spec(kinds=("linear", "gamlss", "scaler"), methods=("ols", "ols_obj", "ridge"), max_batches=2, dists=["Normal", "Normal", "Gamma", "LogNormal", "Logistic", "Beta", "Exponential", "StudentT"]))
    if s["est"] == "gamlss":
        s["method"] = draw(st.sampled_from(["ols", "ols_obj"]))
    s["k"] = max(s["k"], 2)
    s["w"] = draw(st.sampled_from(["none", "unif"]))
    return s


def check_perm(spec):
    from .zoo import build, eq_value, scale_of

    k = spec["k"]
    rng = rng_of(spec, 76)
    pi = rng.permutation(k)  # new column j is old column pi[j]
    if np.array_equal(pi, np.arange(k)):
        pi = pi[::-1].copy()
    inv = np.argsort(pi)
    probe = one_batch(spec, 5, 77)[0]
    over = {}
    cols = {}
    sc = scale_of(spec)
    if isinstance(sc, np.ndarray):
        over["to_scale" if spec["est"] == "scaler" else "scale_inputs"] = sc[pi] if sc.dtype == bool else np.sort(inv[sc])
    if spec["est"] == "gamlss":
        eq = {}
        for p in range(len(PDOM[spec["dist"]])):
            val, c = eq_value(spec, p)
            cols[p] = c
            eq[p] = val if isinstance(val, str) else (val[pi] if val.dtype == bool else inv[val])
            if isinstance(val, str) and val == "all" or not isinstance(val, str) and val.dtype == bool:
                cols[p] = pi[np.isin(pi, c)]  # order of the permuted design, in old column numbers
        over["equation"] = eq

    def go(permuted, noise=None):
        m = build(spec, **(over if permuted else {}))
        for i, n in enumerate([spec["n"], *spec["batches"]]):
            X, y = one_batch(spec, n, i)
            if noise is not None:
                y = y * (1 + 1e-7 * rng_of(spec, 73, i, noise).normal(size=n))
            w = gen_w(rng_of(spec, 74, i), n, spec["w"])
            step(spec, m, "fit" if i == 0 else "update", X[:, pi] if permuted else X, y, w)
        return m

    def obs(m, permuted):
        """state in the original column order"""
        s = state(spec, m, probe[:, pi] if permuted else probe)
        if spec["est"] == "scaler":
            s["transform"] = s["transform"][:, inv] if permuted else s["transform"]
            if isinstance(sc, bool) or sc.dtype != bool:
                sel = np.arange(k) if isinstance(sc, bool) else sc
                order = pi if isinstance(sc, bool) else pi[np.sort(inv[sc])]
            else:
                sel, order = np.flatnonzero(sc), pi[np.flatnonzero(sc[pi])]
            if permuted and s["mean_"].ndim:
                for a in ("mean_", "var_", "std_"):
                    if s[a].ndim:
                        s[a] = s[a][[list(order).index(c) for c in sel]]
            return s
        if not permuted:
            return s
        for key in list(s):
            if key.startswith("coef_"):
                v = s[key]
                if spec["est"] == "gamlss":
                    p = int(key[key.index("[") + 1 : -1])
                    c, have = eq_value(spec, p)[1], cols[p]
                    pos = [list(have).index(j) for j in c]
                    off = int(spec["icpt"][p])
                else:
                    pos, off = list(inv), int(spec["icpt"])
                idx = list(range(off)) + [off + j for j in pos]
                s[key] = v[..., idx]
        return s

    rtol = 1e-5
    try:
        a = go(False)
    except Diverged:
        return Result(False, skip="numerical breakdown")
    sa = obs(a, False)
    try:
        same(obs(go(True), True), sa, f"columns permuted by {pi.tolist()}", rtol=rtol, atol=1e-7)
    except (Violation, Diverged) as e:
        for r in range(3):
            try:
                same(obs(go(False, r), False), sa, "", rtol=rtol, atol=1e-7)
            except (Violation, Diverged):
                return Result(False, skip="unstable under rounding")
        if isinstance(e, Diverged):
            raise Violation("breaks down numerically only for permuted columns") from None
        raise
    return Result(tags=("est=" + spec["est"], "method=" + spec["method"], f"scale={spec['scale']}", f"dist={spec['dist']}"))


PROPS = [
    Prop("C24", [
        Part("distributional", odr_spec, check_odr, 320, 10000, min_nontrivial=0.4),
        Part("linear", lin_spec, check_lin, 800, 20000, min_nontrivial=0.6),
        Part("permutation", perm_spec, check_perm, 480, 12000, min_nontrivial=0.5),
    ], rule="Pairs of spellings of one drawn configuration: complete dictionaries with index arrays on numpy data versus scalars, shuffled or incomplete dictionaries, masks, 'all', column names, missing equations, method instances, explicit parameter order, pandas/polars/Fortran/strided/read-only/list containers; OnlineLasso versus the linear model with LassoPath; permuted columns. Oracle: same coefficients, paths, predictions and counts after the fit and all updates (relative 1e-7; 1e-5 for permutations, where the summation and coordinate order changes). Cases where noise of rounding size changes the model are set aside. Non-trivial: both spellings compared.",
        warmup=warm),
]
