"""C21 invalid calls are rejected and leave the model unchanged."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ondil.error import OutOfSupportError
from ondil.methods import ElasticNetPath, LassoPath, Ridge

from . import dists as R
from .core import Part, Prop, Result, Violation, attempt, call, close, expect_raises, require
from .data import rng_of
from .p_links import DISTS, PDOM
from .refs import sel_arg
from .zoo import CLS, Diverged, build, data, est_spec, feed, one_batch, params, same, state, step, warm

X_BAD = ["X_nan", "X_inf", "X_cols", "X_1d", "X_3d", "X_empty", "X_none"]
Y_BAD = ["y_nan", "y_inf", "y_len", "y_2d", "y_none", "y_support"]
W_BAD = ["w_len", "w_nan", "w_inf", "w_2d", "w_zero"]
NAMES_BAD = ["names_other", "names_order"]
PRED = {
    "scaler": ["transform", "inverse_transform"],
    "linear": ["predict", "score"],
    "lasso": ["predict", "predict_path", "score"],
    "gamlss": ["predict", "predict_median", "predict_quantile", "predict_distribution_parameters"],
}
# responses that are outside / inside (up to the boundary) of the support
ATOM = {"BetaInflated": (0.0, 1.0), "BetaInflatedZero": (0.0,), "ZeroAdjustedGamma": (0.0,)}
TINY = float(np.nextafter(0.0, 1.0))


def outside(name):
    lo, hi = R.RANGE[name]
    out = []
    if lo == 0.0:
        out += [-TINY, -1e-12, -0.5, -1e6]
        if 0.0 not in ATOM.get(name, ()):
            out += [0.0, 0.0, 0.0]
    if hi == 1.0:
        out += [float(np.nextafter(1.0, 2.0)), 1 + 1e-9, 1.7, 1e6]
        if 1.0 not in ATOM.get(name, ()):
            out += [1.0, 1.0, 1.0]
    return out


def inside(name):
    lo, hi = R.RANGE[name]
    if hi == 1.0:
        return [TINY, 1e-12, 0.5, 1 - 1e-12, float(np.nextafter(1.0, 0.0)), *ATOM.get(name, ())]
    if lo == 0.0:
        return [TINY, 1e-12, 1.0, 1e6, 1e300, *ATOM.get(name, ())]
    return [0.0, -1e6, 1e6, -1e300, 1e300, TINY]


BOUNDED = [d for d in DISTS if outside(d)]


@st.composite
def fault_spec(draw, kinds):
    s = draw(est_spec(kinds=kinds, methods=("ols", "ols_obj", "ridge", "lasso", "enet"), max_batches=0))
    s["frame"] = draw(st.booleans()) and s["k"] > 1
    bad = X_BAD + W_BAD + (NAMES_BAD if s["frame"] else [])
    if s["est"] != "scaler":
        bad = bad + Y_BAD
    if s["dist"] not in BOUNDED:
        bad = [b for b in bad if b != "y_support"]
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        kind = draw(st.sampled_from(["update", "fault", "fault", "fault", "predict"]))
        if kind == "update":
            ops.append(["update", draw(st.integers(1, 8)), draw(st.sampled_from(["none", "unif"]))])
        elif kind == "fault":
            ops.append(["fault", draw(st.integers(1, 6)), draw(st.sampled_from(["update", "update", "partial_fit"])), draw(st.sampled_from(bad))])
        else:
            fns = PRED[s["est"]]
            if s["est"] == "linear" and s["method"] in ("lasso", "enet"):
                fns = PRED["lasso"]
            ops.append(["predict", draw(st.integers(2, 6)), draw(st.sampled_from(fns)), draw(st.sampled_from(X_BAD + (NAMES_BAD if s["frame"] else [])))])
    ops.append(["update", draw(st.integers(1, 8)), "none"])
    s["ops"] = ops
    return s


def frame(spec, X):
    return pd.DataFrame(X, columns=[f"c{j}" for j in range(X.shape[1])]) if spec["frame"] else X


def corrupt(spec, kind, X, y, w, rng):
    n, k = X.shape
    i = int(rng.integers(n))
    X, y = X.copy(), y.copy()
    if kind in ("X_nan", "X_inf"):
        X[i, int(rng.integers(k))] = np.nan if kind == "X_nan" else rng.choice([np.inf, -np.inf])
    elif kind == "X_cols":
        X = X[:, :-1] if k > 1 and rng.integers(2) else np.column_stack([X, X[:, :1]])
    elif kind == "X_1d":
        return X[:, 0], y, w
    elif kind == "X_3d":
        return X[:, :, None], y, w
    elif kind == "X_empty":
        return X[:0], y[:0], None
    elif kind == "X_none":
        return None, y, w
    elif kind in ("y_nan", "y_inf"):
        y[i] = np.nan if kind == "y_nan" else rng.choice([np.inf, -np.inf])
    elif kind == "y_len":
        y = np.concatenate([y, y[:1]]) if n == 1 or rng.integers(2) else y[:-1]
    elif kind == "y_2d":
        y = np.column_stack([y, y])
    elif kind == "y_none":
        y = None
    elif kind == "y_support":
        v = outside(spec["dist"])
        y[i] = v[int(rng.integers(len(v)))]
    elif kind == "w_len":
        w = np.ones(n + 1) if n == 1 or rng.integers(2) else np.ones(n - 1)
    elif kind in ("w_nan", "w_inf"):
        w = np.ones(n)
        w[i] = np.nan if kind == "w_nan" else np.inf
    elif kind == "w_2d":
        w = np.ones((n, 1))
    elif kind == "w_zero":
        w = np.zeros(n)
    X = frame(spec, X)
    if kind == "names_other":
        X = X.rename(columns={"c0": "other"})
    elif kind == "names_order":
        X = X[list(X.columns[::-1])]
    return X, y, w


def check_faults(spec):
    m, twin = build(spec), build(spec)
    X, y, w = data(spec)[0]
    probe = frame(spec, one_batch(spec, 4, 77)[0])
    faults = 0
    pending = None
    try:
        step(spec, m, "fit", frame(spec, X), y, w)
        step(spec, twin, "fit", frame(spec, X), y, w)
        for i, op in enumerate(spec["ops"]):
            rng = rng_of(spec, 31, i)
            X, y = one_batch(spec, op[1], 100 + i)
            if op[0] == "update":
                w = None if op[2] == "none" else rng.uniform(0.2, 2, size=op[1])
                step(spec, m, "update", frame(spec, X), y, w)
                step(spec, twin, "update", frame(spec, X), y, w)
                same(state(spec, m, probe), state(spec, twin, probe), f"update {i} after rejected calls ({pending}) vs without them", rtol=1e-9, atol=1e-12)
                continue
            before = state(spec, m, probe)
            what = f"{spec['est']}.{op[2]} with {op[3]}"
            bX, by, bw = corrupt(spec, op[3], X, y, None, rng)
            exc = OutOfSupportError if op[3] == "y_support" else ValueError
            if op[0] == "fault":
                expect_raises(exc, what, feed, spec, m, op[2], bX, by, bw)
            else:
                extra = {"score": (y,), "predict_quantile": (np.array([0.1, 0.5]),)}.get(op[2], ())
                expect_raises(exc, what, getattr(m, op[2]), bX, *extra)
            same(state(spec, m, probe), before, f"state after a rejected call ({what})")
            faults += 1
            pending = what
    except Diverged:
        return Result(False, skip="numerical breakdown")
    return Result(nontrivial=faults > 0, tags=("est=" + spec["est"], *{"fault=" + op[3] for op in spec["ops"] if op[0] != "update"}, *{"call=" + op[2] for op in spec["ops"] if op[0] != "update"}))


# -------------------------------------------------------------- support ----
@st.composite
def support_spec(draw):
    name = draw(st.sampled_from([*BOUNDED, *DISTS]))
    s = {"est": "gamlss", "dist": name, "k": 1, "n": draw(st.integers(12, 30)), "seed": draw(st.integers(0, 2**31 - 1)),
         "fn": draw(st.sampled_from(["fit", "update", "partial_first", "partial_later"])), "pos": draw(st.sampled_from(["first", "last", "any"])),
         "outside": draw(st.booleans()) and name in BOUNDED}
    vals = outside(name) if s["outside"] else inside(name)
    s["value"] = draw(st.integers(0, len(vals) - 1))
    s["batch"] = draw(st.integers(1, 6))
    return s


def check_support(spec):
    name = spec["dist"]
    m = call(CLS["gamlss"], distribution=R.make(name), equation={0: "intercept"}, max_it_outer=2, max_it_inner=2)
    X, y = one_batch(spec, spec["n"], 0)
    Xb, yb = one_batch(spec, spec["batch"], 1)
    first = spec["fn"] in ("fit", "partial_first")
    if first:
        Xb, yb = X.copy(), y.copy()
    else:
        _, e = attempt(m.fit, X, y)
        if e is not None:
            if isinstance(e, OutOfSupportError):
                raise Violation(f"{name}: fit rejected responses in {np.min(y)} .. {np.max(y)}: {e}")
            return Result(False, skip="fit failed")
    i = {"first": 0, "last": len(yb) - 1, "any": int(rng_of(spec, 32).integers(len(yb)))}[spec["pos"]]
    v = (outside(name) if spec["outside"] else inside(name))[spec["value"]]
    yb[i] = v
    fn = {"fit": "fit", "update": "update"}.get(spec["fn"], "partial_fit")
    _, e = attempt(getattr(m, fn), Xb, yb)
    if spec["outside"]:
        require(e is not None, f"{name}.{fn} accepted the response {v!r} outside the support")
        require(isinstance(e, OutOfSupportError), lambda: f"{name}.{fn} with response {v!r}: {type(e).__name__} instead of OutOfSupportError: {e}")
        require(isinstance(e, ValueError), "OutOfSupportError is not a ValueError")
    else:
        require(not isinstance(e, OutOfSupportError), lambda: f"{name}.{fn} rejected the response {v!r} inside the support: {e}")
    return Result(tags=(f"{name} outside={spec['outside']}", "call=" + spec["fn"]))


# --------------------------------------------------------------- config ----
CONF_LIN = ["forget", "method", "ic", "bounds", "reg_icpt", "unfitted"]
CONF_GAM = ["forget", "forget_dict", "method", "method_dict", "ic", "model_selection", "bounds", "mask", "index", "index_list", "index_neg", "names", "names_numpy", "string", "order", "icpt_only", "unfitted"]


@st.composite
def conf_spec(draw):
    s = draw(est_spec(methods=("ols", "ridge", "lasso", "enet"), max_batches=0))
    kinds = {"scaler": ["forget", "unfitted"], "linear": CONF_LIN, "lasso": ["forget", "ic", "bounds", "reg_icpt", "unfitted"], "gamlss": CONF_GAM}[s["est"]]
    s["conf"] = draw(st.sampled_from(kinds))
    s["pick"] = draw(st.integers(0, 10**6))
    return s


def check_conf(spec):
    kind, c, k = spec["est"], spec["conf"], spec["k"]
    rng = rng_of(spec, 41, spec["pick"])
    X, y, w = data(spec)[0]
    P = len(PDOM[spec["dist"]]) if kind == "gamlss" else 0
    p = int(rng.integers(P)) if P else 0
    kw = params(spec)
    if c == "unfitted":
        return check_unfitted(spec, X, y, w, rng)
    bad_forget = [-0.1, -1e-9, 1.0, 1.5, float("nan"), float("inf")]
    if c == "forget":
        kw["forget"] = bad_forget[int(rng.integers(len(bad_forget)))]
    elif c == "forget_dict":
        kw["forget"] = {q: 0.01 for q in range(P)}
        kw["forget"][p] = bad_forget[int(rng.integers(len(bad_forget)))]
    elif c == "method":
        kw["method"] = ["foo", "LASSO", "", "ridge2", "ols "][int(rng.integers(5))]
    elif c == "method_dict":
        kw["method"] = {q: "ols" for q in range(P)}
        kw["method"][p] = ["foo", "LASSO", "", 3, None][int(rng.integers(5))]
    elif c == "ic":
        kw["ic"] = ["foo", "AIC", "", "bic "][int(rng.integers(4))]
        if kind != "lasso":
            kw["method"] = LassoPath(lambda_n=4)
    elif c == "model_selection":
        kw["model_selection"] = ["foo", "local", "", "global_LL"][int(rng.integers(4))]
        kw["method"] = LassoPath(lambda_n=4)
    elif c == "bounds":
        J = k + int(spec["icpt"]) if kind != "gamlss" else None
        if kind == "gamlss":
            kw["equation"] = {q: "all" for q in range(P)}
            kw["fit_intercept"] = {q: True for q in range(P)}
            J = k + 1
        L = int(rng.choice([j for j in (J - 1, J + 1, J + 3, 2 * J) if j > 0]))
        b = {["beta_lower_bound", "beta_upper_bound"][int(rng.integers(2))]: np.zeros(L)}
        if kind == "lasso":
            kw.update(b)
        else:
            C = [lambda **a: LassoPath(lambda_n=4, **a), lambda **a: ElasticNetPath(alpha=0.5, lambda_n=4, **a), lambda **a: Ridge(lambda_reg=1.0, **a)][int(rng.integers(3))]
            kw["method"] = C(**b) if kind == "linear" else {p: C(**b)}
    elif c == "reg_icpt":
        kw["fit_intercept"], kw["regularize_intercept"] = False, True
    elif c in ("mask", "index", "index_list", "index_neg", "names", "names_numpy", "string"):
        kw["fit_intercept"] = {q: True for q in range(P)}
        eq = {q: "intercept" for q in range(P)}
        cols = [f"c{j}" for j in range(k)]
        if c == "mask":
            eq[p] = rng.integers(2, size=int(rng.choice([j for j in (k - 1, k + 1, 2 * k) if j > 0 and j != k]))).astype(bool)
        elif c in ("index", "index_list"):
            eq[p] = rng.permutation([*rng.integers(0, k, size=int(rng.integers(0, k + 1))), k + int(rng.integers(0, 3))])
            if c == "index_list":
                eq[p] = [int(j) for j in eq[p]]
        elif c == "index_neg":
            eq[p] = np.array([-k - 1 - int(rng.integers(0, 3)), 0])
        elif c == "names":
            eq[p] = [*cols[: int(rng.integers(0, k + 1))], "nope"]
            X = pd.DataFrame(X, columns=cols)
        elif c == "names_numpy":
            eq[p] = cols
        else:
            eq[p] = ["foo", "ALL", "", "c0"][int(rng.integers(4))]
        kw["equation"] = eq
    elif c == "order":
        o = list(rng.permutation(P))
        if P == 1:
            o = []
        else:
            o = o[:-1] if rng.integers(2) else [*o[:-1], o[0]]
        kw["param_order"] = np.array(o, dtype=int)
    elif c == "icpt_only":
        kw["equation"] = {q: "all" for q in range(P)}
        kw["equation"][p] = "intercept"
        kw["fit_intercept"] = {q: True for q in range(P)}
        kw["fit_intercept"][p] = False
    what = f"{CLS[kind].__name__} with {c}: { {a: v for a, v in kw.items() if a in (c.split('_')[0], 'equation', 'param_order', 'method')} }"

    def go():
        m = CLS[kind](**kw)
        return feed(spec, m, "fit", X, y, w)

    expect_raises(ValueError, what, go)
    return Result(tags=("est=" + kind, "conf=" + c))


def check_unfitted(spec, X, y, w, rng):
    m = build(spec)
    kind = spec["est"]
    probe = one_batch(spec, 4, 77)[0]
    fns = ["update"] + (PRED["lasso"] if kind == "linear" else PRED[kind])
    fns = [fns[j] for j in rng.permutation(len(fns))]
    for fn in fns:
        if fn == "update":
            expect_raises(ValueError, f"{kind}.update before fit", feed, spec, m, "update", X, y, w)
        else:
            extra = {"score": (y,), "predict_quantile": (0.5,)}.get(fn, ())
            expect_raises(ValueError, f"{kind}.{fn} before fit", getattr(m, fn), X, *extra)
        require(not m.is_fitted, f"{kind}: is_fitted after a rejected {fn} before fit")
    twin = build(spec)
    try:
        step(spec, m, "fit", X, y, w)
        step(spec, twin, "fit", X, y, w)
        same(state(spec, m, probe), state(spec, twin, probe), "fit after rejected calls before fit", rtol=1e-9, atol=1e-12)
    except Diverged:
        return Result(False, skip="numerical breakdown")
    return Result(tags=("est=" + kind, "conf=unfitted"))


PROPS = [
    Prop("C21", [
        Part("faults", lambda: fault_spec(("linear", "lasso", "scaler")), check_faults, 900, 20000, min_nontrivial=0.6),
        Part("faults_distributional", lambda: fault_spec(("gamlss",)), check_faults, 240, 8000, min_nontrivial=0.4),
        Part("support", support_spec, check_support, 1200, 20000, min_nontrivial=0.8),
        Part("configuration", conf_spec, check_conf, 900, 20000, min_nontrivial=0.8),
    ], rule="Histories of valid updates with invalid calls (data, weights, responses, feature names; update, partial_fit and every prediction method) injected at drawn points: every invalid call must raise ValueError (OutOfSupportError for the support), leave the observable state bit-identical, and later valid updates must agree with a twin that never saw the invalid calls. Responses at, next to and beyond the support boundary of all 17 distributions. Inconsistent configurations of every kind. Non-trivial: at least one invalid call injected / one boundary response judged.",
        warmup=warm),
]
