"""C20 coherence of predictions, C26 partial_fit."""
import copy

import numpy as np
from hypothesis import strategies as st

from . import dists as R
from .core import Part, Prop, Result, Violation, attempt, call, close, require, same_shape
from .data import full_w, rng_of
from .p_gamlss import design, names_of
from .p_links import PDOM, r_inv
from .refs import RefScaler, intercept
from .zoo import Diverged, build, data, eq_value, est_spec, feed, forget_of, one_batch, same, scale_of, state, step, warm


@st.composite
def pred_spec(draw, kinds):
    s = draw(est_spec(kinds=kinds, max_batches=2))
    s["m"] = draw(st.integers(1, 12))
    s["probe"] = draw(st.sampled_from(["like", "like", "far", "repeat", "ints", "float32"]))
    s["q"] = draw(st.lists(st.one_of(st.floats(0.01, 0.99), st.sampled_from([0.05, 0.25, 0.5, 0.75, 0.95])), min_size=1, max_size=5))
    s["sub"] = draw(st.integers(0, 1000))
    return s


def probe_X(spec):
    rng = rng_of(spec, 21)
    X, _ = one_batch(spec, max(spec["m"], 2), 99)
    X = X[: spec["m"]]
    if spec["probe"] == "far":
        X = X * 4.0
    elif spec["probe"] == "repeat":
        X = X[rng.integers(0, len(X), size=len(X))]
    elif spec["probe"] == "ints":
        return np.rint(X).astype(int)
    elif spec["probe"] == "float32":
        return X.astype(np.float32)
    return X


def fitted(spec):
    """model after its history, and the reference scaler"""
    m = build(spec)
    sc = RefScaler(spec["k"], scale_of(spec), forget_of(spec))
    for i, (X, y, w) in enumerate(data(spec)):
        step(spec, m, "fit" if i == 0 else "update", X, y, w)
        sc.see(X, full_w(w, len(y)))
    return m, sc


def rows_independent(fn, X, sub, what, rtol=1e-8):
    """fn(X) row by row; sub selects rows (with repetition, any order)."""
    full = np.array(call(fn, X), dtype=float)
    require(full.shape[0] == len(X), f"{what}: {full.shape[0]} rows for {len(X)} samples")
    a = np.array(call(fn, X[sub]), dtype=float)
    sc = np.nanmax(np.abs(full[np.isfinite(full)]), initial=1e-12)
    close(a, full[sub], f"{what}: rows {list(sub)} alone vs within the full matrix", rtol=rtol, atol=1e-9 * sc)
    again = np.array(call(fn, X), dtype=float)
    close(again, full, f"{what}: called twice", rtol=0, atol=0)
    return full


def check_gamlss(spec):
    try:
        m, sc = fitted(spec)
    except Diverged:
        return Result(False, skip="diverged: " + spec["dist"])
    if sc.degenerate():
        return Result(False, skip="constant column")
    Xp = probe_X(spec)
    P, n = len(PDOM[spec["dist"]]), len(Xp)
    before = state(spec, m, Xp)
    twin = copy.deepcopy(m)
    keep = Xp.copy()
    rng = rng_of(spec, 22)
    sub = rng.integers(0, n, size=int(rng.integers(1, n + 1)))
    Xf = np.asarray(Xp, dtype=float)
    Z = sc(Xf)
    d = m.distribution
    fam = names_of(d)
    eta, cont = [], []
    for p in range(P):
        E = design(Z, eq_value(spec, p)[1], spec["icpt"][p])
        c = np.array(m.coef_[p], dtype=float)
        same_shape(c, (E.shape[1],), f"coef_[{p}]")
        cont.append(E * c)
        eta.append(E @ c)
    eta = np.column_stack(eta)
    scl = np.maximum(np.column_stack([np.abs(x).sum(1) for x in cont]), 1e-12)
    rt = 1e-4 if spec["probe"] == "float32" else 1e-8
    link = rows_independent(lambda X: m.predict_distribution_parameters(X, what="link"), Xp, sub, "link", rtol=rt)
    same_shape(link, (n, P), "predict_distribution_parameters(what='link')")
    close(link, eta, "link predictor vs scaled design @ coef_", rtol=0, atol=rt * (1 + scl))
    for what in ("link", "response"):
        out = call(m.predict_distribution_parameters, Xp, what=what, return_contributions=True)
        require(isinstance(out, tuple) and len(out) == 2, "return_contributions does not return a pair")
        pr, co = out
        require(len(co) == P, f"{len(co)} contribution matrices for {P} parameters")
        for p in range(P):
            same_shape(co[p], cont[p].shape, f"contributions[{p}]")
            close(np.sum(co[p], axis=1), link[:, p], f"sum of the contributions of parameter {p} ({what})", rtol=rt, atol=rt * (1 + scl[:, p].max()))
            close(co[p], cont[p], f"contributions[{p}]", rtol=rt, atol=rt * (1 + scl[:, p].max()))
        close(pr, call(m.predict_distribution_parameters, Xp, what=what), f"prediction with contributions ({what})", rtol=0, atol=0)
    theta = rows_independent(m.predict_distribution_parameters, Xp, sub, "response", rtol=1e-3 if spec["probe"] == "float32" else 1e-7)
    same_shape(theta, (n, P), "predict_distribution_parameters")
    if np.any(np.abs(link) > 30) or not np.all(np.isfinite(theta)):
        return Result(False, skip="extreme predictors")
    ref = np.column_stack([r_inv(fam[p][0], link[:, p]) + fam[p][1] for p in range(P)])
    close(theta, ref, "response vs inverse link of the link predictor", rtol=1e-6 if spec["probe"] != "float32" else 1e-3, atol=1e-9)
    # functionals of the distribution at those parameters
    ok = np.all(np.isfinite(theta), axis=1)
    name = spec["dist"]
    if spec["probe"] != "float32":
        with np.errstate(all="ignore"):
            mu = np.asarray(R.mean(name, theta), dtype=float)
        pm = rows_independent(m.predict, Xp, sub, "predict", rtol=1e-6)
        same_shape(pm, (n,), "predict")
        fin = ok & np.isfinite(mu) & (np.abs(mu) < 1e100)
        if name == "StudentT":
            fin &= theta[:, 2] > 1.01
        if name != "InverseGamma":
            close(pm[fin], mu[fin], "predict vs mean of the law", rtol=1e-5, atol=1e-8)
        med = rows_independent(m.predict_median, Xp, sub, "predict_median", rtol=1e-6)
        same_shape(med, (n,), "predict_median")
        q = np.array(spec["q"])
        quant = rows_independent(lambda X: m.predict_quantile(X, q), Xp, sub, "predict_quantile", rtol=1e-6)
        same_shape(quant, (n, len(q)), "predict_quantile")
        one = np.array(call(m.predict_quantile, Xp, float(q[0])), dtype=float)
        same_shape(one, (n, 1), "predict_quantile (scalar)")
        close(one[:, 0], quant[:, 0], "scalar vs array quantile", rtol=1e-9, atol=1e-12)
        half = np.array(call(m.predict_quantile, Xp, np.array([0.5])), dtype=float)
        close(half[:, 0], med, "predict_median vs 0.5-quantile", rtol=1e-6, atol=1e-9)
        for j, qq in enumerate(q):
            lo, hi, mid = (np.asarray(R.ppf(name, np.full(n, z), theta), dtype=float) for z in (qq - 1e-7, qq + 1e-7, qq))
            tol = 1e-6 * (1e-3 + np.abs(mid))
            good = (quant[:, j] >= lo - tol) & (quant[:, j] <= hi + tol) | ~ok
            require(np.all(good), lambda: f"quantile {qq} at theta={theta[~good][0]}: {quant[~good, j][0]}, expected {mid[~good][0]}")
        o = np.argsort(q, kind="stable")
        require(np.all(np.diff(quant[:, o], axis=1)[ok] >= -1e-9 * (1 + np.abs(quant[:, o][ok, 1:]))), f"quantiles decrease in q: q={q[o]}, {quant[:, o]}")
    # purity
    require(np.array_equal(keep, Xp), "predicting modified X")
    same(state(spec, m, Xp), before, "predicting changed the model")
    X2, y2 = one_batch(spec, 3, 55)
    try:
        step(spec, m, "update", X2, y2, None)
        step(spec, twin, "update", X2, y2, None)
    except Diverged:
        return Result(tags=("dist=" + name,))
    same(state(spec, m, Xp), state(spec, twin, Xp), "an update after predicting differs from one without predicting", rtol=1e-10)
    return Result(nontrivial=True, tags=("dist=" + name, "probe=" + spec["probe"], "method=" + spec["method"], f"scale={spec['scale']}", *[f"eq{p}={e}" for p, e in enumerate(spec["eq"][:2])]))


def check_linear(spec):
    try:
        m, sc = fitted(spec)
    except Diverged:
        return Result(False, skip="numerical breakdown")
    if sc.degenerate():
        return Result(False, skip="constant column")
    Xp = probe_X(spec)
    n = len(Xp)
    before = state(spec, m, Xp)
    twin = copy.deepcopy(m)
    keep = Xp.copy()
    rng = rng_of(spec, 22)
    sub = rng.integers(0, n, size=int(rng.integers(1, n + 1)))
    Z = intercept(sc(np.asarray(Xp, dtype=float)), spec["icpt"])
    rt = 1e-4 if spec["probe"] == "float32" else 1e-8
    same_shape(m.coef_, (Z.shape[1],), "coef_")
    scl = np.abs(Z) @ np.abs(m.coef_) + 1e-9
    pr = rows_independent(m.predict, Xp, sub, "predict", rtol=rt)
    same_shape(pr, (n,), "predict")
    close(pr, Z @ m.coef_, "predict vs scaled design @ coef_", rtol=0, atol=rt * scl)
    if getattr(m, "coef_path_", None) is not None:
        pp = rows_independent(m.predict_path, Xp, sub, "predict_path", rtol=rt)
        ref = Z @ np.asarray(m.coef_path_).T
        same_shape(pp, ref.shape, "predict_path")
        close(pp, ref, "predict_path vs scaled design @ coef_path_.T", rtol=0, atol=rt * (np.abs(Z) @ np.abs(np.asarray(m.coef_path_)).T + 1e-9))
    if n > 1 and spec["probe"] != "repeat":
        y = rng.normal(size=n) + pr
        s = call(m.score, Xp, y)
        r2 = 1 - np.sum((y - Z @ m.coef_) ** 2) / np.sum((y - y.mean()) ** 2)
        close(s, r2, "score vs R^2 of predict", rtol=1e-3 if spec["probe"] == "float32" else 1e-6, atol=1e-6 if spec["probe"] != "float32" else 1e-3)
    require(np.array_equal(keep, Xp), "predicting modified X")
    same(state(spec, m, Xp), before, "predicting changed the model")
    X2, y2 = one_batch(spec, 3, 55)
    step(spec, m, "update", X2, y2, None)
    step(spec, twin, "update", X2, y2, None)
    same(state(spec, m, Xp), state(spec, twin, Xp), "an update after predicting differs from one without predicting", rtol=1e-10)
    return Result(tags=("est=" + spec["est"], "probe=" + spec["probe"], "method=" + spec["method"], f"icpt={spec['icpt']}", f"scale={spec['scale']}"))


# ------------------------------------------------------------------ C26 ----
@st.composite
def partial_spec(draw):
    s = draw(est_spec(max_batches=4))
    s["odd"] = draw(st.sampled_from(["none", "zeros", "one_zero", "nan_X", "nan_y", "columns", "short_y", "short_w", "empty"]))
    s["odd_n"] = draw(st.integers(1, 4))
    return s


def observe(spec, m, probe):
    try:
        return state(spec, m, probe)
    except Exception:  # noqa: BLE001 predicting fails
        return None


def odd_call(spec, a, b, probe):
    """partial_fit and update answer a questionable call in the same way (and partial_fit of a new estimator as fit does)."""
    if spec["odd"] == "none":
        return
    for x, y, fn in ((a, b, "update"), (build(spec), build(spec), "fit")):
        x, y = copy.deepcopy(x), copy.deepcopy(y)
        X, t = one_batch(spec, spec["odd_n"] if fn == "update" else spec["n"], 79)
        w = None
        if spec["odd"] == "zeros":
            w = np.zeros(len(t))
        elif spec["odd"] == "one_zero":
            w = np.ones(len(t))
            w[0] = 0.0
        elif spec["odd"] == "short_w":
            w = np.ones(len(t) + 1)
        elif spec["odd"] == "nan_X":
            X[0, 0] = np.nan
        elif spec["odd"] == "nan_y":
            t[0] = np.nan
        elif spec["odd"] == "columns":
            X = np.hstack([X, X[:, :1]])
        elif spec["odd"] == "short_y":
            t = t[:-1]
        elif spec["odd"] == "empty":
            X, t = X[:0], t[:0]
        ex, ey = (attempt(feed, spec, m, f, X.copy(), t.copy(), None if w is None else w.copy())[1] for m, f in ((x, "partial_fit"), (y, fn)))
        require(type(ex) is type(ey), f"{fn} with {spec['odd']}: partial_fit raises {ex!r}, {fn} {ey!r}")
        if ex is None:
            sx, sy = (observe(spec, m, probe) for m in (x, y))
            require((sx is None) == (sy is None), f"after {fn} with {spec['odd']}: only one of partial_fit and {fn} leaves a usable model")
            if sx is not None:
                same(sx, sy, f"{fn} with {spec['odd']}: partial_fit vs {fn}", rtol=1e-9, atol=1e-12)


def check_partial(spec):
    a, b = build(spec), build(spec)
    probe, _ = one_batch(spec, 5, 77)
    try:
        for i, (X, y, w) in enumerate(data(spec)):
            ra = step(spec, a, "partial_fit", X, y, w)
            rb = step(spec, b, "fit" if i == 0 else "update", X, y, w)
            require(ra is a, "partial_fit does not return the estimator")
            require(rb is b, f"{'fit' if i == 0 else 'update'} does not return the estimator")
            same(state(spec, a, probe), state(spec, b, probe), f"after call {i}: partial_fit vs {'fit' if i == 0 else 'update'}", rtol=1e-9, atol=1e-12)
            require(a.is_fitted and b.is_fitted, "is_fitted is False after fitting")
            close(a.n_samples_, b.n_observations_, "n_samples_", rtol=1e-12)
        odd_call(spec, a, b, probe)
        # refitting starts over
        X, y, w = data(spec)[0]
        step(spec, a, "fit", X, y, w)
        c = build(spec)
        step(spec, c, "fit", X, y, w)
        same(state(spec, a, probe), state(spec, c, probe), "fit after partial_fit vs a fresh fit", rtol=1e-9, atol=1e-12)
        X, y = one_batch(spec, 2, 78)
        step(spec, a, "partial_fit", X, y, None)
        step(spec, c, "update", X, y, None)
        same(state(spec, a, probe), state(spec, c, probe), "partial_fit after refitting vs fit and update", rtol=1e-9, atol=1e-12)
    except Diverged:
        return Result(False, skip="numerical breakdown")
    return Result(nontrivial=len(spec["batches"]) > 0, tags=("est=" + spec["est"], f"dist={spec['dist']}", "method=" + spec["method"], f"weights={any(w not in ('none', 'ones') for w in spec['w'])}", f"batches={len(spec['batches'])}"))


PROPS = [
    Prop("C20", [
        Part("distributional", lambda: pred_spec(("gamlss",)), check_gamlss, 360, 12000, min_nontrivial=0.4),
        Part("linear", lambda: pred_spec(("linear", "lasso")), check_linear, 600, 12000, min_nontrivial=0.5),
    ], rule="Models of all kinds after a drawn history; probe matrices like the training data, far away, with repeated rows, integer and float32. Oracle: reference scaler, design and links applied to the reported coefficients, independent reference laws for mean, median and quantiles; arbitrary row selections; model state and a later update compared with a twin that never predicted. Non-trivial: prediction compared with the reference.",
        warmup=warm, assumptions=["link predictors within +-30"]),
    Prop("C26", [Part("sequence", partial_spec, check_partial, 480, 14000, min_nontrivial=0.4)],
         rule="Scaler, linear model, lasso and distributional regression with drawn settings; partial_fit sequence compared with fit/update after every call, refit compared with a fresh estimator; a questionable call (zero weights, NaN, wrong lengths, no rows) must be answered alike by both. Non-trivial: at least two calls.",
         warmup=warm),
]
