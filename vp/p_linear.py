"""C06 online linear model = batch solution of the discounted history,
C07 model selection of the linear model."""
import numpy as np
from hypothesis import strategies as st

from ondil.estimators import OnlineLasso, OnlineLinearModel
from ondil.methods import ElasticNetPath, LassoPath, OrdinaryLeastSquares, Ridge

from .core import Part, Prop, Result, call, close, finite, require, same_shape
from .data import SEEDS, W_KINDS, discount, eff_len, full_w, forgets, gen_w, gen_X, rng_of
from .p_cd import MAXIT, TOL, bounds, check_point, lambda_grid, ref_cd
from .refs import RefScaler, intercept, scaled_cond, sel_arg

METHODS = ["ols", "ols_obj", "ridge", "ridge_l", "lasso", "enet", "lasso_cls"]
PATH = ("lasso", "enet", "lasso_cls", "lasso_str", "enet_str")


@st.composite
def hist_spec(draw, methods=METHODS):
    method = draw(st.sampled_from(methods))
    k = draw(st.integers(1, 5))
    batches = draw(st.lists(st.one_of(st.just(1), st.integers(1, 12)), min_size=1 if method in ("ols", "ols_obj") else 0, max_size=6))
    icpt = draw(st.booleans())
    return {
        "method": method,
        "k": k,
        "n0": draw(st.one_of(st.integers(k + 3, k + 12), st.integers(20, 50))),
        "batches": batches,
        "forget": draw(forgets()),
        "kind": draw(st.sampled_from(["normal", "corr", "dummy", "ints"] + (["scales", "offset"] if method.startswith("ols") else []))),
        "w": [draw(st.sampled_from(W_KINDS)) for _ in range(len(batches) + 1)],
        "icpt": icpt,
        "reg_icpt": draw(st.booleans()) and icpt,
        "scale": draw(st.sampled_from(["all", "all", "none", "mask", "index"])),
        "alpha": draw(st.sampled_from([0.2, 0.5, 0.9])),
        "bounds": draw(st.sampled_from(["free", "free", "free", "box", "nonneg"])),
        "ic": draw(st.sampled_from(["aic", "bic", "hqc", "max"])),
        "lambda_n": draw(st.sampled_from([2, 5, 12])),
        "start_u": draw(st.sampled_from(["previous_lambda", "previous_fit", "average"])),
        "noise": draw(st.sampled_from([0.3, 1.0, 5.0])),
        "via": draw(st.sampled_from(["update", "partial_fit"])),
        "seed": draw(SEEDS),
    }


def build(spec, lb, ub, scale):
    m = spec["method"]
    free = spec["bounds"] == "free"
    kw = dict(tolerance=TOL, max_iterations=MAXIT)
    if not free:
        kw.update(beta_lower_bound=lb.copy(), beta_upper_bound=ub.copy())
    est = dict(forget=spec["forget"], scale_inputs=scale, fit_intercept=spec["icpt"], regularize_intercept=spec["reg_icpt"], ic=spec["ic"])
    if m == "lasso_cls":
        return call(OnlineLasso, lambda_n=spec["lambda_n"], lambda_eps=1e-3, start_value=spec["start_u"], **kw, **est)
    path = dict(lambda_n=spec["lambda_n"], lambda_eps=1e-3, start_value_update=spec["start_u"], **kw)
    if m == "ols":
        meth = "ols"
    elif m == "ols_obj":
        meth = OrdinaryLeastSquares()
    elif m == "ridge":
        meth = Ridge(**kw)
    elif m == "ridge_l":
        meth = Ridge(lambda_reg=2.5, **kw)
    elif m == "lasso":
        meth = LassoPath(**path)
    else:
        meth = ElasticNetPath(alpha=spec["alpha"], **path)
    return call(OnlineLinearModel, method=meth, **est)


def gen(spec):
    rng = rng_of(spec)
    k = spec["k"]
    scale = sel_arg(rng, k, spec["scale"])
    p = k + int(spec["icpt"])
    lb, ub = bounds(rng, p, spec["bounds"])
    beta = rng.normal(size=k) * rng.choice([0, 1, 2], size=k)
    data = []
    loc, sc = np.zeros(k), np.ones(k)
    if spec["kind"] == "offset":
        loc = rng.uniform(-20, 20, size=k)
    if spec["kind"] == "scales":
        sc = 10.0 ** rng.integers(-3, 4, size=k)
    for i, n in enumerate([spec["n0"], *spec["batches"]]):
        X = gen_X(rng, n, k, "normal" if spec["kind"] in ("offset", "scales") else spec["kind"])
        y = X @ beta + 1.5 + spec["noise"] * rng.normal(size=n)
        w = gen_w(rng, n, spec["w"][i])
        data.append((X * sc + loc, y, w))
    return data, lb, ub, scale


class Ref:
    """Weighted, discounted moments of the history, batch by batch."""

    def __init__(self, spec, scale):
        self.f, self.icpt = spec["forget"], spec["icpt"]
        self.scaler = RefScaler(spec["k"], scale, self.f)
        p = spec["k"] + int(self.icpt)
        self.G, self.h, self.yy, self.n = np.zeros((p, p)), np.zeros(p), 0.0, 0.0
        self.cond = 0.0

    def see(self, X, y, w):
        ww = full_w(w, len(y))
        self.scaler.see(X, ww)
        if self.scaler.degenerate():
            return None
        Z = intercept(self.scaler(X), self.icpt)
        d = discount(self.f, len(y)) * ww
        c = (1 - self.f) ** len(y)
        self.G = c * self.G + (Z * d[:, None]).T @ Z
        self.h = c * self.h + (Z * d[:, None]).T @ y
        self.yy = c * self.yy + d @ y**2
        self.n += ww.sum()
        self.cond = max(self.cond, scaled_cond(self.G))
        self.d = d
        return Z


def feed(m, i, X, y, w, via):
    fn = m.fit if i == 0 and via == "update" else getattr(m, via)
    out = call(fn, X, y) if w is None else call(fn, X, y, sample_weight=w)
    require(out is m, f"{'fit' if i == 0 else via} does not return the estimator")


def check_hist(spec):
    data, lb, ub, scale = gen(spec)
    method, f = spec["method"], spec["forget"]
    p = spec["k"] + int(spec["icpt"])
    reg = np.ones(p, dtype=bool)
    if spec["icpt"]:
        reg[0] = spec["reg_icpt"]
    if full_w(data[0][2], spec["n0"]).sum() <= p + 0.5:
        return Result(False, skip="too few (weighted) observations for the first fit")
    ref = Ref(spec, scale)
    m = build(spec, lb, ub, scale)
    ridge_lam = None
    prev = None
    for i, (X, y, w) in enumerate(data):
        if ref.see(X, y, w) is None or ref.cond > 1e6:
            return Result(False, skip="ill-conditioned history")
        feed(m, i, X, y, w, spec["via"])
        what = "fit" if i == 0 else f"update {i}"
        close(m.n_observations_, ref.n, f"{what}: n_observations_", rtol=1e-9)
        close(m.n_training_, eff_len(f, ref.n), f"{what}: n_training_", rtol=1e-8)
        same_shape(m.coef_, (p,), f"{what}: coef_")
        b = np.array(m.coef_, dtype=float)
        close(m.beta, b, f"{what}: beta", rtol=0, atol=0)
        G, h = ref.G, ref.h
        if method.startswith("ols"):
            sol = np.linalg.solve(G, h)
            tol = 1e-9 * ref.cond * np.sqrt(ref.yy / np.diag(G)) + 1e-9 * np.abs(sol)
            require(np.all(np.abs(b - sol) <= tol), lambda: f"{what}: coef_ {b}, weighted discounted least squares {sol}")
        elif method.startswith("ridge"):
            if method == "ridge_l":
                ridge_lam = 2.5
            elif i == 0:
                ridge_lam = np.trace(G) / p
            check_point(G, h, b, ridge_lam, 0.0, reg, lb, ub, what, None if spec["bounds"] == "free" else lambda: np.zeros(p))
            if spec["bounds"] == "free":
                sol = np.linalg.solve(G + ridge_lam * np.diag(reg.astype(float)), h)
                close(b, sol, f"{what}: ridge coef_", rtol=1e-5, scale=np.max(np.abs(sol)))
        else:
            lams = lambda_grid(G, h, reg, spec["lambda_n"], 1e-3)
            path = np.array(m.coef_path_, dtype=float)
            same_shape(path, (spec["lambda_n"], p), f"{what}: coef_path_")
            close(m.beta_path, path, f"{what}: beta_path", rtol=0, atol=0)
            alpha = 1.0 if method.startswith("lasso") else spec["alpha"]
            for r, lam in enumerate(lams):
                before = path[r - 1] if r else np.zeros(p)
                old = np.zeros(p) if prev is None else prev[r]
                mode = "previous_lambda" if prev is None else spec["start_u"]
                start = {"previous_lambda": before, "previous_fit": old, "average": (before + old) / 2}[mode]
                check_point(G, h, path[r], lam, alpha, reg, lb, ub, f"{what}: path row {r}", lambda: ref_cd(G, h, start, lam, alpha, reg, lb, ub))
            prev = path
    return Result(nontrivial=len(spec["batches"]) > 0,
                  tags=("method=" + method, f"scale={spec['scale']}", f"icpt={spec['icpt']}/{spec['reg_icpt']}", f"forget={f > 0}", f"batches={min(len(spec['batches']), 3)}",
                        f"weights={any(w is not None for _, _, w in data)}", "bounds=" + spec["bounds"]))


# --- any split gives the same model ----------------------------------------
@st.composite
def split_spec(draw):
    s = draw(hist_spec(["ols", "ols_obj"]))
    s["scale"] = "none"
    s["cuts"] = draw(st.lists(st.integers(0, 100), min_size=0, max_size=6))
    s["kind"] = draw(st.sampled_from(["normal", "corr", "dummy", "ints", "scales"]))
    return s


def check_split(spec):
    data, lb, ub, scale = gen(spec)
    X = np.vstack([d[0] for d in data])
    y = np.concatenate([d[1] for d in data])
    w = np.concatenate([full_w(d[2], len(d[1])) for d in data])
    n0, n, p = spec["n0"], len(y), spec["k"] + int(spec["icpt"])
    Z = intercept(X, spec["icpt"])
    d = discount(spec["forget"], n) * w
    d0 = discount(spec["forget"], n0) * w[:n0]
    c = max(scaled_cond((Z * d[:, None]).T @ Z), scaled_cond((Z[:n0] * d0[:, None]).T @ Z[:n0]))
    if w[:n0].sum() <= p + 0.5 or c > 1e6:
        return Result(False, skip="ill-conditioned")
    one = build(spec, lb, ub, scale)
    call(one.fit, X, y, sample_weight=w)
    sol = np.linalg.lstsq(Z * np.sqrt(d)[:, None], y * np.sqrt(d), rcond=None)[0]
    tol = 1e-9 * c * np.sqrt((d @ y**2) / np.diag((Z * d[:, None]).T @ Z)) + 1e-9 * np.abs(sol)
    require(np.all(np.abs(one.coef_ - sol) <= tol), lambda: f"fit on all data: {one.coef_}, weighted least squares {sol}")
    cuts = sorted({n0 + (c_ * (n - n0)) // 100 for c_ in spec["cuts"]} | {n0, n})
    m = build(spec, lb, ub, scale)
    feed(m, 0, X[:n0], y[:n0], w[:n0], spec["via"])
    for a, b in zip(cuts[:-1], cuts[1:]):
        if w[a:b].sum() > 0:
            feed(m, 1, X[a:b], y[a:b], w[a:b], spec["via"])
        else:
            return Result(False, skip="batch without weight")
    require(np.all(np.abs(m.coef_ - sol) <= tol), lambda: f"split at {cuts}: {m.coef_}, all at once {sol}")
    return Result(nontrivial=len(cuts) > 2, tags=(f"pieces={len(cuts)}", f"forget={spec['forget'] > 0}"))


# ------------------------------------------------------------------ C07 ----
def ic_value(name, rss, n, p):
    ll = -n / 2 * np.log(rss / n) - n / 2 * (1 + np.log(2 * np.pi))
    if name == "aic":
        return -2 * ll + 2 * p
    if name == "bic":
        return -2 * ll + p * np.log(n)
    if name == "hqc":
        return -2 * ll + 2 * p * np.log(np.log(n))
    return -2 * ll


def sel_spec():
    return hist_spec(["lasso", "enet", "lasso_cls"])


def check_sel(spec):
    data, lb, ub, scale = gen(spec)
    p, f = spec["k"] + int(spec["icpt"]), spec["forget"]
    if full_w(data[0][2], spec["n0"]).sum() <= p + 0.5:
        return Result(False, skip="too few (weighted) observations for the first fit")
    ref = Ref(spec, scale)
    m = build(spec, lb, ub, scale)
    rss = 0.0
    interior = 0
    for i, (X, y, w) in enumerate(data):
        Z = ref.see(X, y, w)
        if Z is None or ref.cond > 1e6:
            return Result(False, skip="ill-conditioned history")
        feed(m, i, X, y, w, spec["via"])
        what = "fit" if i == 0 else f"update {i}"
        path = np.array(m.coef_path_, dtype=float)
        same_shape(path, (spec["lambda_n"], p), f"{what}: coef_path_")
        finite(path, f"{what}: coef_path_")
        r = y[:, None] - Z @ path.T
        rss = (1 - f) ** len(y) * rss + ref.d @ r**2
        n = eff_len(f, ref.n)
        if n <= np.e:
            return Result(False, skip="effective length too short for the criteria")
        if np.min(rss) <= 1e-10 * ref.yy:
            return Result(False, skip="perfect fit")
        # a coefficient within 1e-8 of zero may be counted either way
        lo = ic_value(spec["ic"], rss, n, np.sum(np.abs(path) > 1e-7, axis=1))
        hi = ic_value(spec["ic"], rss, n, np.sum(path != 0, axis=1))
        rows = [j for j in range(len(path)) if np.allclose(path[j], m.coef_, rtol=1e-12, atol=0)]
        require(rows, f"{what}: the selected coefficients {m.coef_} are not on the path")
        tie = 1e-7 * (1 + np.max(np.abs(hi)))
        best = np.min(hi)
        require(min(lo[j] for j in rows) <= best + tie,
                lambda: f"{what}: {spec['ic']} selects row {rows} with value {hi[rows]}, but row {int(np.argmin(hi))} has {best}")
        interior += int(0 < rows[0] < len(path) - 1)
    return Result(nontrivial=interior > 0 or spec["ic"] == "max", tags=("ic=" + spec["ic"], "method=" + spec["method"], f"forget={f > 0}", f"updates={min(len(spec['batches']), 3)}", f"interior={interior > 0}"))


def warm():
    rng = np.random.default_rng(0)
    X, y, w = rng.normal(size=(20, 2)), rng.normal(size=20), np.ones(20)
    for meth in ("ols", Ridge(), LassoPath(lambda_n=3), ElasticNetPath(alpha=0.5, lambda_n=3)):
        try:
            OnlineLinearModel(method=meth).fit(X, y).update(X[:1], y[:1]).update(X, y, w)
        except Exception:  # noqa: BLE001  (the checks report it)
            pass


PROPS = [
    Prop("C06", [
        Part("history", hist_spec, check_hist, 2400, 60000, min_nontrivial=0.3),
        Part("split", split_spec, check_split, 1200, 30000, min_nontrivial=0.2),
    ], rule="Histories of one fit and up to six updates (method, batch sizes, weights, forget factor, intercept/scaling/bounds drawn). Oracle: weighted discounted moments accumulated in the reference with the reference scaler state of each batch; OLS = linear solve, ridge/lasso/elastic net = KKT conditions for the penalty/grid of those moments; for OLS without scaling every split agrees with weighted least squares on all data. Non-trivial: at least one update (at least two pieces for split).",
        warmup=warm, assumptions=["scaled condition number of the history's Gramian <= 1e6 (else the case is skipped and counted)", "coordinate descent tolerance 1e-10"]),
    Prop("C07", [Part("selection", sel_spec, check_sel, 2400, 60000, min_nontrivial=0.3)],
         rule="As C06 for the path methods; the reference accumulates the RSS of the paths the model itself reports and evaluates the criterion; the selected row must be on the path and minimal (ties within 1e-7). Non-trivial: some step selects an interior row (for 'max': all).",
         warmup=warm, assumptions=["effective length > e, imperfect fit"]),
]
