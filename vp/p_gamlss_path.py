"""C19 regularised distributional regression: path optimality, bounds, model choice."""
import copy

import numpy as np
from hypothesis import strategies as st

from ondil.estimators import OnlineDistributionalRegression as ODR
from ondil.methods import ElasticNetPath, LassoPath, OrdinaryLeastSquares, Ridge

from . import dists as R
from .core import Part, Prop, Result, Violation, attempt, call, close, finite, require, same_shape
from .data import discount, eff_len, full_w, gen_w, rng_of
from .gamlss import simulate
from .p_cd import bounds, kkt, lambda_grid, ref_cd
from .p_gamlss import base_spec, coefs, design, info_score, names_of, ref_theta, setup
from .p_links import PDOM
from .refs import RefScaler, sel_arg

DIST = ["Normal", "Normal", "NormalMeanVariance", "Gamma", "LogNormal", "Logistic", "Beta", "InverseGaussian", "Exponential", "ZeroAdjustedGamma", "Gumbel"]
ITS = 30


def gen_data(rng, spec, n):
    """half of the covariates have no effect"""
    k = spec["k"]
    X, y, _ = simulate(rng, spec["dist"], n, (k + 1) // 2)
    return np.hstack([X, rng.normal(size=(n, k - X.shape[1]))]), y


EPS = 1e-3


@st.composite
def path_spec(draw):
    s = draw(base_spec(dists=DIST, kmax=5))
    P = len(PDOM[s["dist"]])
    if s["const"]:
        s["const"], s["icpt"] = False, [True] * P
    s["n"] = draw(st.integers(60, 160))
    s["batches"] = draw(st.lists(st.one_of(st.just(1), st.integers(1, 8), st.integers(10, 25)), max_size=3))
    s["wb"] = [draw(st.sampled_from(["none", "none", "unif", "zeros", "ints"])) for _ in s["batches"]]
    s["method"] = [draw(st.sampled_from(["lasso", "lasso", "enet", "ridge", "ols"])) for _ in range(P)]
    if not any(m in ("lasso", "enet") for m in s["method"]):
        s["method"][0] = "lasso"
    s["reg_icpt"] = [draw(st.sampled_from([False, False, False, True])) for _ in range(P)]
    s["bounds"] = [draw(st.sampled_from(["free", "free", "free", "box", "nonneg"])) for _ in range(P)]
    s["alpha"] = draw(st.sampled_from([0.2, 0.5, 0.9]))
    s["lambda_n"] = draw(st.sampled_from([4, 6, 10]))
    s["start_u"] = draw(st.sampled_from(["previous_lambda", "previous_fit", "average"]))
    s["ic"] = draw(st.one_of(st.sampled_from(["aic", "bic", "hqc", "max"]), st.lists(st.sampled_from(["aic", "bic", "hqc", "max"]), min_size=P, max_size=P)))
    s["ms"] = draw(st.sampled_from(["local_rss", "global_ll"]))
    s["iter"] = draw(st.sampled_from(["plain", "plain", "plain", "default"]))
    return s


def build(spec, eq, icpt, fl, scale, bnd, cols):
    P = len(PDOM[spec["dist"]])
    kw = dict(tolerance=1e-10, max_iterations=100000)
    meth = {}
    for p in range(P):
        b = {} if spec["bounds"][p] == "free" else dict(beta_lower_bound=bnd[p][0].copy(), beta_upper_bound=bnd[p][1].copy())
        pk = dict(lambda_n=spec["lambda_n"], lambda_eps=EPS, start_value_update=spec["start_u"], **kw, **b)
        meth[p] = {"lasso": lambda: LassoPath(**pk), "enet": lambda: ElasticNetPath(alpha=spec["alpha"], **pk),
                   "ridge": lambda: Ridge(lambda_reg=2.0, **kw, **b), "ols": OrdinaryLeastSquares}[spec["method"][p]]()
    it = {}
    if spec["iter"] == "plain":
        # one inner step per outer iteration, no step control: a pure fixed-point iteration
        it = dict(max_it_outer=ITS, min_it_outer=ITS, max_it_inner=2, abs_tol_inner=1e9, rel_tol_inner=0.0, abs_tol_outer=0.0, rel_tol_outer=0.0)
    ic = spec["ic"]
    return ODR(distribution=R.make(spec["dist"], {}), equation=eq, forget=fl, method=meth, scale_inputs=scale, fit_intercept={p: bool(icpt[p]) for p in icpt},
               regularize_intercept=dict(enumerate(spec["reg_icpt"])), ic=dict(enumerate(ic)) if isinstance(ic, list) else ic, model_selection=spec["ms"], **it)


def criterion(name, ll2, n, p):
    """ll2 = -2 log-likelihood up to a constant; p may be total or relative for the linear penalties"""
    if name == "aic":
        return ll2 + 2 * p
    if name == "bic":
        return ll2 + p * np.log(n)
    if name == "hqc":
        return ll2 + 2 * p * np.log(np.log(n))
    if name == "aicc":
        return ll2 + 2 * p * n / (n - p - 1)
    return ll2


def check_path(spec):
    rng = rng_of(spec)
    name, n0, k = spec["dist"], spec["n"], spec["k"]
    eq, cols, icpt, fl, forget = setup(spec)
    P = len(cols)
    X, y = gen_data(rng, spec, n0)
    w = gen_w(rng, n0, spec["w"])
    scale = sel_arg(rng, k, spec["scale"])
    bnd, reg = {}, {}
    for p in range(P):
        J = len(cols[p]) + int(icpt[p])
        lb, ub = bounds(rng, J, spec["bounds"][p])
        if icpt[p]:
            lb[0], ub[0] = -np.inf, np.inf  # leave the intercept free
        if spec["method"][p] == "ols":
            lb, ub = np.full(J, -np.inf), np.full(J, np.inf)
        bnd[p] = (lb, ub)
        reg[p] = np.ones(J, dtype=bool)
        if icpt[p] and not spec["reg_icpt"][p] and spec["eq"][p] != "intercept":
            reg[p][0] = False
    m = build(spec, eq, icpt, fl, scale, bnd, cols)
    d = m.distribution
    fam = names_of(d)
    sc = RefScaler(k, scale, forget[0])
    G = {p: 0.0 for p in range(P)}
    h = dict(G)
    sel = dict(G)
    n_obs = 0.0
    data = [(X, y, w)]
    for b, (n, wk) in enumerate(zip(spec["batches"], spec["wb"])):
        Xb, yb = gen_data(np.random.default_rng([spec["seed"], b, 7]), spec, n)
        data.append((Xb, yb, gen_w(rng, n, wk)))
    tags = {"dist=" + name, "ms=" + spec["ms"], "iter=" + spec["iter"], f"scale={spec['scale']}", f"forget={'dict' if isinstance(spec['forget'], list) else spec['forget'] > 0}"}
    interior = deep = 0
    for b, (X, y, w) in enumerate(data):
        what = "fit" if b == 0 else f"update {b}"
        args = (X, y) if w is None else (X, y, w)
        before = copy.deepcopy(m)
        _, e = attempt(m.fit if b == 0 else m.update, *args)
        if e is not None:
            if isinstance(e, (np.linalg.LinAlgError, ValueError, FloatingPointError)) and spec["iter"] == "plain":
                return Result(False, tuple(tags), skip=f"{what} diverged")
            raise Violation(f"{what} raised {type(e).__name__}: {e}")
        ww, n = full_w(w, len(y)), len(y)
        sc.see(X, ww)
        if sc.degenerate():
            return Result(False, skip="constant column")
        n_obs += ww.sum()
        close(m.n_observations_, n_obs, f"{what}: n_observations_", rtol=1e-9)
        Z = sc(X)
        c = coefs(m, cols, icpt, what)
        if not all(np.all(np.isfinite(v)) for v in c.values()):
            return Result(False, tuple(tags), skip=f"{what} diverged")
        path, rows = {}, {}
        for p in range(P):
            if spec["method"][p] in ("lasso", "enet"):
                path[p] = np.array(m.coef_path_[p], dtype=float)
                same_shape(path[p], (spec["lambda_n"], len(reg[p])), f"{what}: coef_path_[{p}]")
                lb, ub = bnd[p]
                require(np.all(path[p] >= lb - 1e-9) and np.all(path[p] <= ub + 1e-9), lambda: f"{what}: coef_path_[{p}] leaves the bounds: {path[p]}")
                rows[p] = [j for j in range(len(path[p])) if np.allclose(path[p][j], c[p], rtol=1e-12, atol=0)]
                require(rows[p], f"{what}: coef_[{p}] = {c[p]} is not a row of coef_path_[{p}]")
            else:
                lb, ub = bnd[p]
                require(np.all(c[p] >= lb - 1e-9) and np.all(c[p] <= ub + 1e-9), lambda: f"{what}: coef_[{p}] leaves the bounds: {c[p]}")
        if spec["iter"] != "plain":
            continue
        # ---- the fixed point: moments at the reported coefficients
        th, eta = ref_theta(d, spec, c, Z, cols, icpt)
        if not np.all(np.abs(eta) < 12):  # the data are simulated with predictors within +-3
            return Result(False, tuple(tags), skip=f"{what} diverged")
        bad = None
        Gn, hn, seln = {}, {}, {}
        for p in range(P):
            wt, u = info_score(d, fam, y, th, eta, p)
            if not (np.all(np.isfinite(wt)) and np.all(np.isfinite(u))):
                return Result(False, tuple(tags), skip=f"{what} diverged")
            wv = eta[:, p] + u / wt
            E = design(Z, cols[p], icpt[p])
            f = ww * discount(forget[p], n)
            keep = (1 - forget[p]) ** n
            Gn[p] = keep * G[p] + (E * (f * wt)[:, None]).T @ E
            hn[p] = keep * h[p] + E.T @ (f * wt * wv)
            lb, ub = bnd[p]
            meth = spec["method"][p]
            if meth == "ols":
                pts = [(c[p], 0.0, 0.0, c[p])]
            elif meth == "ridge":
                pts = [(c[p], 2.0, 0.0, c[p] if b else np.zeros(len(reg[p])))]
            else:
                alpha = 1.0 if meth == "lasso" else spec["alpha"]
                lams = lambda_grid(Gn[p], hn[p], reg[p], spec["lambda_n"], EPS)
                pts = []
                for r, lam in enumerate(lams):
                    prev = path[p][r - 1] if r else np.zeros(len(reg[p]))
                    start = {"previous_lambda": prev, "previous_fit": path[p][r], "average": (prev + path[p][r]) / 2}[spec["start_u"]]
                    pts.append((path[p][r], lam, alpha, start))
            for r, (beta, lam, alpha, start) in enumerate(pts):
                worst, zero = kkt(Gn[p], hn[p], beta, lam, alpha, reg[p], lb, ub)
                if worst > 3e-4:
                    bad = bad or f"{what}: parameter {p} ({meth}), path row {r}: not stationary for the accumulated working problem (relative violation {worst:.3g}), b={beta}"
                if zero.any():
                    _, loose = kkt(Gn[p], hn[p], beta * (1 + 1e-9), lam * (1 + 1e-5), alpha, reg[p], lb, ub)
                    if loose.any() and np.any(np.abs(ref_cd(Gn[p], hn[p], start, lam, alpha, reg[p], lb, ub)[zero]) > 1e-4 * (np.max(np.abs(beta)) + 1e-12)):
                        bad = bad or f"{what}: parameter {p} ({meth}), path row {r}: zero coefficients {np.flatnonzero(zero)} are not optimal, b={beta}"
            if meth not in ("lasso", "enet"):
                continue
            # ---- model choice
            ntr = eff_len(forget[p], n_obs)
            close(m.n_training_[p], ntr, f"{what}: n_training_[{p}]", rtol=1e-8)
            pred = E @ path[p].T
            if spec["ms"] == "local_rss":
                seln[p] = keep * sel[p] + (f * wt) @ (wv[:, None] - pred) ** 2
                if np.min(seln[p]) <= 1e-9 * (np.abs(seln[p]).max() + 1e-300):
                    return Result(False, tuple(tags), skip="perfect fit")
                ll2 = ntr * np.log(seln[p])
            else:
                ll = np.zeros(len(path[p]))
                for r in range(len(ll)):
                    c2 = dict(c)
                    c2[p] = path[p][r]
                    th2, _ = ref_theta(d, spec, c2, Z, cols, icpt)
                    ll[r] = np.sum(f * R.logpdf(name, y, th2))
                seln[p] = keep * sel[p] + ll
                ll2 = -2 * seln[p]
            if not np.all(np.isfinite(ll2)):
                return Result(False, tuple(tags), skip=f"{what} diverged")
            ic = spec["ic"] if isinstance(spec["ic"], str) else spec["ic"][p]
            others = sum(np.count_nonzero(c[q]) for q in range(P) if q != p)
            if ntr <= 3 or (ic == "aicc" and ntr <= len(reg[p]) + others + 3):
                return Result(False, tuple(tags), skip="too short for the criterion")
            hi = criterion(ic, ll2, ntr, others + np.sum(path[p] != 0, axis=1))
            lo = criterion(ic, ll2, ntr, others + np.sum(np.abs(path[p]) > 1e-7, axis=1))
            tie = 1e-5 * (1 + np.max(np.abs(hi - hi.min())))
            if min(lo[j] for j in rows[p]) > hi.min() + tie:
                bad = bad or f"{what}: parameter {p}: {ic}/{spec['ms']} selects row {rows[p]} with value {hi[rows[p]]}, but row {int(np.argmin(hi))} has {hi.min()}"
            interior += int(0 < rows[p][0] < len(path[p]) - 1)
        if bad:
            # only fixed points of the iteration are judged
            if b == 0:
                f = ww * discount(forget[0], n)
                start = np.sum(f * R.logpdf(name, y, np.asarray(d.initial_values(y), dtype=float)))
                if not np.sum(f * R.logpdf(name, y, th)) > start:
                    return Result(False, tuple(tags), skip="fit diverged")
            its = (ITS, ITS - 1, ITS - 4) if b == 0 else (ITS - 1, ITS - 4)
            for outer in its:
                t = copy.deepcopy(before)
                t.set_params(max_it_outer=outer)
                if b == 0:
                    t.set_params(min_it_outer=outer)
                else:
                    t._current_min_it_outer = outer
                _, e = attempt(t.fit if b == 0 else t.update, *args)
                if e is not None or any(not np.allclose(t.coef_[p], m.coef_[p], rtol=1e-6, atol=1e-8) for p in range(P)) or any(
                        not np.allclose(t.coef_path_[p], path[p], rtol=1e-6, atol=1e-8) for p in path):
                    return Result(False, tuple(tags), skip=f"{what} not a fixed point: {name}")
            raise Violation(f"{name}: {bad}")
        G, h, sel = Gn, hn, seln
        deep += 1
    for q in spec["method"]:
        tags.add("method=" + q)
    tags.add("ic=" + (spec["ic"] if isinstance(spec["ic"], str) else "dict"))
    return Result(nontrivial=deep > 0 and interior > 0, tags=(*sorted(tags), f"interior={interior > 0}", f"updates={len(spec['batches'])}", f"bounds={any(x != 'free' for x in spec['bounds'])}"))


def warm():
    rng = np.random.default_rng(0)
    X, y = rng.normal(size=(30, 2)), rng.normal(size=30)
    for meth in (LassoPath(lambda_n=3), ElasticNetPath(alpha=0.5, lambda_n=3), Ridge(lambda_reg=1.0)):
        try:
            m = ODR(equation={0: "all", 1: "all"}, method=meth).fit(X, y, np.ones(30))
            m.update(X[:1], y[:1]).update(X, y)
        except Exception:  # noqa: BLE001
            pass


PROPS = [
    Prop("C19", [Part("path", path_spec, check_path, 320, 6000, min_nontrivial=0.1)],
         rule="Fit and up to three updates with lasso / elastic net / ridge / OLS drawn per parameter (bounds, intercept regularisation, grid length, start values, criterion per parameter, local_rss or global_ll, forget factors, weights, scaling drawn). 30 plain IRLS iterations without step control; the reference rebuilds the accumulated working moments, RSS and log-likelihoods from the reported coefficients and checks KKT of every path row, membership of the chosen row and minimality of its criterion. Non-trivial: a decided step selects an interior row of some path.",
         warmup=warm, assumptions=["optimality and choice are only judged where the result does not change with the number of iterations", "quarter of the cases run with default iteration control and check membership and bounds only"]),
]
