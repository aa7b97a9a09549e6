"""C17 stationarity of the batch fit, C18 estimating equations of updates."""
import copy

import numpy as np
from hypothesis import strategies as st

from ondil import distributions as D
from ondil import links as L
from ondil.estimators import OnlineDistributionalRegression as ODR

from . import dists as R
from .core import Part, Prop, Result, Violation, attempt, call, close, finite, require, same_shape
from .data import SEEDS, discount, eff_len, full_w, gen_w, rng_of
from .gamlss import simulate
from .p_dist import link_kwargs
from .p_links import DISTS, FAMILY, PDOM, r_inv, r_invd, shift_of
from .refs import RefScaler, intercept, sel_arg

# distributions whose IRLS converges reliably on simulated data
GOOD = [d for d in DISTS if d not in ("JSU",)]
CORE = ["Normal", "NormalMeanVariance", "Gamma", "LogNormal", "Logistic", "Beta", "InverseGaussian", "Exponential", "ZeroAdjustedGamma"]
WK = ["none", "none", "ones", "unif", "ints", "zeros"]


def eq_strategy(k):
    return st.one_of(st.just("all"), st.just("intercept"), st.tuples(st.sampled_from(["mask", "index"]), st.lists(st.booleans(), min_size=k, max_size=k)).map(list))


@st.composite
def base_spec(draw, dists=GOOD, kmax=3):
    name = draw(st.sampled_from(dists))
    k = draw(st.integers(1, kmax))
    P = len(PDOM[name])
    eqs = [draw(eq_strategy(k)) if p < 2 else "intercept" for p in range(P)]
    if draw(st.booleans()):
        eqs[0] = "all"
    const = draw(st.sampled_from([False, False, True]))
    return {
        "dist": name,
        "k": k,
        "eq": eqs,
        "const": const,  # column 0 is constant and replaces the intercept
        "icpt": [False if const else draw(st.sampled_from([True] * 7 + [False])) for _ in range(P)],
        "forget": draw(st.one_of(st.sampled_from([0.0, 0.0, 0.005, 0.02]), st.lists(st.sampled_from([0.0, 0.005, 0.02]), min_size=P, max_size=P))),
        "scale": "none" if const else draw(st.sampled_from(["all", "all", "none", "mask", "index"])),
        "w": draw(st.sampled_from(WK)),
        "prefit": [draw(st.sampled_from([0, 0, 0, 1, 3])), draw(st.sampled_from([0, 0, 0, 1, 3]))],
        "cautious": draw(st.sampled_from([False, False, True])),
        "seed": draw(SEEDS),
    }


def equation(spec, p):
    """(value for the library, columns for the reference, intercept?)"""
    e, k = spec["eq"][p], spec["k"]
    icpt = spec["icpt"][p]
    if e == "intercept":
        return e, np.arange(0), True
    if e == "all":
        return e, np.arange(k), icpt
    how, mask = e
    m = np.array(mask, dtype=bool)
    if not m.any() or spec["const"]:
        m[0] = True
    return (m if how == "mask" else np.flatnonzero(m)), np.flatnonzero(m), icpt


def setup(spec):
    P = len(PDOM[spec["dist"]])
    eq, cols, icpt = {}, {}, {}
    for p in range(P):
        eq[p], cols[p], icpt[p] = equation(spec, p)
    f = spec["forget"]
    fl = dict(enumerate(f)) if isinstance(f, list) else f
    forget = {p: (f[p] if isinstance(f, list) else f) for p in range(P)}
    return eq, cols, icpt, fl, forget


def design(Z, cols, icpt):
    return intercept(Z[:, cols], icpt)


def names_of(d):
    """family and shift of each link of a distribution instance"""
    out = {}
    for p, l in d.links.items():
        nm = type(l).__name__
        out[p] = (FAMILY[nm], shift_of(nm, getattr(l, "value", 0.0)))
    return out


def ref_theta(d, spec, coef, Z, cols, icpt):
    """(theta, eta) from the coefficients with reference links and designs."""
    fam = names_of(d)
    eta = np.column_stack([design(Z, cols[p], icpt[p]) @ coef[p] for p in range(d.n_params)])
    th = np.column_stack([r_inv(fam[p][0], eta[:, p]) + fam[p][1] for p in range(d.n_params)])
    return th, eta


def coefs(m, cols, icpt, what):
    out = {}
    for p in cols:
        c = np.array(m.coef_[p], dtype=float)
        same_shape(c, (len(cols[p]) + int(icpt[p]),), f"{what}: coef_[{p}]")
        out[p] = c
    return out


def gen_data(rng, spec, n, X=None):
    if spec["const"]:
        X = rng.normal(size=(n, spec["k"]))
        X[:, 0] = 1.0
    X, y, _ = simulate(rng, spec["dist"], n, spec["k"], X=X)
    return X, y


# ------------------------------------------------------------------ C17 ----
@st.composite
def fit_spec(draw):
    s = draw(base_spec())
    P = len(PDOM[s["dist"]])
    s["n"] = draw(st.integers(60, 200))
    s["order"] = draw(st.permutations(list(range(P)))) if draw(st.booleans()) else None
    s["step"] = draw(st.sampled_from([1.0, 1.0, 0.7, 0.5]))
    s["link"] = [draw(st.sampled_from([None, None, 1])) if d == "P" else None for d in PDOM[s["dist"]]]
    s["order"] = None if s["order"] is None else list(s["order"])
    return s


def fit_once(spec, X, y, w, outer, inner=30, order="spec", step=None):
    eq, cols, icpt, fl, forget = setup(spec)
    rng = rng_of(spec, 99)
    scale = sel_arg(rng, spec["k"], spec["scale"])
    name = spec["dist"]
    links = link_kwargs(name, spec.get("link", [None] * 4))
    if name == "StudentT":
        links.pop("tail_link", None)
    d = R.make(name, links)
    od = spec.get("order") if order == "spec" else order
    ctl = {} if isinstance(fl, dict) else dict(prefit_initial=spec["prefit"][0], prefit_update=spec["prefit"][1], cautious_updates=spec["cautious"])
    m = ODR(distribution=d, equation=eq, forget=fl, **ctl, fit_intercept={p: bool(icpt[p]) for p in icpt}, scale_inputs=scale, method="ols",
            max_it_outer=outer, max_it_inner=inner, min_it_outer=15 if isinstance(fl, dict) else 1, abs_tol_inner=1e-9, abs_tol_outer=1e-11, rel_tol_inner=0.0, rel_tol_outer=0.0,
            step_size=spec.get("step", 1.0) if step is None else step, param_order=None if od is None else np.array(od))
    _, e = attempt(m.fit, X, y, *(() if w is None else (w,)))
    return m, e, (d, cols, icpt, forget, scale)


def score_stat(spec, d, cols, icpt, forget, scale, m, X, y, w, what):
    """largest |sum| / sqrt(sum of squares) over the estimating equations, using the reference law"""
    name, n = spec["dist"], len(y)
    ww = full_w(w, n)
    sc = RefScaler(spec["k"], scale, forget[0])
    sc.see(X, ww)
    if sc.degenerate():
        return None
    Z = sc(X)
    c = coefs(m, cols, icpt, what)
    for p in c:
        if not np.all(np.isfinite(c[p])):
            return np.inf, None, None
    th, eta = ref_theta(d, spec, c, Z, cols, icpt)
    fam = names_of(d)
    sp = R.spread(name, th)
    worst, where = 0.0, None
    for p in range(d.n_params):
        h = 1e-3 * sp[:, p] * (np.clip(th[:, 1], 0.05, 1) if R.RANGE[name][0] == 0 and d.n_params > 1 else 1)
        s = R.dtheta(lambda q: R.logpdf(name, y, q), th, p, h)
        u = ww * discount(forget[p], n) * s * r_invd(fam[p][0], eta[:, p])
        E = design(Z, cols[p], icpt[p]) * u[:, None]
        stat = np.abs(E.sum(0)) / np.sqrt((E**2).sum(0) + 1e-300)
        if not np.all(np.isfinite(stat)):
            return np.inf, None, None
        if stat.max() > worst:
            worst, where = float(stat.max()), p
    return worst, where, c


def start_reachable(spec, icpt):
    """Without an intercept (or a constant column) the constant start value is not a member of the
    model and may be better than all members; the library reports that as a bad state and gives up."""
    return spec["const"] or all(icpt.values())


def rel_change(a, b):
    return max(float(np.max(np.abs(a[p] - b[p]) / (1e-2 + np.abs(a[p])))) for p in a)


def check_fit(spec):
    rng = rng_of(spec)
    X, y = gen_data(rng, spec, spec["n"])
    w = gen_w(rng, spec["n"], spec["w"])
    name = spec["dist"]
    slow = spec["step"] != 1.0
    m, e, ctx = fit_once(spec, X, y, w, 200 if slow else 80)
    if e is not None:
        if isinstance(e, (np.linalg.LinAlgError, ValueError)) and not _simple(spec):
            return Result(False, skip="fit failed: " + type(e).__name__)
        raise Violation(f"fit raised {type(e).__name__}: {e}")
    r = score_stat(spec, *ctx, m, X, y, w, "fit")
    if r is None:
        return Result(False, skip="constant column")
    stat, where, c = r
    d = ctx[0]
    same_shape(m.predict_distribution_parameters(X), (len(y), d.n_params), "predict_distribution_parameters")
    close(m.n_observations_, full_w(w, len(y)).sum(), "n_observations_", rtol=1e-9)
    for p in ctx[3]:
        close(m.n_training_[p], eff_len(ctx[3][p], full_w(w, len(y)).sum()), f"n_training_[{p}]", rtol=1e-8)
    tags = ("dist=" + name, "scale=" + spec["scale"], f"forget={'dict' if isinstance(spec['forget'], list) else spec['forget'] > 0}", f"order={spec['order'] is not None}",
            f"step={spec['step']}", "w=" + spec["w"], f"const={spec['const']}", f"links={any(x is not None for x in spec['link'])}")
    if stat > 1e-3:
        # is it a converged fit?
        m2, e2, _ = fit_once(spec, X, y, w, 101 if slow else 41)
        if c is None or e2 is not None:
            return Result(False, tags, skip="not converged: " + name)
        c2 = coefs(m2, ctx[1], ctx[2], "fit")
        if rel_change(c, c2) > 1e-6 or not _simple(spec):
            return Result(False, tags, skip="not converged: " + name)
        if not start_reachable(spec, ctx[2]):
            return Result(False, tags, skip="start values may be better than any member of the model (documented bad state)")
        raise Violation(f"{name}: the fit converged (no change between 40 and 80 outer iterations) but parameter {where} has a standardised score of {stat:.3g}; coef={ {p: v.tolist() for p, v in c.items()} }")
    return Result(tags=tags)


def _simple(spec):
    """Configurations in which IRLS is known to converge to a stationary point."""
    return spec["dist"] in CORE


@st.composite
def order_spec(draw):
    s = draw(base_spec(dists=CORE))
    P = len(PDOM[s["dist"]])
    s["n"] = draw(st.integers(60, 200))
    s["order"] = list(draw(st.permutations(list(range(P)))))
    s["step"] = draw(st.sampled_from([1.0, 0.6]))
    s["forget"] = 0.0 if isinstance(s["forget"], list) else s["forget"]
    return s


def check_order(spec):
    """Neither the order of the parameters nor the step size matters for the converged fit."""
    rng = rng_of(spec)
    X, y = gen_data(rng, spec, spec["n"])
    w = gen_w(rng, spec["n"], spec["w"])
    a, ea, ctx = fit_once(spec, X, y, w, 200)
    b, eb, _ = fit_once(spec, X, y, w, 200, order=None, step=1.0)
    if ea is not None or eb is not None:
        return Result(False, skip="fit failed")
    ra, rb = score_stat(spec, *ctx, a, X, y, w, "fit"), score_stat(spec, *ctx, b, X, y, w, "fit")
    if ra is None or max(ra[0], rb[0]) > 1e-4:
        return Result(False, skip="not converged: " + spec["dist"])
    for p in ra[2]:
        close(ra[2][p], rb[2][p], f"coef_[{p}]: order {spec['order']} and step {spec['step']} vs natural order and step 1", rtol=1e-3, atol=1e-3)
    return Result(nontrivial=spec["order"] != sorted(spec["order"]) or spec["step"] != 1.0, tags=("dist=" + spec["dist"],))


# ------------------------------------------------------------------ C18 ----
UPD = [d for d in DISTS if d not in ("JSU",)]


@st.composite
def upd_spec(draw):
    s = draw(base_spec(dists=UPD, kmax=2))
    s["n"] = draw(st.integers(100, 200))
    s["batches"] = draw(st.lists(st.one_of(st.just(1), st.integers(1, 8), st.integers(10, 25)), min_size=1, max_size=4))
    s["wb"] = [draw(st.sampled_from(WK)) for _ in s["batches"]]
    s["order"], s["step"] = None, 1.0
    s["drift"] = draw(st.sampled_from([0.0, 0.0, 0.5]))
    s["via"] = draw(st.sampled_from(["update", "partial_fit"]))
    return s


def info_score(d, fam, y, th, eta, p):
    """working weight and score on the predictor scale (library derivatives, reference links)"""
    dr = r_invd(fam[p][0], eta[:, p])
    wt = np.clip(-np.asarray(d.dl2_dp2(y, th, p), dtype=float) * dr**2, 1e-10, 1e10)
    return wt * np.ones(len(y)), np.asarray(d.dl1_dp1(y, th, p), dtype=float) * dr


def check_update(spec):
    rng = rng_of(spec)
    name = spec["dist"]
    X, y = gen_data(rng, spec, spec["n"])
    w = gen_w(rng, spec["n"], spec["w"])
    m, e, ctx = fit_once(spec, X, y, w, 60, 20)
    if e is not None:
        return Result(False, skip="fit failed: " + type(e).__name__)
    d, cols, icpt, forget, scale = ctx
    r = score_stat(spec, *ctx, m, X, y, w, "fit")
    if r is None or r[0] > 1e-5:
        return Result(False, skip="initial fit not converged: " + name)
    fam = names_of(d)
    sc = RefScaler(spec["k"], scale, forget[0])
    ww = full_w(w, len(y))
    sc.see(X, ww)
    Z = sc(X)
    c = r[2]
    th, eta = ref_theta(d, spec, c, Z, cols, icpt)
    G = {}
    for p in range(d.n_params):
        wt, _ = info_score(d, fam, y, th, eta, p)
        E = design(Z, cols[p], icpt[p])
        G[p] = (E * (ww * discount(forget[p], len(y)) * wt)[:, None]).T @ E
    n_obs = ww.sum()
    done = moved = 0
    for b, (n, wk) in enumerate(zip(spec["batches"], spec["wb"])):
        Xb, yb = gen_data(np.random.default_rng([spec["seed"], b, 7]), spec, n)
        if spec["drift"] and np.isinf(R.RANGE[name][0]):
            yb = yb + spec["drift"]
        wb = gen_w(rng, n, wk)
        before = copy.deepcopy(m)
        call(getattr(m, spec["via"]), Xb, yb, *(() if wb is None else (wb,)))
        what = f"update {b}"
        wf = full_w(wb, n)
        sc.see(Xb, wf)
        n_obs += wf.sum()
        close(m.n_observations_, n_obs, f"{what}: n_observations_", rtol=1e-9)
        for p in forget:
            close(m.n_training_[p], eff_len(forget[p], n_obs), f"{what}: n_training_[{p}]", rtol=1e-8)
        new = coefs(m, cols, icpt, what)
        if not all(np.all(np.isfinite(v)) for v in new.values()):
            if name in CORE:
                raise Violation(f"{what}: coefficients are not finite: {new}")
            return Result(False, skip="update diverged: " + name)
        Z = sc(Xb)
        th, eta = ref_theta(d, spec, new, Z, cols, icpt)
        worst, rows = 0.0, []
        Gn = {}
        for p in range(d.n_params):
            wt, u = info_score(d, fam, yb, th, eta, p)
            E = design(Z, cols[p], icpt[p])
            f = wf * discount(forget[p], n)
            keep = (1 - forget[p]) ** n
            Gn[p] = keep * G[p] + (E * (f * wt)[:, None]).T @ E
            resid = keep * G[p] @ (new[p] - c[p]) - E.T @ (f * u)
            with np.errstate(all="ignore"):
                delta = np.linalg.solve(Gn[p], resid) if np.all(np.isfinite(Gn[p])) and np.linalg.cond(Gn[p]) < 1e14 else np.full(len(resid), np.inf)
                se = np.sqrt(np.diag(np.linalg.inv(Gn[p])))
                moved += int(np.max(np.abs(new[p] - c[p]) / se) > 1e-2)
            val = float(np.max(np.abs(delta) / se))
            if not val <= worst:
                worst, rows = val, p
        if not worst <= 1e-4:
            # a fixed point of the iteration does not depend on the numbers of iterations (2-cycles do)
            conv = True
            for outer, inner in ((40, 20), (51, 1), (51, 2)):
                twin = copy.deepcopy(before).set_params(max_it_outer=outer, max_it_inner=inner)
                _, e2 = attempt(getattr(twin, spec["via"]), Xb, yb, *(() if wb is None else (wb,)))
                conv = conv and e2 is None and rel_change(new, coefs(twin, cols, icpt, what)) < 1e-7
            if not conv or name not in CORE:
                return Result(False, skip="update not converged: " + name)
            raise Violation(f"{name} {what}: parameter {rows}: the update converged but misses the discounted estimating equations by {worst:.3g} standard errors (old {c[rows].tolist()}, new {new[rows].tolist()})")
        G, c = Gn, new
        done += 1
    return Result(nontrivial=moved > 0, tags=("dist=" + name, f"updates={done}", "scale=" + spec["scale"], f"forget={'dict' if isinstance(spec['forget'], list) else spec['forget'] > 0}",
                                              f"weights={any(x not in ('none', 'ones') for x in spec['wb'])}", f"multi={max(spec['batches']) > 1}"))


def warm():
    rng = np.random.default_rng(0)
    X, y = rng.normal(size=(30, 2)), rng.normal(size=30)
    try:
        m = ODR(equation={0: "all", 1: "all"}).fit(X, y, np.ones(30))
        m.update(X[:1], y[:1]).update(X, y)
    except Exception:  # noqa: BLE001
        pass


PROPS = [
    Prop("C17", [
        Part("stationary", fit_spec, check_fit, 640, 12000, min_nontrivial=0.5),
        Part("order", order_spec, check_order, 160, 3000, min_nontrivial=0.3),
    ], rule="Data simulated from the model (17 distributions but JSU), equations (all / intercept / mask / index, with and without intercept), links, weights, scalar or per-parameter forget factors, scaling, parameter order and step size drawn; fitted to tight tolerances. Oracle: weighted discounted score equations with difference quotients of the independent reference log-density, reference scaler, designs and links. Non-trivial: converged fit (judged by the score, else by comparing 40 and 80 outer iterations).",
        warmup=warm, assumptions=["a fit whose score is not zero counts as a violation only if more outer iterations do not change it and the distribution belongs to the reliably converging core set"]),
    Prop("C18", [Part("update", upd_spec, check_update, 320, 8000, min_nontrivial=0.4)],
         rule="Converged fit followed by one to four updates (batch sizes 1..25, weights, forget factors per parameter, scaling, drift drawn). Oracle: discounted accumulated information tracked in the reference; identity gamma^n G_old (b_new - b_old) = sum of weight*discount*x*score in units of standard errors. Non-trivial: some coefficient moves by more than 1% of its standard error.",
         warmup=warm, assumptions=["updates run to tight tolerances (abs 1e-12, at most 60 outer iterations); non-converged ones are skipped and counted"]),
]
