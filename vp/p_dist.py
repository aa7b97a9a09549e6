"""C11-C16 distributions: law, scores, information, sampling, moments, start values."""
import inspect

import numpy as np
from hypothesis import strategies as st

from ondil import distributions as D
from ondil import links as L
from ondil.estimators import OnlineDistributionalRegression

from . import dists as R
from .core import Part, Prop, Result, Violation, call, close, expect_raises, finite, known, require, same_shape
from .data import SEEDS, gen_X, rng_of
from .p_links import DISTS, DOM, PDOM

EPS = np.finfo(float).eps


@st.composite
def dspec(draw, wide=True, nmax=8):
    return {
        "dist": draw(st.sampled_from(DISTS)),
        "mode": draw(st.sampled_from(["moderate", "wide"] if wide else ["moderate"])),
        "n": draw(st.integers(1, nmax)),
        "seed": draw(SEEDS),
    }


def points(rng, name, t, tails=1e-6, atom_share=0.3, far=0.15):
    """Observations in the support: quantiles (bulk and tails), outliers far beyond the tails, and atoms."""
    n = len(t)
    u = rng.uniform(size=n)
    s = rng.uniform(size=n)
    u = np.where(s < 0.15, tails + u * 1e-3, np.where(s > 0.85, 1 - tails - u * 1e-3, np.clip(u, 1e-3, 1 - 1e-3)))
    y = np.asarray(R.cont(name, t).ppf(u), dtype=float)
    lo, hi = R.RANGE[name]
    if hi == 1:
        out = 10.0 ** rng.uniform(-9, -2, size=n)
        out = np.where(rng.uniform(size=n) < 0.5, out, 1 - out)
    elif lo == 0:
        out = y * 10.0 ** rng.uniform(-2, 1.5, size=n)
    else:
        s = np.sqrt(t[:, 1]) if name == "NormalMeanVariance" else t[:, 1]
        out = t[:, 0] + s * rng.choice([-1.0, 1.0], size=n) * rng.uniform(3, 18, size=n)
    y = np.where(rng.uniform(size=n) < far, out, y)
    if lo == 0:
        y = np.maximum(y, 1e-200)
    if hi == 1:
        y = np.clip(y, 1e-12, 1 - 1e-12)
    for x, _ in R.atoms(name, t):
        y = np.where(rng.uniform(size=n) < atom_share / 2, x, y)
    return y


# ------------------------------------------------------------------ C11 ----
def check_law(spec):
    rng = rng_of(spec)
    name, n = spec["dist"], spec["n"]
    d = R.make(name)
    t = R.gen_theta(rng, name, n, spec["mode"])
    y = points(rng, name, t)
    lo, hi = R.RANGE[name]
    # a few points outside the support (and on its boundary)
    out_pts = []
    if np.isfinite(lo):
        out_pts += [lo - 0.5, lo - 1e-9, lo - 1e6]
    if np.isfinite(hi):
        out_pts += [hi + 0.5, hi + 1e-9, hi + 1e6]
    outside = np.zeros(n, dtype=bool)
    if out_pts:
        outside = rng.uniform(size=n) < 0.25
        y = np.where(outside, rng.choice(out_pts, size=n), y)
    t0, y0 = t.copy(), y.copy()
    pdf, lpdf, cdf, lcdf = (np.asarray(call(getattr(d, f), y, t), dtype=float) for f in ("pdf", "logpdf", "cdf", "logcdf"))
    require(np.array_equal(t, t0) and np.array_equal(y, y0), f"{name}: arguments modified")
    for nm, v in (("pdf", pdf), ("logpdf", lpdf), ("cdf", cdf), ("logcdf", lcdf)):
        same_shape(v, (n,), f"{name}.{nm}")
    rl, rc = R.logpdf(name, y, t), R.cdf(name, y, t)
    # sensitivity of the standardised residual to rounding of y - mu
    ctx = f"at y={y}, theta={t.tolist()}"
    close(lpdf, rl, f"{name}.logpdf {ctx}", rtol=1e-7, atol=1e-7)
    with np.errstate(all="ignore"):
        close(pdf, np.exp(rl), f"{name}.pdf {ctx}", rtol=1e-6, atol=1e-290)
        close(cdf, rc, f"{name}.cdf {ctx}", rtol=1e-7, atol=1e-13)
        deep = (cdf < 1e-280) & np.isfinite(lcdf)  # the cdf underflows before its logarithm does
        close(lcdf[~deep], np.log(cdf)[~deep], f"{name}.logcdf = log(cdf) {ctx}", rtol=1e-7, atol=1e-7)
        require(np.all(lcdf[deep] < -600), f"{name}.logcdf = {lcdf[deep]} where cdf = {cdf[deep]} {ctx}")
        close(np.exp(lpdf), pdf, f"{name}: exp(logpdf) = pdf {ctx}", rtol=1e-8, atol=1e-290)
    # quantiles: vector, scalar and column arguments
    far = 10.0 ** rng.uniform(-6 if R.atoms(name, t) else -12, -1, size=n)
    s = rng.uniform(size=n)
    q = np.where(s < 0.2, far, np.where(s < 0.35, 1 - far, rng.uniform(0.001, 0.999, size=n)))
    ok = np.ones(n, dtype=bool)
    acc = np.zeros(n)
    at = R.atoms(name, t)
    rest = 1 - sum((p for _, p in at), np.zeros(n))
    for edge in ([at[0][1], at[0][1] + rest] if at else []):
        ok &= np.abs(q - edge) > 1e-4
    del acc
    x = np.asarray(call(d.ppf, q, t), dtype=float)
    same_shape(x, (n,), f"{name}.ppf")
    rx = R.ppf(name, q, t)
    if np.isfinite(hi) or lo == 0:
        good = ok & (np.abs(rx) > 1e-250) | ok & (rx == 0)
    else:
        good = ok
    sc = np.abs(t[:, 0]) if np.isinf(lo) else None
    close(x[good], rx[good], f"{name}.ppf at q={q}, theta={t.tolist()}", rtol=1e-6, scale=None if sc is None else sc[good])
    close(call(d.quantile, q, t), x, f"{name}.quantile = ppf", rtol=1e-12)
    cont = good & ~np.isin(x, [p for p, _ in at]) & (np.abs(rx) > 1e-250)
    if hi == 1:
        cont &= (x > 1e-9) & (x < 1 - 1e-9)
    if cont.any():
        dens = np.nan_to_num(np.exp(R.logpdf(name, x, t)), posinf=0.0)
        err = np.abs(np.asarray(call(d.cdf, x, t)) - q)
        tol = 1e-6 * np.minimum(q, 1 - q) + (1e-9 if at else 16 * EPS) + 16 * EPS * dens * (np.abs(x) + np.abs(t[:, 0]))
        cont &= np.abs(R.cdf(name, rx, t) - q) <= 0.1 * tol  # where the reference quantile is accurate (scipy's far tails are not always)
        require(np.all((err <= tol)[cont]), lambda: f"{name}: cdf(ppf(q)) off by {err[cont & (err > tol)]} at q={q[cont & (err > tol)]}, theta={t[cont & (err > tol)].tolist()}")
    qs = float(q[0])
    xs = np.asarray(call(d.ppf, qs, t), dtype=float)
    same_shape(xs, (n,), f"{name}.ppf with a scalar q")
    close(xs, call(d.ppf, np.full(n, qs), t), f"{name}.ppf with a scalar q", rtol=1e-10)
    xc = np.asarray(call(d.ppf, q[:, None], t), dtype=float)
    same_shape(xc, (n, n), f"{name}.ppf with a column of q")
    for i in range(n):
        close(xc[i], call(d.ppf, np.full(n, q[i]), t), f"{name}.ppf row {i} of a column of q", rtol=1e-10)
    # rows do not influence each other
    i = int(rng.integers(n))
    for nm, v, a in (("logpdf", lpdf, y), ("pdf", pdf, y), ("cdf", cdf, y), ("logcdf", lcdf, y), ("ppf", x, q)):
        one = call(getattr(d, nm), a[i : i + 1], t[i : i + 1])
        close(one, v[i : i + 1], f"{name}.{nm}: row {i} alone differs from row {i} among others", rtol=1e-10)
    return Result(tags=("dist=" + name, "mode=" + spec["mode"], f"outside={bool(outside.any())}", f"atom={bool(np.isin(y, [p for p, _ in at]).any())}"))


GL_X, GL_W = np.polynomial.legendre.leggauss(40)


def check_integral(spec):
    """cdf differences are the integral of the density (plus the atoms)."""
    rng = rng_of(spec)
    name = spec["dist"]
    d = R.make(name)
    t = R.gen_theta(rng, name, 1, "moderate")
    if name.startswith("Beta"):  # both shape parameters >= 0.8: no singular density for the quadrature
        m = np.minimum(t[:, 0], 1 - t[:, 0])
        t[:, 1] = np.minimum(t[:, 1], np.sqrt(m / (0.8 + m)))
    elif name in ("Gamma", "ZeroAdjustedGamma"):
        t[:, 1] = np.minimum(t[:, 1], 1.1)
    u = np.sort(rng.uniform(0.02, 0.98, size=2))
    a, b = (float(v) for v in R.cont(name, np.vstack([t, t])).ppf(u))
    if not b > a > -np.inf:
        return Result(False, skip="empty interval")
    # substitute y = ppf_cont(v), v Gauss-Legendre nodes between u0 and u1, dy/dv from the library's density is avoided: integrate in y on panels
    edges = np.asarray(R.cont(name, np.repeat(t, 9, axis=0)).ppf(np.linspace(u[0], u[1], 9)), dtype=float)
    total = 0.0
    for l, r in zip(edges[:-1], edges[1:]):
        yy = (l + r) / 2 + (r - l) / 2 * GL_X
        total += (r - l) / 2 * float(GL_W @ np.asarray(call(d.pdf, yy, np.repeat(t, len(yy), axis=0)), dtype=float))
    ends = np.asarray(call(d.cdf, np.array([a, b]), np.repeat(t, 2, axis=0)), dtype=float)
    same_shape(ends, (2,), f"{name}.cdf")
    close(ends[1] - ends[0], total, f"{name}: cdf({b})-cdf({a}) vs the integral of the density, theta={t.tolist()}", rtol=1e-6, atol=1e-7)
    # the atoms: jump of the cdf = density value reported at the atom
    for x, p in R.atoms(name, t):
        below = float(np.asarray(call(d.cdf, np.array([np.nextafter(x, -1)]), t), dtype=float)[0])
        on = float(np.asarray(call(d.cdf, np.array([x]), t), dtype=float)[0])
        mass = float(np.asarray(call(d.pdf, np.array([x]), t), dtype=float)[0])
        near = float(R.cdf(name, np.array([x]), t)[0] - R.cdf(name, np.array([np.nextafter(x, -1)]), t)[0])
        close(on - below, near, f"{name}: jump of the cdf at {x}, theta={t.tolist()}", rtol=1e-8, atol=1e-10)
        close(mass, float(p[0]), f"{name}: point mass at {x}", rtol=1e-9)
    # monotone
    g = np.sort(np.concatenate([edges, [a - 1, b + 1, 0.0, 1.0, -1e3, 1e3]]))
    c = np.asarray(call(d.cdf, g, np.repeat(t, len(g), axis=0)), dtype=float)
    require(np.all(np.diff(c) >= -1e-12) and np.all((c >= 0) & (c <= 1 + 1e-12)), lambda: f"{name}.cdf is not monotone in [0,1]: {c} at {g}")
    return Result(nontrivial=u[1] - u[0] > 0.05, tags=("dist=" + name,))


# ------------------------------------------------------------------ C12 ----
def check_score(spec):
    rng = rng_of(spec)
    name, n = spec["dist"], spec["n"]
    d = R.make(name)
    t = R.gen_theta(rng, name, n, spec["mode"])
    y = points(rng, name, t, tails=1e-4)
    sp = R.spread(name, t)
    lp = R.logpdf(name, y, t)
    for j in range(d.n_params):
        s = np.asarray(call(d.dl1_dp1, y, t, j), dtype=float)
        same_shape(s, (n,), f"{name}.dl1_dp1(param={j})")
        h = 1e-3 * sp[:, j]
        if name in ("Beta", "BetaInflated", "BetaInflatedZero", "Gamma", "ZeroAdjustedGamma", "InverseGamma", "InverseGaussian"):
            h = h * np.clip(t[:, 1] * (np.sqrt(t[:, 0]) if name == "InverseGaussian" else 1), 0.05, 1)
        num = R.dtheta(lambda q: R.logpdf(name, y, q), t, j, h)
        own = R.dtheta(lambda q: np.asarray(d.logpdf(y, q), dtype=float), t, j, h)
        # natural size of a score: 1/spread; rounding noise of the quotient
        size = 1 / sp[:, j]
        noise = 500 * EPS * (1 + np.abs(lp) + (1 / t[:, 1] ** 2 if PDOM[name][1:2] in ("U", "P") and name not in ("Normal", "StudentT", "JSU", "Logistic", "Gumbel", "ReverseGumbel", "NormalMeanVariance") else 0)) / h
        tol = 1e-6 * np.abs(s) + 1e-6 * size + noise
        ctx = f"y={y}, theta={t.tolist()}"
        require(np.all(np.abs(s - num) <= tol), lambda: f"{name}.dl1_dp1(param={j}) = {s}, gradient of the documented log-density = {num} ({ctx})")
        require(np.all(np.abs(s - own) <= tol), lambda: f"{name}.dl1_dp1(param={j}) = {s}, gradient of logpdf = {own} ({ctx})")
    for bad in (d.n_params, d.n_params + 3):
        expect_raises(ValueError, f"{name}.dl1_dp1(param={bad})", d.dl1_dp1, y, t, bad)
    at = [p for p, _ in R.atoms(name, t)]
    return Result(tags=("dist=" + name, "mode=" + spec["mode"], f"atom={bool(np.isin(y, at).any())}"))


# ------------------------------------------------------------------ C13 ----
QN, QW = np.polynomial.legendre.leggauss(400)
_Z = 25.0 * QN  # logit(u)
_U = 1 / (1 + np.exp(-_Z))
_QW = 25.0 * QW * _U * (1 - _U)


def check_info(spec):
    rng = rng_of(spec)
    name = spec["dist"]
    d = R.make(name)
    t = R.gen_theta(rng, name, 1, "moderate" if name.startswith("Beta") else spec["mode"])
    if name in ("Beta", "BetaInflated", "BetaInflatedZero"):
        # second shape parameter >= 0.8: otherwise mass piles up at floating-point 1 and the quadrature is useless
        t[:, 1] = np.minimum(np.clip(t[:, 1], 0.15, 0.7), np.sqrt((1 - t[:, 0]) / (1.8 - t[:, 0])))
    at = R.atoms(name, t)
    y = np.asarray(R.cont(name, np.repeat(t, len(_U), axis=0)).ppf(_U), dtype=float)
    w = _QW * (1 - sum(float(p[0]) for _, p in at))
    lo, hi = R.RANGE[name]
    keep = np.isfinite(y) & (y > lo + (1e-290 if lo == 0 else 0)) & (y < hi)
    if hi == 1:
        keep &= (y < 1 - 1e-13)
    y, w = y[keep], w[keep]
    y = np.concatenate([y, [x for x, _ in at]])
    w = np.concatenate([w, [float(p[0]) for _, p in at]])
    T = np.repeat(t, len(y), axis=0)
    sp = R.spread(name, t)[0]
    k = d.n_params
    S = np.array([R.dtheta(lambda q: R.logpdf(name, y, q), T, j, np.full(len(y), 1e-3 * sp[j] * (np.clip(t[0, 1], 0.1, 1) if lo == 0 and k > 1 else 1))) for j in range(k)])
    I = (S * w) @ S.T
    ctx = f"theta={t[0].tolist()}"
    scale = np.sqrt(np.diag(I))
    info = {}
    for j in range(k):
        v = np.broadcast_to(np.asarray(call(d.dl2_dp2, y, T, j), dtype=float), y.shape) if np.ndim(call(d.dl2_dp2, y, T, j)) else None
        require(v is not None, f"{name}.dl2_dp2(param={j}) is a scalar")
        e = float(w @ v)
        tol = TOL13.get(name, 1e-4)
        require(abs(e + I[j, j]) <= tol * I[j, j] + 1e-12, f"{name}: E[dl2_dp2({j})] = {e}, minus the Fisher information = {-I[j, j]} ({ctx})")
        pos = np.max(v)
        if name not in OBSERVED:
            require(pos <= 1e-9 * I[j, j], f"{name}.dl2_dp2({j}) is positive: {pos} ({ctx})")
        info[j] = e
    for i in range(k):
        for j in range(i + 1, k):
            v = np.asarray(call(d.dl2_dpp, y, T, (i, j)), dtype=float)
            same_shape(v, y.shape, f"{name}.dl2_dpp(({i}, {j}))")
            v2 = np.asarray(call(d.dl2_dpp, y, T, (j, i)), dtype=float)
            close(v2, v, f"{name}.dl2_dpp(({j}, {i})) vs (({i}, {j}))", rtol=1e-12)
            e = float(w @ v)
            tol = TOL13.get(name, 1e-4) * scale[i] * scale[j] + 1e-12
            if abs(e + I[i, j]) > tol:
                if name == "ReverseGumbel" and abs(e - I[i, j]) <= tol and known("C13", "ReverseGumbel.dl2_dpp sign"):
                    continue
                raise Violation(f"{name}: E[dl2_dpp(({i}, {j}))] = {e}, minus the expected product of the scores = {-I[i, j]} ({ctx})")
    yy, tt = y[:2], T[:2]
    expect_raises(ValueError, f"{name}.dl2_dp2(param={k})", d.dl2_dp2, yy, tt, k)
    if k > 1:
        expect_raises(ValueError, f"{name}.dl2_dpp((0, {k}))", d.dl2_dpp, yy, tt, (0, k))
        expect_raises(ValueError, f"{name}.dl2_dpp((1, 1))", d.dl2_dpp, yy, tt, (1, 1))
    return Result(tags=("dist=" + name,))


TOL13 = {}
OBSERVED = ()


# ------------------------------------------------------------------ C14 ----
@st.composite
def rvs_spec(draw):
    return {
        "dist": draw(st.sampled_from(DISTS)),
        "form": draw(st.sampled_from(["long", "wide", "square", "small"])),
        "size": draw(st.integers(1, 5)),
        "rows": draw(st.integers(1, 4)),
        "seed": draw(SEEDS),
    }


def pit(rng, name, y, t):
    """Randomised probability integral transform (uniform iff y ~ law)."""
    u = R.cdf(name, y, t)
    for x, p in R.atoms(name, t):
        u = np.where(y == x, u - p * rng.uniform(size=len(y)), u)
    return u


def dkw(u, what):
    u = np.sort(u)
    n = len(u)
    i = np.arange(1, n + 1)
    dist = max(np.max(i / n - u), np.max(u - (i - 1) / n))
    eps = np.sqrt(np.log(2 / 1e-10) / (2 * n))
    require(dist <= eps, f"{what}: distance to the law {dist:.4f} > {eps:.4f} ({n} draws, DKW level 1e-10)")


def check_rvs_small(spec, rng, name, d):
    """Few draws of laws that are far apart: every draw comes from the law of its own row."""
    rows, size = spec["rows"], spec["size"]
    t = R.gen_theta(rng, name, rows, "moderate")
    if name.startswith("Beta"):
        t[:, 0], t[:, 1] = np.clip(t[:, 0], 0.2, 0.8), np.clip(t[:, 1], 0.1, 0.6)
    elif np.isinf(R.RANGE[name][0]):
        t[:, 0] = 1000.0 * rng.permutation(rows)
    elif name.startswith("LogNormal"):
        t[:, 0] = 8.0 * rng.permutation(rows) if name == "LogNormal" else 10.0 ** (15 * rng.permutation(rows))
    else:
        t[:, 0] = 10.0 ** (3 * rng.permutation(rows))
        if name == "InverseGaussian":
            t[:, 1] = rng.uniform(0.2, 0.8, size=rows) / np.sqrt(t[:, 0])
    np.random.seed(int(rng.integers(2**31)))
    y = np.asarray(call(d.rvs, size, t), dtype=float)
    same_shape(y, (rows, size), f"{name}.rvs({size}, theta with {rows} rows)")
    T = np.repeat(t, size, axis=0)
    at = [x for x, _ in R.atoms(name, t)]
    U = R.cdf(name, y.ravel(), T)
    ok = ((U > 1e-13) & (U < 1 - 1e-13)) | np.isin(y.ravel(), at)
    require(ok.all(), lambda: f"{name}.rvs({size}, {t.tolist()}) = {y.tolist()}: draws that the law of their row makes (almost) impossible")
    return Result(nontrivial=rows > 1, tags=("dist=" + name, "form=small"))


def check_rvs(spec):
    rng = rng_of(spec)
    name = spec["dist"]
    d = R.make(name)
    if spec["form"] == "small":
        return check_rvs_small(spec, rng, name, d)
    rows, size = (64, 64) if spec["form"] == "square" else (spec["rows"], 4000) if spec["form"] == "wide" else (4000, spec["rows"])
    if name == "JSU" and spec["form"] == "long":
        rows = 4000
    t = R.gen_theta(rng, name, rows, "moderate")
    if name.startswith("Beta"):  # the continuous part must not pile up at floating-point 1
        t[:, 0], t[:, 1] = np.clip(t[:, 0], 0.2, 0.8), np.clip(t[:, 1], 0.1, 0.6)
    np.random.seed(int(rng.integers(2**31)))
    y = np.asarray(call(d.rvs, size, t), dtype=float)
    same_shape(y, (rows, size), f"{name}.rvs({size}, theta with {rows} rows)")
    finite(y, f"{name}.rvs")
    lo, hi = R.RANGE[name]
    at = [x for x, _ in R.atoms(name, t)]
    inside = ((y >= lo) & (y <= hi)) | np.isin(y, at)
    require(inside.all(), f"{name}.rvs outside the support: {y[~inside][:3]}")
    flat, T = y.ravel(), np.repeat(t, size, axis=0)
    U = pit(rng, name, flat, T).reshape(rows, size)
    dkw(U.ravel(), f"{name}.rvs (all draws)")
    if spec["form"] in ("wide", "square"):
        for i in range(rows):
            dkw(U[i], f"{name}.rvs row {i}, theta={t[i].tolist()}")
    Z = U - 0.5
    bound = 6.5 / np.sqrt(4000) / 12
    major = Z if spec["form"] == "wide" else Z.T
    for i in range(len(major) if spec["form"] != "square" else 0):
        c = float(np.mean(major[i][1:] * major[i][:-1]))
        require(abs(c) <= bound, f"{name}.rvs: consecutive draws are dependent (covariance of the PIT {c:.4f})")
        for j in range(i + 1, len(major)):
            c = float(np.mean(major[i] * major[j]))
            require(abs(c) <= bound, f"{name}.rvs: draws {i} and {j} are dependent (covariance of the PIT {c:.4f})")
    # continuous draws do not repeat
    free = flat[~np.isin(flat, at)]
    if name not in ("Beta", "BetaInflated", "BetaInflatedZero") and len(free) > 10:
        require(len(np.unique(free)) >= 0.99 * len(free), f"{name}.rvs repeats values")
    return Result(nontrivial=True, tags=("dist=" + name, "form=" + spec["form"]))


# ------------------------------------------------------------------ C15 ----
def check_moments(spec):
    rng = rng_of(spec)
    name, n = spec["dist"], spec["n"]
    d = R.make(name)
    t = R.gen_theta(rng, name, n, spec["mode"])
    if name == "StudentT":
        t[:, 2] = np.maximum(t[:, 2], 1.05)
    if name == "InverseGamma":
        t[:, 1] = np.minimum(t[:, 1], 0.97)
    m = np.asarray(call(d.mean, t), dtype=float)
    same_shape(m, (n,), f"{name}.mean")
    ref = R.mean(name, t)
    close(m, ref, f"{name}.mean, theta={t.tolist()}", rtol=1e-7, atol=1e-12)
    md = np.asarray(call(d.median, t), dtype=float)
    same_shape(md, (n,), f"{name}.median")
    rm = R.ppf(name, np.full(n, 0.5), t)
    ok = np.ones(n, dtype=bool)
    at = R.atoms(name, t)
    if at:
        rest = 1 - sum(p for _, p in at)
        ok = (np.abs(at[0][1] - 0.5) > 1e-4) & (np.abs(at[0][1] + rest - 0.5) > 1e-4)
    ok &= (np.abs(rm) > 1e-250) | (rm == 0)
    close(md[ok], rm[ok], f"{name}.median, theta={t.tolist()}", rtol=1e-6, scale=np.abs(t[ok, 0]) if np.isinf(R.RANGE[name][0]) else None)
    # independent of scipy: expectation as integral of the library's quantile function
    if spec["mode"] == "moderate":
        i = int(rng.integers(n))
        T = np.repeat(t[i : i + 1], len(_U), axis=0)
        q = np.asarray(call(d.ppf, _U, T), dtype=float)
        keep = np.isfinite(q)
        if not at and name not in ("StudentT", "InverseGamma", "JSU"):
            close(float(_QW[keep] @ q[keep]), m[i], f"{name}.mean vs the integral of the quantile function, theta={t[i].tolist()}", rtol=2e-4, scale=np.std(q[keep]) + np.abs(q[keep]).mean())
    return Result(tags=("dist=" + name, "mode=" + spec["mode"]))


# ------------------------------------------------------------------ C16 ----
@st.composite
def init_spec(draw):
    return {
        "dist": draw(st.sampled_from(DISTS)),
        "mode": draw(st.sampled_from(["moderate", "moderate", "wide"])),
        "n": draw(st.integers(3, 60)),
        "round": draw(st.sampled_from([None, None, 1, 2])),
        "atoms": draw(st.sampled_from(["as is", "none", "many"])),
        "shift": draw(st.sampled_from([0.0, 0.0, 100.0, -1000.0])),
        "spread": draw(st.sampled_from([None, None, None, 3, 5, 7, 8, 9])),
        "gamlss_init": draw(st.booleans()),
        "seed": draw(SEEDS),
    }


def in_support(name, theta, what):
    finite(theta, what)
    for j, dom in enumerate(PDOM[name]):
        lo, hi = DOM[dom]
        c = theta[:, j]
        if not np.all((c >= lo) & (c <= hi)):
            bad = c[~((c >= lo) & (c <= hi))][:3]
            raise Violation(f"{what}: parameter {j} = {bad} outside its support {(lo, hi)}")


def in_sample(rng, spec):
    name, n = spec["dist"], spec["n"]
    t = np.repeat(R.gen_theta(rng, name, 1, spec["mode"]), n, axis=0)
    y = R.sample(rng, name, t)
    lo, hi = R.RANGE[name]
    at = [x for x, _ in R.atoms(name, t)]
    if spec["atoms"] == "none" and at:
        y = np.where(np.isin(y, at), 0.5 if hi == 1 else 1.0, y)
        y[0] *= 0.9
    if spec["atoms"] == "many" and at:
        y[: n // 2] = rng.choice(at, size=n // 2)
    if spec.get("spread"):  # almost constant
        c = rng.uniform(0.05, 0.9) if hi == 1 else 10.0 ** rng.uniform(-3, 3)
        y = np.where(np.isin(y, at), y, c * (1 + 10.0 ** -spec["spread"] * rng.uniform(-1, 1, size=n)))
    if np.isinf(lo):
        y = y + spec["shift"]
    if spec["round"] is not None and spec["mode"] == "moderate":
        r = np.round(y, spec["round"])
        inside = (r > lo) & (r < hi) | np.isin(y, at)
        y = np.where(inside, r, y)
    return y, t


def check_init(spec):
    rng = rng_of(spec)
    name, n = spec["dist"], spec["n"]
    y, _ = in_sample(rng, spec)
    if np.std(y) <= 1e-10 * np.max(np.abs(y)) or len(np.unique(y)) < 3 or np.max(np.abs(y)) > 1e12 or np.min(np.abs(y[y != 0])) < 1e-12:
        return Result(False, skip="degenerate sample")
    at = [x for x, _ in R.atoms(name, np.ones((1, 4)))]
    if at and len(np.unique(y[~np.isin(y, at)])) < 2:
        return Result(False, skip="degenerate sample")
    d = R.make(name, {"use_gamlss_init_values": spec["gamlss_init"]} if name == "JSU" else None)
    y0 = y.copy()
    t = np.asarray(call(d.initial_values, y), dtype=float)
    require(np.array_equal(y, y0), f"{name}.initial_values modified its argument")
    same_shape(t, (n, d.n_params), f"{name}.initial_values")
    in_support(name, t, f"{name}.initial_values for y={y[:5]}... (n={n})")
    return Result(tags=("dist=" + name, "atoms=" + spec["atoms"], "mode=" + spec["mode"], f"near_constant={bool(spec['spread'])}"))


LINKS = {
    "R": [("Identity", None)],
    "P": [("Log", None), ("InverseSoftPlus", None), ("Sqrt", None), ("LogShiftValue", 0.5), ("SqrtShiftValue", 0.5), ("InverseSoftPlusShiftValue", 0.5), ("LogShiftTwo", None),
          ("InverseSoftPlusShiftTwo", None), ("SqrtShiftTwo", None), ("LogIdent", None), ("LogShiftValue", 0.001)],
    "U": [("Logit", None)],
}


@st.composite
def pred_spec(draw):
    name = draw(st.sampled_from(DISTS))
    return {
        "dist": name,
        "link": [draw(st.one_of(st.none(), st.integers(0, 10))) for _ in PDOM[name]],
        "k": draw(st.integers(1, 3)),
        "n": draw(st.integers(1, 6)),
        "eta": draw(st.sampled_from([5.0, 50.0, 300.0, 600.0])),
        "seed": draw(SEEDS),
    }


def link_kwargs(name, picks):
    cls = getattr(D, name)
    args = [p for p in inspect.signature(cls.__init__).parameters if p.endswith("_link")]
    kw = {}
    for j, (a, pick) in enumerate(zip(args, picks)):
        if pick is None:
            continue
        opts = LINKS[PDOM[name][j]]
        ln, v = opts[pick % len(opts)]
        kw[a] = getattr(L, ln)() if v is None else getattr(L, ln)(v)
    return kw


def check_pred(spec):
    """A fitted model with prescribed coefficients maps every predictor into the support."""
    rng = rng_of(spec)
    name, k = spec["dist"], spec["k"]
    kw = link_kwargs(name, spec["link"])
    d = call(getattr(D, name), **kw)
    eta = rng.uniform(-1, 1, size=spec["n"]) * spec["eta"]
    eta[0] = spec["eta"] * rng.choice([-1, 1])
    for j in range(d.n_params):
        c = np.asarray(call(d.link_inverse, eta, param=j), dtype=float)
        same_shape(c, (spec["n"],), f"{name}.link_inverse({j})")
        finite(c, f"{name}: parameter {j} for the predictor {eta}")
        lo, hi = DOM[PDOM[name][j]]
        require(np.all((c >= lo) & (c <= hi)), lambda: f"{name}: parameter {j} = {c} outside its support for the predictor {eta} (link {type(d.links[j]).__name__})")
    return Result(tags=("dist=" + name, f"eta={spec['eta']}"))


@st.composite
def extra_spec(draw):
    name = draw(st.sampled_from(["Normal", "Gamma", "Beta", "StudentT", "LogNormal", "ZeroAdjustedGamma", "Exponential", "InverseGaussian", "BetaInflatedZero", "Logistic"]))
    return {
        "dist": name,
        "k": draw(st.integers(1, 3)),
        "far": draw(st.sampled_from([1.0, 10.0, 100.0, 1000.0])),
        "scale": draw(st.booleans()),
        "method": draw(st.sampled_from(["ols", "lasso"])),
        "seed": draw(SEEDS),
    }


def check_extra(spec):
    from .gamlss import simulate

    rng = rng_of(spec)
    name, k = spec["dist"], spec["k"]
    d = R.make(name)
    X, y, _ = simulate(rng, name, 60, k, "all")
    eq = {p: "all" for p in range(d.n_params)} if name in ("Normal", "Gamma", "LogNormal", "Logistic", "Exponential") else {0: "all"}
    m = OnlineDistributionalRegression(distribution=d, equation=eq, method=spec["method"], scale_inputs=spec["scale"], max_it_outer=10, max_it_inner=10)
    call(m.fit, X, y)
    if not all(np.all(np.isfinite(m.coef_[p])) for p in m.coef_):
        return Result(False, skip="fit diverged")
    Xf = gen_X(rng, 5, k, "normal") * spec["far"]
    # keep the predictors within the range the property is about
    t = np.asarray(call(m.predict_distribution_parameters, Xf), dtype=float)
    same_shape(t, (5, d.n_params), "predict_distribution_parameters")
    in_support(name, t, f"{name}: predicted parameters at {spec['far']}x covariates")
    return Result(nontrivial=spec["far"] > 1, tags=("dist=" + name, f"far={spec['far']}", "method=" + spec["method"]))


def dspec_mod():
    return dspec(wide=False)


PROPS = [
    Prop("C11", [
        Part("law", dspec, check_law, 4500, 60000),
        Part("integral", dspec_mod, check_integral, 1200, 30000, min_nontrivial=0.5),
    ], rule="Distribution, parameter matrix (moderate or spread over orders of magnitude) and points (bulk and tail quantiles, atoms, outside the support) drawn; compared with an independently written reference law, with each other (log/exp, cdf/ppf, integral of pdf = cdf increments, jumps = masses), rows jointly vs singly, ppf with scalar/vector/column levels. Law cases all non-trivial; integral cases when the interval carries > 5% mass.",
        assumptions=["scipy.stats is trusted as reference evaluator of the standard laws"]),
    Prop("C12", [Part("score", dspec, check_score, 8000, 80000)],
         rule="Distribution, parameters and observations as C11 (in the support, including atoms); every dl1_dp1 compared with 5-point difference quotients of the reference log-density and of the library's own logpdf. All cases non-trivial.",
         assumptions=["difference quotients: relative step 1e-3 of the parameter's length scale, tolerance 1e-6 of |score| and 1/length scale plus rounding noise"]),
    Prop("C13", [Part("information", dspec, check_info, 3000, 40000)],
         rule="Distribution and parameter vector drawn; expectations of dl2_dp2 / dl2_dpp by 400-point quadrature in logit(u) under the reference law (plus atoms) compared with the Fisher information from the reference scores. All cases non-trivial.",
         assumptions=["quadrature error below 1e-4 of the information (calibrated)", "the observed-information form may be used as long as its expectation is right"]),
    Prop("C14", [Part("rvs", rvs_spec, check_rvs, 3000, 40000)],
         rule="Distribution and parameter matrix with different rows drawn, numpy's global generator seeded per case; 4000+ draws per case: support, shape, Dvoretzky-Kiefer-Wolfowitz test of the randomised PIT overall and per row at level 1e-10, covariance of PITs between rows and consecutive draws at 6.5 sigma, no repeated values.",
         assumptions=["false-alarm probability per run < 1e-6 by the DKW bound and the normal tail"]),
    Prop("C15", [Part("moments", dspec, check_moments, 8000, 60000)],
         rule="Distribution and parameter matrix drawn; mean and median compared with the reference law and with the integral of the library's quantile function.",
         assumptions=["expectation exists: df > 1.05 (StudentT), sigma < 0.97 (InverseGamma)"]),
    Prop("C16", [
        Part("initial", init_spec, check_init, 900, 20000, min_nontrivial=0.4),
        Part("links", pred_spec, check_pred, 3000, 60000),
        Part("extrapolate", extra_spec, check_extra, 160, 4000, min_nontrivial=0.4),
    ], rule="Samples from drawn laws (rounded, shifted, with few/many/no atoms) for the start values; predictors up to +-600 through every admissible link; models fitted on mild data and evaluated at covariates up to 1000 times farther out. Non-trivial: non-degenerate sample / any predictor / extrapolating covariates.",
        assumptions=["degenerate samples (fewer than three distinct values, relative spread below 1e-10) are excluded"]),
]
