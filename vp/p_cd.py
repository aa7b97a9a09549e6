"""C04 coordinate descent, C05 regularisation paths."""
import numpy as np
from hypothesis import strategies as st

from ondil.coordinate_descent import online_coordinate_descent, soft_threshold
from ondil.methods import ElasticNetPath, LassoPath, Ridge

from .core import Part, Prop, Result, Violation, call, close, require, same_shape
from .data import SEEDS, rng_of

TOL = 1e-10
MAXIT = 100000


# ------------------------------------------------------------- oracles ----
def soft(x, t):
    return np.sign(x) * max(abs(x) - t, 0.0)


def objective(G, h, b, lam, alpha, reg):
    r = np.asarray(reg, dtype=float)
    return 0.5 * b @ G @ b - h @ b + lam * (alpha * np.sum(r * np.abs(b)) + (1 - alpha) / 2 * np.sum(r * b**2))


def ref_cd(G, h, start, lam, alpha, reg, lb, ub, tol=TOL, maxit=3000):
    """Documented algorithm: full first sweep, then only non-zero coefficients."""
    b = np.array(start, dtype=float)
    for it in range(maxit):
        old = b.copy()
        for j in range(len(b)):
            if it == 0 or b[j] != 0:
                u = h[j] - G[j] @ b + G[j, j] * b[j]
                if reg[j]:
                    v = soft(u, alpha * lam) / (G[j, j] + lam * (1 - alpha))
                else:
                    v = u / G[j, j]
                b[j] = min(max(v, lb[j]), ub[j])
        if np.max(np.abs(b - old)) <= tol * np.max(np.abs(b)):
            break
    return b


def ref_zero(spec, G, h, start, lam, alpha, reg, lb, ub):
    """Which coefficients the documented active-set iteration may leave at
    zero although they are not optimal: with random selection any one that
    passed through zero, with cyclic selection those of the reference."""
    if spec["selection"] == "random" and spec["kind"] != "orth":
        return np.zeros(len(h))
    return ref_cd(G, h, start, lam, alpha, reg, lb, ub)


def kkt(G, h, b, lam, alpha, reg, lb, ub):
    """(worst violation among non-zero coefficients, mask of zero coefficients
    that are not optimal), in gradient units relative to the problem scale."""
    k = len(b)
    scale = np.max(np.abs(G)) * np.max(np.abs(b)) + np.max(np.abs(h)) + lam
    g = G @ b - h
    worst = 0.0
    bad_zero = np.zeros(k, dtype=bool)
    eps = 1e-7 * scale
    for j in range(k):
        gj, l1 = g[j], 0.0
        if reg[j]:
            gj = gj + lam * (1 - alpha) * b[j]
            l1 = lam * alpha
        at_lb = b[j] <= lb[j]
        at_ub = b[j] >= ub[j]
        # one-sided derivatives of the objective
        right = gj + (l1 if b[j] >= 0 else -l1)
        left = gj - (l1 if b[j] <= 0 else -l1)
        v = 0.0
        if not at_ub:
            v = max(v, -right)  # could decrease by increasing b_j
        if not at_lb:
            v = max(v, left)
        if b[j] == 0:
            bad_zero[j] = v > eps
        else:
            worst = max(worst, v / scale)
    return worst, bad_zero


def check_point(G, h, b, lam, alpha, reg, lb, ub, what, ref=None):
    """b is finite, feasible and stationary; ref() is a lazily computed
    reference solution that excuses zeros left behind by the active set."""
    if not np.all(np.isfinite(b)):
        raise Violation(f"{what}: not finite: {b}")
    sl = 1e-12
    if np.any(b < lb - sl * np.abs(np.where(np.isfinite(lb), lb, 0))) or np.any(b > ub + sl * np.abs(np.where(np.isfinite(ub), ub, 0))):
        raise Violation(f"{what}: {b} violates the bounds [{lb}, {ub}]")
    worst, bad = kkt(G, h, b, lam, alpha, reg, lb, ub)
    if worst > 1e-7:
        raise Violation(f"{what}: non-zero coefficients not stationary (relative violation {worst:.3g}), b={b}")
    if bad.any():
        if ref is None or np.any(np.abs(ref()[bad]) > 1e-6 * (np.max(np.abs(b)) + 1e-300)):
            raise Violation(f"{what}: zero coefficients {np.flatnonzero(bad)} are not optimal, b={b}")
    return not bad.any()


# ----------------------------------------------------------- generators ----
def gram_problem(rng, k, kind, logscale, ys=1.0):
    n = 4 * k + int(rng.integers(3, 30))
    X = rng.normal(size=(n, k))
    if kind == "corr":
        X = X + 0.8 * rng.normal(size=(n, 1)) * rng.choice([-1.0, 1.0], size=k)
    elif kind == "orth":
        X = np.linalg.qr(X)[0] * np.sqrt(n) * rng.uniform(0.5, 2, size=k)
    elif kind == "intercept":
        X[:, 0] = 1.0
        X[:, 1:] += rng.normal(size=k - 1)
    beta = rng.normal(size=k) * rng.choice([0, 1, 3], size=k)
    y = (X @ beta + rng.normal(size=n)) * ys
    s = 10.0**logscale
    G = X.T @ X * s
    if kind == "orth":
        G = np.diag(np.diag(G))
    return G, X.T @ y * s


def bounds(rng, k, how):
    lb, ub = np.full(k, -np.inf), np.full(k, np.inf)
    if how == "box":
        lb = -rng.uniform(0.05, 2, size=k)
        ub = rng.uniform(0.05, 2, size=k)
    elif how == "nonneg":
        lb = np.zeros(k)
    elif how == "one_sided":
        lb = np.where(rng.uniform(size=k) < 0.5, -rng.uniform(0.01, 0.5, size=k), -np.inf)
    elif how == "off_zero":
        lb = rng.uniform(0.1, 0.5, size=k)
        ub = lb + rng.uniform(0.1, 2, size=k)
        neg = rng.uniform(size=k) < 0.5
        lb, ub = np.where(neg, -ub, lb), np.where(neg, -lb, ub)
    elif how == "nonpos":
        ub = np.zeros(k)
    elif how == "one_neg":  # a single coefficient (often the first) kept off zero
        j = 0 if rng.uniform() < 0.5 else int(rng.integers(k))
        if rng.uniform() < 0.5:
            ub[j] = -rng.uniform(0.1, 1)
        else:
            lb[j] = rng.uniform(0.1, 1)
    elif how == "mixed":
        lb = np.where(rng.uniform(size=k) < 0.5, 0.0, -1.0)
        ub = np.where(rng.uniform(size=k) < 0.5, 0.5, np.inf)
    return lb, ub


def reg_mask(rng, k, how):
    if how == "all":
        return np.ones(k, dtype=bool)
    if how == "first":
        m = np.ones(k, dtype=bool)
        m[0] = False
        return m
    if how == "none":
        return np.zeros(k, dtype=bool)
    return rng.uniform(size=k) < 0.6


GKIND = ["normal", "corr", "orth", "intercept"]
BOUNDS = ["free", "free", "box", "nonneg", "one_sided", "off_zero", "nonpos", "one_neg", "mixed"]


# ------------------------------------------------------------------ C04 ----
@st.composite
def cd_spec(draw):
    return {
        "k": draw(st.integers(1, 6)),
        "kind": draw(st.sampled_from(GKIND)),
        "logscale": draw(st.integers(-3, 3)),
        "yscale": draw(st.sampled_from([0, 0, -6, -3, -1, 2, 5])),
        "lam": draw(st.sampled_from([0.0, 1e-4, 0.01, 0.1, 0.5, 0.9, 1.0, 1.5])),
        "alpha": draw(st.sampled_from([0.0, 0.3, 0.5, 0.9, 1.0])),
        "reg": draw(st.sampled_from(["all", "first", "random", "none"])),
        "bounds": draw(st.sampled_from(BOUNDS)),
        "start": draw(st.sampled_from(["zero", "random", "sparse"])),
        "selection": draw(st.sampled_from(["cyclic", "random"])),
        "seed": draw(SEEDS),
    }


def check_cd(spec):
    rng = rng_of(spec)
    k, alpha, ys = spec["k"], spec["alpha"], 10.0 ** spec["yscale"]
    G, h = gram_problem(rng, k, spec["kind"], spec["logscale"], ys)
    reg = reg_mask(rng, k, spec["reg"])
    lb, ub = (v * ys for v in bounds(rng, k, spec["bounds"]))
    lam = spec["lam"] * float(np.max(np.abs(h)))
    start = np.zeros(k)
    if spec["start"] != "zero":
        start = rng.normal(size=k) * ys
    if spec["start"] == "sparse":
        start *= rng.uniform(size=k) < 0.5
    start = np.clip(start, lb, ub)
    args = dict(x_gram=G, y_gram=h, beta=start, is_regularized=reg, beta_lower_bound=lb, beta_upper_bound=ub)
    keep = {n: v.copy() for n, v in args.items()}

    def solve(selection, s):
        return call(online_coordinate_descent, x_gram=G, y_gram=h, beta=s, regularization=lam, is_regularized=reg,
                    alpha=alpha, beta_lower_bound=lb, beta_upper_bound=ub, selection=selection, tolerance=TOL, max_iterations=MAXIT)

    b, it = solve(spec["selection"], start)
    for n, v in keep.items():
        require(np.array_equal(args[n], v), f"coordinate descent modified {n}")
    same_shape(b, (k,), "coordinate descent result")
    if it >= MAXIT:
        return Result(skip="iteration limit")
    what = f"CD lam={spec['lam']}*max|h| alpha={alpha} {spec['selection']}"
    refs = []

    def ref():
        if not refs:
            refs.append(ref_zero(spec, G, h, start, lam, alpha, reg, lb, ub))
        return refs[0]

    smooth = alpha == 0 or lam == 0 or not reg.any()
    zero_bound = np.any((lb == 0) | (ub == 0))
    strict = smooth and not zero_bound
    full = check_point(G, h, b, lam, alpha, reg, lb, ub, what, None if strict or spec["kind"] == "orth" else ref)
    o0, o1 = objective(G, h, start, lam, alpha, reg), objective(G, h, b, lam, alpha, reg)
    osc = abs(o0) + abs(o1) + np.max(np.abs(h)) * np.max(np.abs(b))
    require(o1 <= o0 + 1e-9 * osc, f"{what}: objective {o1} worse than at the start vector {o0}")
    if full:
        other = "random" if spec["selection"] == "cyclic" else "cyclic"
        b2, it2 = solve(other, start)
        _, bad = kkt(G, h, b2, lam, alpha, reg, lb, ub)
        if it2 < MAXIT and (strict or not bad.any()):
            check_point(G, h, b2, lam, alpha, reg, lb, ub, what + " (other selection)", None if strict else ref)
            # both are the unique optimum of a strongly convex problem
            mu = np.linalg.eigvalsh(G)[0]
            sc = (np.max(np.abs(G)) * np.max(np.abs(b)) + np.max(np.abs(h)) + lam)
            close(b2, b, f"{what}: {other} selection", rtol=0, atol=4e-7 * np.sqrt(k) * sc / mu)
    act = np.any(b != 0)
    return Result(nontrivial=bool(act),
                  tags=(f"alpha={alpha}", "bounds=" + spec["bounds"], "sel=" + spec["selection"], "kind=" + spec["kind"],
                        f"at_bound={bool(np.any((b == lb) | (b == ub)))}", f"sparse={bool(np.any(b == 0))}", f"full_kkt={full}"))


@st.composite
def soft_spec(draw):
    f = st.one_of(st.floats(-1e6, 1e6), st.sampled_from([0.0, -0.0, 1.0, -1.0, 1e-300, -1e-300]))
    return {"x": draw(f), "t": abs(draw(f)), "tie": draw(st.booleans())}


def check_soft(spec):
    x, t = float(spec["x"]), float(spec["t"])
    if spec["tie"]:
        t = abs(x)
    got = call(soft_threshold, x, t)
    close(got, soft(x, t), f"soft_threshold({x}, {t})", rtol=1e-12, atol=0)
    if t > abs(x) or t == abs(x):
        require(got == 0, f"soft_threshold({x}, {t}) = {got}")
    return Result(nontrivial=abs(x) > t > 0)


@st.composite
def ridge_spec(draw):
    return {
        "k": draw(st.integers(1, 6)), "kind": draw(st.sampled_from(GKIND)), "logscale": draw(st.integers(-2, 2)), "yscale": draw(st.sampled_from([0, 0, -6, -3, -1, 2, 5])),
        "lam": draw(st.sampled_from([None, 0.0, 0.01, 0.3, 2.0])), "reg": draw(st.sampled_from(["all", "first"])),
        "bounds": draw(st.sampled_from(["free", "box", "off_zero", "one_sided", "one_neg"])),
        "start": draw(st.booleans()), "selection": draw(st.sampled_from(["cyclic", "random"])), "updates": draw(st.integers(0, 3)),
        "seed": draw(SEEDS),
    }


def check_ridge(spec):
    rng = rng_of(spec)
    k, ys = spec["k"], 10.0 ** spec["yscale"]
    G, h = gram_problem(rng, k, spec["kind"], spec["logscale"], ys)
    reg = reg_mask(rng, k, spec["reg"])
    lb, ub = (v * ys for v in bounds(rng, k, spec["bounds"]))
    lam = None if spec["lam"] is None else spec["lam"] * float(np.trace(G) / k)
    start = np.clip(rng.normal(size=k) * ys, lb, ub) if spec["start"] else None
    kw = {} if spec["bounds"] == "free" else dict(beta_lower_bound=lb, beta_upper_bound=ub)
    m = Ridge(lambda_reg=lam, start_beta=start, selection=spec["selection"], tolerance=TOL, max_iterations=MAXIT, **kw)
    leff = float(np.trace(G) / k) if lam is None else lam
    b = call(m.fit_beta, G, h[:, None], reg)
    for u in range(spec["updates"] + 1):
        same_shape(b, (k,), "ridge coefficients")
        what = f"Ridge after {u} updates (lambda_reg={spec['lam']})"
        check_point(G, h, b, leff, 0.0, reg, lb, ub, what)
        if spec["bounds"] == "free":
            ref = np.linalg.solve(G + leff * np.diag(reg.astype(float)), h)
            close(b, ref, what, rtol=1e-5, scale=np.max(np.abs(ref)))
        if u < spec["updates"]:
            X = rng.normal(size=(int(rng.integers(1, 5)), k)) * 10.0 ** (spec["logscale"] / 2)
            y = rng.normal(size=len(X)) * ys * 10.0 ** (spec["logscale"] / 2)
            G, h = G + X.T @ X, h + X.T @ y
            b0 = b.copy()
            b2 = call(m.update_beta, G, h[:, None], beta=b, is_regularized=reg)
            require(np.array_equal(b, b0), "update_beta modified the coefficients it was given")
            b = b2
    return Result(tags=("bounds=" + spec["bounds"], f"lam={spec['lam']}", f"updates={spec['updates']}", f"start={spec['start']}"))


# ------------------------------------------------------------------ C05 ----
STARTS = ["previous_lambda", "previous_fit", "average"]


@st.composite
def path_spec(draw):
    cls = draw(st.sampled_from(["lasso", "enet"]))
    return {
        "cls": cls,
        "alpha": 1.0 if cls == "lasso" else draw(st.sampled_from([0.0, 0.2, 0.5, 0.8, 1.0])),
        "k": draw(st.integers(1, 5)),
        "kind": draw(st.sampled_from(GKIND)),
        "logscale": draw(st.integers(-3, 3)),
        "yscale": draw(st.sampled_from([0, 0, -6, -3, -1, 2, 5])),
        "lambda_n": draw(st.sampled_from([2, 5, 12, 25])),
        "lambda_eps": draw(st.sampled_from([1e-1, 1e-2, 1e-4])),
        "reg": draw(st.sampled_from(["all", "first", "last"])),
        "bounds": draw(st.sampled_from(["free", "free", "box", "nonneg", "one_sided", "mixed", "nonpos"])),
        "start_i": draw(st.sampled_from(STARTS)),
        "start_u": draw(st.sampled_from(STARTS)),
        "selection": draw(st.sampled_from(["cyclic", "random"])),
        "updates": draw(st.integers(0, 3)),
        "early_stop": draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
        "negate": draw(st.booleans()),
        "seed": draw(SEEDS),
    }


def lambda_grid(G, h, reg, n, eps):
    if reg.all():
        lmax = np.max(np.abs(h))
    else:
        j = int(np.flatnonzero(~reg)[0])
        r = h - G[:, j] * h[j] / G[j, j]
        lmax = np.max(np.abs(r[reg])) if reg.any() else 0.0
    return lmax * eps ** (np.arange(n) / (n - 1))


def make_method(spec, lb, ub, start_i=None, start_u=None, early=None):
    kw = dict(lambda_n=spec["lambda_n"], lambda_eps=spec["lambda_eps"], early_stop=spec["early_stop"] if early is None else early,
              start_value_initial=start_i or spec["start_i"], start_value_update=start_u or spec["start_u"],
              selection=spec["selection"], tolerance=TOL, max_iterations=MAXIT)
    if spec["bounds"] != "free":
        kw.update(beta_lower_bound=lb.copy(), beta_upper_bound=ub.copy())
    return call(LassoPath, **kw) if spec["cls"] == "lasso" else call(ElasticNetPath, alpha=spec["alpha"], **kw)


def check_rows(G, h, path, prev, mode, lams, spec, reg, lb, ub, what):
    """Every row is feasible and stationary for its own penalty, except the
    rows that early stopping repeats. Returns mask of fully optimal rows."""
    alpha, es = spec["alpha"], spec["early_stop"]
    n, k = len(lams), len(h)
    same_shape(path, (n, k), what)
    full = np.zeros(n, dtype=bool)
    stopped = 0
    for i, lam in enumerate(lams):
        before = path[i - 1] if i else np.zeros(k)
        start = {"previous_lambda": before, "previous_fit": prev[i], "average": (before + prev[i]) / 2}[mode]
        if es and np.count_nonzero(start) >= es:
            require(np.allclose(path[i], start, rtol=1e-12, atol=0), f"{what} row {i}: early_stop={es} reached but the row changed")
            stopped += 1
            continue
        full[i] = check_point(G, h, path[i], lam, alpha, reg, lb, ub, f"{what} row {i} ({mode})",
                              lambda: ref_zero(spec, G, h, start, lam, alpha, reg, lb, ub))
    return full, stopped


def check_path(spec):
    rng = rng_of(spec)
    k, n, ys = spec["k"], spec["lambda_n"], 10.0 ** spec["yscale"]
    G, h = gram_problem(rng, k, spec["kind"], spec["logscale"], ys)
    if spec["negate"]:
        h = -h
    reg = np.ones(k, dtype=bool)
    if spec["reg"] == "first":
        reg[0] = False
    elif spec["reg"] == "last":
        reg[-1] = False
    if not reg.any():
        reg[:] = True
    lb, ub = (v * ys for v in bounds(rng, k, spec["bounds"]))
    m = make_method(spec, lb, ub)
    lams = lambda_grid(G, h, reg, n, spec["lambda_eps"])
    G0, h0 = G.copy(), h.copy()
    path = call(m.fit_beta_path, x_gram=G, y_gram=h[:, None], is_regularized=reg)
    require(np.array_equal(G, G0) and np.array_equal(h, h0), "fit_beta_path modified its inputs")
    full, stopped = check_rows(G, h, path, np.zeros((n, k)), spec["start_i"], lams, spec, reg, lb, ub, "fit")
    zero_ok = np.all((lb <= 0) & (ub >= 0))
    if spec["cls"] == "lasso" and zero_ok and not spec["early_stop"] and spec["bounds"] == "free":
        # the top of the grid is the smallest penalty with an empty model
        sc = np.max(np.abs(h)) / np.min(np.diag(G))
        require(np.all(np.abs(path[0][reg]) <= 1e-6 * sc), f"row 0 is not empty: {path[0]}")
        if lams[0] > 1e-5 * np.max(np.abs(h)) and full[1]:  # (not full: a zero the active set may leave behind)
            require(np.any(path[1][reg] != 0), f"row 1 of the path is empty although its penalty is {lams[1] / lams[0]} of the maximum")
    # start values only affect speed
    if not spec["early_stop"]:
        for mode in STARTS:
            if mode == spec["start_i"]:
                continue
            m2 = make_method(spec, lb, ub, start_i=mode)
            p2 = call(m2.fit_beta_path, x_gram=G, y_gram=h[:, None], is_regularized=reg)
            f2, _ = check_rows(G, h, p2, np.zeros((n, k)), mode, lams, spec, reg, lb, ub, "fit")
            both = full & f2
            mu = np.linalg.eigvalsh(G)[0]
            sc = np.max(np.abs(G)) * np.max(np.abs(path)) + np.max(np.abs(h)) + lams[0]
            close(p2[both], path[both], f"start value {mode} vs {spec['start_i']}", rtol=0, atol=4e-7 * np.sqrt(k) * sc / mu)
    ups = 0
    for u in range(spec["updates"]):
        X = rng.normal(size=(int(rng.integers(1, 6)), k)) * 10.0 ** (spec["logscale"] / 2)
        if spec["kind"] == "orth":
            d = np.diag(rng.uniform(0.1, 2, size=k)) * 10.0 ** spec["logscale"]
            G = 0.97 * G + d
        else:
            G = 0.97 * G + X.T @ X
        h = 0.97 * h + X.T @ (rng.normal(size=len(X)) * 3 * ys * 10.0 ** (spec["logscale"] / 2))
        lams = lambda_grid(G, h, reg, n, spec["lambda_eps"])
        prev = path.copy()
        new = call(m.update_beta_path, x_gram=G, y_gram=h[:, None], beta_path=path, is_regularized=reg)
        require(np.array_equal(prev, path), "update_beta_path modified the path it was given")
        f_u, s_u = check_rows(G, h, new, prev, spec["start_u"], lams, spec, reg, lb, ub, f"update {u}")
        stopped += s_u
        if not spec["early_stop"]:
            m2 = make_method(spec, lb, ub, start_u=STARTS[(STARTS.index(spec["start_u"]) + 1) % 3])
            call(m2.fit_beta_path, x_gram=G0, y_gram=h0[:, None], is_regularized=reg)
            p2 = call(m2.update_beta_path, x_gram=G, y_gram=h[:, None], beta_path=path, is_regularized=reg)
            f2, _ = check_rows(G, h, p2, prev, STARTS[(STARTS.index(spec["start_u"]) + 1) % 3], lams, spec, reg, lb, ub, f"update {u}")
            both = f_u & f2
            mu = np.linalg.eigvalsh(G)[0]
            sc = np.max(np.abs(G)) * np.max(np.abs(new)) + np.max(np.abs(h)) + lams[0]
            close(p2[both], new[both], f"update {u}: start values", rtol=0, atol=4e-7 * np.sqrt(k) * sc / mu)
        path = new
        ups += 1
    return Result(nontrivial=bool(np.any(path != 0)),
                  tags=("cls=" + spec["cls"], f"alpha={spec['alpha']}", "bounds=" + spec["bounds"], f"early_stop={spec['early_stop'] > 0}", f"stopped={stopped > 0}",
                        f"updates={ups}", "start=" + spec["start_i"], "reg=" + spec["reg"], f"full={bool(full.all())}", f"neg={spec['negate']}"))


def warm():
    G, h = np.eye(2) * 2.0, np.ones(2)
    z, inf = np.zeros(2), np.full(2, np.inf)
    for sel in ("cyclic",):
        online_coordinate_descent(x_gram=G, y_gram=h, beta=z, regularization=0.1, is_regularized=np.ones(2, dtype=bool), alpha=1.0,
                                  beta_lower_bound=-inf, beta_upper_bound=inf, selection=sel, tolerance=TOL, max_iterations=MAXIT)
    soft_threshold(1.0, 0.5)


def warm_path():
    for cls in (LassoPath(lambda_n=3), ElasticNetPath(alpha=0.5, lambda_n=3)):
        p = cls.fit_beta_path(x_gram=np.eye(2) * 2.0, y_gram=np.ones((2, 1)), is_regularized=np.ones(2, dtype=bool))
        cls.update_beta_path(x_gram=np.eye(2) * 2.0, y_gram=np.ones((2, 1)), beta_path=p, is_regularized=np.ones(2, dtype=bool))


PROPS = [
    Prop("C04", [
        Part("cd", cd_spec, check_cd, 8000, 60000, min_nontrivial=0.4),
        Part("soft_threshold", soft_spec, check_soft, 600, 10000, shards=2),
        Part("ridge", ridge_spec, check_ridge, 3000, 30000),
    ], rule="Positive definite Gramians from drawn designs (independent, correlated, orthogonal, with intercept column; overall scale 1e-3..1e3), penalty, mixing, regularisation mask, bounds, start vector and selection mode drawn. Oracle: one-sided KKT conditions of the penalised box-constrained objective, monotone objective, agreement of both selection modes; zeros that fail KKT are only accepted if a reference implementation of the documented active-set iteration leaves them too. Non-trivial: some coefficient is non-zero.",
        warmup=warm, assumptions=["tolerance 1e-10, up to 1e5 sweeps; KKT tolerance 1e-7 of the gradient scale"]),
    Prop("C05", [Part("path", path_spec, check_path, 3000, 30000, min_nontrivial=0.5)],
         rule="Lasso/elastic-net path objects with drawn settings are fitted on a drawn Gramian and updated up to three times; every row is checked against bounds and the KKT conditions for its own value of the reference grid, all start-value choices are compared, early stopping is compared row by row. Non-trivial: the final path has a non-zero coefficient.",
         warmup=warm_path, assumptions=["tolerance 1e-10 of the coordinate descent"]),
]
