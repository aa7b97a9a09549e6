"""C09 links are bijections onto their support, C10 link derivatives."""
import inspect
import warnings

import numpy as np
from hypothesis import strategies as st

from ondil import distributions as D
from ondil import links as L
from ondil.warnings import OutOfSupportWarning

from .core import Part, Prop, Result, Violation, call, close, finite, require, same_shape
from .data import SEEDS, rng_of

EPS = np.finfo(float).eps
PLAIN = ["Identity", "Log", "LogIdent", "Logit", "Sqrt", "InverseSoftPlus"]
SHIFT = ["LogShiftValue", "SqrtShiftValue", "InverseSoftPlusShiftValue", "LogShiftTwo", "SqrtShiftTwo", "InverseSoftPlusShiftTwo"]
FAMILY = {"Identity": "id", "Log": "log", "LogIdent": "logident", "Logit": "logit", "Sqrt": "sqrt", "InverseSoftPlus": "softplus",
          "LogShiftValue": "log", "LogShiftTwo": "log", "SqrtShiftValue": "sqrt", "SqrtShiftTwo": "sqrt",
          "InverseSoftPlusShiftValue": "softplus", "InverseSoftPlusShiftTwo": "softplus"}


def make(name, v):
    cls = getattr(L, name)
    return call(cls, v) if name.endswith("Value") else call(cls)


def shift_of(name, v):
    if name.endswith("Value"):
        return float(v)
    return 2.0 if name.endswith("Two") else 0.0


# reference maps for z = x - shift
def r_link(fam, z):
    if fam == "id":
        return z
    if fam == "log":
        return np.log(z)
    if fam == "logident":
        return np.where(z <= 1, np.log(np.minimum(z, 1)), z - 1)
    if fam == "logit":
        return np.log(z) - np.log1p(-z)
    if fam == "sqrt":
        return np.sqrt(z)
    return np.where(z > 30, z, z + np.log(-np.expm1(-np.minimum(z, 700))))


def r_inv(fam, e):
    if fam == "id":
        return e
    if fam == "log":
        return np.exp(e)
    if fam == "logident":
        return np.where(e <= 0, np.exp(np.minimum(e, 0)), e + 1)
    if fam == "logit":
        return 1 / (1 + np.exp(-e))
    if fam == "sqrt":
        return e**2
    return np.logaddexp(0, e)


def r_d1(fam, z):
    if fam == "id":
        return np.ones_like(z)
    if fam == "log":
        return 1 / z
    if fam == "logident":
        return np.where(z <= 1, 1 / z, 1.0)
    if fam == "logit":
        return 1 / z + 1 / (1 - z)
    if fam == "sqrt":
        return 0.5 * z**-0.5
    return -1 / np.expm1(-z)


def r_d2(fam, z):
    if fam == "id":
        return np.zeros_like(z)
    if fam == "log":
        return -(z**-2.0)
    if fam == "logident":
        return np.where(z <= 1, -(z**-2.0), 0.0)
    if fam == "logit":
        return 1 / (1 - z) ** 2 - 1 / z**2
    if fam == "sqrt":
        return -0.25 * z**-1.5
    return -np.exp(-z) / np.expm1(-z) ** 2


def r_invd(fam, e):
    if fam == "id":
        return np.ones_like(e)
    if fam == "log":
        return np.exp(e)
    if fam == "logident":
        return np.where(e <= 0, np.exp(np.minimum(e, 0)), 1.0)
    if fam == "logit":
        return np.exp(-np.abs(e)) / (1 + np.exp(-np.abs(e))) ** 2
    if fam == "sqrt":
        return 2 * e
    return 1 / (1 + np.exp(-e))


# interior range of eta / z in which nothing is clipped by the robust maths
ETA = {"id": (-1e6, 1e6), "log": (-22, 34), "logident": (-22, 1e5), "logit": (-22, 33), "sqrt": (1e-4, 1e7), "softplus": (-22, 1e4)}
Z = {"id": (-1e6, 1e6), "log": (1e-9, 1e14), "logident": (1e-9, 1e8), "logit": (1e-9, 1 - 1e-13), "sqrt": (1e-9, 1e14), "softplus": (1e-9, 1e5)}


def draw_range(rng, lo, hi, n):
    if lo > 0:
        u = np.exp(rng.uniform(np.log(lo), np.log(hi), size=n))
    else:
        u = rng.uniform(-1, 1, size=n) * 10.0 ** rng.uniform(-3, np.log10(max(abs(lo), abs(hi))), size=n)
        u = np.clip(u, lo, hi)
    v = rng.uniform(lo, min(hi, lo + 40), size=n)
    w = np.clip(rng.uniform(-40, 60, size=n), lo, hi)
    s = rng.uniform(size=n)
    return np.where(s < 0.35, u, np.where(s < 0.65, v, w))


def draw_z(rng, fam, n):
    lo, hi = Z[fam]
    if fam == "logit":
        s = rng.uniform(size=n)
        far = np.where(s < 0.2, 10.0 ** rng.uniform(-9, 0, size=n), 1 - 10.0 ** rng.uniform(-13, 0, size=n))
        z = np.where(s < 0.4, far, rng.beta(0.5, 0.5, size=n))
        return np.clip(z, lo, hi)
    z = draw_range(rng, lo, hi, n)
    return np.where(rng.uniform(size=n) < 0.5, z, np.clip(np.exp(rng.normal(size=n)), lo, hi))


@st.composite
def link_spec(draw):
    return {
        "link": draw(st.sampled_from(PLAIN + SHIFT)),
        "v": draw(st.one_of(st.sampled_from([0.0, 1.0, 2.0, -1.0, 0.5, 10.0, 1e-3]), st.floats(-20, 100))),
        "n": draw(st.integers(1, 8)),
        "scalar": draw(st.booleans()),
        "seed": draw(SEEDS),
    }


def check_bij(spec):
    rng = rng_of(spec)
    name, n = spec["link"], spec["n"]
    fam, v = FAMILY[name], shift_of(spec["link"], spec["v"])
    link = make(name, spec["v"])
    lo, hi = link.link_support
    shifted = v != 0 or name.endswith("Value")
    small = 1e-10 if (name in SHIFT and fam in ("log", "sqrt")) else 0.0  # documented safeguard inside the shifted links
    # eta -> x -> eta
    eta = draw_range(rng, *ETA[fam], n)
    e0 = eta.copy()
    x = call(link.inverse, eta)
    require(np.array_equal(eta, e0), f"{name}.inverse modified its argument")
    same_shape(x, (n,), f"{name}.inverse")
    zref = r_inv(fam, eta)
    close(x, zref + v, f"{name}({v}).inverse", rtol=1e-12, atol=8 * EPS * abs(v))
    require(np.all((x >= lo) & (x <= hi)), f"{name}({v}).inverse({eta}) = {x} outside the support {(lo, hi)}")
    back = call(link.link, x)
    same_shape(back, (n,), f"{name}.link")
    dx = small + 8 * EPS * (abs(v) + np.abs(x)) + (0 if fam == "logit" else 1e-12) * np.abs(zref)
    if fam == "logit":
        d = r_d1(fam, np.clip(zref, 1e-300, 1 - 1e-16))
    elif fam == "sqrt":
        d = 1 / (2 * eta)
    else:
        d = 1 / r_invd(fam, eta)
    err = np.abs(back - eta)
    require(np.all(err <= 3 * dx * np.abs(d) + 1e-11 * (np.abs(eta) + 1e-3)),
            lambda: f"{name}({v}): link(inverse(eta)) = {back} for eta = {eta}")
    # x -> eta -> x
    z = draw_z(rng, fam, n)
    x = z + v
    z = x - v  # representable
    ok = z > (1e-5 if shifted else 0) if fam not in ("id",) else np.ones(n, bool)
    if fam == "logit":
        ok &= z < 1
    x, z = x[ok], z[ok]
    if len(x):
        e = call(link.link, x)
        eref = r_link(fam, z)
        tol = 3 * (small + 8 * EPS * (abs(v) + np.abs(x))) * np.abs(r_d1(fam, z)) + 1e-12 * (np.abs(eref) + (0 if fam == "sqrt" else 1))
        require(np.all(np.abs(e - eref) <= tol), lambda: f"{name}({v}).link({x}) = {e}, expected {eref}")
        xb = call(link.inverse, e)
        tolx = 3 * small + 32 * EPS * (abs(v) + np.abs(x)) + 1e-11 * np.abs(z)
        require(np.all(np.abs(xb - x) <= tolx), lambda: f"{name}({v}): inverse(link(x)) = {xb} for x = {x}")
    # scalars behave like arrays
    if spec["scalar"]:
        s = call(link.inverse, float(eta[0]))
        close(float(s), float(call(link.inverse, eta)[0]), f"{name}.inverse of a scalar", rtol=1e-12)
    # the whole real line lands in the support
    wild = np.concatenate([rng.normal(size=4) * 10.0 ** rng.integers(0, 6), np.array([-1e5, -800.0, -740.0, -50.0, -37.0, 0.0, 34.0, 37.0, 50.0, 800.0, 1e5])])
    out = call(link.inverse, wild)
    finite(out, f"{name}({v}).inverse")
    require(np.all((out >= lo) & (out <= hi)), lambda: f"{name}({v}).inverse({wild[~((out >= lo) & (out <= hi))]}) outside {(lo, hi)}")
    return Result(tags=("link=" + name, f"shift={np.sign(v):.0f}"))


def check_mono(spec):
    rng = rng_of(spec)
    name = spec["link"]
    fam, v = FAMILY[name], shift_of(spec["link"], spec["v"])
    link = make(name, spec["v"])
    lo = 0.0 if fam == "sqrt" else -60.0
    hi = 200.0 if fam in ("sqrt", "id", "softplus", "logident") else 60.0
    a = np.sort(rng.uniform(lo, hi, size=12))
    x = call(link.inverse, a)
    require(np.all(np.diff(x) >= 0), lambda: f"{name}({v}).inverse is not monotone on {a}: {x}")
    # strictly where the images are distinguishable
    elo, ehi = ETA[fam]
    elo, ehi = max(elo, -12), min(ehi, 12)
    if fam == "sqrt":
        elo = 0.05
    b = np.sort(rng.uniform(elo, ehi, size=6))
    gap = np.diff(b)
    dz = np.minimum(np.abs(r_invd(fam, b[1:])), np.abs(r_invd(fam, b[:-1]))) * gap
    xb = call(link.inverse, b)
    far = dz > 64 * EPS * (abs(v) + np.abs(xb[1:]))
    require(np.all(np.diff(xb)[far] > 0), lambda: f"{name}({v}).inverse is not strictly increasing on {b}: {xb}")
    z = np.sort(draw_z(rng, fam, 8))
    e = call(link.link, z + v)
    require(np.all(np.diff(e) >= 0), lambda: f"{name}({v}).link is not monotone on {z + v}: {e}")
    farx = np.diff(z) > 1e-6 * (abs(v) + z[1:]) if fam != "id" else np.diff(z) > 1e-6
    lo_ok = z[:-1] > 1e-6 if fam != "id" else np.ones(7, bool)
    require(np.all(np.diff(e)[farx & lo_ok] > 0), lambda: f"{name}({v}).link is not strictly increasing on {z + v}: {e}")
    return Result(tags=("link=" + name,))


DISTS = ["Normal", "NormalMeanVariance", "StudentT", "JSU", "Gamma", "LogNormal", "LogNormalMedian", "Logistic", "Exponential", "Beta",
         "BetaInflated", "BetaInflatedZero", "ZeroAdjustedGamma", "Gumbel", "ReverseGumbel", "InverseGaussian", "InverseGamma"]
# parameter domains: R = real line, P = positive, U = open unit interval
PDOM = {"Normal": "RP", "NormalMeanVariance": "RP", "StudentT": "RPP", "JSU": "RPRP", "Gamma": "PP", "LogNormal": "RP", "LogNormalMedian": "PP",
        "Logistic": "RP", "Exponential": "P", "Beta": "UU", "BetaInflated": "UUPP", "BetaInflatedZero": "UUP", "ZeroAdjustedGamma": "PPU",
        "Gumbel": "RP", "ReverseGumbel": "RP", "InverseGaussian": "PP", "InverseGamma": "PP"}
DOM = {"R": (-np.inf, np.inf), "P": (np.nextafter(0, 1), np.inf), "U": (np.nextafter(0, 1), np.nextafter(1, 0))}


@st.composite
def warn_spec(draw):
    d = draw(st.sampled_from(DISTS))
    return {"dist": d, "param": draw(st.integers(0, 3)), "link": draw(st.sampled_from(PLAIN + SHIFT)),
            "v": draw(st.sampled_from([0.0, 2.0, -1.0, 0.5, 1e-3, -1e-3]))}


def check_warn(spec):
    cls = getattr(D, spec["dist"])
    names = [p for p in inspect.signature(cls.__init__).parameters if p.endswith("_link")]
    kw = names[spec["param"] % len(names)]
    link = make(spec["link"], spec["v"])
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            dist = cls(**{kw: link})
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{spec['dist']}({kw}={spec['link']}) raised {type(e).__name__}: {e}") from e
    got = any(issubclass(r.category, OutOfSupportWarning) for r in rec)
    idx = [p for p, l in dist.links.items() if l is link]
    require(len(idx) == 1, f"{spec['dist']}: link for {kw} is not used exactly once ({idx})")
    lo, hi = link.link_support
    plo, phi = DOM[PDOM[spec["dist"]][idx[0]]]
    slo, shi = dist.parameter_support[idx[0]]
    require((slo, shi) == (plo, phi), f"{spec['dist']} parameter {idx[0]}: declared support {(slo, shi)}")
    want = lo < plo or hi > phi
    require(got == want, f"{spec['dist']}({kw}={spec['link']}({spec['v']})): link support {(lo, hi)}, parameter support {(plo, phi)}, warning={got}")
    return Result(nontrivial=want, tags=(f"warn={want}",))


# ------------------------------------------------------------------ C10 ----
def cdiff(fn, x, h):
    """5-point central difference."""
    return (8 * (fn(x + h) - fn(x - h)) - (fn(x + 2 * h) - fn(x - 2 * h))) / (12 * h)


def check_deriv(spec):
    rng = rng_of(spec)
    name, n = spec["link"], spec["n"]
    fam, v = FAMILY[name], shift_of(spec["link"], spec["v"])
    link = make(name, spec["v"])
    small = 1e-10 if (name in SHIFT and fam in ("log", "sqrt")) else 0.0
    lo, hi = {"id": (-1e4, 1e4), "log": (1e-6, 1e9), "logident": (1e-6, 1e8), "logit": (1e-6, 1 - 1e-6), "sqrt": (1e-6, 1e9), "softplus": (2e-3, 600)}[fam]
    z = np.clip(draw_z(rng, fam, n), lo, hi)
    if fam == "logident":
        z = np.where(np.abs(z - 1) < 1e-3, 1.01, z)
    x = z + v
    z = x - v
    x0 = x.copy()
    d1, d2 = call(link.link_derivative, x), call(link.link_second_derivative, x)
    require(np.array_equal(x, x0), f"{name} derivative modified its argument")
    rel = 1e-8 + 4 * (small + 8 * EPS * abs(v)) / np.abs(z) if fam != "id" else 1e-8
    close(d1, r_d1(fam, z), f"{name}({v}).link_derivative at {x}", rtol=np.max(rel))
    close(d2, r_d2(fam, z), f"{name}({v}).link_second_derivative at {x}", rtol=np.max(rel) * 5 + 1e-7, atol=1e-13, scale=np.abs(r_d1(fam, z)) * 1e-6 if fam == "logit" else None)
    lo, hi = {"id": (-1e4, 1e4), "log": (-20, 33), "logident": (-20, 1e4), "logit": (-30, 34), "sqrt": (0.01, 1e4), "softplus": (-20, 1e3)}[fam]
    eta = draw_range(rng, lo, hi, n)
    if fam == "logident":
        eta = np.where(np.abs(eta) < 1e-3, 0.01, eta)
    di = call(link.inverse_derivative, eta)
    close(di, r_invd(fam, eta), f"{name}({v}).inverse_derivative at {eta}", rtol=1e-11, atol=8 * EPS)
    if fam == "sqrt":
        neg = call(link.inverse_derivative, -eta)
        close(neg, -2 * eta, f"{name}({v}).inverse_derivative at {-eta}", rtol=1e-8)
    # derivatives of the maps the link itself implements
    # (step 1% of the distance to the boundary: truncation error (h/z)^4 ~ 1e-8)
    if fam == "id":
        h = 1e-3 * np.maximum(np.abs(z), 1e-3)
    else:
        h = 1e-2 * (np.minimum(z, 1 - z) if fam == "logit" else np.minimum(z, 1.0 + 0.1 * z))
        if fam == "logident":
            h = np.minimum(h, 0.3 * np.abs(z - 1))
    num = cdiff(lambda t: np.asarray(link.link(t), dtype=float), x, h)
    noise = 64 * EPS * (np.abs(r_link(fam, z)) + 1 + np.abs(r_d1(fam, z)) * (abs(v) + np.abs(x))) / h
    require(np.all(np.abs(num - d1) <= 1e-6 * np.abs(num) + noise + 1e-9), lambda: f"{name}({v}): link_derivative {d1}, slope of link {num} at {x}")
    num2 = cdiff(lambda t: np.asarray(link.link_derivative(t), dtype=float), x, h)
    noise2 = 64 * EPS * np.abs(r_d1(fam, z)) * (1 + (abs(v) + np.abs(x)) / np.maximum(np.abs(z), 1e-9)) / h
    require(np.all(np.abs(num2 - d2) <= 1e-6 * np.abs(num2) + noise2 + 1e-9), lambda: f"{name}({v}): link_second_derivative {d2}, slope of link_derivative {num2} at {x}")
    he = np.minimum(1e-3, 0.05 * np.abs(eta)) if fam in ("sqrt", "logident") else np.full(n, 1e-3)
    numi = cdiff(lambda t: np.asarray(link.inverse(t), dtype=float), eta, he)
    noisei = 64 * EPS * (abs(v) + np.abs(r_inv(fam, eta)) + np.abs(eta)) / he
    require(np.all(np.abs(numi - di) <= 1e-6 * np.abs(numi) + noisei + 1e-12), lambda: f"{name}({v}): inverse_derivative {di}, slope of inverse {numi} at {eta}")
    # reciprocal rule
    xe = np.asarray(link.inverse(eta), dtype=float)
    ze = r_inv(fam, eta)
    good = (ze > 1e-3) & (ze < (1 - 1e-4 if fam == "logit" else np.inf)) & (np.abs(eta) > 1e-2) if fam != "id" else np.ones(n, bool)
    if good.any():
        r = call(link.link_derivative, xe[good]) * di[good]
        close(r, np.ones(good.sum()), f"{name}({v}): link'(inverse(eta)) * inverse'(eta)", rtol=1e-6 + 1e-9 * abs(v))
    return Result(tags=("link=" + name,))


PROPS = [
    Prop("C09", [
        Part("bijection", link_spec, check_bij, 6000, 120000),
        Part("monotone", link_spec, check_mono, 2000, 40000),
        Part("warning", warn_spec, check_warn, 1200, 12000, min_nontrivial=0.1),
    ], rule="Link class, shift value and arrays of predictor values/parameter values drawn over the representable range (log-uniform and uniform, plus extreme predictors up to 1e5); both round trips, reference formulas, membership in the declared support, monotonicity; distribution x parameter x link combinations for the support warning. Every bijection/monotone case is non-trivial; warning cases count when a warning is due.",
        assumptions=["the robust maths clips log below 1e-10 and exp above 1e15; shifted log and sqrt links add 1e-10: round trips are judged with that allowance"]),
    Prop("C10", [Part("derivative", link_spec, check_deriv, 8000, 150000)],
         rule="Link class, shift and evaluation points drawn from the unclipped interior; the three derivative methods are compared with closed forms, with 5-point differences of the link's own maps and with the reciprocal rule. All cases non-trivial.",
         assumptions=["interior of the support (outside the region in which zero_safe_division and the robust maths clip)"]),
]
