"""C08 information criteria."""
import numpy as np
from hypothesis import strategies as st

from ondil.information_criteria import InformationCriterion

from .core import Part, Prop, Result, call, close, expect_raises
from .data import SEEDS, rng_of

CRIT = ["aic", "aicc", "bic", "hqc", "max"]


@st.composite
def spec_(draw):
    return {
        "crit": draw(st.sampled_from(CRIT)),
        "n": draw(st.one_of(st.integers(3, 60), st.integers(3, 10**7), st.floats(3.0, 1e5), st.integers(2, 3), st.floats(1.01, 3.0))),
        "n_form": draw(st.sampled_from(["scalar", "array"])),
        "p_form": draw(st.sampled_from(["scalar", "array", "npint"])),
        "ll_form": draw(st.sampled_from(["scalar", "array"])),
        "m": draw(st.integers(1, 6)),
        "pmax": draw(st.sampled_from([1, 5, 30])),
        "rss_exp": draw(st.integers(-8, 8)),
        "seed": draw(SEEDS),
    }


def formula(c, ll, n, p):
    if c == "aic":
        return -2 * ll + 2 * p
    if c == "aicc":
        return -2 * ll + 2 * p * n / (n - p - 1)
    if c == "bic":
        return -2 * ll + p * np.log(n)
    if c == "hqc":
        return -2 * ll + 2 * p * np.log(np.log(n))
    return -ll


def check(spec):
    rng = rng_of(spec)
    m, c = spec["m"], spec["crit"]
    n = spec["n"] if spec["n_form"] == "scalar" else spec["n"] + rng.integers(0, 50, size=m)
    p = rng.integers(0, spec["pmax"] + 1, size=m)
    if spec["p_form"] == "scalar":
        p = int(p[0])
    elif spec["p_form"] == "npint":
        p = np.int64(p[0])
    ll = rng.normal(size=m) * 10.0 ** rng.integers(0, 5)
    if spec["ll_form"] == "scalar":
        ll = float(ll[0])
    if c == "aicc" and np.any(np.asarray(n) - np.asarray(p) - 1 == 0):
        expect_raises(ValueError, "aicc with n-p-1 == 0", InformationCriterion(n, p, c).from_ll, ll)
        rss = np.abs(ll) + 1.0
        expect_raises(ValueError, "aicc with n-p-1 == 0 (rss)", InformationCriterion(n, p, c).from_rss, rss)
        return Result(tags=("crit=" + c, "aicc-singular"))
    ic = call(InformationCriterion, n, p, c)
    got = call(ic.from_ll, ll)
    ref = formula(c, ll, n, p)
    close(got, ref, f"{c}.from_ll", rtol=1e-9, scale=np.max(np.abs(ll)))
    kw = call(InformationCriterion, n_observations=n, n_parameters=p, criterion=c)
    rss = np.exp(rng.normal(size=np.shape(ll))) * 10.0 ** spec["rss_exp"]
    if np.ndim(ll) == 0:
        rss = float(rss)
    gll = -n / 2 * np.log(rss / n) - n / 2 * (1 + np.log(2 * np.pi))
    close(call(kw.from_rss, rss), formula(c, gll, n, p), f"{c}.from_rss", rtol=1e-9, scale=np.max(np.abs(n)))
    # monotone: more likelihood is better, everything else equal
    better = call(ic.from_ll, ll + 1.0)
    if not np.all(np.asarray(better) < np.asarray(got)):
        from .core import Violation

        raise Violation(f"{c}: a larger likelihood is not better")
    return Result(tags=("crit=" + c, "n=" + spec["n_form"], "p=" + spec["p_form"], "ll=" + spec["ll_form"]))


@st.composite
def sing_spec(draw):
    return {"p": draw(st.lists(st.integers(0, 40), min_size=1, max_size=5)), "hit": draw(st.integers(0, 4)),
            "scalar": draw(st.booleans()), "seed": draw(SEEDS)}


def check_sing(spec):
    """aicc at exactly n = p + 1 for one of the models."""
    p = np.array(spec["p"])
    n = int(p[spec["hit"] % len(p)]) + 1
    pp = int(p[spec["hit"] % len(p)]) if spec["scalar"] else p
    expect_raises(ValueError, f"aicc with n={n}, p={pp}", call(InformationCriterion, n, pp, "aicc").from_ll, -1.0)
    expect_raises(ValueError, f"aicc with n={n}, p={pp} (rss)", InformationCriterion(n, pp, "aicc").from_rss, 1.0)
    return Result(tags=(f"scalar={spec['scalar']}",))


@st.composite
def bad_spec(draw):
    s = draw(st.one_of(st.sampled_from(["AIC", "aics", "", "bic ", "mdl", "cp", "loglik", "AICC", "Max", "min"]), st.text(max_size=6)))
    return {"name": s}


def check_bad(spec):
    if spec["name"] in CRIT:
        call(InformationCriterion, 10, 2, spec["name"])
        return Result(nontrivial=False)
    expect_raises(ValueError, f"criterion {spec['name']!r}", InformationCriterion, 10, 2, spec["name"])
    return Result()


PROPS = [
    Prop("C08", [
        Part("formula", spec_, check, 4000, 100000),
        Part("aicc_singular", sing_spec, check_sing, 300, 4000, shards=2),
        Part("unknown", bad_spec, check_bad, 300, 4000, shards=2),
    ], rule="Criterion, number of observations (integer or fractional, scalar or array), numbers of parameters (int, numpy int, array), likelihoods and residual sums of squares over 16 decades are drawn and compared with the documented formulas; unknown names and n=p+1 must be rejected. Every case is non-trivial except unknown-name cases that draw a valid name.",
        assumptions=["n > 1 so that log log n is defined and the terms are comparable"]),
]
