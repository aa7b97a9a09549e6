"""C27 diagnostics and iteration controls do not change what is estimated."""
import contextlib
import copy
import io

import numpy as np
from hypothesis import strategies as st

from . import zoo
from .core import Part, Prop, Result, Violation, attempt, call, close, expect_raises, require, same_shape
from .data import discount, full_w
from .p_links import PDOM
from .refs import RefScaler

VARS = ["weights", "working_vectors", "dl1dlp1", "dl2dlp2", "eta", "fv", "coef", "coef_path"]


@st.composite
def diag_spec(draw):
    s = draw(zoo.est_spec(kinds=("gamlss",), kmax=3, max_batches=2, methods=("ols", "ols", "ols_obj", "ridge", "lasso", "enet")))
    s["verbose"] = draw(st.integers(0, 3))
    s["max_outer"] = draw(st.sampled_from([2, 5, 30]))
    s["max_inner"] = draw(st.sampled_from([1, 3, 30]))
    s["prefit"] = [draw(st.sampled_from([0, 0, 1])), draw(st.sampled_from([0, 0, 1]))]
    s["step"] = draw(st.sampled_from([1.0, 1.0, 1.0, 0.7, 1.2]))
    s["cautious"] = draw(st.booleans()) and s["max_outer"] >= 5
    return s


def controls(spec):
    return dict(step_size=spec["step"], max_it_outer=spec["max_outer"], max_it_inner=spec["max_inner"], prefit_initial=spec["prefit"][0], prefit_update=spec["prefit"][1],
                cautious_updates=spec["cautious"])


def run(spec, m, fn, X, y, w):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        zoo.step(spec, m, fn, X, y, w)
    return out.getvalue()


def check_diag(spec):
    """debug=True and any verbosity give exactly the same model; the records are those of the iterations."""
    plain, diag = zoo.build(spec, **controls(spec)), zoo.build(spec, debug=True, verbose=spec["verbose"], **controls(spec))
    P = len(PDOM[spec["dist"]])
    probe = zoo.one_batch(spec, 4, 77)[0]
    sc = RefScaler(spec["k"], zoo.scale_of(spec), zoo.forget_of(spec))
    steps = 0
    for b, (X, y, w) in enumerate(zoo.data(spec)):
        fn = "fit" if b == 0 else "update"
        before = copy.deepcopy(diag)
        try:
            run(spec, plain, fn, X, y, w)
        except zoo.Diverged:
            try:
                run(spec, diag, fn, X, y, w)
            except zoo.Diverged:
                return Result(False, skip="diverged")
            raise Violation(f"{fn} breaks down without debug/verbose only")
        try:
            text = run(spec, diag, fn, X, y, w)
        except zoo.Diverged as e:
            raise Violation(f"{fn} breaks down with debug=True, verbose={spec['verbose']} only: {e}") from e
        zoo.same(zoo.state(spec, diag, probe), zoo.state(spec, plain, probe), f"debug=True, verbose={spec['verbose']} after {fn} {b}")
        if spec["verbose"]:
            require(text, f"{fn} with verbose={spec['verbose']} reports nothing")
        else:
            require(not text or "increas" in text, lambda: f"{fn} with verbose=0 prints {text[:100]!r}")
        sc.see(X, full_w(w, len(y)))
        check_records(spec, before, diag, fn, X, y, w, P, sc)
        steps += 1
    expect_raises(ValueError, "get_debug_information without debug", plain.get_debug_information, "coef", 0, 1, 1)
    return Result(nontrivial=steps > 1, tags=("dist=" + spec["dist"], "method=" + spec["method"], f"verbose={spec['verbose']}", f"cautious={spec['cautious']}", f"step={spec['step']}", f"inner={spec['max_inner']}"))


def check_records(spec, before, m, fn, X, y, w, P, sc):
    n = len(y)
    d = m.distribution
    ww = full_w(w, n)
    Xs = np.asarray(call(m.get_debug_information, "X_scaled"), dtype=float)
    close(Xs, sc(X), f"{fn}: recorded X_scaled", rtol=1e-6, atol=1e-9)
    for p in range(P):
        E = np.asarray(call(m.get_debug_information, "X_dict", param=p), dtype=float)
        cols = zoo.eq_value(spec, p)[1]
        ref = np.hstack([np.ones((n, 1)), Xs[:, cols]]) if spec["icpt"][p] else Xs[:, cols]
        close(E, ref, f"{fn}: recorded design of parameter {p}", rtol=1e-12)
        rec = {v: call(m.get_debug_information, v, param=p, it_outer=1, it_inner=1) for v in VARS}
        same_shape(rec["fv"], (n, P), f"{fn}: recorded fv")
        for v in ("weights", "working_vectors", "dl1dlp1", "dl2dlp2", "eta"):
            same_shape(rec[v], (n,), f"{fn}: recorded {v}")
        # the records belong together
        th, eta = np.asarray(rec["fv"], dtype=float), np.asarray(rec["eta"], dtype=float)
        what = f"{fn}: first iteration of parameter {p}: recorded"
        close(eta, d.link_function(th[:, p], param=p), f"{what} eta", rtol=1e-10, atol=1e-12)
        close(rec["dl1dlp1"], d.dl1_dp1(y, th, p), f"{what} dl1dlp1", rtol=1e-10)
        close(rec["dl2dlp2"], d.dl2_dp2(y, th, p), f"{what} dl2dlp2", rtol=1e-10)
        slope = np.asarray(d.link_inverse_derivative(eta, param=p), dtype=float)
        wt = np.clip(-np.asarray(rec["dl2dlp2"]) * slope**2, 1e-10, 1e10)
        close(rec["weights"], wt, f"{what} weights", rtol=1e-9)
        close(rec["working_vectors"], eta + np.asarray(rec["dl1dlp1"]) * slope / wt, f"{what} working_vectors", rtol=1e-9, scale=np.abs(eta) + np.abs(np.asarray(rec["dl1dlp1"]) * slope / wt))
        if p == 0:
            start = d.initial_values(y) if fn == "fit" else before.predict_distribution_parameters(X)
            close(th, start, f"{fn}: parameters before the first iteration", rtol=1e-9, atol=1e-12)
        J = E.shape[1]
        if fn == "fit" and spec["method"] in ("ols", "ols_obj"):
            f = ww * discount(zoo.forget_of(spec, p), n) * wt
            A = (E * f[:, None]).T @ E
            if np.linalg.cond(A) < 1e8:
                sol = np.linalg.solve(A, E.T @ (f * np.asarray(rec["working_vectors"], dtype=float)))
                close(rec["coef"], sol, f"{what} coef", rtol=1e-5, scale=np.max(np.abs(sol)))
        same_shape(rec["coef"], (J,), f"{what} coef")
        if spec["method"] in ("lasso", "enet"):
            same_shape(rec["coef_path"], (spec["lambda_n"], J), f"{what} coef_path")
        # some recorded iteration is the one reported
        found = False
        for o in range(1, spec["max_outer"] + 1):
            for i in range(1, spec["max_inner"] + 1):
                c, e = attempt(m.get_debug_information, "coef", param=p, it_outer=o, it_inner=i)
                if e is not None:
                    if not isinstance(e, KeyError):
                        raise Violation(f"{fn}: get_debug_information(coef, {p}, {o}, {i}) raised {type(e).__name__}: {e}")
                    break
                found = found or np.array_equal(c, m.coef_[p])
            if found:
                break
        require(found, f"{fn}: coef_[{p}] = {m.coef_[p]} was not recorded in any iteration")


PROPS = [
    Prop("C27", [Part("diagnostics", diag_spec, check_diag, 320, 6000, min_nontrivial=0.3)],
         rule="Distributional regressions with drawn settings, run twice through fit and up to two updates, once with debug=True and a drawn verbosity: all observables are bitwise equal, and the recorded design, working weights, working vectors, derivatives and coefficients of the first inner iteration are recomputed from each other; the reported coefficients occur among the recorded iterations. Non-trivial: at least one update.",
         warmup=zoo.warm, assumptions=["records of the first inner iteration of the first outer iteration are recomputed in full; of the others the coefficients only"]),
]
