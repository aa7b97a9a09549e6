"""C22 inputs are never modified; models are isolated from callers and each other."""
import copy
import pickle

import numpy as np
import pandas as pd
import polars as pl
from hypothesis import strategies as st
from sklearn.base import clone

from .core import Part, Prop, Result, Violation, call, require
from .data import gen_w, rng_of
from .p_links import PDOM
from .zoo import CLS, Diverged, est_spec, one_batch, params, same, state, step, warm

BOX = ["numpy", "numpy", "fortran", "pandas", "polars", "strided"]


@st.composite
def pool_spec(draw, kinds):
    s = draw(est_spec(kinds=kinds, max_batches=0))
    s["box"] = draw(st.sampled_from(BOX))
    if s["est"] == "gamlss":
        P = len(PDOM[s["dist"]])
        # leave entries out of the dictionaries (defaults are filled in by the library, not in the user's dict)
        s["drop"] = [draw(st.booleans()) and q > 0 for q in range(P)]
        s["drop_what"] = draw(st.lists(st.sampled_from(["equation", "forget", "fit_intercept"]), unique=True, max_size=2))
        s["more"] = draw(st.booleans())
    ops = []
    for _ in range(draw(st.integers(3, 8))):
        op = draw(st.sampled_from(["update", "update", "partial_fit", "refit", "deepcopy", "pickle", "clone", "predict", "scribble"]))
        ops.append([op, draw(st.integers(0, 3)), draw(st.integers(1, 6)), draw(st.sampled_from(["none", "unif", "ints"]))])
    s["ops"] = ops
    return s


NAMES = ["temp", "c1", "a", "Z", "b2", "hour"]  # not in alphabetical order


def box(kind, X):
    X = np.array(X, dtype=float)
    if kind == "fortran":
        return np.asfortranarray(X)
    if kind == "strided":
        big = np.full((2 * X.shape[0], X.shape[1] + 1), 7.0)
        big[::2, :-1] = X
        return big[::2, :-1]
    if kind == "readonly":
        X.flags.writeable = False
        return X
    if kind == "lists":
        return X.tolist()
    names = [NAMES[j] for j in range(X.shape[1])]
    if kind == "pandas":
        return pd.DataFrame(X, columns=names)
    if kind == "polars":
        return pl.DataFrame({c: X[:, j] for j, c in enumerate(names)})
    return X


def box1(kind, v):
    if v is None:
        return None
    v = np.array(v, dtype=float)
    if kind == "pandas":
        return pd.Series(v)
    if kind == "readonly":
        v.flags.writeable = False
        return v
    if kind == "lists":
        return v.tolist()
    if kind == "strided":
        big = np.full(2 * len(v), -3.0)
        big[::2] = v
        return big[::2]
    return v


def raw(v):
    if v is None:
        return None
    return np.array(v.to_numpy() if hasattr(v, "to_numpy") else v, dtype=float)


def scribble(v, rng):
    """The caller reuses the memory."""
    if v is None or isinstance(v, pl.DataFrame):
        return
    if isinstance(v, pd.DataFrame):
        v.iloc[:, :] = rng.normal(size=v.shape) * 1e3
    elif isinstance(v, pd.Series):
        v.iloc[:] = rng.uniform(size=len(v)) * 1e3
    else:
        v[...] = rng.normal(size=v.shape) * 1e3


def deep(v, depth=0):
    """Comparable value of an argument object."""
    if isinstance(v, np.ndarray):
        return ("array", str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, dict):
        return ("dict", [(k, deep(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [deep(x, depth + 1) for x in v])
    if v is None or isinstance(v, (int, float, str, bool, complex)):
        return repr(v)
    if hasattr(v, "__dict__") and depth < 6 and not callable(v):
        return ("obj", type(v).__name__, {k: deep(x, depth + 1) for k, x in vars(v).items()})
    return type(v).__name__


def unchanged(before, after, what):
    """Attributes added by the library to its own objects are not a modification of the user's settings."""
    if isinstance(before, tuple) and before[0] == "obj":
        require(isinstance(after, tuple) and after[:2] == before[:2], f"{what} changed its type")
        for k, x in before[2].items():
            require(k in after[2], f"{what}.{k} was removed")
            unchanged(x, after[2][k], f"{what}.{k}")
        return
    if isinstance(before, tuple) and before[0] in ("dict", "list", "tuple"):
        require(isinstance(after, tuple) and after[0] == before[0] and len(after[1]) == len(before[1]), lambda: f"{what} was modified: {before} -> {after}")
        for i, (a, b) in enumerate(zip(before[1], after[1])):
            if before[0] == "dict":
                require(a[0] == b[0], f"{what} was modified: key {b[0]}")
                unchanged(a[1], b[1], f"{what}[{a[0]}]")
            else:
                unchanged(a, b, f"{what}[{i}]")
        return
    require(before == after, lambda: f"{what} was modified: {before} -> {after}")


def settings(spec):
    kw = params(spec)
    if spec["est"] == "gamlss":
        P = len(PDOM[spec["dist"]])
        if spec["more"]:
            kw["ic"] = {p: spec["ic"] for p in range(P)}
            kw["step_size"] = {p: 1.0 for p in range(P)}
            kw["regularize_intercept"] = {p: spec["reg_icpt"] for p in range(P)}
            kw["param_order"] = np.arange(P)
        for name in spec["drop_what"]:
            if isinstance(kw[name], dict):
                kw[name] = {p: v for p, v in kw[name].items() if not spec["drop"][p]}
    return kw


def check_pool(spec):
    kind = spec["est"]
    shared = settings(spec)  # one set of objects for all models
    given = {k: deep(v) for k, v in shared.items()}
    probe = box(spec["box"], one_batch(spec, 4, 77)[0])
    probe0 = raw(probe)
    salt = [0]
    arrays = []

    def batch(n, wk):
        salt[0] += 1
        X, y = one_batch(spec, n, 200 + salt[0])
        w = gen_w(rng_of(spec, 51, salt[0]), n, wk)
        return X, y, w

    def feed(m, fn, b):
        X, y, w = box(spec["box"], b[0]), box1(spec["box"], b[1]), box1(spec["box"], b[2])
        step(spec, m, fn, X, y, w)
        for name, v, v0 in (("X", X, b[0]), ("y", y, b[1]), ("sample_weight", w, b[2])):
            if v0 is not None and not (kind == "scaler" and name == "y"):
                require(np.array_equal(raw(v), np.asarray(v0, dtype=float)), f"{fn} modified {name}")
        return X, y, w

    pool, hist = [], []
    interleaved = copies = 0
    try:
        for _ in range(2):
            m = call(CLS[kind], **shared)
            b = batch(spec["n"], "none")
            arrays += feed(m, "fit", b)
            pool.append(m)
            hist.append([("fit", b)])
        for op, i, n, wk in spec["ops"]:
            i %= len(pool)
            m = pool[i]
            if op in ("update", "partial_fit"):
                if hist[i]:
                    b = batch(n, wk)
                else:
                    b = batch(spec["n"], wk)
                    op = "partial_fit" if op == "partial_fit" else "fit"
                arrays += feed(m, op, b)
                hist[i].append((op, b))
                interleaved += 1
            elif op == "refit":
                b = batch(spec["n"], wk)
                arrays += feed(m, "fit", b)
                hist[i] = [("fit", b)]
                interleaved += 1
            elif op in ("deepcopy", "pickle"):
                c = call(copy.deepcopy, m) if op == "deepcopy" else call(lambda o: pickle.loads(pickle.dumps(o)), m)
                if hist[i]:
                    same(state(spec, c, probe), state(spec, m, probe), f"{op} of a fitted model")
                pool.append(c)
                hist.append(list(hist[i]))
                copies += 1
            elif op == "clone":
                c = call(clone, m)
                require(not c.is_fitted, "clone is fitted")
                pool.append(c)
                hist.append([])
                copies += 1
            elif op == "predict":
                if hist[i]:
                    call(state, spec, m, probe)
            elif op == "scribble":
                for j, v in enumerate(arrays):
                    scribble(v, rng_of(spec, 52, j))
        # every model must be what its own history alone gives
        for i, (m, h) in enumerate(zip(pool, hist)):
            if not h:
                require(not m.is_fitted, "a clone became fitted")
                continue
            ref = call(CLS[kind], **settings(spec))
            last = max(j for j, (fn, _) in enumerate(h) if fn == "fit" or j == 0)
            for fn, b in h[last:]:
                feed(ref, fn, b)
            same(state(spec, m, probe), state(spec, ref, probe), f"model {i} of the pool vs its own history on a fresh estimator", rtol=1e-9, atol=1e-12)
    except Diverged:
        return Result(False, skip="numerical breakdown")
    require(np.array_equal(raw(probe), probe0), "predicting modified X")
    for k, v in shared.items():
        unchanged(given[k], deep(v), f"constructor argument {k}")
    return Result(nontrivial=interleaved > 0, tags=("est=" + kind, "box=" + spec["box"], "method=" + spec["method"], *{"op=" + o[0] for o in spec["ops"]}, f"copies={min(copies, 3)}"))


PROPS = [
    Prop("C22", [
        Part("pool", lambda: pool_spec(("linear", "lasso", "scaler")), check_pool, 800, 20000, min_nontrivial=0.6),
        Part("pool_distributional", lambda: pool_spec(("gamlss",)), check_pool, 240, 8000, min_nontrivial=0.4),
    ], rule="A pool of estimators that share one set of method, distribution, equation and settings objects; drawn interleavings of update, partial_fit, refit, deepcopy, pickle, clone, predict and overwriting all data passed so far. Oracle: every model must equal a fresh estimator with objects of its own that is fed that model's history only; data, settings dictionaries, method and distribution objects are compared with their values before. Non-trivial: at least one model changed after the pool was set up.",
        warmup=warm),
]
