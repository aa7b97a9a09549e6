"""C01 Gramians, C25 online means and effective lengths."""
import sys

import numpy as np

EPS = np.finfo(float).eps
from hypothesis import strategies as st

from ondil import gram as G
from ondil import utils as U

from .core import Part, Prop, Result, Violation, call, close, expect_raises, require, same_shape
from .data import SEEDS, X_KINDS, discount, forgets, gen_X, rng_of

# ------------------------------------------------------------------ C01 ----
WG = ["ones", "unif", "wide", "ints"]


def gram_spec(forms=("array",), order="C"):
    return _gram_spec(forms, order)


@st.composite
def _gram_spec(draw, forms, order):
    k = draw(st.integers(1, 5))
    batches = draw(st.lists(st.one_of(st.just(1), st.integers(1, 12)), min_size=0, max_size=6))
    return {
        "k": k,
        "n0": draw(st.integers(1, 25)),
        "batches": batches,
        "forget": draw(forgets((0.6, 0.9))),
        "kind": draw(st.sampled_from(X_KINDS)),
        "w": [draw(st.sampled_from(WG + ["zeros"] + (["allzero"] if i else []))) for i in range(len(batches) + 1)],
        "wform": [draw(st.sampled_from(forms)) for _ in batches],
        "order": order,
        "seed": draw(SEEDS),
    }


def _batch_w(rng, n, kind, form):
    from .data import gen_w

    if form == "default":
        return None, np.ones(n)
    if form == "scalar":
        c = float(rng.uniform(0.2, 3.0))
        return c, np.full(n, c)
    w = np.zeros(n) if kind == "allzero" else gen_w(rng, n, kind)
    return w, w


def _sizes(spec):
    return [spec["n0"]] + list(spec["batches"])


def check_gram(spec):
    from .data import gen_w

    rng = rng_of(spec)
    f, k = spec["forget"], spec["k"]
    Xs, ys, ws = [], [], []
    g = h = None
    for i, n in enumerate(_sizes(spec)):
        X = gen_X(rng, n, k, spec["kind"])
        y = rng.normal(size=n) * 3
        X = np.asfortranarray(X) if spec["order"] == "F" else np.ascontiguousarray(X)
        if i == 0:
            w = gen_w(rng, n, spec["w"][0])
            x0, y0, w0 = X.copy(), y.copy(), w.copy()
            g = call(G.init_gram, X=X, w=w, forget=f)
            h = call(G.init_y_gram, X, y, w=w, forget=f)
            same_shape(g, (k, k), "init_gram")
            same_shape(h, (k, 1), "init_y_gram")
            require(np.array_equal(w, w0), "init modified the weights")
        else:
            arg, w = _batch_w(rng, n, spec["w"][i], spec["wform"][i - 1])
            g_in, h_in = g.copy(), h.copy()
            x0, y0 = X.copy(), y.copy()
            if arg is None:
                g2, h2 = call(G.update_gram, g, X, forget=f), call(G.update_y_gram, h, X, y, forget=f)
            else:
                g2, h2 = call(G.update_gram, g, X, forget=f, w=arg), call(G.update_y_gram, h, X, y, forget=f, w=arg)
            require(np.array_equal(g, g_in) and np.array_equal(h, h_in), "update modified the Gramian it was given")
            g, h = g2, h2
        require(np.array_equal(X, x0) and np.array_equal(y, y0), "gram modified its inputs")
        Xs.append(X), ys.append(y), ws.append(w)
        A, b, wt = np.vstack(Xs), np.concatenate(ys), np.concatenate(ws)
        d = discount(f, len(b)) * wt
        Gref = (A * d[:, None]).T @ A
        Href = ((A * d[:, None]).T @ b)[:, None]
        s = np.sqrt((A**2 * d[:, None]).sum(0))
        sy = np.sqrt((b**2 * d).sum())
        close(g, Gref, f"Gramian after {i} updates", rtol=1e-9, scale=np.outer(s, s))
        close(h, Href, f"y-Gramian after {i} updates", rtol=1e-9, scale=(s * sy)[:, None])
    nb = len(spec["batches"])
    return Result(nontrivial=nb > 0 and (f > 0 or any(b > 1 for b in spec["batches"])),
                  tags=(f"forget>0={f > 0}", f"updates={min(nb, 3)}", f"single={1 in spec['batches']}",
                        *{"wform=" + x for x in spec["wform"]}))


@st.composite
def inv_spec(draw):
    k = draw(st.integers(1, 4))
    batches = draw(st.lists(st.one_of(st.just(1), st.integers(1, 8)), min_size=0, max_size=5))
    return {
        "k": k,
        "n0": draw(st.integers(k + 3, 20)),
        "batches": batches,
        "forget": draw(st.sampled_from([0.0, 0.0, 1e-4, 0.01, 0.05])),
        "kind": draw(st.sampled_from(["normal", "corr", "dummy"])),
        "w": [draw(st.sampled_from(["ones", "unif", "ints", "wide", "zeros"] + (["allzero"] if i else []))) for i in range(len(batches) + 1)],
        "wform": [draw(st.sampled_from(["array", "default", "scalar"])) for _ in batches],
        "seed": draw(SEEDS),
    }


def check_inv(spec):
    from .data import gen_w

    rng = rng_of(spec)
    f, k = spec["forget"], spec["k"]
    Xs, ws, inv = [], [], None
    for i, n in enumerate(_sizes(spec)):
        X = gen_X(rng, n, k, spec["kind"])
        if i == 0:
            X = X + 0.3 * rng.normal(size=X.shape)
            w = gen_w(rng, n, spec["w"][0])
            G0 = (X * (discount(f, n) * w)[:, None]).T @ X
            if np.linalg.cond(G0) > 1e6:
                return Result(skip="ill-conditioned first block")
            inv = call(G.init_inverted_gram, X=X, w=w, forget=f)
        else:
            arg, w = _batch_w(rng, n, spec["w"][i], spec["wform"][i - 1])
            kw = {} if arg is None else {"w": arg}
            before = inv.copy()
            new = call(G.update_inverted_gram, inv, X, forget=f, **kw)
            require(np.array_equal(before, inv), "update_inverted_gram modified its input")
            inv = new
        same_shape(inv, (k, k), "inverted Gramian")
        Xs.append(X), ws.append(w)
        A, wt = np.vstack(Xs), np.concatenate(ws)
        d = discount(f, len(wt)) * wt
        ref = np.linalg.inv((A * d[:, None]).T @ A)
        s = np.sqrt(np.diag(ref))
        close(inv, ref, f"inverted Gramian after {i} updates", rtol=1e-6, scale=np.outer(s, s))
    return Result(nontrivial=len(spec["batches"]) > 0, tags=(f"forget>0={f > 0}", f"updates={min(len(spec['batches']), 3)}"))


@st.composite
def rank_spec(draw):
    return {"k": draw(st.integers(2, 5)), "n": draw(st.integers(2, 20)), "forget": draw(st.sampled_from([0.0, 0.05])),
            "how": draw(st.sampled_from(["copy", "zero", "few", "sum", "zerow"])), "seed": draw(SEEDS)}


def check_rank(spec):
    rng = rng_of(spec)
    k, n, how = spec["k"], spec["n"], spec["how"]
    X = rng.normal(size=(n, k))
    w = rng.uniform(0.5, 2, size=n)
    if how == "copy":
        X[:, -1] = X[:, 0]
    elif how == "zero":
        X[:, rng.integers(k)] = 0
    elif how == "few":
        X = X[: max(1, min(n, k - 1))]
        w = w[: X.shape[0]]
    elif how == "sum":
        X = rng.integers(-3, 4, size=(n, k)).astype(float)
        X[:, -1] = X[:, :-1].sum(1)
    elif how == "zerow":
        w[k - 1:] = 0.0
        if n <= k - 1:
            X, w = X[: k - 1], w[: k - 1]
    expect_raises(ValueError, f"init_inverted_gram on a rank-deficient design ({how})", G.init_inverted_gram, X=X, w=w, forget=spec["forget"])
    return Result(tags=("how=" + how,))


@st.composite
def fv_spec(draw):
    return {"forget": draw(st.one_of(forgets((0.5, 0.99)), st.floats(0.0, 0.999))), "n": draw(st.integers(1, 400))}


def check_fv(spec):
    f, n = float(spec["forget"]), spec["n"]
    v = call(G.init_forget_vector, f, n)
    same_shape(v, (n,), "forget vector")
    close(v, discount(f, n), "forget vector", rtol=1e-9, atol=1e-300)
    return Result(nontrivial=f > 0 and n > 1, tags=(f"forget>0={f > 0}",))


def warm_gram():
    X = np.eye(3) + 0.1
    y = np.arange(3.0)
    w = np.ones(3)
    G.init_gram(X=X, w=w, forget=0.1)
    G.init_y_gram(X, y, w=w, forget=0.1)
    G.update_gram(np.eye(3), X, forget=0.1, w=w)
    G.update_y_gram(np.ones((3, 1)), X, y, forget=0.1, w=w)
    G.init_inverted_gram(X=np.eye(3), w=np.ones(3), forget=0.0)
    G.update_inverted_gram(np.eye(3), np.eye(3), forget=0.1, w=np.ones(3))
    G.update_inverted_gram(np.eye(3), np.eye(3)[:1], forget=0.1)
    G.update_inverted_gram(np.eye(3), np.eye(3)[:1], forget=0.1, w=np.ones(1))
    G.update_inverted_gram(np.eye(3), np.eye(3)[:1], forget=0.1, w=1.5)


# ------------------------------------------------------------------ C25 ----
@st.composite
def len_spec(draw):
    if draw(st.booleans()):  # long histories and small forget factors
        return {"forget": 10.0 ** draw(st.floats(-9, -1)), "n": int(10.0 ** draw(st.floats(0, 9)))}
    return {"forget": draw(st.one_of(forgets((0.5, 0.99)), st.floats(1e-6, 0.999))), "n": draw(st.one_of(st.integers(1, 3000), st.floats(1.0, 3000.0)))}


def check_len(spec):
    f, n = float(spec["forget"]), spec["n"]
    got = call(U.calculate_effective_training_length, f, n)
    ref = float(n) if f == 0 else float(-np.expm1(n * np.log1p(-f)) / f)
    if n == int(n) and n <= 3000:
        close(ref, float(np.sum((1 - f) ** np.arange(int(n)))), "closed form of the reference", rtol=1e-7)
    close(got, ref, f"effective training length (forget={f}, n={n})", rtol=1e-9 if f == 0 else 1e-9 + 16 * EPS / f)
    asy = call(U.calculate_asymptotic_training_length, f)
    if f > 0:
        close(asy, 1 / f, "asymptotic training length", rtol=1e-9)
        require(got <= asy * (1 + 1e-9), f"effective length {got} exceeds its limit {asy}")
    else:
        require(asy >= sys.maxsize, f"asymptotic training length without forgetting is {asy}")
    return Result(nontrivial=f > 0 and n > 1, tags=(f"forget>0={f > 0}",))


@st.composite
def mean_spec(draw):
    n = draw(st.integers(2, 40))
    cuts = draw(st.lists(st.integers(1, 8), min_size=1, max_size=10))
    return {"forget": draw(st.one_of(forgets((0.5,)), st.floats(1e-3, 0.9))), "n0": draw(st.integers(1, 10)), "batches": cuts,
            "scale": draw(st.sampled_from([1.0, 1e-3, 1e4])), "offset": draw(st.sampled_from([0.0, 10.0])),
            "seed": draw(SEEDS), "n": n}


def check_mean(spec):
    rng = rng_of(spec)
    f = float(spec["forget"])
    v = rng.normal(size=spec["n0"]) * spec["scale"] + spec["offset"]
    d = discount(f, len(v))
    avg = float(np.sum(v * d) / np.sum(d))
    one = avg
    seen = list(v)
    for b in spec["batches"]:
        x = rng.normal(size=b) * spec["scale"] + spec["offset"]
        n_prev = len(seen)
        if b == 1 and rng.uniform() < 0.5:
            avg = call(U.online_mean_update, avg, float(x[0]), f, n_prev + 1)
        else:
            avg = call(U.online_mean_update, avg, x, f, n_prev + b)
        for j in range(b):
            one = call(U.online_mean_update, one, float(x[j]), f, n_prev + j + 1)
        seen += list(x)
        a = np.array(seen)
        d = discount(f, len(a))
        ref = float(np.sum(a * d) / np.sum(d))
        sc = float(np.max(np.abs(a)))
        require(np.ndim(avg) == 0, f"online mean has dimension {np.ndim(avg)}")
        close(avg, ref, f"online mean of {len(a)} values (forget={f}), arrays", rtol=1e-9, scale=sc)
        close(one, ref, f"online mean of {len(a)} values (forget={f}), one at a time", rtol=1e-9, scale=sc)
    return Result(nontrivial=len(spec["batches"]) > 1, tags=(f"forget>0={f > 0}",))


PROPS = [
    Prop("C01", [
        Part("gram", gram_spec, check_gram, 2400, 60000, min_nontrivial=0.3),
        Part("gram_w", lambda: gram_spec(("default", "scalar", "array")), check_gram, 900, 20000, shards=3, min_nontrivial=0.3),
        Part("gram_F", lambda: gram_spec(("array",), "F"), check_gram, 200, 8000, shards=1, min_nontrivial=0.3),
        Part("inverse", inv_spec, check_inv, 1600, 40000, min_nontrivial=0.3),
        Part("rank", rank_spec, check_rank, 400, 4000, shards=2),
        Part("forget_vector", fv_spec, check_fv, 400, 10000, shards=2),
    ], rule="A case is a first block (n0 rows, k columns of a drawn kind) plus a list of update blocks with drawn sizes, weights (array, scalar, omitted), forget factor and memory order; after every block the Gramian/y-Gramian/inverse is compared with the weighted, discounted definition on all rows so far. Non-trivial: at least one update block (and forgetting or a block of several rows); rank part: a design made singular in one of five ways; forget vector: forget>0 and more than one entry.",
        warmup=warm_gram,
        assumptions=["tolerances: 1e-9 relative to the column norms for Gramians, 1e-6 for inverses (first block with condition number below 1e6)"]),
    Prop("C25", [
        Part("length", len_spec, check_len, 1600, 40000),
        Part("mean", mean_spec, check_mean, 1600, 40000, min_nontrivial=0.3),
    ], rule="length: forget factor and number of observations drawn, compared with the explicit sum of discounts; mean: a start sample and a list of blocks fed as arrays and one at a time, compared with the discounted mean of everything seen. Non-trivial: forget>0 and n>1, or at least two blocks."),
]
