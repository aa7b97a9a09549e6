"""C02 scaler statistics, C03 scaling transform."""
import copy

import numpy as np
from hypothesis import strategies as st

from ondil.scaler import OnlineScaler

from .core import Part, Prop, Result, call, close, require, same_shape
from .data import SEEDS, W_KINDS, discount, full_w, forgets, gen_w, gen_X, rng_of

SEL = ["all", "none", "mask", "index", "index_perm"]
KINDS = ["normal", "scales", "vast", "corr", "offset", "dummy", "ints"]


@st.composite
def hist_spec(draw):
    batches = draw(st.lists(st.one_of(st.just(1), st.integers(1, 12)), min_size=0, max_size=6))
    return {
        "k": draw(st.integers(1, 5)),
        "n0": draw(st.integers(2, 25)),
        "batches": batches,
        "forget": draw(forgets((0.6,))),
        "kind": draw(st.sampled_from(KINDS)),
        "w": [draw(st.sampled_from(W_KINDS + ["tiny"])) for _ in range(len(batches) + 1)],
        "sel": draw(st.sampled_from(SEL)),
        "refit": draw(st.booleans()),
        "const": draw(st.booleans()),
        "seed": draw(SEEDS),
    }


def selection(rng, k, how):
    """(constructor argument, reference column indices)"""
    if how == "all":
        return True, np.arange(k)
    if how == "none":
        return False, np.arange(0)
    if how == "mask":
        m = rng.uniform(size=k) < 0.6
        return m, np.flatnonzero(m)
    idx = rng.permutation(k)[: rng.integers(1, k + 1)]
    if how == "index":
        idx = np.sort(idx)
    return idx.astype(int), idx.astype(int)


def ref_moments(Xs, ws, f):
    X, w = np.vstack(Xs), np.concatenate(ws)
    d = discount(f, len(w)) * w
    m = (X * d[:, None]).sum(0) / d.sum()
    v = ((X - m) ** 2 * d[:, None]).sum(0) / d.sum()
    return m, v


def compare(sc, Xs, ws, f, cols, arg, what):
    n = float(sum(w.sum() for w in ws))
    close(sc.n_observations_, n, f"{what}: n_observations_", rtol=1e-9)
    close(sc.n_samples_, n, f"{what}: n_samples_", rtol=1e-9)
    if arg is False:
        return
    m, v = ref_moments(Xs, ws, f)
    m, v = m[cols], v[cols]
    same_shape(sc.mean_, m.shape, f"{what}: mean_")
    mag = np.abs(np.vstack(Xs)).max(0)[cols]
    close(sc.mean_, m, f"{what}: mean_", rtol=1e-9, scale=mag)
    tol = 1e-8 * v + 1e-11 * mag**2
    require(np.shape(sc.var_) == v.shape, f"{what}: var_ has shape {np.shape(sc.var_)}")
    require(np.all(np.abs(sc.var_ - v) <= tol), lambda: f"{what}: var_ {sc.var_}, weighted discounted variance {v}")
    pos = v > 1e-8 * mag**2
    close(np.asarray(sc.std_)[pos], np.sqrt(v)[pos], f"{what}: std_", rtol=1e-4)


def check_hist(spec):
    rng = rng_of(spec)
    k, f = spec["k"], spec["forget"]
    arg, cols = selection(rng, k, spec["sel"])
    sc = OnlineScaler(forget=f, to_scale=arg)
    rounds = 2 if spec["refit"] else 1
    for r in range(rounds):
        Xs, ws = [], []
        for i, n in enumerate([spec["n0"]] + list(spec["batches"])):
            X = gen_X(rng, n, k, spec["kind"]) + r * 3.0
            if spec["const"]:
                X[:, -1] = 2.5
            w = gen_w(rng, n, spec["w"][i])
            if i == 0 and w is not None and w.sum() <= 0:
                w[0] = 1.0
            X0, w0 = X.copy(), None if w is None else w.copy()
            if i == 0:
                out = call(sc.fit, X, sample_weight=w)
            else:
                out = call(sc.update, X, sample_weight=w)
            require(out is sc, "fit/update did not return the scaler")
            require(np.array_equal(X, X0), "scaler modified X")
            require(w is None or np.array_equal(w, w0), "scaler modified the weights")
            Xs.append(X0), ws.append(full_w(w0, n))
            compare(sc, Xs, ws, f, cols, arg, f"round {r} after {i} updates")
    return Result(nontrivial=len(spec["batches"]) > 0 and spec["sel"] != "none",
                  tags=("sel=" + spec["sel"], f"forget>0={f > 0}", f"refit={spec['refit']}", *{"w=" + x for x in spec["w"]}))


@st.composite
def tr_spec(draw):
    return {
        "k": draw(st.integers(1, 5)),
        "n0": draw(st.integers(4, 25)),
        "batches": draw(st.lists(st.integers(1, 5), max_size=2)),
        "m": draw(st.integers(1, 9)),
        "forget": draw(forgets()),
        "kind": draw(st.sampled_from(["normal", "scales", "vast", "offset", "corr"])),
        "w": draw(st.sampled_from(W_KINDS + ["tiny"])),
        "sel": draw(st.sampled_from(SEL)),
        "fit_transform": draw(st.booleans()),
        "order": draw(st.sampled_from(["C", "F"])),
        "seed": draw(SEEDS),
    }


def check_tr(spec):
    rng = rng_of(spec)
    k, f = spec["k"], spec["forget"]
    arg, cols = selection(rng, k, spec["sel"])
    sc = OnlineScaler(forget=f, to_scale=arg)
    X = gen_X(rng, spec["n0"], k, spec["kind"])
    w = gen_w(rng, spec["n0"], spec["w"])
    if w is not None and np.count_nonzero(w) < 3:
        w[:3] = 1.0
    Xs, ws = [X], [full_w(w, len(X))]
    if spec["fit_transform"]:
        out = call(sc.fit_transform, X, sample_weight=w)
        m, v = ref_moments(Xs, ws, f)
        ref = X.copy()
        ref[:, cols] = ((X - m) / np.sqrt(v))[:, cols]
        close(out, ref, "fit_transform", rtol=1e-6, scale=1.0)
    else:
        call(sc.fit, X, sample_weight=w)
    for b in spec["batches"]:
        Xb = gen_X(rng, b, k, spec["kind"])
        call(sc.update, Xb)
        Xs.append(Xb), ws.append(np.ones(b))
    m, v = ref_moments(Xs, ws, f)
    Z = gen_X(rng, spec["m"], k, spec["kind"])
    Z = np.asfortranarray(Z) if spec["order"] == "F" else Z
    Z0 = Z.copy()
    state = copy.deepcopy((sc.mean_, sc.var_, sc.n_observations_))
    T = call(sc.transform, Z)
    require(np.array_equal(Z, Z0), "transform modified its argument")
    ref = Z0.copy()
    ref[:, cols] = ((Z0 - m) / np.sqrt(v))[:, cols]
    same_shape(T, Z0.shape, "transform")
    other = np.setdiff1d(np.arange(k), cols)
    require(np.array_equal(np.asarray(T)[:, other], Z0[:, other]), "transform changed a column that is not selected")
    close(T, ref, "transform", rtol=1e-6, scale=1.0)
    T0 = np.array(T)
    B = call(sc.inverse_transform, T)
    require(np.array_equal(T, T0), "inverse_transform modified its argument")
    mag = np.maximum(np.abs(Z0), np.abs(m) + np.sqrt(v))
    close(B, Z0, "inverse_transform(transform(X))", rtol=1e-9, scale=mag)
    # inverse_transform alone, on arbitrary values
    Q = gen_X(rng, spec["m"], k, "normal")
    R = call(sc.inverse_transform, Q)
    refq = Q.copy()
    refq[:, cols] = (Q * np.sqrt(v) + m)[:, cols]
    close(R, refq, "inverse_transform", rtol=1e-6, scale=np.abs(m) + np.sqrt(v))
    require(np.array_equal(call(sc.transform, Z), T0), "transform is not a function of its argument")
    for a, b in zip(state, (sc.mean_, sc.var_, sc.n_observations_)):
        require(np.array_equal(a, b), "transform changed the scaler")
    # row independence
    if len(Z0) > 1:
        close(call(sc.transform, Z0[1:2]), T0[1:2], "transform of a single row", rtol=1e-9, scale=1e-9)
    return Result(nontrivial=0 < len(cols), tags=("sel=" + spec["sel"], f"forget>0={f > 0}", f"partial={0 < len(cols) < k}", f"updates={len(spec['batches'])}"))


def warm():
    s = OnlineScaler()
    s.fit(np.eye(3))
    s.update(np.eye(3))


PROPS = [
    Prop("C02", [Part("history", hist_spec, check_hist, 8000, 80000, min_nontrivial=0.3)],
         rule="A case is a fit block and up to 6 update blocks (sizes, weights none/ones/uniform/wide/integer/with zeros/summing below one, forget factor, column selection drawn), optionally followed by a second fit history; after every call mean_, var_, std_ and n_observations_ are compared with the weighted discounted moments of all rows. Non-trivial: at least one update and some column selected.",
         warmup=warm, assumptions=["relative tolerance 1e-9 (mean), 1e-8 (variance) plus rounding of the squared column magnitude"]),
    Prop("C03", [Part("transform", tr_spec, check_tr, 6000, 60000, min_nontrivial=0.4)],
         rule="A scaler with a drawn selection and history; transform/inverse_transform of drawn matrices are compared with the explicit formula on the selected columns, bitwise pass-through elsewhere, round trip, no mutation. Non-trivial: some column selected.",
         warmup=warm, assumptions=["columns with positive variance"]),
]
