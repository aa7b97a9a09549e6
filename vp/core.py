"""Runner: generated-input search with Hypothesis, sharded over processes.

A property consists of *parts*. A part has a Hypothesis strategy that yields
JSON-able `spec` values and a `check(spec)` function that drives the code under
test and compares it with an oracle. check() returns a Result (what kind of
case it was) or raises Violation. Any other exception is an error of the
harness (exit 2), never a violation.
"""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
from collections import Counter
from dataclasses import dataclass, field

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = "exploration"
SRC = os.path.abspath(os.environ.get("ONDIL_SRC", "/repo/src")) + os.sep


class Violation(Exception):
    """The code under test broke the property on this spec."""


class Stop(BaseException):
    """Abort shrinking (time budget)."""


class KnownFinding(Exception):
    pass


@dataclass
class Result:
    nontrivial: bool = True
    tags: tuple = ()
    skip: str | None = None


@dataclass
class Part:
    name: str
    strategy: object  # callable -> SearchStrategy
    check: object  # callable(spec) -> Result
    quick: int
    thorough: int
    shards: int = 8  # how many independent Hypothesis runs in quick
    min_nontrivial: float = 0.0  # vacuity guard (fraction)


@dataclass
class Prop:
    id: str
    parts: list
    rule: str
    assumptions: list = field(default_factory=list)
    warmup: object = None


MODULES = {
    "C01": "p_gram", "C25": "p_gram",
    "C02": "p_scaler", "C03": "p_scaler",
    "C04": "p_cd", "C05": "p_cd",
    "C06": "p_linear", "C07": "p_linear",
    "C08": "p_ic",
    "C09": "p_links", "C10": "p_links",
    "C11": "p_dist", "C12": "p_dist", "C13": "p_dist", "C14": "p_dist",
    "C15": "p_dist", "C16": "p_dist",
    "C17": "p_gamlss", "C18": "p_gamlss", "C19": "p_gamlss_path",
    "C20": "p_api", "C21": "p_reject", "C22": "p_isolation",
    "C23": "p_weights", "C24": "p_config", "C26": "p_api", "C27": "p_diag",
}


# --------------------------------------------------------------------------
# helpers for checks
# --------------------------------------------------------------------------
@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            yield


def call(fn, *args, **kwargs):
    """Call the code under test; an unexpected exception is a violation."""
    with quiet():
        try:
            return fn(*args, **kwargs)
        except Exception as e:  # noqa: BLE001
            name = getattr(fn, "__qualname__", repr(fn))
            tb = traceback.extract_tb(e.__traceback__)
            at = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb)
                       if "ondil" in f.filename), "?")
            raise Violation(f"{name} raised {type(e).__name__}: {str(e)[:300]} (at {at})") from e


def attempt(fn, *args, **kwargs):
    """Call the code under test; return (value, exception)."""
    with quiet():
        try:
            return fn(*args, **kwargs), None
        except Violation:  # time limit
            raise
        except Exception as e:  # noqa: BLE001
            return None, e


def expect_raises(exc, what, fn, *args, **kwargs):
    val, e = attempt(fn, *args, **kwargs)
    if e is None:
        raise Violation(f"{what}: expected {getattr(exc, '__name__', exc)}, call was accepted")
    if not isinstance(e, exc):
        raise Violation(f"{what}: expected {getattr(exc, '__name__', exc)}, got {type(e).__name__}: {e}")
    return e


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def same_shape(actual, shape, what):
    s = np.shape(actual)
    if s != tuple(shape):
        raise Violation(f"{what}: shape {s}, expected {tuple(shape)}")


def close(actual, expected, what, rtol=1e-9, atol=1e-12, scale=None):
    """Elementwise |a-e| <= atol + rtol*max(|e|, scale). NaN equals NaN."""
    a = np.asarray(actual, dtype=float)
    e = np.asarray(expected, dtype=float)
    if a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {e.shape}")
    if a.size == 0:
        return
    with np.errstate(all="ignore"):
        ref = np.abs(e)
        if scale is not None:
            ref = np.maximum(ref, scale)
        tol = atol + rtol * ref
        ok = (np.abs(a - e) <= tol) | (a == e) | (np.isnan(a) & np.isnan(e))
    if not ok.all():
        i = np.unravel_index(np.argmax(np.where(ok, -1.0, np.nan_to_num(np.abs(a - e), nan=np.inf, posinf=np.inf))), a.shape)
        raise Violation(
            f"{what}: got {a[i]!r}, expected {e[i]!r} at {tuple(int(j) for j in i)}"
            f" ({int((~ok).sum())} of {a.size} differ)"
        )


def finite(x, what):
    x = np.asarray(x, dtype=float)
    if not np.all(np.isfinite(x)):
        raise Violation(f"{what}: not finite: {x.ravel()[~np.isfinite(x.ravel())][:3]}")


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def load_known(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == pid]


KNOWN_HITS = Counter()


def known(pid, key):
    """True (and counted) if this exact failure is a listed finding."""
    for k in load_known(pid):
        if k["key"] == key:
            KNOWN_HITS[key] += 1
            return True
    return False


# --------------------------------------------------------------------------
# runner
# --------------------------------------------------------------------------
def spec_key(spec):
    return hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16]


def _seed_globals(spec):
    """All global generators are a function of the spec."""
    s = int(spec_key(spec), 16) % (2**32 - 1)
    np.random.seed(s)
    import random

    random.seed(s)
    from . import nbseed

    nbseed.seed(s)


CASE_LIMIT = 240  # seconds; the slowest cases take a few seconds


def _alarm(signum, frame):
    raise Violation(f"a single case did not terminate within {CASE_LIMIT} s")


def run_check(part, spec):
    _seed_globals(spec)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    with quiet():
        try:
            return part.check(spec)
        except Violation:
            raise
        except Exception as e:
            # an exception out of the code under test is a violation, one out of the harness is an error of the harness
            tb = traceback.extract_tb(e.__traceback__)
            if tb and SRC and any(f.filename.startswith(SRC) for f in tb):
                raise Violation(f"{type(e).__name__}: {str(e)[:300]} in {os.path.basename(tb[-1].filename)}:{tb[-1].name}") from e
            raise
        finally:
            signal.alarm(0)


def _shard(args):
    """One Hypothesis run in one process."""
    pid, part_name, shard, n, seed, deadline, shrink_s = args
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    out = {"part": part_name, "shard": shard, "evaluations": 0, "keys": [], "tags": Counter(),
           "skips": Counter(), "samples": [], "violation": None, "error": None, "timeout": 0,
           "max_s": 0.0}
    KNOWN_HITS.clear()
    try:
        part = next(p for p in load(pid).parts if p.name == part_name)
        state = {"fail": None, "t_fail": None}
        keys = set()

        def test(spec):
            now = time.monotonic()
            if state["t_fail"] is not None:
                if now - state["t_fail"] > shrink_s:
                    raise Stop
            elif now > deadline:
                out["timeout"] += 1
                return
            spec = json.loads(json.dumps(spec))
            try:
                res = run_check(part, spec)
            except Violation as v:
                size = len(json.dumps(spec))
                if state["fail"] is None:
                    state["t_fail"] = time.monotonic()
                if state["fail"] is None or size <= state["fail"][2]:
                    state["fail"] = (spec, str(v), size)
                raise
            if state["fail"] is None:
                out["max_s"] = max(out["max_s"], time.monotonic() - now)
                out["evaluations"] += 1
                for t in res.tags:
                    out["tags"][str(t)] += 1
                if res.skip:
                    out["skips"][res.skip] += 1
                elif res.nontrivial:
                    k = spec_key(spec)
                    if k not in keys:
                        keys.add(k)
                        if len(out["samples"]) < 2:
                            out["samples"].append({"part": part_name, "spec": spec, "tags": list(map(str, res.tags))})

        wrapped = hypothesis.seed(seed * 1000003 + shard * 7919 + 17)(
            settings(max_examples=n, deadline=None, database=None, derandomize=False,
                     suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                     phases=(Phase.generate, Phase.shrink), print_blob=False, verbosity=hypothesis.Verbosity.quiet,
                     )(given(part.strategy())(test))
        )
        try:
            wrapped()
        except Stop:
            pass
        except Violation:
            pass
        except Exception:
            if state["fail"] is None:
                raise
        if state["fail"] is not None:
            spec, msg, _ = state["fail"]
            standalone = False
            try:
                run_check(part, spec)
            except Violation as v:
                standalone, msg = True, str(v)
            out["violation"] = {"part": part_name, "spec": spec, "message": msg, "standalone": standalone,
                                "hypothesis_seed": seed, "shard": shard}
        out["keys"] = sorted(keys)
    except BaseException:  # noqa: BLE001
        out["error"] = traceback.format_exc()
    out["known"] = dict(KNOWN_HITS)
    return out


_CACHE = {}


def load(pid):
    if pid not in _CACHE:
        mod = importlib.import_module("vp." + MODULES[pid])
        for p in mod.PROPS:
            _CACHE[p.id] = p
    return _CACHE[pid]


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property
    if pid not in MODULES:
        print(f"unknown property {pid}", file=sys.stderr)
        return 2
    prop = load(pid)
    if a.replay:
        return replay(prop, a.replay)

    t0 = time.monotonic()
    raw = os.environ.get("VERIF_SEED", "1") or "1"
    try:
        seed = int(raw)
    except ValueError:
        seed = int(hashlib.sha1(raw.encode()).hexdigest()[:8], 16)
    budget = a.seconds or (300 if a.tier == "quick" else 3000)
    deadline = t0 + budget
    if prop.warmup:
        with quiet():
            prop.warmup()
    t_warm = time.monotonic() - t0

    tasks = []
    for part in prop.parts:
        if a.part and part.name != a.part:
            continue
        n = part.quick if a.tier == "quick" else part.thorough
        n = max(1, int(n * a.scale))
        shards = min(part.shards if a.tier == "quick" else max(part.shards, 8), n)
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            tasks.append((pid, part.name, s, k, seed, deadline, 40.0))
    # interleave the parts so that the pool stays busy
    tasks.sort(key=lambda t: (t[2], t[1]))
    workers = int(os.environ.get("VP_WORKERS", 0)) or min(8, os.cpu_count() or 1)
    results, violation, error = [], None, None
    ctx = mp.get_context("fork")
    sys.stdout.flush()
    if workers == 1 or len(tasks) == 1:
        it = map(_shard, tasks)
        pool = None
    else:
        pool = ctx.Pool(min(workers, len(tasks)), maxtasksperchild=None)
        it = pool.imap_unordered(_shard, tasks)
    try:
        for _ in tasks:
            if pool is None:
                r = next(it)
            else:
                try:
                    r = it.next(timeout=max(10.0, deadline - time.monotonic()) + 2 * CASE_LIMIT)
                except mp.TimeoutError:
                    error = "a worker process was lost"
                    break
            results.append(r)
            if r["error"] and error is None:
                error = r["error"]
            if r["violation"]:
                violation = r["violation"]
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()

    wall = time.monotonic() - t0
    cov = coverage(prop, results, a.tier, t_warm)
    if not a.no_evidence:
        write_evidence(pid, a.tier, seed, cov, prop, wall, 1 if violation else 0)
    for key, cnt in sorted(sum((Counter(r.get("known", {})) for r in results), Counter()).items()):
        k = next(x for x in load_known(pid) if x["key"] == key)
        print(f"KNOWN-FINDING: property={pid} {k['what']} [{cnt} cases]")
    if violation:
        path = write_replay(pid, violation)
        print(f"{pid}: {violation['message']}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if error:
        print(error, file=sys.stderr)
        print(f"{pid}: harness error", file=sys.stderr)
        return 2
    weak = vacuous(prop, results, a)
    if weak:
        print(f"{pid}: inconclusive: {weak}", file=sys.stderr)
        return 2
    print(f"{pid}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct non-trivial), {wall:.1f} s")
    return 0


def vacuous(prop, results, a):
    """A part that decided (nearly) nothing is an error of the check."""
    for part in prop.parts:
        rs = [r for r in results if r["part"] == part.name]
        if not rs or not part.min_nontrivial:
            continue
        ev = sum(r["evaluations"] for r in rs)
        nt = sum(len(r["keys"]) for r in rs)
        if ev == 0 or nt / ev < part.min_nontrivial:
            return f"part {part.name}: {nt} non-trivial of {ev}"
    return None


def coverage(prop, results, tier, t_warm):
    by_part = {}
    for part in prop.parts:
        rs = [r for r in results if r["part"] == part.name]
        tags, skips = Counter(), Counter()
        for r in rs:
            tags.update(r["tags"])
            skips.update(r["skips"])
        keys = set().union(*[set(r["keys"]) for r in rs]) if rs else set()
        by_part[part.name] = {
            "cases": sum(r["evaluations"] for r in rs),
            "distinct_nontrivial_cases": len(keys),
            "classes": dict(tags.most_common(60)),
            "skipped": dict(skips),
            "not_run_time_budget": sum(r["timeout"] for r in rs),
            "slowest_case_s": round(max([r["max_s"] for r in rs], default=0), 3),
        }
    samples = []
    for part in prop.parts:
        ss = [s for r in results if r["part"] == part.name for s in r["samples"]]
        samples += ss[:2]
    return {
        "evaluations": sum(v["cases"] for v in by_part.values()),
        "distinct_nontrivial": sum(v["distinct_nontrivial_cases"] for v in by_part.values()),
        "rule": prop.rule,
        "samples": samples[:12],
        "by_part": by_part,
        "warmup_s": round(t_warm, 2),
        "exhaustive": False,
    }


def write_evidence(pid, tier, seed, cov, prop, wall, nviol):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
          "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": nviol}
    tmp = os.path.join(d, f".{pid}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, f"{pid}.json"))


def write_replay(pid, violation):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{spec_key(violation['spec'])}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, **violation}, f, indent=1)
    return path


def replay(prop, path):
    with open(path) as f:
        v = json.load(f)
    part = next(p for p in prop.parts if p.name == v["part"])
    try:
        run_check(part, v["spec"])
    except Violation as e:
        print(f"{prop.id}: {e}")
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    print(f"{prop.id}: replay holds")
    return 0
