"""Run-time side of the contracts: generators of concrete inputs, independent oracles and
the loop that evaluates contracts on the real code of /repo.

Used (a) to search for and replay a failing input when the verifier rejects an obligation,
(b) as the labelled bounded stand-in for functions outside the verifier's reach, and
(c) to cross-check the assumed contracts of the dependencies against the real ones."""
from __future__ import annotations

import json
import math
import os
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

import logging

logging.disable(logging.INFO)

import jax
import jax.numpy as jnp
import numpy as np


def set_x64(on):
    jax.config.update("jax_enable_x64", bool(on))


def x64():
    return bool(jax.config.jax_enable_x64)


KINDS: dict = {}  # prop -> list of (kind, gen, check, weight)


def kind(prop, name, weight=1, corners=()):
    """Register check(params) -> None or failure text, with generator gen(rng)."""

    def deco(cls):
        KINDS.setdefault(prop, []).append(dict(name=name, gen=cls.gen, check=cls.check, weight=weight, corners=list(getattr(cls, "corners", []))))
        return cls

    return deco


class Skip(Exception):
    """The case is outside the property's quantifier or cannot be set up."""


class Bad(Exception):
    """The contract is violated."""


def need(cond, msg, *vals):
    if not bool(cond):
        raise Bad(msg + (" " + "; ".join(_short(v) for v in vals) if vals else ""))


def _short(v):
    try:
        if hasattr(v, "shape"):
            v = np.asarray(v)
            if v.size > 40:
                return f"array{v.shape} {np.array2string(v.ravel()[:20], precision=6)}..."
            return np.array2string(v, precision=8).replace("\n", "")
    except Exception:  # noqa: BLE001
        pass
    return str(v)[:300]


def tol():
    return (1e-7, 1e-9) if x64() else (2e-3, 2e-4)


def close(a, b, msg, rtol=None, atol=None, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    need(a.shape == b.shape, f"{msg}: shape", a.shape, b.shape)
    r, t = tol()
    r, t = r if rtol is None else rtol, t if atol is None else atol
    s = np.abs(b) if scale is None else np.maximum(np.abs(b), scale)
    ok = np.abs(a - b) <= t + r * s
    both_nan = np.isnan(a) & np.isnan(b)
    need(np.all(ok | both_nan | (a == b)), f"{msg}:", a, b)


def raises(exc, fn, msg):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        raise Bad(f"{msg}: raised {type(e).__name__} ({str(e)[:120]}) instead of {exc}") from e
    raise Bad(f"{msg}: nothing raised, returned {_short(r)}")


def jit(fn, *args):
    """One compilation instead of one per operation; falls back to plain evaluation."""
    try:
        return jax.jit(fn)(*args)
    except (jax.errors.ConcretizationTypeError, jax.errors.TracerArrayConversionError, jax.errors.TracerBoolConversionError):
        return fn(*args)


# ----------------------------------------------------------------- kernels (specification)


def _num(v):
    return v


class KS:
    """Kernel specifications: JSON-able dicts; `make` builds the real kernel, `value` is the oracle."""

    @staticmethod
    def rand(rng, depth=0, smooth=False, d=2, bounded=False):
        r = lambda a, b: round(float(rng.uniform(a, b)), 3)  # noqa: E731
        opts = ["SE", "PCIMQ", "RQ", "Matern2", "Matern3", "Linear", "Poly"]
        if not smooth:
            opts += ["Exp", "Lap", "Matern0", "Matern1", "Per", "LP"]
        if d == 1:
            opts += ["Poisson"]
        if bounded:
            opts = [o for o in opts if o not in ("Linear", "Poly")]
        if depth > 0 and rng.random() < 0.5:
            o = rng.choice(["add", "mul", "pow", "addc", "mulc"])
            a = KS.rand(rng, depth - 1, smooth, d, bounded)
            if o in ("add", "mul"):
                b = a if rng.random() < 0.25 else KS.rand(rng, depth - 1, smooth, d, bounded)
                return dict(t=str(o), a=a, b=b)
            if o == "pow":
                return dict(t="pow", a=a, p=int(rng.integers(1, 5)))
            return dict(t=str(o), a=a, c=float(rng.choice([0.0, 1.0, 2.0, 0.3, 3.0])), side=str(rng.choice(["l", "r"])), int=bool(rng.random() < 0.5))
        t = str(rng.choice(opts))
        ls, os_ = r(0.4, 2.5), r(0.3, 2.5)
        if t in ("SE", "PCIMQ", "Exp", "Lap"):
            return dict(t=t, ls=ls, os=os_)
        if t == "RQ":
            return dict(t=t, ls=ls, os=os_, rw=r(0.2, 3))
        if t.startswith("Matern"):
            return dict(t="Matern", ls=ls, os=os_, q=int(t[6:]))
        if t == "Linear":
            return dict(t=t, os=os_, c=r(0, 2))
        if t == "Poly":
            return dict(t=t, os=os_, c=r(0, 2), deg=int(rng.integers(2, 5)))
        if t == "Per":
            return dict(t=t, ls=ls, os=os_, per=r(0.5, 2.5))
        if t == "LP":
            return dict(t=t, ls=ls, os=os_, per=r(0.5, 2.5), ls2=r(0.4, 2.5), os2=r(0.3, 2.5))
        return dict(t="Poisson", idx=r(0.05, 0.9), os=os_)

    @staticmethod
    def make(k):
        import coreax.kernels as ck

        t = k["t"]
        if t == "SE":
            return ck.SquaredExponentialKernel(length_scale=k["ls"], output_scale=k["os"])
        if t == "PCIMQ":
            return ck.PCIMQKernel(length_scale=k["ls"], output_scale=k["os"])
        if t == "Exp":
            return ck.ExponentialKernel(length_scale=k["ls"], output_scale=k["os"])
        if t == "Lap":
            return ck.LaplacianKernel(length_scale=k["ls"], output_scale=k["os"])
        if t == "RQ":
            return ck.RationalQuadraticKernel(length_scale=k["ls"], output_scale=k["os"], relative_weighting=k["rw"])
        if t == "Matern":
            return ck.MaternKernel(length_scale=k["ls"], output_scale=k["os"], degree=k["q"])
        if t == "Linear":
            return ck.LinearKernel(output_scale=k["os"], constant=k["c"])
        if t == "Poly":
            return ck.PolynomialKernel(output_scale=k["os"], constant=k["c"], degree=k["deg"])
        if t == "Per":
            return ck.PeriodicKernel(length_scale=k["ls"], output_scale=k["os"], periodicity=k["per"])
        if t == "LP":
            return ck.LocallyPeriodicKernel(
                periodic_length_scale=k["ls"], periodic_output_scale=k["os"], periodicity=k["per"],
                squared_exponential_length_scale=k["ls2"], squared_exponential_output_scale=k["os2"],
            )
        if t == "Poisson":
            return ck.PoissonKernel(index=k["idx"], output_scale=k["os"])
        a = KS.make(k["a"])
        if t == "add":
            return a + KS.make(k["b"])
        if t == "mul":
            return a * KS.make(k["b"])
        if t == "pow":
            return a ** k["p"]
        c = k["c"]
        if k.get("int") and c == int(c):
            c = int(c)
        if t == "addc":
            return a + c if k["side"] == "r" else c + a
        if t == "mulc":
            return a * c if k["side"] == "r" else c * a
        raise ValueError(t)

    @staticmethod
    def value(k, x, y, np_=None):
        """Closed form at two vectors."""
        m = np if np_ is None else np_
        t = k["t"]
        if t in ("SE", "PCIMQ", "Exp", "RQ", "Matern", "Per", "LP"):
            e = x - y
            d2 = (e * e).sum()
        if t == "SE":
            return k["os"] * m.exp(-d2 / (2 * k["ls"] ** 2))
        if t == "PCIMQ":
            return k["os"] / m.sqrt(1 + d2 / (2 * k["ls"] ** 2))
        if t == "Exp":
            return k["os"] * m.exp(-m.sqrt(d2) / (2 * k["ls"] ** 2))
        if t == "Lap":
            return k["os"] * m.exp(-m.abs(x - y).sum() / (2 * k["ls"] ** 2))
        if t == "RQ":
            return k["os"] * (1 + d2 / (2 * k["rw"] * k["ls"] ** 2)) ** (-k["rw"])
        if t == "Matern":
            q = k["q"]
            b = math.sqrt(2 * q + 1) * m.sqrt(d2) / k["ls"]
            s = 0.0
            for i in range(q + 1):
                s = s + math.factorial(q + i) / (math.factorial(i) * math.factorial(q - i)) * (2 * b) ** (q - i)
            return k["os"] ** 2 * m.exp(-b) * math.factorial(q) / math.factorial(2 * q) * s
        if t == "Linear":
            return k["os"] * (x * y).sum() + k["c"]
        if t == "Poly":
            return k["os"] * ((x * y).sum() + k["c"]) ** k["deg"]
        if t in ("Per", "LP"):
            v = k["os"] * m.exp(-2 * m.sin(math.pi * m.sqrt(d2) / k["per"]) ** 2 / k["ls"] ** 2)
            return v if t == "Per" else v * k["os2"] * m.exp(-d2 / (2 * k["ls2"] ** 2))
        if t == "Poisson":
            return k["os"] / (1 - 2 * k["idx"] * m.cos((x - y).reshape(())) + k["idx"] ** 2)
        a = KS.value(k["a"], x, y, np_)
        if t == "add":
            return a + KS.value(k["b"], x, y, np_)
        if t == "mul":
            return a * KS.value(k["b"], x, y, np_)
        if t == "pow":
            return a ** k["p"]
        if t == "addc":
            return a + k["c"]
        if t == "mulc":
            return a * k["c"]
        raise ValueError(t)

    @staticmethod
    def gram(k, X, Y):
        X, Y = np.asarray(X, float), np.asarray(Y, float)
        if k["t"] == "SE":
            d2 = ((X[:, None, :] - Y[None, :, :]) ** 2).sum(-1)
            return k["os"] * np.exp(-d2 / (2 * k["ls"] ** 2))
        return np.array([[KS.value(k, x, y) for y in Y] for x in X]).reshape(len(X), len(Y))


SE1 = dict(t="SE", ls=1.0, os=1.0)


def se(rng):
    return dict(t="SE", ls=round(float(rng.uniform(0.4, 2)), 3), os=round(float(rng.uniform(0.4, 2)), 3))


def points(seed, n, d, style="normal", scale=1.0):
    """Deterministic data sets: styles exercise ties, duplicates, clusters, lattices."""
    rng = np.random.default_rng([17, int(seed)])
    if style == "normal":
        x = rng.normal(size=(n, d))
    elif style == "lattice":
        x = rng.integers(-2, 3, size=(n, d)).astype(float)
    elif style == "dups":
        base = rng.normal(size=(max(1, (n + 1) // 2), d))
        x = base[rng.integers(0, len(base), size=n)]
    elif style == "same":
        x = np.repeat(rng.normal(size=(1, d)), n, axis=0)
    elif style == "far":
        x = rng.normal(size=(n, d)) + 40.0 * rng.integers(-1, 2, size=(n, 1))
    elif style == "sorted":
        x = np.sort(rng.normal(size=(n, d)), axis=0)
    else:
        raise ValueError(style)
    return np.round(x * scale, 4)


def weights(seed, n, style="mixed", min_pos=1):
    rng = np.random.default_rng([29, int(seed)])
    if style == "none":
        return None
    if style == "ones":
        return np.ones(n)
    w = np.round(rng.uniform(0.1, 2.0, size=n), 3)
    if style in ("zeros", "lead0", "tail0"):
        k = n - min_pos
        if k > 0:
            cnt = int(rng.integers(0, k + 1))
            idx = rng.permutation(n)[:cnt] if style == "zeros" else (np.arange(cnt) if style == "lead0" else np.arange(n - cnt, n))
            w[idx] = 0
    if style == "tiny":
        w = w * 1e-3
    if style == "big":
        w = w * 1e3
    return w


def pick(rng, *opts):
    return opts[int(rng.integers(0, len(opts)))]


def rint(rng, a, b):
    return int(rng.integers(a, b + 1))


def as_ints(v):
    v = np.asarray(v)
    need(np.issubdtype(v.dtype, np.integer), "indices are integers", v.dtype)
    return v.astype(int)


# ------------------------------------------------------------------------------ runner


def run_case(prop, kname, params):
    """None if the contract held, 'skip', or the failure text."""
    k = next(k for k in KINDS[prop] if k["name"] == kname)
    set_x64(params.get("x64", False))
    try:
        k["check"](params)
        return None
    except Skip:
        return "skip"
    except Bad as e:
        return str(e)[:1500]
    except (MemoryError, KeyboardInterrupt):
        return "skip"
    except RecursionError as e:
        return f"RecursionError: {e}"[:300]
    except Exception as e:  # noqa: BLE001
        if type(e).__name__ in ("XlaRuntimeError", "JaxRuntimeError") and "RESOURCE" in str(e):
            return "skip"
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO + "/coreax")]
        last = tb[-1]
        if not inrepo and last.filename.startswith(os.path.dirname(os.path.abspath(__file__))):
            where = f"{os.path.basename(last.filename)}:{last.lineno}"
        else:
            f = (inrepo or tb)[-1]
            where = f"{os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else f.filename}:{f.lineno}"
        return f"raised {type(e).__name__}: {str(e)[:400]} ({where})"


def run_shard(prop, seed, shard, shards, budget, tier, out, max_fail=3):
    rng = np.random.default_rng([seed, shard, 7919])
    kinds = KINDS[prop]
    t_end = time.time() + budget
    stats = {k["name"]: dict(run=0, skipped=0, s=0.0) for k in kinds}
    fails, seen, samples = [], set(), []

    def one(k, params):
        key = json.dumps([k["name"], params], sort_keys=True)
        if key in seen:
            return
        seen.add(key)
        t0 = time.time()
        r = run_case(prop, k["name"], params)
        st = stats[k["name"]]
        st["s"] += time.time() - t0
        if r == "skip":
            st["skipped"] += 1
            return
        st["run"] += 1
        if len(samples) < 6 and st["run"] <= 1:
            samples.append([k["name"], params])
        if r is not None:
            f = dict(prop=prop, kind=k["name"], params=params, detail=r)
            fails.append(f)
            print(json.dumps(dict(fail=f)), file=out, flush=True)

    todo = []
    # one floating-point mode per shard: two thirds in double precision (tight tolerances)
    mode = shard % 3 != 2
    peers = [i for i in range(shards) if (i % 3 != 2) == mode]
    for k in kinds:
        for c in k["corners"]:
            todo.append((k, dict(c, x64=mode) if "x64" not in c else c))
    for j, (k, c) in enumerate(todo):
        if peers[j % len(peers)] == shard and len(fails) < max_fail:
            one(k, c)
    # weighted round robin, so that every kind is exercised whatever the speed
    sched = [k for k in kinds for _ in range(k["weight"])]
    i = shard
    while time.time() < t_end and len(fails) < max_fail:
        k = sched[i % len(sched)]
        i += 1
        p = k["gen"](rng)
        if p is None:
            continue
        p.setdefault("x64", mode)
        one(k, p)
        if i > 200000:
            break
    print(json.dumps(dict(stats=stats, samples=samples, fails=len(fails))), file=out, flush=True)


def main(argv):
    import argparse
    import importlib

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--shards", type=int, default=1)
    ap.add_argument("--budget", type=float, default=30)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--case", default=None)
    a = ap.parse_args(argv)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    try:
        import coreax  # noqa: F401
    except Exception as e:  # noqa: BLE001
        print(json.dumps(dict(fatal=f"import of coreax: {type(e).__name__}: {e}"[:400])), file=out, flush=True)
        return
    import rt.common as C

    importlib.import_module(f"rt.{a.prop.lower()}")
    if a.case:
        with open(a.case) as f:
            c = json.load(f)
        print(json.dumps(dict(result=C.run_case(a.prop, c["kind"], c["params"]))), file=out, flush=True)
        return
    C.run_shard(a.prop, a.seed, a.shard, a.shards, a.budget, a.tier, out)


if __name__ == "__main__":
    import warnings

    warnings.simplefilter("ignore")
    main(sys.argv[1:])
