"""C15 on the real code: solver states, determinism, inputs left alone."""
import jax
import jax.numpy as jnp
import numpy as np

from .common import *  # noqa: F403
from .common import KS, Bad, Skip, close, kind, need, pick, rint, se
from . import solvers as SV


def leaves(t):
    return [np.asarray(jax.random.key_data(v)) if jnp.issubdtype(getattr(v, "dtype", None), jax.dtypes.prng_key) else np.asarray(v) for v in jax.tree_util.tree_leaves(t)]


def same(a, b, msg):
    la, lb = leaves(a), leaves(b)
    need(len(la) == len(lb) and all(x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y, equal_nan=x.dtype.kind == "f") for x, y in zip(la, lb)), msg, *(la[:1] + lb[:1]))


def cached(p, st, x, w, msg):
    G = KS.gram(p["k"], x, x)
    sc = max(1.0, float(np.abs(G).max()))
    if p["solver"] in ("herding", "prob"):
        close(st.gramian_row_mean, G @ w / w.sum(), msg + ": cached Gramian row mean", scale=sc)
    if p["solver"] == "gkp":
        close(st.feature_gramian, np.pad(G, (0, 1)), msg + ": cached padded Gramian", scale=sc)


@kind("C15", "reuse", weight=5)
class _:
    @staticmethod
    def gen(rng):
        p = SV.gen(rng, pick(rng, "herding", "prob", "gkp"))
        p["hist"] = [int(v) for v in rng.integers(0, 3, size=pick(rng, 1, 2, 3))]
        return p

    @staticmethod
    def check(p):
        import equinox as eqx

        D, x, y, w = SV.dataset(p)
        if not SV.selectable(p, w) or p["m"] > p["n"]:
            raise Skip
        S = SV.make(p)
        before = leaves(D)
        run = eqx.filter_jit(lambda d, st: S.reduce(d, st))
        c0, s0 = run(D, None)
        cached(p, s0, x, w, p["solver"])
        st = s0
        for h in p["hist"]:
            c, s1 = run(D, st)
            same(c, c0, f"{p['solver']}: coreset differs when the returned state is passed back")
            same(s1, s0, f"{p['solver']}: state differs when the returned state is passed back")
            if h:
                st = s1
        need(all(np.array_equal(a, b) for a, b in zip(before, leaves(D))), "input modified")


@kind("C15", "refine with state", weight=2)
class _:
    @staticmethod
    def gen(rng):
        p = SV.gen(rng, pick(rng, "herding", "gkp"))
        p["w"] = pick(rng, "none", "mixed")
        return p

    @staticmethod
    def check(p):
        import equinox as eqx

        D, x, y, w = SV.dataset(p)
        if not SV.selectable(p, w) or p["m"] > p["n"]:
            raise Skip
        S = SV.make(p)
        c0, i0 = SV.start_coreset(p, D, x, w, p["m"])
        run = eqx.filter_jit(lambda c, st: S.refine(c, st))
        before = leaves(c0)
        a, sa = run(c0, None)
        b, sb = run(c0, sa)
        same(a, b, f"{p['solver']}.refine: coreset differs with the returned state")
        same(sa, sb, f"{p['solver']}.refine: state differs with the returned state")
        cached(p, sb, x, w, p["solver"])
        need(all(np.array_equal(u, v) for u, v in zip(before, leaves(c0))), "input coreset modified")


@kind("C15", "determinism", weight=2)
class _:
    @staticmethod
    def gen(rng):
        return SV.gen(rng)

    @staticmethod
    def check(p):
        import equinox as eqx

        D, x, y, w = SV.dataset(p)
        if not SV.selectable(p, w) or p["m"] > p["n"]:
            raise Skip
        before = leaves(D)
        S = SV.make(p)
        sb = leaves(eqx.filter(S, eqx.is_array))
        f = eqx.filter_jit(lambda d: S.reduce(d))
        a, _ = f(D)
        b, _ = f(D)
        same(a, b, f"{p['solver']}: not deterministic")
        need(all(np.array_equal(u, v) for u, v in zip(before, leaves(D))), "input modified")
        need(all(np.array_equal(u, v) for u, v in zip(sb, leaves(eqx.filter(S, eqx.is_array)))), "solver modified")


@kind("C15", "iterative herding state")
class _:
    @staticmethod
    def gen(rng):
        p = SV.gen(rng, "herding")
        p["n"] = min(p["n"], 12)
        p["m"] = min(p["m"], p["n"])
        p["it"] = rint(rng, 1, 3)
        return p

    @staticmethod
    def check(p):
        import equinox as eqx

        D, x, y, w = SV.dataset(p)
        if not SV.selectable(p, w):
            raise Skip
        S = SV.make(p)
        f = eqx.filter_jit(lambda d, s: S.reduce_iterative(d, s, num_iterations=p["it"]))
        a, sa = f(D, None)
        cached(p, sa, x, w, "reduce_iterative")
        b, sb = f(D, sa)
        same(a, b, "reduce_iterative: coreset differs with the returned state")
        same(sa, sb, "reduce_iterative: state differs with the returned state")


@kind("C15", "pivoted cholesky, first state", weight=1)
class _:
    """What holds of the Cholesky state: passing the Gramian diagonal gives the result without a state."""

    @staticmethod
    def gen(rng):
        return SV.gen(rng, "rpc")

    @staticmethod
    def check(p):
        from coreax.solvers.coresubset import RPCholeskyState

        D, x, y, w = SV.dataset(p)
        S = SV.make(p)
        import equinox as eqx

        run = eqx.filter_jit(lambda d, st: S.reduce(d, st))
        k = KS.make(p["k"])
        diag = jax.jit(jax.vmap(k.compute_elementwise))(D.data, D.data)
        c0, _ = run(D, None)
        c1, _ = run(D, RPCholeskyState(diag))
        if not np.array_equal(SV.indices(c0), SV.indices(c1)):
            raise Skip if not x64_safe(p, x) else Bad("pivoted Cholesky: the Gramian diagonal as state changes the coreset")


def x64_safe(p, x):
    K = KS.gram(p["k"], x, x)
    return bool(p.get("x64")) and np.linalg.eigvalsh(K).min() > 1e-4 * np.abs(K).max()


@kind("C15", "known:K2", weight=0)
class _:
    @staticmethod
    def gen(rng):
        return None

    @staticmethod
    def check(p):
        D, x, y, w = SV.dataset(p)
        S = SV.make(p)
        a, s = S.reduce(D)
        b, _ = S.reduce(D, s)
        need(np.array_equal(SV.indices(a), SV.indices(b)), "pivoted Cholesky: the coreset differs when the returned state is passed back", SV.indices(a), SV.indices(b))
        close(s.gramian_diagonal, np.diag(KS.gram(p["k"], x, x)), "cached Gramian diagonal")
