"""C11 on the real code: weight optimisers."""
import itertools

import jax.numpy as jnp
import numpy as np

from .common import *  # noqa: F403
from .common import KS, Skip, close, jit, kind, need, pick, points, raises, rint, se, weights, x64


def setup(p):
    from coreax.data import Data

    x = points(p["s"], p["n"], p["d"])
    i = np.random.default_rng(p["s"]).permutation(p["n"])[: p["m"]]
    c = x[i] if p.get("sub", True) else points(p["s"] + 4, p["m"], p["d"])
    wx, wc = weights(p["s"], p["n"], p["wx"]), weights(p["s"] + 1, p["m"], p["wc"])
    return Data(jnp.asarray(x), wx), Data(jnp.asarray(c), wc), x, c, i


def gen0(rng):
    n = rint(rng, 1, 10)
    return dict(n=n, m=rint(rng, 1, min(n, 4)), d=pick(rng, 1, 2, 3), s=rint(rng, 0, 10**6), k=pick(rng, se(rng), dict(t="Lap", ls=0.9, os=1.3), dict(t="RQ", ls=0.8, os=1.1, rw=1.3)), wx=pick(rng, "none", "mixed", "zeros"), wc=pick(rng, "none", "mixed"), sub=bool(rng.random() < 0.7),
                eps=pick(rng, 1e-10, 1e-3, 0.1, 1.0), bs=pick(rng, None, 1, rint(rng, 1, 6), [None, 2], 99), arrays=bool(rng.random() < 0.3))


def system(p, x, c):
    K = KS.gram(p["k"], c, c) + p["eps"] * np.eye(len(c))
    return K, KS.gram(p["k"], x, c).mean(0)


def kw(p):
    return dict(epsilon=p["eps"], block_size=tuple(p["bs"]) if isinstance(p["bs"], list) else p["bs"])


@kind("C11", "quadrature", weight=3)
class _:
    @staticmethod
    def gen(rng):
        return gen0(rng)

    @staticmethod
    def check(p):
        from coreax.weights import SBQWeightsOptimiser

        D, C, x, c, _ = setup(p)
        K, z = system(p, x, c)
        if np.linalg.cond(K) > (1e7 if x64() else 1e3):
            raise Skip
        o = SBQWeightsOptimiser(KS.make(p["k"]))
        a, b = (D.data, C.data) if p["arrays"] else (D, C)
        w = np.asarray(jit(lambda a, b: o.solve(a, b, **kw(p)), a, b), float)
        need(w.shape == (p["m"],), "one weight per coreset point", w.shape)
        close(K @ w, z, "quadrature weights do not solve the system", atol=1e-8 if x64() else 2e-3)
        close(w, np.linalg.solve(K, z), "quadrature weights", rtol=1e-6 if x64() else 2e-2, atol=1e-7 if x64() else 5e-3)


def qp_oracle(K, z):
    """min 1/2 w K w - z w on the simplex, by enumerating supports."""
    m = len(z)
    best = None
    for r in range(1, m + 1):
        for S in itertools.combinations(range(m), r):
            S = list(S)
            A = np.zeros((r + 1, r + 1))
            A[:r, :r] = K[np.ix_(S, S)]
            A[:r, r] = A[r, :r] = 1
            try:
                s = np.linalg.solve(A, np.append(z[S], 1.0))[:r]
            except np.linalg.LinAlgError:
                continue
            if (s >= -1e-12).all():
                w = np.zeros(m)
                w[S] = np.maximum(s, 0)
                f = 0.5 * w @ K @ w - z @ w
                if best is None or f < best[0]:
                    best = (f, w)
    return best


@kind("C11", "discrepancy", weight=2)
class _:
    @staticmethod
    def gen(rng):
        p = gen0(rng)
        p["eps"] = pick(rng, 1e-10, 1e-3, 0.1, 0.5, 2.0)
        return p

    @staticmethod
    def check(p):
        from coreax.weights import MMDWeightsOptimiser

        D, C, x, c, _ = setup(p)
        K, z = system(p, x, c)
        o = MMDWeightsOptimiser(KS.make(p["k"]))
        w = np.asarray(jit(lambda a, b: o.solve(a, b, tol=1e-8 if x64() else 1e-5, maxiter=20000, **kw(p)), D, C), float)
        need(w.shape == (p["m"],), "one weight per coreset point", w.shape)
        need(np.all(w >= 0), "negative weight", w)
        close(w.sum(), 1.0, "weights do not sum to one", atol=1e-5)
        best = qp_oracle(K, z)
        if best is None:
            raise Skip
        f = 0.5 * w @ K @ w - z @ w
        need(f <= best[0] + (1e-5 if x64() else 3e-3) * max(1.0, np.abs(K).max()), f"objective {f!r} instead of {best[0]!r}", w, best[1])


@kind("C11", "weights of a coreset", weight=2)
class _:
    @staticmethod
    def gen(rng):
        p = gen0(rng)
        p["pseudo"] = bool(rng.random() < 0.5)
        p["eps"] = pick(rng, 1e-3, 0.1)
        return p

    @staticmethod
    def check(p):
        from coreax.coreset import Coresubset, PseudoCoreset
        from coreax.data import Data
        from coreax.weights import SBQWeightsOptimiser

        D, C, x, c, i = setup(dict(p, sub=not p["pseudo"]))
        cs = PseudoCoreset(C, D) if p["pseudo"] else Coresubset(Data(jnp.asarray(i), C.weights), D)
        o = SBQWeightsOptimiser(KS.make(p["k"]))
        r = jit(lambda cs: cs.solve_weights(o, epsilon=p["eps"]), cs)
        K, z = system(p, x, c)
        w = np.asarray(r.points.weights, float)
        if np.linalg.cond(K) < 1e4:
            close(w, np.linalg.solve(K, z), "weights of the solved coreset, in order", rtol=1e-6 if x64() else 3e-2, atol=1e-7 if x64() else 5e-3)
        need(type(r) is type(cs), "coreset kind kept")
        need(np.array_equal(np.asarray(r.points.data), np.asarray(cs.points.data)), "points kept")
        need(np.array_equal(np.asarray(r.pre_coreset_data.data), np.asarray(D.data)) and np.array_equal(np.asarray(r.pre_coreset_data.weights), np.asarray(D.weights)), "original data kept")
        if not p["pseudo"]:
            need(np.array_equal(np.asarray(r.unweighted_indices), i), "indices kept")
        need(np.array_equal(np.asarray(cs.points.weights), np.asarray(C.weights)), "input coreset modified")
