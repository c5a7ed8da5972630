"""C10 on the real code: discrepancy metrics."""
import jax
import jax.numpy as jnp
import numpy as np

from .common import *  # noqa: F403
from .common import KS, Skip, close, jit, kind, need, pick, points, raises, rint, se, weights, x64
from .c17 import stein_gram
from . import solvers as SV


def two(p, sup=False, q=1):
    from coreax.data import Data, SupervisedData

    x, y = points(p["s"], p["n"], p["d"]), points(p["s"] + 1, p["m"], p["d"])
    wx, wy = weights(p["s"], p["n"], p["wx"]), weights(p["s"] + 1, p["m"], p["wy"])
    if not sup:
        return Data(jnp.asarray(x), wx), Data(jnp.asarray(y), wy), x, y, one(wx, p["n"]), one(wy, p["m"])
    a, b = points(p["s"] + 2, p["n"], p["q"]), points(p["s"] + 3, p["m"], p["q"])
    return SupervisedData(jnp.asarray(x), jnp.asarray(a), wx), SupervisedData(jnp.asarray(y), jnp.asarray(b), wy), x, y, one(wx, p["n"]), one(wy, p["m"]), a, b


def one(w, n):
    return np.full(n, 1.0 / n) if w is None else w / w.sum()


def sqclose(got, sq, scale, msg):
    """Compare squares (the root magnifies rounding near zero)."""
    got = float(got)
    need(np.isfinite(got) and got >= 0, msg + ": negative or not finite", got)
    t = (1e-10 if x64() else 2e-5) * max(scale, 1e-3)
    want = max(sq, 0.0)
    need(abs(got**2 - want) <= t, f"{msg}: squared value {got ** 2!r} instead of {want!r}")


def gen0(rng):
    d = pick(rng, 1, 2, 3)
    return dict(n=rint(rng, 1, 9), m=rint(rng, 1, 9), d=d, q=pick(rng, 1, 2), s=rint(rng, 0, 10**6), k=KS.rand(rng, 1, d=d, bounded=bool(rng.random() < 0.7)), l=KS.rand(rng, 0, d=2, bounded=True), wx=pick(rng, "none", "mixed", "zeros", "big", "tiny"), wy=pick(rng, "none", "mixed", "zeros", "tiny"))


@kind("C10", "mmd", weight=4)
class _:
    @staticmethod
    def gen(rng):
        p = gen0(rng)
        p["bs"] = pick(rng, None, None, 1, rint(rng, 1, 6), [rint(rng, 1, 6), rint(rng, 1, 6)], [None, rint(rng, 1, 6)], [rint(rng, 1, 6), None], 50)
        p["unroll"] = pick(rng, 1, 1, [2, 1], 3)
        return p

    @staticmethod
    def check(p):
        from coreax.metrics import MMD

        X, Y, x, y, wx, wy = two(p)
        gxx, gyy, gxy = KS.gram(p["k"], x, x), KS.gram(p["k"], y, y), KS.gram(p["k"], x, y)
        sc = max(np.abs(gxx).max(), np.abs(gyy).max())
        if sc > 1e4:
            raise Skip
        sq = wx @ gxx @ wx + wy @ gyy @ wy - 2 * wx @ gxy @ wy
        M = MMD(KS.make(p["k"]))
        kw = dict(block_size=tuple(p["bs"]) if isinstance(p["bs"], list) else p["bs"], unroll=tuple(p["unroll"]) if isinstance(p["unroll"], list) else p["unroll"])
        sqclose(jit(lambda a, b: M.compute(a, b, **kw), X, Y), sq, sc, "MMD")
        sqclose(jit(lambda a, b: M.compute(b, a, **kw), X, Y), sq, sc, "MMD, swapped")
        sqclose(jit(lambda a: M.compute(a, a, **kw), X), 0.0, sc, "MMD of a data set with itself")


@kind("C10", "jmmd", weight=2)
class _:
    @staticmethod
    def gen(rng):
        return gen0(rng)

    @staticmethod
    def check(p):
        from coreax.metrics import JMMD

        X, Y, x, y, wx, wy, a, b = two(p, True)
        if "Poisson" in str(p["l"]):
            raise Skip
        g = lambda u, v, s, t: KS.gram(p["k"], u, v) * KS.gram(p["l"], s, t)  # noqa: E731
        gxx, gyy, gxy = g(x, x, a, a), g(y, y, b, b), g(x, y, a, b)
        sc = max(np.abs(gxx).max(), np.abs(gyy).max())
        if sc > 1e4:
            raise Skip
        sq = wx @ gxx @ wx + wy @ gyy @ wy - 2 * wx @ gxy @ wy
        M = JMMD(KS.make(p["k"]), KS.make(p["l"]))
        sqclose(jit(M.compute, X, Y), sq, sc, "JMMD")
        sqclose(jit(M.compute, Y, X), sq, sc, "JMMD, swapped")
        sqclose(jit(M.compute, X, X), 0.0, sc, "JMMD of a data set with itself")


@kind("C10", "amcmd", weight=2)
class _:
    @staticmethod
    def gen(rng):
        p = gen0(rng)
        p["rp"] = pick(rng, 0.05, 0.5, 2.0)
        p["k"] = se(rng)
        p["w3"] = pick(rng, 0, 0, rint(rng, 1, 7))
        return p

    @staticmethod
    def check(p):
        from coreax.data import Data
        from coreax.metrics import AMCMD

        X, Y, x, y, wx, wy, a, b = two(p, True)
        if "Poisson" in str(p["l"]):
            raise Skip
        z = points(p["s"] + 7, p["w3"], p["d"]) if p["w3"] else x
        k, l, r = p["k"], p["l"], p["rp"]
        s1 = np.linalg.solve(KS.gram(k, x, x) + r * np.eye(len(x)), KS.gram(k, x, z))
        s2 = np.linalg.solve(KS.gram(k, y, y) + r * np.eye(len(y)), KS.gram(k, y, z))
        sq = (np.sum((s1.T @ KS.gram(l, a, a)) * s1.T) + np.sum((s2.T @ KS.gram(l, b, b)) * s2.T) - 2 * np.sum((s1.T @ KS.gram(l, a, b)) * s2.T)) / len(z)
        M = AMCMD(KS.make(k), KS.make(l), r)
        kw = dict(weighting_data=Data(jnp.asarray(z))) if p["w3"] else {}
        got = jit(lambda u, v: M.compute(u, v, **kw), X, Y)
        sqclose(got, sq, 100.0, "AMCMD")
        raises(ValueError, lambda: AMCMD(KS.make(k), KS.make(l), -0.1), "negative regularisation")


@kind("C10", "ksd", weight=2)
class _:
    @staticmethod
    def gen(rng):
        p = gen0(rng)
        p["k"] = pick(rng, se(rng), dict(t="PCIMQ", ls=1.3, os=0.7), dict(t="RQ", ls=1.1, os=1.2, rw=0.8))
        p["bs"] = pick(rng, None, 1, rint(rng, 1, 6), [None, 2])
        return p

    @staticmethod
    def check(p):
        from coreax.kernels import SteinKernel
        from coreax.metrics import KSD

        X, Y, x, y, wx, wy = two(p)
        G = stein_gram(p["k"], y)
        sq = wy @ G @ wy
        M = KSD(SteinKernel(KS.make(p["k"]), SV.lin_score))
        bs = tuple(p["bs"]) if isinstance(p["bs"], list) else p["bs"]
        sqclose(jit(lambda u, v: M.compute(u, v, block_size=bs), X, Y), sq, np.abs(G).max(), "KSD")


@kind("C10", "coreset metric")
class _:
    @staticmethod
    def gen(rng):
        p = gen0(rng)
        p["pseudo"] = bool(rng.random() < 0.5)
        return p

    @staticmethod
    def check(p):
        from coreax.coreset import Coresubset, PseudoCoreset
        from coreax.data import Data
        from coreax.metrics import MMD

        X, Y, x, y, wx, wy = two(p)
        if p["pseudo"]:
            if p["m"] > p["n"]:
                raise Skip
            c = PseudoCoreset(Y, X)
        else:
            m = min(p["n"], p["m"])
            i = np.random.default_rng(p["s"]).permutation(p["n"])[:m]
            w = weights(p["s"] + 1, m, p["wy"])
            c = Coresubset(Data(jnp.asarray(i), w), X)
            y, wy = x[i], one(w, m)
        gxx, gyy, gxy = KS.gram(p["k"], x, x), KS.gram(p["k"], y, y), KS.gram(p["k"], x, y)
        sc = max(np.abs(gxx).max(), np.abs(gyy).max())
        if sc > 1e4:
            raise Skip
        sq = wx @ gxx @ wx + wy @ gyy @ wy - 2 * wx @ gxy @ wy
        M = MMD(KS.make(p["k"]))
        sqclose(jit(lambda c: c.compute_metric(M), c), sq, sc, "metric of a coreset")
        need(len(c) == len(y), "coreset length")
