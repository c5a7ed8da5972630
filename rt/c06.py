"""C06 on the real code: blocked kernel means."""
import jax.numpy as jnp
import numpy as np

from .common import *  # noqa: F403
from .common import KS, SE1, close, jit, kind, need, pick, points, rint, weights


def norm(w, n):
    w = np.ones(n) if w is None else np.asarray(w, float)
    return w / w.sum()


def bs(rng, n):
    return pick(rng, None, 1, 2, 3, n, n + 1, 2 * n + 3, rint(rng, 1, n))


def blocks(b):
    return tuple(b) if isinstance(b, list) else b


@kind("C06", "compute_mean", weight=5)
class _:
    @staticmethod
    def gen(rng):
        d = pick(rng, 1, 2, 3)
        n, m = rint(rng, 1, 9), rint(rng, 1, 9)
        b = pick(rng, bs(rng, n), [bs(rng, n), bs(rng, m)], [bs(rng, n), bs(rng, m)])
        u = pick(rng, 1, 1, 2, True, [1, 3], [2, 1])
        return dict(k=KS.rand(rng, 0, d=d), n=n, m=m, d=d, s=rint(rng, 0, 10**6), b=b, u=u, wx=pick(rng, "none", "mixed", "zeros", "ones", "big", "tiny"), wy=pick(rng, "none", "mixed", "zeros", "lead0", "tail0"), axis=pick(rng, None, 0, 1), raw=bool(rng.random() < 0.3))

    @staticmethod
    def check(p):
        from coreax.data import Data

        x, y = points(p["s"], p["n"], p["d"]), points(p["s"] + 1, p["m"], p["d"])
        wx, wy = weights(p["s"], p["n"], p["wx"]), weights(p["s"] + 1, p["m"], p["wy"])
        k = KS.make(p["k"])
        G = KS.gram(p["k"], x, y)
        if p["raw"]:
            wx = wy = None
            X, Y = jnp.asarray(x), jnp.asarray(y)
        else:
            X, Y = Data(x, wx), Data(y, wy)
        a, b = norm(wx, p["n"]), norm(wy, p["m"])
        want = {None: a @ G @ b, 0: a @ G, 1: G @ b}[p["axis"]]
        got = jit(lambda u, v: k.compute_mean(u, v, axis=p["axis"], block_size=blocks(p["b"]), unroll=blocks(p["u"])), X, Y)
        close(got, want, f"mean over axis {p['axis']}", scale=max(1.0, float(np.max(np.abs(G)))))


@kind("C06", "gramian_row_mean", weight=2)
class _:
    @staticmethod
    def gen(rng):
        n, d = rint(rng, 1, 10), pick(rng, 1, 2, 3)
        return dict(k=KS.rand(rng, 1, d=d, bounded=True), n=n, d=d, s=rint(rng, 0, 10**6), b=pick(rng, bs(rng, n), [bs(rng, n), bs(rng, n)]), u=pick(rng, 1, 2, [1, 2]), w=pick(rng, "none", "mixed", "zeros"), sup=bool(rng.random() < 0.3))

    @staticmethod
    def check(p):
        from coreax.data import Data, SupervisedData

        x, w = points(p["s"], p["n"], p["d"]), weights(p["s"], p["n"], p["w"])
        X = SupervisedData(x, points(p["s"] + 3, p["n"], 2), w) if p["sup"] else Data(x, w)
        G = KS.gram(p["k"], x, x)
        got = KS.make(p["k"]).gramian_row_mean(X, block_size=blocks(p["b"]), unroll=blocks(p["u"]))
        close(got, norm(w, p["n"]) @ G, "Gramian row mean", scale=max(1.0, float(np.max(np.abs(G)))))


@kind("C06", "larger")
class _:
    corners = [dict(n=130, m=57, s=1, b=[32, 11], axis=0), dict(n=64, m=129, s=2, b=16, axis=None), dict(n=101, m=64, s=3, b=[None, 10], axis=1)]

    @staticmethod
    def gen(rng):
        n, m = rint(rng, 30, 150), rint(rng, 30, 150)
        return dict(n=n, m=m, s=rint(rng, 0, 10**6), b=pick(rng, [rint(rng, 1, n), rint(rng, 1, m)], rint(rng, 2, 40)), axis=pick(rng, None, 0, 1))

    @staticmethod
    def check(p):
        from coreax.data import Data

        x, y = points(p["s"], p["n"], 2), points(p["s"] + 1, p["m"], 2)
        wx, wy = weights(p["s"], p["n"], "zeros"), weights(p["s"] + 1, p["m"], "mixed")
        G = KS.gram(SE1, x, y)
        a, b = norm(wx, p["n"]), norm(wy, p["m"])
        want = {None: a @ G @ b, 0: a @ G, 1: G @ b}[p["axis"]]
        close(KS.make(SE1).compute_mean(Data(x, wx), Data(y, wy), axis=p["axis"], block_size=blocks(p["b"])), want, f"mean over axis {p['axis']}", scale=1.0)
