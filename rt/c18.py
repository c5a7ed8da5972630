"""C18 on the real code: approximate kernels."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from .common import *  # noqa: F403
from .common import KS, Skip, close, kind, need, pick, points, raises, rint, se, x64
from .solvers import key


def cls(t):
    import coreax.approximation as ca

    return dict(mc=ca.MonteCarloApproximateKernel, ann=ca.ANNchorApproximateKernel, nys=ca.NystromApproximateKernel)[t]


@kind("C18", "pass through", weight=3)
class _:
    @staticmethod
    def gen(rng):
        d = pick(rng, 1, 2, 3)
        k = KS.rand(rng, 1, d=d)
        while "Poisson" in str(k):
            k = KS.rand(rng, 1, d=d)
        return dict(s=rint(rng, 0, 10**6), d=d, n=rint(rng, 1, 4), m=rint(rng, 1, 4), k=k, t=pick(rng, "mc", "ann", "nys"))

    @staticmethod
    def check(p):
        b = KS.make(p["k"])
        a = cls(p["t"])(base_kernel=b, random_key=key(0), num_kernel_points=3, num_train_points=4)
        x, y = jnp.asarray(points(p["s"], p["n"], p["d"])), jnp.asarray(points(p["s"] + 1, p["m"], p["d"]))
        for f in ("compute", "grad_x", "grad_y", "divergence_x_grad_y"):
            u, v = np.asarray(jax.jit(lambda u, v: getattr(a, f)(u, v))(x, y), float), np.asarray(jax.jit(lambda u, v: getattr(b, f)(u, v))(x, y), float)
            close(u, v, f"{f} of an approximate kernel", rtol=1e-6, atol=1e-6 * max(1.0, np.nanmax(np.abs(v)) if np.isfinite(v).any() else 1.0))
        if p["k"]["t"] == "SE":
            close(a.compute(x, y), KS.gram(p["k"], x, y), "value")


def regress(K, A, T, target):
    F = K[:, list(A)]
    FT = F[list(T)]
    s = np.linalg.svd(FT, compute_uv=False) if min(FT.shape) else np.array([1.0])
    bad = min(FT.shape) > 0 and s.min() < (1e-5 if x64() else 3e-2) * s.max()
    co = np.linalg.lstsq(FT, target(list(T)), rcond=None)[0]
    return F @ co, bad


@kind("C18", "row mean", weight=5)
class _:
    @staticmethod
    def gen(rng):
        t = pick(rng, "mc", "mc", "nys", "nys", "ann")
        n = rint(rng, 1, 6)
        kp, tp = rint(rng, 1, n), rint(rng, 1, n)
        if t == "mc" and kp == 1 and n > 1:
            kp = 2
        if t == "ann":
            n = rint(rng, 1, 8)
            kp, tp = rint(rng, 1, n), rint(rng, 1, n)
        return dict(t=t, n=n, d=pick(rng, 1, 2), s=rint(rng, 0, 10**6), kp=kp, tp=tp, key=rint(rng, 0, 10**6), k=dict(se(rng), ls=round(float(rng.uniform(0.2, 0.7)), 3)), data=bool(rng.random() < 0.4))

    @staticmethod
    def check(p):
        from coreax.data import Data

        n = p["n"]
        na = p["kp"] - 1 if p["t"] == "mc" else p["kp"]
        if na == 0:
            raise Skip
        x = points(p["s"], n, p["d"])
        K = KS.gram(p["k"], x, x)
        a = cls(p["t"])(base_kernel=KS.make(p["k"]), random_key=key(p["key"]), num_kernel_points=p["kp"], num_train_points=p["tp"])
        X = Data(jnp.asarray(x)) if p["data"] else jnp.asarray(x)
        got = np.asarray(a.gramian_row_mean(X), float)
        need(got.shape == (n,), "one entry per data point", got.shape)
        if p["t"] == "nys":
            target = lambda T: K[np.ix_(T, T)].mean(1)  # noqa: E731
        else:
            target = lambda T: K[:, T].mean(0)  # noqa: E731
        if p["t"] == "ann":
            anchors = [0]
            while len(anchors) < na:
                F = np.zeros((n, na))
                F[:, : len(anchors)] = K[:, anchors]
                mx = F.max(1)
                j = int(mx.argmin())
                if np.sort(mx)[min(1, n - 1)] - mx.min() < 1e-4 and n > 1:
                    raise Skip
                anchors.append(j)
            As = [tuple(anchors)]
        else:
            As = list(itertools.combinations(range(n), na))
        best, doubt = np.inf, False
        for A in As:
            for T in itertools.combinations(range(n), p["tp"]):
                v, bad = regress(K, A, T, target)
                doubt |= bad
                best = min(best, np.abs(v - got).max() / max(1.0, np.abs(v).max()))
        if doubt and best > (1e-5 if x64() else 2e-2):
            raise Skip
        need(best < (1e-6 if x64() else 5e-3), "the row mean is a regression on distinct anchors and distinct training points", best, got)


@kind("C18", "row mean, other kernels", weight=2)
class _:
    """Complete anchors and training points: the regression is exact."""

    @staticmethod
    def gen(rng):
        n = rint(rng, 2, 8)
        t = pick(rng, "nys", "ann", "mc")
        return dict(t=t, n=n, d=2, s=rint(rng, 0, 10**6), kp=n, tp=n, key=rint(rng, 0, 10**6), k=pick(rng, dict(t="Lap", ls=0.6, os=1.3), dict(t="Exp", ls=0.6, os=0.8), dict(t="Matern", ls=0.5, os=1.2, q=1)))

    @staticmethod
    def check(p):
        n = p["n"]
        x = points(p["s"], n, p["d"])
        K = KS.gram(p["k"], x, x)
        if np.linalg.cond(K) > (1e5 if x64() else 300):
            raise Skip
        a = cls(p["t"])(base_kernel=KS.make(p["k"]), random_key=key(p["key"]), num_kernel_points=n, num_train_points=n)
        got = np.asarray(a.gramian_row_mean(jnp.asarray(x)), float)
        if p["t"] == "mc":
            # one anchor fewer than points: least squares over all subsets
            m = K.mean(0)
            best = min(np.abs(K[:, list(A)] @ np.linalg.lstsq(K[:, list(A)], m, rcond=None)[0] - got).max() for A in itertools.combinations(range(n), n - 1))
            need(best < (1e-6 if x64() else 1e-2), "regression on all points", best)
        elif p["t"] == "nys" or len(x) == len(np.unique(x, axis=0)):
            close(got, K.mean(0), "complete regression is exact", **(dict(rtol=1e-6, atol=1e-7) if x64() else dict(rtol=1e-2, atol=1e-2)))


@kind("C18", "errors", weight=2)
class _:
    corners = [dict(t=t, n=5, kp=kp, tp=tp, init=True) for t in ("mc", "ann", "nys") for kp, tp in ((0, 2), (2, 0), (-1, 2), (2, -3))]

    @staticmethod
    def gen(rng):
        n = rint(rng, 1, 6)
        t = pick(rng, "mc", "nys", "ann")
        if t == "ann" or rng.random() < 0.5:
            return dict(t=t, n=n, kp=rint(rng, 1, n), tp=rint(rng, n + 1, n + 4), init=False)
        return dict(t=t, n=n, kp=rint(rng, n + (2 if t == "mc" else 1), n + 5), tp=rint(rng, 1, n), init=False)

    @staticmethod
    def check(p):
        mk = lambda: cls(p["t"])(base_kernel=KS.make(dict(t="SE", ls=1.0, os=1.0)), random_key=key(0), num_kernel_points=p["kp"], num_train_points=p["tp"])  # noqa: E731
        if p["init"]:
            raises(ValueError, mk, "numbers of points must be positive")
        else:
            x = jnp.asarray(points(1, p["n"], 2))
            raises(ValueError, lambda: mk().gramian_row_mean(x), "more kernel or training points than data")
