"""C16 on the real code: Stein kernels, kernel-density scores, conversion."""
import jax
import jax.numpy as jnp
import numpy as np

from .common import *  # noqa: F403
from .common import KS, Skip, close, kind, need, pick, points, rint, se, x64


def score_fn(name, d):
    if name == "neg":
        return lambda z: -z
    if name == "affine":
        A = jnp.asarray(np.random.default_rng(d).normal(size=(d, d)).round(3))
        return lambda z: z @ A + 0.3
    return lambda z: jnp.sin(z) * 2 - z * jnp.sum(z**2, axis=-1, keepdims=True)


def kern(rng, d):
    k = KS.rand(rng, 1, d=d, smooth=True)
    while "Poisson" in str(k) or "'q': 2" in str(k) and rng.random() < 0.9:
        k = KS.rand(rng, 1, d=d, smooth=True)
    return k


@kind("C16", "stein kernel", weight=4)
class _:
    @staticmethod
    def gen(rng):
        d = pick(rng, 1, 2, 3, 4)
        return dict(s=rint(rng, 0, 10**6), d=d, n=rint(rng, 1, 4), m=rint(rng, 1, 4), k=kern(rng, d), sc=pick(rng, "neg", "affine", "curved"))

    @staticmethod
    def check(p):
        from coreax.kernels import SteinKernel

        x, y = points(p["s"], p["n"], p["d"]), points(p["s"] + 1, p["m"], p["d"])
        f = score_fn(p["sc"], p["d"])
        k = KS.make(p["k"])
        kv = lambda a, b: KS.value(p["k"], a, b, jnp)  # noqa: E731

        def sk(a, b):
            gx, gy = jax.grad(kv, 0)(a, b), jax.grad(kv, 1)(a, b)
            div = jnp.trace(jax.jacfwd(jax.grad(kv, 1), 0)(a, b))
            return div + jnp.dot(gx, f(b)) + jnp.dot(gy, f(a)) + kv(a, b) * jnp.dot(f(a), f(b))

        want = np.asarray(jax.jit(jax.vmap(jax.vmap(sk, (None, 0)), (0, None)))(jnp.asarray(x), jnp.asarray(y)), float)
        if not np.isfinite(want).all() or np.abs(want).max() > 1e5:
            raise Skip
        S = SteinKernel(k, score_function=f)
        sc = max(1.0, np.abs(want).max())
        close(jax.jit(S.compute)(x, y), want, "Stein kernel matrix", scale=sc)
        close(S.compute_elementwise(jnp.asarray(x[0]), jnp.asarray(y[0])), want[0, 0], "Stein kernel value", scale=sc)


def kde_score(x, z, ls, w=None):
    x = np.asarray(x, float)
    d2 = ((z[:, None] - x[None]) ** 2).sum(-1) / (2 * ls**2)
    e = np.exp(-(d2 - d2.min(1, keepdims=True)))
    pr = e / e.sum(1, keepdims=True)
    return (pr[:, :, None] * (x[None] - z[:, None])).sum(1) / ls**2


@kind("C16", "density score", weight=5)
class _:
    @staticmethod
    def gen(rng):
        return dict(s=rint(rng, 0, 10**6), d=pick(rng, 1, 2, 3), n=rint(rng, 1, 12), m=rint(rng, 1, 6), ls=round(float(rng.uniform(0.4, 2.5)), 3), form=pick(rng, "batch", "single", "batch1"), jit=bool(rng.random() < 0.4), style=pick(rng, "normal", "dups", "lattice"))

    @staticmethod
    def check(p):
        from coreax.score_matching import KernelDensityMatching

        x = points(p["s"], p["n"], p["d"], p["style"])
        z = points(p["s"] + 1, 1 if p["form"] == "batch1" else p["m"], p["d"])
        f = KernelDensityMatching(length_scale=p["ls"]).match(jnp.asarray(x))
        if p["jit"]:
            f = jax.jit(f)
        d2 = ((z[:, None] - x[None]) ** 2).sum(-1) / (2 * p["ls"] ** 2)
        if d2.min(1).max() > (300 if x64() else 40):
            raise Skip  # the density underflows
        want = kde_score(x, z, p["ls"])
        t = dict(rtol=1e-7, atol=1e-8) if x64() else dict(rtol=5e-3, atol=1e-2)
        if p["form"] == "single":
            got = np.stack([np.asarray(f(jnp.asarray(v))) for v in z[:3]])
            close(got, want[:3], "score at single points", **t)
        else:
            close(f(jnp.asarray(z)), want, "score at a batch", **t)


@kind("C16", "conversion", weight=4)
class _:
    @staticmethod
    def gen(rng):
        return dict(s=rint(rng, 0, 10**6), d=pick(rng, 1, 2), n=rint(rng, 2, 8), stein=bool(rng.random() < 0.5), match=pick(rng, None, "custom", "kde"), k=pick(rng, se(rng), se(rng), dict(t="PCIMQ", ls=round(float(rng.uniform(0.4, 2)), 3), os=1.5), dict(t="RQ", ls=0.7, os=1.2, rw=1.5), dict(t="Poly", os=1.0, c=0.5, deg=2)))

    @staticmethod
    def check(p):
        from coreax.kernels import SteinKernel
        from coreax.score_matching import KernelDensityMatching, convert_stein_kernel

        x = jnp.asarray(points(p["s"], p["n"], p["d"]))
        base = KS.make(p["k"])
        own = lambda z: -2.0 * z  # noqa: E731
        seen = []

        class Custom:
            def match(self, data):
                seen.append(data)
                return lambda z: 0.7 * z + 0.1

        k = SteinKernel(base, score_function=own) if p["stein"] else base
        m = {None: None, "custom": Custom(), "kde": KernelDensityMatching(length_scale=0.83)}[p["match"]]
        got = convert_stein_kernel(x, k, m)
        need(isinstance(got, SteinKernel), "a Stein kernel is returned", type(got))
        need(not isinstance(got.base_kernel, SteinKernel), "the base kernel is the given kernel", type(got.base_kernel))
        z = points(p["s"] + 3, 3, p["d"])
        close(got.base_kernel.compute(x, z), base.compute(x, z), "base kernel of the result")
        s = np.asarray(got.score_function(jnp.asarray(z)), float)
        if p["match"] == "custom":
            want = 0.7 * z + 0.1
            need(len(seen) == 1 and np.array_equal(np.asarray(seen[0]), np.asarray(x)), "the score is matched on the given data")
        elif p["match"] == "kde":
            want = kde_score(x, z, 0.83)
        elif p["stein"]:
            want = -2.0 * z
        else:
            want = kde_score(x, z, p["k"].get("ls", 1.0))
        close(s, want, "score of the converted kernel", **(dict(rtol=1e-6, atol=1e-7) if x64() else dict(rtol=1e-2, atol=2e-2)))
