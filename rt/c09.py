"""C09 on the real code: kernel arithmetic."""
import jax.numpy as jnp
import numpy as np

from .common import *  # noqa: F403
from .common import KS, close, jit, kind, need, pick, points, raises, rint


@kind("C09", "values", weight=4)
class _:
    @staticmethod
    def gen(rng):
        d = pick(rng, 1, 2, 3)
        k = KS.rand(rng, 3, d=d, bounded=bool(rng.random() < 0.6))
        if "a" not in k:
            k = dict(t=pick(rng, "add", "mul"), a=k, b=pick(rng, k, KS.rand(rng, 1, d=d)))
        return dict(k=k, d=d, n=rint(rng, 1, 3), m=rint(rng, 1, 3), s=rint(rng, 0, 10**6))

    @staticmethod
    def check(p):
        x, y = points(p["s"], p["n"], p["d"]), points(p["s"] + 1, p["m"], p["d"])
        want = KS.gram(p["k"], x, y)
        if np.max(np.abs(want)) > 1e6:
            raise Skip
        close(jit(KS.make(p["k"]).compute, x, y), want, "composite value", scale=max(1.0, float(np.max(np.abs(want)))))


@kind("C09", "same class, different parameters", weight=2)
class _:
    @staticmethod
    def gen(rng):
        d = 2
        a = KS.rand(rng, 0, d=d)
        b = dict(a)
        q = pick(rng, *[q for q in a if q not in ("t", "q", "deg")])
        b[q] = round(a[q] * 1.37 + 0.05, 4)
        return dict(k=dict(t=pick(rng, "mul", "add"), a=a, b=b), d=d, s=rint(rng, 0, 10**6))

    @staticmethod
    def check(p):
        x, y = points(p["s"], 3, p["d"]), points(p["s"] + 1, 2, p["d"])
        want = KS.gram(p["k"], x, y)
        close(jit(KS.make(p["k"]).compute, x, y), want, "composite value", scale=max(1.0, float(np.max(np.abs(want)))))


@kind("C09", "swapped or traced operands", weight=1)
class _:
    """Kernels built under jit (array-valued parameters) and in both operand orders."""

    @staticmethod
    def gen(rng):
        return dict(a=KS.rand(rng, 0, d=2), b=KS.rand(rng, 0, d=2), t=pick(rng, "mul", "add"), s=rint(rng, 0, 10**6))

    @staticmethod
    def check(p):
        x, y = points(p["s"], 3, 2), points(p["s"] + 1, 2, 2)
        w = KS.gram(dict(t=p["t"], a=p["a"], b=p["b"]), x, y)
        s = max(1.0, float(np.max(np.abs(w))))
        close(jit(KS.make(dict(t=p["t"], a=p["b"], b=p["a"])).compute, x, y), w, "swapped operands", scale=s)


@kind("C09", "rejection")
class _:
    corners = [dict(v=1.0), dict(v=1e-9)]

    @staticmethod
    def gen(rng):
        return dict(v=round(float(rng.uniform(0.001, 9)), 3))

    @staticmethod
    def check(p):
        v = p["v"]
        k = KS.make(dict(t="SE", ls=1.0, os=1.0))
        for nm, f in dict(add=lambda c: k + c, radd=lambda c: c + k, mul=lambda c: k * c, rmul=lambda c: c * k).items():
            raises(ValueError, lambda: f(-v), f"{nm} with a negative constant")
            raises(ValueError, lambda: f(-1), f"{nm} with a negative integer")
            raises((ValueError, TypeError), lambda: f("1"), f"{nm} with a string")
            raises((ValueError, TypeError), lambda: f([1.0]), f"{nm} with a list")
            raises((ValueError, TypeError), lambda: f(None), f"{nm} with None")
            f(0)
            f(0.0)
            f(v)
        for b in (0, -1, -3, 1.5, v + 0.5 if v + 0.5 != int(v + 0.5) else 0.25, "2", None):
            raises((ValueError, TypeError), lambda: k**b, f"power {b}")
        for g in (1, 2, 5):
            k**g
