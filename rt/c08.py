"""C08 on the real code: gradients and divergences against exact derivatives of the closed form."""
import jax
import jax.numpy as jnp
import numpy as np

from .common import *  # noqa: F403
from .common import KS, Skip, close, jit, kind, need, pick, points, rint, set_x64, tol


def oracle(k, x, y):
    """Exact derivatives (float64) of the documented closed form, independent of coreax."""
    keep = jax.config.jax_enable_x64
    set_x64(True)
    try:
        f = lambda a, b: KS.value(k, a, b, jnp)  # noqa: E731
        one = lambda a, b: (jax.grad(f, 0)(a, b), jax.grad(f, 1)(a, b), jnp.trace(jax.jacfwd(jax.grad(f, 1), 0)(a, b)), f(a, b))  # noqa: E731
        pw = jax.jit(jax.vmap(jax.vmap(one, (None, 0)), (0, None)))
        return [np.asarray(q) for q in pw(jnp.asarray(np.asarray(x, float)), jnp.asarray(np.asarray(y, float)))]
    finally:
        set_x64(keep)


def has_scaled_periodic(k):
    if k["t"] in ("Per", "LP"):
        return k["os"] != 1.0
    return any(has_scaled_periodic(k[q]) for q in ("a", "b") if q in k)


def compare(k, x, y, known_div=False):
    ker = KS.make(k)
    gx, gy, div, v = oracle(k, x, y)
    n, m, d = gx.shape
    ok = np.isfinite(div) & (np.abs(v) < 1e5) & (np.abs(div) < 1e6) & np.all(np.isfinite(gx), -1)
    if kinked(k):
        ok &= np.all(np.abs(np.asarray(x)[:, None] - np.asarray(y)[None]) > 1e-3, -1)
    if not ok.any():
        raise Skip
    i, j = [int(q) for q in np.argwhere(ok)[0]]
    f = lambda a, b: (ker.grad_x(a, b), ker.grad_y(a, b), ker.divergence_x_grad_y(a, b), ker.grad_x_elementwise(a[i], b[j]), ker.grad_y_elementwise(a[i], b[j]), ker.divergence_x_grad_y_elementwise(a[i], b[j]))  # noqa: E731
    GX, GY, DV, ex, ey, ed = (np.asarray(q) for q in jit(f, jnp.asarray(x), jnp.asarray(y)))
    need(GX.shape == GY.shape == (n, m, d) and DV.shape == (n, m), "shapes", GX.shape, GY.shape, DV.shape)
    need(ex.shape == ey.shape == (d,) and ed.shape == (), "elementwise shapes", ex.shape, ey.shape, ed.shape)
    s = max(1.0, float(np.max(np.abs(gx[ok]))), float(np.max(np.abs(div[ok]))), float(np.max(np.abs(v[ok]))))
    close(GX[ok], gx[ok], "grad_x", scale=s)
    close(GY[ok], gy[ok], "grad_y", scale=s)
    close(ex, gx[i, j], "grad_x_elementwise", scale=s)
    close(ey, gy[i, j], "grad_y_elementwise", scale=s)
    if known_div and has_scaled_periodic(k):
        # known finding K1: exactly this much off, anything else is a new violation
        e = np.sqrt((((np.asarray(x)[:, None] - np.asarray(y)[None]) ** 2).sum(-1)))
        f = np.pi / k["per"]
        dl = 16 * f**2 / k["ls"] ** 4 * k["os"] * (1 - k["os"]) * np.sin(f * e) ** 2 * np.cos(f * e) ** 2 * np.exp(-2 * np.sin(f * e) ** 2 / k["ls"] ** 2)
        if k["t"] == "LP":
            dl = dl * k["os2"] * np.exp(-(e**2) / (2 * k["ls2"] ** 2))
        r, t = tol()
        if np.all(np.abs(DV[ok] - div[ok]) <= t + r * s):
            return
        div = div + dl
        s = max(s, float(np.max(np.abs(dl[ok]))))
    close(DV[ok], div[ok], "divergence", scale=s)
    close(ed, div[i, j], "divergence elementwise", scale=s)


def xy(p):
    n = p.get("n", 3)
    x, y = (points(p["s"] + q, n, p["d"], p.get("style", "normal"), p.get("scale", 1.0)) for q in (0, 1))
    if p.get("same"):
        y = x.copy()
    return x, y


def kinked(k):
    """Not differentiable where coordinates (or points) coincide."""
    t = k["t"]
    if t in ("Exp", "Lap", "Matern", "Per", "LP"):
        return True
    return any(kinked(k[q]) for q in ("a", "b") if q in k)


@kind("C08", "single kernels", weight=4)
class _:
    @staticmethod
    def gen(rng):
        d = pick(rng, 1, 2, 3, 4)
        k = KS.rand(rng, 0, d=d)
        if k["t"] in ("Per", "LP") and rng.random() < 0.7:
            k["os"] = 1.0
        if k["t"] == "Matern":
            k["q"] = rint(rng, 0, 5)
        return dict(k=k, d=d, s=rint(rng, 0, 10**6), same=bool(rng.random() < 0.1), scale=pick(rng, 1.0, 0.3, 2.0))

    @staticmethod
    def check(p):
        x, y = xy(p)
        compare(p["k"], x, y, known_div=True)


@kind("C08", "composites", weight=6)
class _:
    corners = [
        dict(k=dict(t="mul", a=dict(t="Linear", os=1.0, c=0.0), b=dict(t="Linear", os=1.0, c=0.0)), d=2, s=5, zero=True),
        dict(k=dict(t="pow", a=dict(t="Linear", os=1.0, c=0.0), p=1), d=2, s=5, zero=True),
        dict(k=dict(t="pow", a=dict(t="Linear", os=1.0, c=0.0), p=2), d=2, s=5, zero=True),
        dict(k=dict(t="pow", a=dict(t="Linear", os=1.0, c=0.0), p=3), d=2, s=5, zero=True),
        dict(k=dict(t="mulc", a=dict(t="SE", ls=1.0, os=1.0), c=2.0, side="r"), d=3, s=7),
        dict(k=dict(t="addc", a=dict(t="SE", ls=1.0, os=1.0), c=2.0, side="l"), d=3, s=7),
        dict(k=dict(t="mulc", a=dict(t="SE", ls=1.0, os=1.0), c=0.0, side="r"), d=3, s=7),
    ]

    @staticmethod
    def gen(rng):
        d = pick(rng, 1, 2, 3)
        k = KS.rand(rng, 2, d=d)
        if "a" not in k:
            k = dict(t=pick(rng, "add", "mul"), a=k, b=KS.rand(rng, 0, d=d)) if rng.random() < 0.6 else dict(t="pow", a=k, p=rint(rng, 1, 4))

        def fix(k):
            if k["t"] in ("Per", "LP"):
                k["os"] = 1.0
            for q in ("a", "b"):
                if q in k:
                    fix(k[q])

        fix(k)
        return dict(k=k, d=d, s=rint(rng, 0, 10**6), scale=pick(rng, 1.0, 0.5))

    @staticmethod
    def check(p):
        x, y = xy(p)
        if p.get("zero"):
            x, y = np.zeros((1, p["d"])), np.zeros((1, p["d"]))
            x[0, 0], y[0, 1] = 1.0, 2.0
        compare(p["k"], x, y)


@kind("C08", "known:K1", weight=0)
class _:
    @staticmethod
    def gen(rng):
        return None

    @staticmethod
    def check(p):
        x, y = np.array([[0.3, 1.1]]), np.array([[-0.2, 0.4]])
        compare(p["k"], x, y)
