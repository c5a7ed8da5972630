"""C07 on the real code: closed forms, symmetry, pairwise layout, validation."""
import numpy as np

from .common import *  # noqa: F403
from .common import KS, close, jit, jnp, kind, need, pick, points, raises, rint


@kind("C07", "closed-form", weight=4)
class _:
    @staticmethod
    def gen(rng):
        d = pick(rng, 1, 1, 2, 3, 5)
        return dict(k=KS.rand(rng, 0, d=d), d=d, n=rint(rng, 1, 5), m=rint(rng, 1, 5), s=rint(rng, 0, 10**6), style=pick(rng, "normal", "lattice", "dups"), scale=pick(rng, 1.0, 1.0, 0.1, 4.0))

    @staticmethod
    def check(p):
        k = KS.make(p["k"])
        x, y = points(p["s"], p["n"], p["d"], p["style"], p["scale"]), points(p["s"] + 1, p["m"], p["d"], p["style"], p["scale"])
        want = KS.gram(p["k"], x, y)
        a, b, e = jit(lambda u, v: (k.compute(u, v), k.compute(v, u), k.compute_elementwise(u[0], v[-1])), x, y)
        close(a, want, "kernel matrix", scale=1.0)
        close(b, want.T, "kernel matrix of swapped arguments", scale=1.0)
        close(e, want[0, -1], "elementwise value", scale=1.0)


@kind("C07", "pairwise", weight=3)
class _:
    @staticmethod
    def gen(rng):
        d = pick(rng, 1, 2, 3, 4)
        return dict(k=KS.rand(rng, 1, d=d), d=d, n=rint(rng, 1, 4), m=rint(rng, 1, 4), s=rint(rng, 0, 10**6))

    @staticmethod
    def check(p):
        k = KS.make(p["k"])
        x, y = points(p["s"], p["n"], p["d"]), points(p["s"] + 1, p["m"], p["d"])
        n, m, d = p["n"], p["m"], p["d"]
        nms = ("compute", "grad_x", "grad_y", "divergence_x_grad_y")
        idx = sorted({(0, m - 1), (n - 1, 0)})
        fulls, els = jit(lambda u, v: ([getattr(k, q)(u, v) for q in nms], [[getattr(k, q + "_elementwise")(u[i], v[j]) for i, j in idx] for q in nms]), x, y)
        for nm, full, el in zip(nms, fulls, els):
            full = np.asarray(full)
            need(full.shape == ((n, m, d) if nm.startswith("grad") else (n, m)), f"{nm}: shape", full.shape)
            for (i, j), e in zip(idx, el):
                if np.all(np.isfinite(e)):
                    close(full[i, j], e, f"{nm}[{i},{j}]", scale=max(1.0, float(np.max(np.abs(e)))))
        # a set against itself, as one and the same object
        xj = jnp.asarray(x)
        idx = sorted({(0, n - 1), (n - 1, 0), (0, 0)})
        fulls, els = jit(lambda u: ([getattr(k, q)(u, u) for q in nms], [[getattr(k, q + "_elementwise")(u[i], u[j]) for i, j in idx] for q in nms]), xj)
        for nm, full, el in zip(nms, fulls, els):
            for (i, j), e in zip(idx, el):
                if np.all(np.isfinite(e)):
                    close(np.asarray(full)[i, j], e, f"{nm} of a set with itself [{i},{j}]", scale=max(1.0, float(np.max(np.abs(e)))))


@kind("C07", "single-points")
class _:
    @staticmethod
    def gen(rng):
        d = pick(rng, 1, 2, 3)
        return dict(k=KS.rand(rng, 0, d=d), d=d, s=rint(rng, 0, 10**6))

    @staticmethod
    def check(p):
        k = KS.make(p["k"])
        x, y = points(p["s"], 1, p["d"])[0], points(p["s"] + 1, 1, p["d"])[0]
        close(k.compute(jnp.asarray(x), jnp.asarray(y)), KS.gram(p["k"], x[None], y[None]), "single points", scale=1.0)
        if p["d"] == 1:
            close(k.compute(float(x[0]), float(y[0])), KS.gram(p["k"], x[None], y[None]), "scalars", scale=1.0)


@kind("C07", "validation")
class _:
    CASES = [
        ("LinearKernel", dict(output_scale="p", constant="n")),
        ("PolynomialKernel", dict(output_scale="p", constant="n", degree="d2")),
        ("ExponentialKernel", dict(length_scale="p", output_scale="p")),
        ("LaplacianKernel", dict(length_scale="p", output_scale="p")),
        ("SquaredExponentialKernel", dict(length_scale="p", output_scale="p")),
        ("PCIMQKernel", dict(length_scale="p", output_scale="p")),
        ("RationalQuadraticKernel", dict(length_scale="p", output_scale="p", relative_weighting="n")),
        ("MaternKernel", dict(length_scale="p", output_scale="p", degree="d0")),
        ("PeriodicKernel", dict(length_scale="p", output_scale="p")),
        ("LocallyPeriodicKernel", dict(periodic_length_scale="p", periodic_output_scale="p", squared_exponential_length_scale="p", squared_exponential_output_scale="p")),
        ("PoissonKernel", dict(index="u", output_scale="p")),
    ]
    corners = [dict(case=i) for i in range(11)]

    @staticmethod
    def gen(rng):
        return dict(case=rint(rng, 0, 10), v=round(float(rng.uniform(0.01, 5)), 3))

    @staticmethod
    def check(p):
        import coreax.kernels as ck

        cls, ps = _CASES[p["case"]]
        v = p.get("v", 1.0)
        bads = dict(p=[0.0, -v, -1e-9, 0, -1], n=[-v, -1e-9, -1], d2=[1, 0, -1, 2.5], d0=[-1, -2, 1.5, 0.5], u=[0.0, 1.0, -v, 1 + v])
        goods = dict(p=[v, 1e-6, 1], n=[0.0, v], d2=[2, 3, 6], d0=[0, 1, 4], u=[0.5, 1e-3, 0.999])
        base = {q: dict(p=1.0, n=1.0, d2=2, d0=1, u=0.5)[r] for q, r in ps.items()}
        ctor = getattr(ck, cls)
        for q, r in ps.items():
            for b in bads[r]:
                raises((ValueError, TypeError) if isinstance(b, float) and r.startswith("d") else ValueError, lambda: ctor(**dict(base, **{q: b})), f"{cls}({q}={b})")
            for g in goods[r]:
                ctor(**dict(base, **{q: g}))


_CASES = _.CASES
