"""C12 on the real code: recombination."""
import jax
import jax.numpy as jnp
import numpy as np

from .common import *  # noqa: F403
from .common import Skip, as_ints, kind, need, pick, points, raises, rint, weights, x64


def tests_fn(name):
    if name is None:
        return None
    if name == "quad":
        return lambda z: jnp.concatenate([z, z**2])
    if name == "first":
        return lambda z: z[:1]
    return lambda z: jnp.stack([jnp.sin(z).sum(), jnp.cos(2 * z).sum()])


def push(name, x):
    if name is None:
        return x
    return np.stack([np.asarray(tests_fn(name)(jnp.asarray(v)), float) for v in x])


def rank_gap(M, tol_hi, tol_lo):
    s = np.linalg.svd(M, compute_uv=False)
    if s[0] == 0:
        return 0
    q = s / s[0]
    if np.any((q < tol_hi) & (q > tol_lo)):
        raise Skip  # the rank is decided by rounding
    return int((q >= tol_hi).sum())


def check(p):
    from coreax.data import Data
    from coreax.solvers import CaratheodoryRecombination, TreeRecombination

    n = p["n"]
    x = points(p["s"], n, p["d"], p["style"])
    if p.get("line"):  # every column a multiple of the first: fewer independent moments than columns
        x = x[:, :1] * np.array([1.0, 2.0, -1.0, 0.5, 4.0])[: p["d"]]
    if p.get("plane"):
        x[:, -1] = x[:, 0] * 2 - 1
    w = weights(p["s"], n, p["w"])
    D = Data(jnp.asarray(x), w)
    w = np.ones(n) if w is None else w
    kw = dict(test_functions=tests_fn(p["tf"]), mode=p["mode"])
    S = CaratheodoryRecombination(**kw) if p["solver"] == "car" else TreeRecombination(tree_reduction_factor=p["f"], **kw)
    hi, lo = (1e-6, 1e-12) if x64() else (2e-2, 1e-6)
    F = push(p["tf"], x)
    F1 = np.hstack([np.ones((n, 1)), F])
    pos = w > 0
    r = rank_gap(F1[pos], hi, lo)
    if p["solver"] == "tree":
        pass
    c, st = S.reduce(D)
    i = as_ints(c.unweighted_indices)
    u = np.asarray(c.points.weights, float)
    m1 = F.shape[1] + 1
    need(i.shape == u.shape and i.ndim == 1, "one index per weight", i.shape, u.shape)
    need(np.all((i >= 0) & (i < n)), f"indices of the data (n={n})", i)
    need(np.array_equal(np.asarray(c.points.data), np.asarray(D.data)[i]), "points are the rows at the indices")
    need(np.array_equal(np.asarray(c.pre_coreset_data.data), np.asarray(D.data)) and np.array_equal(np.asarray(c.pre_coreset_data.weights), np.asarray(D.weights)), "the original data is unchanged")
    t = 1e-8 if x64() else 2e-3
    sc = max(1.0, np.abs(F).max())
    need(np.all(np.isfinite(u)) and np.all(u >= -t), "non-negative weights", u)
    need(abs(u.sum() - 1) <= t * 10, "weights sum to one", u.sum())
    need(np.all(np.abs(u @ F[i] - (w / w.sum()) @ F) <= t * 20 * sc), "weighted mean of the test functions", u @ F[i], (w / w.sum()) @ F)
    need(np.all(u[w[i] == 0] <= t), "a zero-weighted input point receives weight", i, u, w)
    big = int((u > t).sum())
    need(big <= r, f"{big} positive weights for {r} independent components", u)
    if p["mode"] == "explicit":
        need(np.all(u != 0), "explicit mode returns only points with weight", u)
    elif p["mode"] == "implicit":
        need(len(u) == n, "implicit mode pads to the number of points", len(u), n)
    else:
        need(len(u) == min(n, m1), "default mode pads to at most the number of moments plus one", len(u), n, m1)


def gen0(rng, solver):
    if rng.random() < 0.2:  # linearly dependent moments
        return dict(solver=solver, n=rint(rng, 2, 10), d=rint(rng, 2, 5), s=rint(rng, 0, 10**6), style=pick(rng, "normal", "lattice", "sorted"), line=True, w=pick(rng, "none", "mixed", "zeros"), tf=None, mode=pick(rng, "implicit-explicit", "implicit-explicit", "implicit", "explicit"), f=pick(rng, 2, 3))
    return dict(solver=solver, n=rint(rng, 1, 12) if rng.random() < 0.7 else rint(rng, 13, 40), d=pick(rng, 1, 2, 3), s=rint(rng, 0, 10**6), style=pick(rng, "normal", "normal", "dups", "same", "lattice", "sorted"), plane=bool(rng.random() < 0.15), w=pick(rng, "none", "mixed", "zeros", "zeros", "lead0", "tail0", "big", "tiny"), tf=pick(rng, None, None, "quad", "first", "trig"), mode=pick(rng, "implicit-explicit", "implicit", "explicit"), f=pick(rng, 2, 2, 3, 4))


@kind("C12", "caratheodory", weight=4)
class _:
    @staticmethod
    def gen(rng):
        return gen0(rng, "car")

    check = staticmethod(check)


@kind("C12", "tree", weight=4)
class _:
    @staticmethod
    def gen(rng):
        return gen0(rng, "tree")

    check = staticmethod(check)


@kind("C12", "mode", weight=0)
class _:
    corners = [dict(mode="other"), dict(mode="Explicit")]

    @staticmethod
    def gen(rng):
        return None

    @staticmethod
    def check(p):
        from coreax.solvers import CaratheodoryRecombination, TreeRecombination

        for S in (CaratheodoryRecombination, TreeRecombination):
            raises(ValueError, lambda S=S: S(mode=p["mode"]), "invalid mode")
