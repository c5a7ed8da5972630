"""Concrete solver configurations and data sets for the run-time contracts of the solvers."""
import jax
import jax.numpy as jnp
import numpy as np

from .common import KS, Bad, Skip, as_ints, need, pick, points, rint, se, weights, x64


def key(s):
    return jax.random.key(int(s))


def lin_score(z):
    return -z


def make(p):
    """p: dict(solver, m, ...) -> real solver."""
    import coreax.kernels as ck
    from coreax.solvers import CompressPlusPlus, GreedyKernelPoints, KernelHerding, KernelThinning, RandomSample, RPCholesky, SteinThinning

    t, m = p["solver"], p["m"]
    uq = p.get("unique", True)
    bs = p.get("bs")
    bs = tuple(bs) if isinstance(bs, list) else bs
    if t == "random":
        return RandomSample(coreset_size=m, random_key=key(p["key"]), unique=uq, weighted=p.get("weighted", False))
    k = KS.make(p["k"])
    if t == "herding":
        return KernelHerding(coreset_size=m, kernel=k, unique=uq, block_size=bs, unroll=p.get("unroll", 1))
    if t == "prob":
        return KernelHerding(coreset_size=m, kernel=k, unique=uq, block_size=bs, probabilistic=True, temperature=p.get("temp", 1.0), random_key=key(p["key"]))
    if t == "stein":
        kk = ck.SteinKernel(k, score_function=lin_score) if p.get("sk", True) else k
        return SteinThinning(coreset_size=m, kernel=kk, unique=uq, regularise=p.get("reg", False), block_size=bs, regulariser_lambda=p.get("lam"))
    if t == "rpc":
        return RPCholesky(coreset_size=m, random_key=key(p["key"]), kernel=k, unique=uq)
    if t == "gkp":
        return GreedyKernelPoints(coreset_size=m, random_key=key(p["key"]), feature_kernel=k, unique=uq, candidate_batch_size=p.get("cb"), loss_batch_size=p.get("lb"), regularisation_parameter=p.get("rp", 1e-3))
    if t == "kt":
        return KernelThinning(coreset_size=m, kernel=k, random_key=key(p["key"]), delta=p.get("delta", 0.1), sqrt_kernel=k)
    if t == "cpp":
        return CompressPlusPlus(coreset_size=m, g=p["g"], kernel=k, random_key=key(p["key"]), delta=p.get("delta", 0.1), sqrt_kernel=k)
    raise ValueError(t)


def dataset(p):
    """Real container and the plain arrays."""
    from coreax.data import Data, SupervisedData

    x = points(p["s"], p["n"], p["d"], p.get("style", "normal"))
    w = weights(p["s"], p["n"], p.get("w", "none"), min_pos=max(p["m"], p.get("minpos", 1)))
    y = points(p["s"] + 5, p["n"], 1) if p.get("sup") else None
    D = Data(jnp.asarray(x), w) if y is None else SupervisedData(jnp.asarray(x), jnp.asarray(y), w)
    return D, x, y, np.ones(p["n"]) if w is None else w


SOLVERS = ("random", "herding", "prob", "stein", "rpc", "gkp", "kt", "cpp")


def gen(rng, solver=None, big=False):
    t = solver or pick(rng, "random", "herding", "herding", "prob", "stein", "rpc", "rpc", "gkp", "gkp", "kt", "kt", "cpp")
    p = dict(solver=t, s=rint(rng, 0, 10**6), d=pick(rng, 1, 2, 3), key=rint(rng, 0, 10**6), sup=bool(rng.random() < 0.35))
    p["n"] = n = rint(rng, 1, 14) if rng.random() < 0.7 else rint(rng, 15, 30)
    p["m"] = pick(rng, 1, n, max(1, n // 2), rint(rng, 1, n), rint(rng, 1, n))
    p["unique"] = bool(rng.random() < 0.7)
    p["style"] = pick(rng, "normal", "normal", "dups", "same", "lattice", "far", "sorted")
    p["w"] = pick(rng, "none", "none", "mixed", "zeros", "lead0", "tail0")
    p["k"] = se(rng) if rng.random() < 0.6 else KS.rand(rng, 1, d=p["d"])
    if t in ("herding", "prob", "stein"):
        p["bs"] = pick(rng, None, None, 1, rint(rng, 1, 9), [rint(rng, 1, 9), None], [None, rint(rng, 1, 9)], 1000)
    if t == "random":
        p["weighted"] = bool(rng.random() < 0.5)
    if t == "prob":
        p["temp"] = pick(rng, 1.0, 0.1, 5.0)
    if t == "stein":
        k = KS.rand(rng, 1, d=p["d"], smooth=True)
        while "Matern" in str(k) or "Poisson" in str(k):  # not twice differentiable (or not in closed form) where the points coincide
            k = KS.rand(rng, 1, d=p["d"], smooth=True)
        p["k"] = k
        p["reg"] = bool(rng.random() < 0.3)
        if p["reg"]:
            p["style"] = "normal"
            p["n"] = max(p["n"], p["d"] + 4)
            p["minpos"] = p["d"] + 3
            p["lam"] = pick(rng, None, 0.5)
    if t == "gkp":
        p["sup"] = True
        p["rp"] = pick(rng, 1e-6, 1e-3, 0.1)
        p["cb"] = pick(rng, None, None, n, n + 3)
        p["lb"] = pick(rng, None, None, rint(rng, 1, n), n + 3)
    if t in ("kt", "cpp"):
        p["k"] = se(rng) if rng.random() < 0.7 else KS.rand(rng, 0, d=p["d"], bounded=True)
        p["delta"] = pick(rng, 0.1, 0.5, 0.01)
        p["style"] = pick(rng, "normal", "normal", "dups", "lattice", "sorted")
        p["w"] = pick(rng, "none", "none", "mixed")
    if t == "cpp":
        q = pick(rng, 1, 2, 2)
        p["n"] = rint(rng, 4**q, min(4 ** (q + 1) - 1, 30))
        p["g"] = rint(rng, 0, q)
        p["m"] = rint(rng, 1, 2 ** p["g"] * 2**q)
    if t == "kt":
        p["n"] = rint(rng, 1, 24)
        p["m"] = rint(rng, 1, p["n"])
    return p


def selectable(p, w):
    """Enough positive weights for the solvers that respect weights."""
    if p["solver"] in ("herding", "prob", "stein", "kt", "cpp"):
        return int((w > 0).sum()) >= p["m"]
    return True


def run(p, D=None, state=None):
    S = make(p)
    if D is None:
        D = dataset(p)[0]
    return S.reduce(D, state) if state is not None else S.reduce(D)


def run_jit(p, D):
    """Same as run, in one compilation."""
    import equinox as eqx

    S = make(p)
    return eqx.filter_jit(lambda d: S.reduce(d))(D)


def indices(c):
    return as_ints(c.unweighted_indices)


def valid(c, D, x, y, w, m, who):
    """C01: size, range, rows, original data unchanged."""
    i = indices(c)
    n = len(x)
    need(i.shape == (m,), f"{who}: number of indices", i.shape, m)
    need(len(c) == m, f"{who}: coreset length", len(c), m)
    need(np.all((i >= 0) & (i < n)), f"{who}: index out of range 0..{n - 1}", i)
    P = c.points
    dt = np.asarray(D.data)
    need(np.array_equal(np.asarray(P.data), dt[i]), f"{who}: points are the rows at the indices", P.data, dt[i])
    if y is not None:
        need(type(P).__name__ == type(D).__name__, f"{who}: container kind of the points", type(P))
        need(np.array_equal(np.asarray(P.supervision), np.asarray(D.supervision)[i]), f"{who}: supervision is paired", P.supervision)
    O = c.pre_coreset_data
    need(type(O) is type(D), f"{who}: container kind of the original data", type(O))
    need(np.array_equal(np.asarray(O.data), dt), f"{who}: original data kept")
    need(np.allclose(np.asarray(D.data, float), x, atol=1e-5), f"{who}: input data modified")
    need(np.array_equal(np.asarray(O.weights), np.asarray(D.weights)) and np.allclose(np.asarray(D.weights, float), w, atol=1e-5), f"{who}: original weights kept")
    if y is not None:
        need(np.array_equal(np.asarray(O.supervision), np.asarray(D.supervision)), f"{who}: original supervision kept")
    return i


def distinct(i, who):
    need(len(set(i.tolist())) == len(i), f"{who}: a point is selected twice", i)


def start_coreset(p, D, x, w, size):
    """Distinct starting coreset for refinement (uniform or other positive weights)."""
    from coreax.coreset import Coresubset
    from coreax.data import Data

    rng = np.random.default_rng([p["s"], 3])
    if size > len(x):
        raise Skip
    i = rng.permutation(len(x))[:size]
    cw = np.ones(size)
    return Coresubset(Data(jnp.asarray(i, dtype=jnp.int32), jnp.asarray(cw)), D), i
