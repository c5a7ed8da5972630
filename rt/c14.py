"""C14 on the real code: kernel halving, recursion, choice, Compress++."""
import jax
import jax.numpy as jnp
import numpy as np

from .common import *  # noqa: F403
from .common import KS, Skip, as_ints, jit, kind, need, pick, points, rint, se, weights, x64
from . import solvers as SV


def solver(p, m=None):
    from coreax.solvers import KernelThinning

    return KernelThinning(coreset_size=p["m"] if m is None else m, kernel=KS.make(p["k"]), random_key=SV.key(p["key"]), delta=p["delta"], sqrt_kernel=KS.make(p.get("sk", p["k"])))


def gen0(rng):
    return dict(n=rint(rng, 1, 20), d=pick(rng, 1, 2, 3), s=rint(rng, 0, 10**6), key=rint(rng, 0, 10**6), m=1, delta=pick(rng, 0.1, 0.5, 0.01, 0.9), k=se(rng) if rng.random() < 0.6 else KS.rand(rng, 0, d=2, bounded=True), sk=se(rng), style=pick(rng, "normal", "normal", "dups", "lattice", "sorted", "same"), w=pick(rng, "none", "none", "mixed"), sup=bool(rng.random() < 0.3))


@kind("C14", "halving", weight=4)
class _:
    @staticmethod
    def gen(rng):
        p = gen0(rng)
        p["n"] = 2 * rint(rng, 1, 10)
        if p["n"] < 2:
            p["n"] = 2
        return p

    @staticmethod
    def check(p):
        D, x, y, w = SV.dataset(p)
        a, b = solver(p).kt_half(D)
        i, j = SV.indices(a), SV.indices(b)
        h = p["n"] // 2
        need(i.shape == (h,) and j.shape == (h,), "halves have n // 2 points", i, j)
        for t in range(h):
            need({int(i[t]), int(j[t])} == {2 * t, 2 * t + 1}, f"pair {t} is split between the halves", i, j)
        for c, q in ((a, i), (b, j)):
            need(np.array_equal(np.asarray(c.points.data), np.asarray(D.data)[q]), "points of a half")


@kind("C14", "recursion", weight=3)
class _:
    @staticmethod
    def gen(rng):
        p = gen0(rng)
        p["m"], p["depth"] = rint(rng, 1, 3), rint(rng, 0, 3)
        p["extra"] = rint(rng, 0, 3)
        p["n"] = p["m"] * 2 ** p["depth"] + p["extra"]
        return p

    @staticmethod
    def check(p):
        D, x, y, w = SV.dataset(p)
        L = p["m"] * 2 ** p["depth"]
        cs = solver(p).kt_half_recursive(D[:L], p["depth"], D)
        need(len(cs) == 2 ** p["depth"], "number of candidates", len(cs))
        al = []
        for c in cs:
            i = SV.indices(c)
            need(i.shape == (p["m"],), "candidate size", i)
            need(np.all((i >= 0) & (i < L)), "candidate indices refer to the clipped data", i, L)
            need(np.array_equal(np.asarray(c.points.data), np.asarray(D.data)[i]), "candidate points are the original rows at the indices", i)
            if y is not None:
                need(np.array_equal(np.asarray(c.points.supervision), np.asarray(D.supervision)[i]), "candidate supervision")
            O = c.pre_coreset_data
            need(np.array_equal(np.asarray(O.data), np.asarray(D.data)), "candidates refer to the original data")
            al += i.tolist()
        need(sorted(al) == list(range(L)), "candidates are disjoint and cover the clipped data", al)


@kind("C14", "choice", weight=3)
class _:
    @staticmethod
    def gen(rng):
        p = gen0(rng)
        p["n"], p["cands"] = rint(rng, 2, 14), rint(rng, 1, 5)
        p["m"] = rint(rng, 1, p["n"])
        return p

    @staticmethod
    def check(p):
        from coreax.coreset import Coresubset
        from coreax.data import Data

        D, x, y, w = SV.dataset(p)
        rng = np.random.default_rng([p["s"], 9])
        idx = [rng.permutation(p["n"])[: p["m"]] for _ in range(p["cands"])]
        cs = [Coresubset(Data(jnp.asarray(i)), D) for i in idx]
        got = as_ints(np.asarray(solver(p).kt_choose(cs, D)).reshape(-1))
        K = KS.gram(p["k"], x, x)
        u = w / w.sum()
        v = [float(K[np.ix_(i, i)].mean() + u @ K @ u - 2 * (u @ K[:, i]).mean()) for i in idx]
        hit = [t for t, i in enumerate(idx) if np.array_equal(i, got)]
        need(hit, "the choice is one of the candidates", got, idx)
        need(min(v[t] for t in hit) <= min(v) + (1e-10 if x64() else 3e-5) * max(1, np.abs(K).max()), "the choice has the smallest discrepancy", v, hit)


@kind("C14", "reduce", weight=4)
class _:
    """The pipeline: reduce refines the best of the recursive candidates and the baseline."""

    @staticmethod
    def gen(rng):
        p = SV.gen(rng, "kt")
        p["n"] = rint(rng, 1, 18)
        p["m"] = rint(rng, 1, p["n"])
        p["sk"] = se(rng)
        return p

    @staticmethod
    def check(p):
        D, x, y, w = SV.dataset(p)
        S = solver(p)
        seen = {}
        import coreax.solvers.coresubset as cs

        cls = type(S)
        orig_choose, orig_refine = cls.kt_choose, cls.kt_refine

        def choose(self, cands, points_):
            seen["cands"] = [np.asarray(c.unweighted_indices).reshape(-1) for c in cands]
            seen["points"] = np.asarray(points_.data)
            return orig_choose(self, cands, points_)

        def refine(self, c):
            seen["start"] = np.asarray(c.unweighted_indices).reshape(-1)
            return orig_refine(self, c)

        try:
            type.__setattr__(cls, "kt_choose", choose)
            type.__setattr__(cls, "kt_refine", refine)
            c, _ = S.reduce(D)
        finally:
            type.__setattr__(cls, "kt_choose", orig_choose)
            type.__setattr__(cls, "kt_refine", orig_refine)
        del cs
        i = SV.valid(c, D, x, y, w, p["m"], "kernel thinning")
        if "cands" not in seen or "start" not in seen:
            return  # restructured: only the observable result is decided
        q = int(np.floor(np.log2(p["n"]) - np.log2(p["m"])))
        cands = seen["cands"]
        need(len(cands) == 2**q + 1, "candidates and the baseline", len(cands), q)
        need(all(len(v) == p["m"] and len(set(v.tolist())) == p["m"] and v.min() >= 0 and v.max() < p["n"] for v in cands), "candidates are distinct valid indices of the requested size", cands)
        fl = sorted(np.concatenate(cands[:-1]).tolist())
        need(fl == list(range(p["m"] * 2**q)), "the halving candidates partition the clipped data", fl)
        K = KS.gram(p["k"], x, x)
        u = w / w.sum()
        v = [float(K[np.ix_(t, t)].mean() + u @ K @ u - 2 * (u @ K[:, t]).mean()) for t in cands]
        hit = [t for t, a in enumerate(cands) if np.array_equal(a, seen["start"])]
        need(hit and min(v[t] for t in hit) <= min(v) + (1e-10 if x64() else 3e-5) * max(1, np.abs(K).max()), "the candidate refined has the smallest discrepancy", v, hit)


@kind("C14", "compress", weight=3)
class _:
    @staticmethod
    def gen(rng):
        p = SV.gen(rng, "cpp")
        p["style"] = pick(rng, "normal", "sorted", "lattice")
        return p

    @staticmethod
    def check(p):
        D, x, y, w = SV.dataset(p)
        c, _ = SV.run(p, D)
        i = SV.valid(c, D, x, y, w, p["m"], "Compress++")
        SV.distinct(i, "Compress++")
