"""C02 on the real code: uniqueness."""
import numpy as np

from .common import *  # noqa: F403
from .common import KS, Skip, kind, need, pick, rint
from . import solvers as SV


def _kind(t, weight):
    @kind("C02", t, weight=weight)
    class _:
        corners = [dict(solver=t, n=n, m=m, d=2, s=n, key=n, k=dict(t="SE", ls=1.0, os=1.0), w="none", sup=(t == "gkp"), style=st, unique=True, g=1) for n, m, st in ((8, 8, "same"), (9, 5, "dups"), (12, 11, "lattice")) if t != "cpp"]

        @staticmethod
        def gen(rng):
            p = SV.gen(rng, t)
            p["unique"] = True
            if rng.random() < 0.5 and t != "cpp":
                p["m"] = max(p["m"], p["n"] - rint(rng, 0, 2)) if p["n"] > 2 else p["n"]
            return p

        @staticmethod
        def check(p):
            if p["m"] > p["n"]:
                raise Skip
            D, x, y, w = SV.dataset(p)
            if not SV.selectable(p, w):
                raise Skip
            c, _ = SV.run_jit(p, D)
            SV.distinct(SV.indices(c), t)


for _t, _w in dict(random=1, herding=3, prob=2, stein=2, rpc=3, gkp=3, kt=2, cpp=1).items():
    _kind(_t, _w)


@kind("C02", "refine", weight=4)
class _:
    @staticmethod
    def gen(rng):
        p = SV.gen(rng, pick(rng, "herding", "stein", "gkp", "prob"))
        p["unique"] = True
        p["w"] = pick(rng, "none", "mixed")
        p["size"] = pick(rng, p["m"], p["m"], rint(rng, 1, p["n"]))
        p["rounds"] = pick(rng, 1, 2)
        return p

    @staticmethod
    def check(p):
        import equinox as eqx

        if p["m"] > p["n"]:
            raise Skip
        D, x, y, w = SV.dataset(p)
        c, i0 = SV.start_coreset(p, D, x, w, min(p["size"], p["n"]))
        S = SV.make(p)
        f = eqx.filter_jit(lambda c0: S.refine(c0))
        for _ in range(p["rounds"]):
            c, _st = f(c)
            SV.distinct(SV.indices(c), p["solver"] + ".refine")


@kind("C02", "refine with padding", weight=2)
class _:
    """Zero-weighted data never selected and distinct, refining a positively weighted start."""

    @staticmethod
    def gen(rng):
        p = SV.gen(rng, pick(rng, "herding", "prob", "stein"))
        p.update(unique=True, w="zeros", reg=False)
        p["minpos"] = p["m"] + 1
        return p

    @staticmethod
    def check(p):
        from coreax.coreset import Coresubset
        from coreax.data import Data
        import jax.numpy as jnp

        D, x, y, w = SV.dataset(p)
        pos = np.flatnonzero(w > 0)
        if len(pos) < p["m"] or p["m"] > p["n"]:
            raise Skip
        i0 = np.random.default_rng(p["s"]).permutation(pos)[: p["m"]]
        c0 = Coresubset(Data(jnp.asarray(i0, dtype=jnp.int32)), D)
        c, _ = SV.make(p).refine(c0)
        SV.distinct(SV.indices(c), p["solver"] + ".refine")


@kind("C02", "known:K4", weight=0)
class _:
    @staticmethod
    def gen(rng):
        return None

    @staticmethod
    def check(p):
        for q in p["cases"]:
            D, x, y, w = SV.dataset(q)
            c, _ = SV.run(q, D)
            SV.distinct(SV.indices(c), "greedy kernel points, partial candidate batches")
