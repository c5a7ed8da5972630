"""C01 on the real code: size, range and pairing of the returned coresubset."""
import numpy as np

from .common import *  # noqa: F403
from .common import Skip, kind, need, pick, raises, rint
from . import solvers as SV


def _kind(t, weight):
    @kind("C01", t, weight=weight)
    class _:
        corners = [dict(solver=t, n=n, m=m, d=1 + (n + m) % 2, s=n, key=n, k=dict(t="SE", ls=1.0, os=1.0), w=w, sup=(t == "gkp"), style="normal", unique=True, g=1) for n, m, w in ((1, 1, "none"), (7, 7, "none"), (9, 4, "zeros")) if t not in ("cpp", "stein") or n > 4]

        @staticmethod
        def gen(rng):
            return SV.gen(rng, t)

        @staticmethod
        def check(p):
            if p["m"] > p["n"] or (t == "cpp" and (p["n"] < 4 or p["m"] > 4)):
                if t != "cpp" or p["n"] < 4 or p["m"] > 2 ** p["g"] * 2 ** int(np.log(p["n"]) / np.log(4) + 1e-9):
                    raise Skip
            D, x, y, w = SV.dataset(p)
            if not SV.selectable(p, w):
                raise Skip
            c, _ = SV.run_jit(p, D)
            SV.valid(c, D, x, y, w, p["m"], t)


for _t, _w in dict(random=1, herding=3, prob=2, stein=2, rpc=2, gkp=3, kt=2, cpp=1).items():
    _kind(_t, _w)


@kind("C01", "refine", weight=2)
class _:
    @staticmethod
    def gen(rng):
        p = SV.gen(rng, pick(rng, "herding", "stein", "gkp", "prob"))
        p["size"] = pick(rng, p["m"], p["m"], rint(rng, 1, p["n"]))
        return p

    @staticmethod
    def check(p):
        import equinox as eqx

        D, x, y, w = SV.dataset(p)
        if not SV.selectable(p, w) or p["m"] > p["n"] or (w <= 0).any():
            raise Skip
        c0, i0 = SV.start_coreset(p, D, x, w, min(p["size"], p["n"]))
        S = SV.make(p)
        c, _ = eqx.filter_jit(lambda c0: S.refine(c0))(c0)
        SV.valid(c, D, x, y, w, p["m"], p["solver"] + ".refine")


@kind("C01", "too large")
class _:
    @staticmethod
    def gen(rng):
        p = SV.gen(rng, pick(rng, "random", "herding", "stein", "rpc", "gkp", "kt"))
        p["extra"] = pick(rng, 1, 2, 5)
        p["unique"] = True
        return p

    @staticmethod
    def check(p):
        q = dict(p, m=p["n"] + p["extra"], reg=False)
        D = SV.dataset(p)[0]
        raises(ValueError, lambda: SV.run(q, D), f"{p['solver']}: {q['m']} of {p['n']} points")
        raises(ValueError, lambda: SV.make(dict(p, m=0)), "zero coreset size")
        raises(ValueError, lambda: SV.make(dict(p, m=-1)), "negative coreset size")


@kind("C01", "iterative herding")
class _:
    @staticmethod
    def gen(rng):
        p = SV.gen(rng, pick(rng, "herding", "prob"))
        p["it"] = rint(rng, 1, 4)
        return p

    @staticmethod
    def check(p):
        D, x, y, w = SV.dataset(p)
        if not SV.selectable(p, w):
            raise Skip
        c, _ = SV.make(p).reduce_iterative(D, num_iterations=p["it"])
        i = SV.valid(c, D, x, y, w, p["m"], "reduce_iterative")
        if p["unique"]:
            SV.distinct(i, "reduce_iterative")
