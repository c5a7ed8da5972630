"""C03 on the real code: zero-weighted points."""
import jax.numpy as jnp
import numpy as np

from .common import *  # noqa: F403
from .common import KS, Skip, kind, need, pick, points, rint, se, x64
from . import solvers as SV


def zero_ok(i, w, who):
    need(np.all(w[i] > 0), f"{who}: a zero-weighted point is selected", i, w)


def _kind(t, weight):
    @kind("C03", t, weight=weight)
    class _:
        corners = [dict(solver=t, n=n, m=m, d=2, s=n, key=n, k=dict(t="SE", ls=1.0, os=1.0), w=w, sup=False, style="normal", unique=u, reg=False) for n, m, w, u in ((9, 4, "lead0", True), (9, 5, "tail0", False), (12, 6, "zeros", True))]

        @staticmethod
        def gen(rng):
            p = SV.gen(rng, t)
            p["w"] = pick(rng, "zeros", "lead0", "tail0")
            p["minpos"] = max(p.get("minpos", 1), p["m"])
            p["at"] = pick(rng, "", "", "centre", "far")
            return p

        @staticmethod
        def check(p):
            D, x, y, w = SV.dataset(p)
            if not SV.selectable(p, w) or p["m"] > p["n"]:
                raise Skip
            if p.get("at") and (w == 0).any():
                # make the zero-weighted points as attractive (or extreme) as possible
                x = x.copy()
                x[w == 0] = x[w > 0].mean(0) if p["at"] == "centre" else 30.0
                import equinox as eqx

                D = eqx.tree_at(lambda d: d.data, D, jnp.asarray(x))
            c, _ = SV.run_jit(p, D)
            zero_ok(SV.indices(c), w, t)


for _t, _w in dict(herding=3, prob=3, stein=3).items():
    _kind(_t, _w)


@kind("C03", "refine", weight=3)
class _:
    @staticmethod
    def gen(rng):
        p = SV.gen(rng, pick(rng, "herding", "prob", "stein"))
        p.update(w=pick(rng, "zeros", "lead0", "tail0"), reg=False)
        p["minpos"] = p["m"]
        p["bad"] = bool(rng.random() < 0.5)
        return p

    @staticmethod
    def check(p):
        from coreax.coreset import Coresubset
        from coreax.data import Data

        D, x, y, w = SV.dataset(p)
        pos = np.flatnonzero(w > 0)
        if len(pos) < p["m"] + (1 if p["bad"] else 0):
            raise Skip
        r = np.random.default_rng(p["s"])
        i0 = r.permutation(pos)[: p["m"]]
        zer = np.flatnonzero(w == 0)
        if p["bad"] and len(zer):  # a start that holds a zero-weighted point must lose it
            i0[int(r.integers(0, p["m"]))] = zer[0]
        c, _ = SV.make(p).refine(Coresubset(Data(jnp.asarray(i0, dtype=jnp.int32)), D))
        zero_ok(SV.indices(c), w, p["solver"] + ".refine")


@kind("C03", "appending padding", weight=3)
class _:
    @staticmethod
    def gen(rng):
        p = SV.gen(rng, "herding")
        p.update(style="normal", w=pick(rng, "none", "mixed", "zeros"), sup=False, pad=rint(rng, 1, 7), padat=pick(rng, "zero", "centre", "random"))
        return p

    @staticmethod
    def check(p):
        from coreax.data import Data

        if not x64():
            raise Skip
        D, x, y, w = SV.dataset(p)
        if not SV.selectable(p, w):
            raise Skip
        c, _ = SV.run_jit(p, D)
        i = SV.indices(c)
        if margin(p, x, w, i) < 1e-7:
            raise Skip
        z = np.zeros((p["pad"], p["d"]))
        if p["padat"] == "centre":
            z = z + x.mean(0)
        if p["padat"] == "random":
            z = points(p["s"] + 9, p["pad"], p["d"])
        D2 = Data(jnp.asarray(np.vstack([x, z])), jnp.asarray(np.concatenate([w, np.zeros(p["pad"])])))
        c2, _ = SV.run_jit(p, D2)
        need(np.array_equal(SV.indices(c2), i), "kernel herding: the coreset changes with zero-weighted rows appended", SV.indices(c2), i)


def margin(p, x, w, idx):
    """Smallest gap between the best and second-best criterion along the run (ties are not compared)."""
    G = KS.gram(p["k"], x, x)
    mu = G @ w / w.sum()
    pen = np.zeros(len(x))
    gap = np.inf
    taken = set()
    for t, j in enumerate(idx):
        c = mu - pen / (t + 1)
        ok = [q for q in range(len(x)) if w[q] > 0 and not (p["unique"] and q in taken)]
        v = sorted((c[q] for q in ok), reverse=True)
        if len(v) > 1:
            gap = min(gap, v[0] - v[1])
        taken.add(int(j))
        pen = pen + G[:, j]
    return gap
