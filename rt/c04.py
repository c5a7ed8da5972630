"""C04 on the real code: map-reduce, with a recording base solver (public solver interface only)."""
import jax
import jax.numpy as jnp
import numpy as np

from .common import *  # noqa: F403
from .common import KS, Bad, Skip, kind, need, pick, points, raises, rint, se, weights
from . import solvers as SV


def stub_class():
    import equinox as eqx
    from coreax.coreset import Coresubset
    from coreax.data import Data
    from coreax.solvers.base import CoresubsetSolver, ExplicitSizeSolver, PaddingInvariantSolver

    class Recorder(CoresubsetSolver, ExplicitSizeSolver, PaddingInvariantSolver):
        """Selects distinct positively weighted rows and reports every data set it is given."""

        rule: str
        salt: int
        inner: object
        log: object = eqx.field(static=True)

        def reduce(self, dataset, solver_state=None):
            self.log.calls += 1
            if self.log.calls > 60:
                raise RuntimeError("map-reduce does not terminate")
            sup = getattr(dataset, "supervision", None)
            log = self.log

            def cb(d, w, y):
                log.seen.append((np.array(d), np.array(w), None if y is None else np.array(y)))

            jax.debug.callback(cb, dataset.data, dataset.weights, sup)
            if self.inner is not None:
                c, st = self.inner.reduce(dataset)
                return Coresubset(Data(c.unweighted_indices, 2 * dataset.weights[c.unweighted_indices]), c.pre_coreset_data), st
            w = dataset.weights
            h = dataset.data[:, 0]
            if self.rule == "hash":
                h = jnp.sin(h * (1.7 + self.salt) * 12.9898) * 43758.5453
                h = h - jnp.floor(h)
            elif self.rule == "high":
                h = -h
            i = jnp.argsort(jnp.where(w > 0, h, jnp.inf))[: self.coreset_size]
            if self.rule == "pos":
                i = jnp.argsort(jnp.where(w > 0, jnp.arange(len(w)), len(w) + jnp.arange(len(w))))[: self.coreset_size]
            # doubling the weights marks the level a point has reached
            return Coresubset(Data(i, 2 * w[i]), dataset), solver_state

    class Log:
        def __init__(self):
            self.calls, self.seen = 0, []

    return Recorder, Log


def build(p):
    from coreax.data import Data, SupervisedData

    n, d = p["n"], p["d"]
    x = np.round(points(p["s"], n, d, p["style"]), 3)
    ids = np.arange(1, n + 1, dtype=float)
    perm = np.random.default_rng(p["s"]).permutation(n)
    x[:, 0] = ids[perm] * p.get("scale", 1.0) - p.get("shift", 0.0)  # every row identifies itself
    w = np.ones(n) if p["w"] == "none" else 1.0 + np.arange(n) / 64.0
    if p["w"] == "zero some":
        w = w.copy()
        w[np.random.default_rng(p["s"] + 1).permutation(n)[: n // 6]] = 0
    y = np.stack([x[:, 0] * 2 + 1, -x[:, 0]], 1) if p["sup"] else None
    D = Data(jnp.asarray(x), jnp.asarray(w)) if y is None else SupervisedData(jnp.asarray(x), jnp.asarray(y), jnp.asarray(w))
    return D, x, y, w


def solver(p, log, Rec):
    from coreax.solvers import KernelHerding, MapReduce
    from sklearn.neighbors import BallTree, KDTree

    inner = KernelHerding(coreset_size=p["m"], kernel=KS.make(p["k"])) if p["rule"] == "herding" else None
    base = Rec(coreset_size=p["m"], rule=p["rule"], salt=p["s"] % 7, inner=inner, log=log)
    return base, MapReduce(base, leaf_size=p["leaf"], tree_type=dict(kd=KDTree, ball=BallTree)[p["tree"]])


def gen0(rng):
    m = rint(rng, 1, 5)
    leaf = rint(rng, max(2 * m, m + 1), 2 * m + 8)
    n = rint(rng, 1, 40) if rng.random() < 0.6 else rint(rng, 41, 160)
    n = pick(rng, leaf, leaf - 1, leaf + 1) if rng.random() < 0.2 else n  # either side of the leaf size
    return dict(
        n=n, m=min(m, n), leaf=leaf, d=pick(rng, 1, 2, 3), s=rint(rng, 0, 10**6), w=pick(rng, "none", "distinct", "distinct", "zero some"), sup=bool(rng.random() < 0.4), tree=pick(rng, "kd", "ball"),
        rule=pick(rng, "hash", "hash", "low", "high", "pos", "herding"), style=pick(rng, "normal", "lattice"), k=se(rng), shift=pick(rng, 0.0, 0.0, 20.0, 500.0), scale=pick(rng, 1.0, 1.0, 0.125),
    )


@kind("C04", "map-reduce", weight=1)
class _:
    corners = [
        dict(n=n, m=m, leaf=leaf, d=2, s=n, w="distinct", sup=sup, tree="kd", rule="hash", style="normal", k=dict(t="SE", ls=1.0, os=1.0), shift=sh)
        for n, m, leaf, sup, sh in ((64, 2, 8, True, 0.0), (100, 3, 8, False, 500.0), (37, 2, 6, True, 500.0), (6, 3, 6, True, 0.0), (5, 2, 6, False, 0.0), (7, 3, 6, True, 100.0), (150, 2, 4, False, 900.0))
    ]

    @staticmethod
    def gen(rng):
        return gen0(rng)

    @staticmethod
    def check(p):
        Rec, Log = stub_class()
        D, x, y, w = build(p)
        if (w > 0).sum() < p["m"] or p["n"] < p["m"]:
            raise Skip
        log = Log()
        base, S = solver(p, log, Rec)
        import equinox as eqx

        c, _ = eqx.filter_jit(lambda d: S.reduce(d))(D)
        jax.block_until_ready(jax.tree_util.tree_leaves(c))
        jax.effects_barrier()
        m = p["m"]
        n = p["n"]
        if any((ws > 0).sum() < m for _, ws, _ in log.seen):
            raise Skip  # a partition without enough positively weighted points
        need(len(log.seen) > 0, "the base solver is used")
        dt = np.asarray(D.data)
        pos = {float(v): r for r, v in enumerate(dt[:, 0])}
        first = []
        for dd, ws, ys in log.seen:
            for r in range(len(dd)):
                src = pos.get(float(dd[r, 0]))
                ok = src is not None and np.array_equal(dd[r], dt[src])
                if ws[r] > 0:
                    need(ok, "a positively weighted row of a partition is not an original row", dd[r])
                    q = ws[r] / w[src] if w[src] > 0 else np.inf
                    need(q in (1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0), "a row of a partition carries another row's weight", ws[r], w[src])
                    if ys is not None:
                        need(np.array_equal(ys[r], np.asarray(D.supervision)[src]), "a row of a partition carries another row's supervision", ys[r])
                    if q == 1.0:
                        first.append(src)
        if p["w"] != "zero some":
            need(sorted(first) == list(range(n)), "rows lost or duplicated by the partitioning", sorted(set(range(n)) - set(first)), len(first))
        else:
            need(sorted(first) == [r for r in range(n) if w[r] > 0], "positively weighted rows lost or duplicated", len(first))
        i = SV.valid(c, D, x, y, w, m, "map-reduce")
        SV.distinct(i, "map-reduce")
        need(np.all(w[i] > 0), "map-reduce selects a zero-weighted point", i)
        if n <= p["leaf"]:
            c0, _ = eqx.filter_jit(lambda d: base.reduce(d))(D)
            jax.block_until_ready(jax.tree_util.tree_leaves(c0))
            jax.effects_barrier()
            need(np.array_equal(SV.indices(c0), i), "a small data set gives the result of the base solver", i, SV.indices(c0))
            need(np.array_equal(np.asarray(c0.points.weights), np.asarray(c.points.weights)), "a small data set gives the weights of the base solver", c.points.weights, c0.points.weights)
            need(len(log.seen) == 2, "a small data set is given to the base solver once", len(log.seen) - 1)


@kind("C04", "configuration")
class _:
    @staticmethod
    def gen(rng):
        return dict(m=rint(rng, 1, 6), x64=True)

    @staticmethod
    def check(p):
        from coreax.solvers import KernelHerding, MapReduce

        h = KernelHerding(coreset_size=p["m"], kernel=KS.make(dict(t="SE", ls=1.0, os=1.0)))
        for leaf in (p["m"], p["m"] - 1, 1):
            if leaf <= p["m"]:
                raises(ValueError, lambda: MapReduce(h, leaf_size=leaf), "leaf size not above the coreset size")
        MapReduce(h, leaf_size=p["m"] + 1)
        raises(ValueError, lambda: MapReduce(object(), leaf_size=9), "base solver without a size")


@kind("C04", "known:K5", weight=0)
class _:
    @staticmethod
    def gen(rng):
        return None

    @staticmethod
    def check(p):
        Rec, Log = stub_class()
        for n, leaf, m in p["cases"]:
            q = dict(n=n, m=m, leaf=leaf, d=2, s=1, w="none", sup=False, tree="kd", rule="pos", style="normal", k=None)
            D, x, y, w = build(q)
            _, S = solver(q, Log(), Rec)
            c, _ = S.reduce(D)
            SV.valid(c, D, x, y, w, m, f"map-reduce n={n} leaf={leaf} m={m}")
