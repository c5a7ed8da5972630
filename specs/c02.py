"""C02: unique solvers never select the same point twice."""
from engine import loops, model as M, sym as S, tensor as Z, terms as T

from . import greedy as G
from .base import ob

CS = G.CS
ASSUMPTIONS = [
    "at least as many positively weighted points as requested",
    "pigeonhole principle for finite index sets (mathematical lemma, applied where its premises are invariants)",
]


def _post(s, r, st):
    c = lambda j: Z.to_num(r.unweighted_indices.get(j))  # noqa: E731
    s.E.prove("the indices returned are pairwise distinct", G.distinct(c, r.unweighted_indices.dims[0]))


for _solver, _cls in (("herding", "KernelHerding"), ("stein", "SteinThinning"), ("stein-regularised", "SteinThinning")):
    for _start in ("reduce", "refine"):
        def _mk(solver=_solver, start=_start, cls=_cls):
            @ob("C02", f"{solver}, {start}", [f"{CS}.{cls}.{start}", f"{CS}.{cls}.refine", f"{CS}._greedy_kernel_selection"], timeout=280)
            def _(E):
                G.run(E, solver, True, start, (), _post)

        _mk()


@ob("C02", "RandomSample", [f"{CS}.RandomSample.reduce"])
def _(E):
    for weighted in (False, True):
        s = G.Setup(E)

        def go():
            r, st = s.sm.RandomSample(coreset_size=s.m, random_key=S.key(), weighted=weighted, unique=True).reduce(s.data)
            _post(s, r, st)

        E.paths(go)


@ob("C02", "RPCholesky", [f"{CS}.RPCholesky.reduce"], timeout=280)
def _(E):
    from . import pivot

    pivot.run(E, True, _post)


for _start in ("reduce", "refine"):
    def _mk(start=_start):
        from . import gkp

        @ob("C02", f"greedy kernel points, {start}", gkp.FUNCTIONS, timeout=280)
        def _(E):
            gkp.run(E, True, start, _post)

    _mk()


@ob("C02", "kernel thinning", [f"{CS}.KernelThinning.reduce", f"{CS}.KernelThinning.kt_refine", f"{CS}.KernelHerding.refine"], timeout=280)
def _(E):
    from . import thinning

    thinning.run_reduce(E, _post)


@ob("C02", "Compress++", [f"{CS}.CompressPlusPlus.reduce"], timeout=280)
def _(E):
    from . import thinning

    thinning.run_compress(E, _post)


for _start in ("reduce", "refine"):
    def _mk(start=_start):
        @ob("C02", f"probabilistic herding, {start}", [f"{CS}.KernelHerding.{start}", f"{CS}.KernelHerding.refine", f"{CS}._greedy_kernel_selection"], timeout=280)
        def _(E):
            G.run(E, "herding", True, start, (), _post, probabilistic=True, temperature=S.real("temp", sign="+"), random_key=S.key())

    _mk()


@ob("C02", "iterative herding", [f"{CS}.KernelHerding.reduce_iterative"])
def _(E):
    G.run_iterative(E, True, _post, True)
