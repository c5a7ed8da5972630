"""C03: zero-weighted points are never selected by padding-invariant solvers."""
from engine import loops, model as M, sym as S, tensor as Z, terms as T
from engine.prover import CTX

from . import c17, greedy as G
from .base import ob

CS = G.CS
ASSUMPTIONS = [
    "at least as many positively weighted points as requested",
    "pigeonhole principle for finite index sets (mathematical lemma, applied where its premises are invariants)",
    "padding invariance of kernel herding: induction over the steps from the step lemma proved (same points chosen so far, same next point)",
]


def post(s, r, st):
    ix = r.unweighted_indices
    j = T.index_var(ix.dims[0], "j")
    s.E.prove("the points selected have positive weight", T.gt0(s.wt(Z.to_num(ix.get(j)))))


for _solver, _cls in (("herding", "KernelHerding"), ("stein", "SteinThinning"), ("stein-regularised", "SteinThinning")):
    for _start in ("reduce", "refine"):
        for _unique in (True, False):
            def _mk(solver=_solver, start=_start, cls=_cls, unique=_unique):
                @ob("C03", f"{solver}, {start}{'' if unique else ', repeats allowed'}", [f"{CS}.{cls}.{start}", f"{CS}.{cls}.refine", f"{CS}._greedy_kernel_selection"], timeout=280)
                def _(E):
                    G.run(E, solver, unique, start, ("positive",), post)

                if start == "reduce" and solver != "stein-regularised":
                    @ob("C03", f"{solver}, one point{'' if unique else ', repeats allowed'}", [f"{CS}.{cls}.{start}", f"{CS}.{cls}.refine", f"{CS}._greedy_kernel_selection"])
                    def _(E):
                        G.run(E, solver, unique, start, (), post, one=True)

            _mk()


for _start in ("reduce", "refine"):
    for _unique in (True, False):
        def _mk(start=_start, unique=_unique):
            @ob("C03", f"probabilistic herding, {start}{'' if unique else ', repeats allowed'}", [f"{CS}.KernelHerding.{start}", f"{CS}.KernelHerding.refine", f"{CS}._greedy_kernel_selection"], timeout=280)
            def _(E):
                G.run(E, "herding", unique, start, ("positive",), post, probabilistic=True, temperature=S.real("temp", sign="+"), random_key=S.key())

        _mk()


for _unique in (True, False):
    for _sch in (True, False):
        def _mk(unique=_unique, sch=_sch):
            @ob("C03", f"iterative herding{'' if unique else ', repeats allowed'}{', temperature schedule' if sch else ''}", [f"{CS}.KernelHerding.reduce_iterative"])
            def _(E):
                G.run_iterative(E, unique, post, sch)

        _mk()


def _first(unique):
    @ob("C03", f"herding selects the first best point{'' if unique else ', repeats allowed'}", [f"{CS}.KernelHerding.reduce", f"{CS}.KernelHerding.refine", f"{CS}._greedy_kernel_selection"], timeout=280)
    def _(E):
        box = {}
        h = c17.best(None, c17.herding, unique, True, strict=True)
        G.run(E, "herding", unique, "reduce", ("sum",), lambda s, r, st: None, after=lambda *a: h(box["s"], *a), box=box)


for _u in (True, False):
    _first(_u)


@ob("C03", "herding: appended zero-weighted rows change nothing", ["coreax.kernels.base.ScalarValuedKernel.gramian_row_mean", "coreax.kernels.base.ScalarValuedKernel.compute_mean"])
def _(E):
    s = G.Setup(E)
    N2 = S.nat("N2").n
    E.assume(T.le(s.n.n, N2))
    T.declare_fn("Zp", "R")
    old = lambda v: T.ind(T.lt(v, s.n.n))  # noqa: E731
    X2 = Z.build((N2, s.d.n), lambda v, l: old(v) * s.X.get(v, l) + (T.ONE - old(v)) * T.app("Zp", v, l), Z.F32)
    w2 = Z.build((N2,), lambda v: old(v) * s.wt(v), Z.F32)

    def go():
        m1 = Z.as_st(s.k.gramian_row_mean(s.data))
        m2 = Z.as_st(s.k.gramian_row_mean(s.dm.Data(X2, w2)))
        v = T.index_var(s.n.n, "v")
        E.hold("one value per point", Z.same_dim(m2.dims[0], N2))
        E.prove("the row mean at the original points is unchanged", T.eq(m1.get(v), m2.get(v)))

    E.paths(go)
    # the first best available point of both data sets, the same points being taken so far
    f, av = (lambda v: T.app("crit", v)), (lambda v: T.pred("avail", v))
    T.declare_fn("crit", "R")
    T.declare_fn("crit2", "R")
    n = s.n.n
    v, z = T.index_var(n, "v"), T.index_var(N2, "z")
    f2, av2 = (lambda v: T.app("crit2", v)), (lambda v: T.pred("avail2", v))
    V1, V2 = T.fresh("V1", "I", T.ZERO, n), T.fresh("V2", "I", T.ZERO, N2)
    E.assume(T.forall([v], T.band(T.eq(f(v), f2(v)), T.iff(av(v), av2(v)))), "criterion and availability agree on the original points")
    E.assume(T.forall([z], T.bor(T.lt(z, n), T.bnot(av2(z)))), "appended points have no weight")
    E.assume(T.band(av(V1), T.forall([v], T.bor(T.bnot(av(v)), T.band(T.le(f(v), f(V1)), T.bor(T.le(V1, v), T.lt(f(v), f(V1))))))), "first best point of the data")
    E.assume(T.band(av2(V2), T.forall([z], T.bor(T.bnot(av2(z)), T.band(T.le(f2(z), f2(V2)), T.bor(T.le(V2, z), T.lt(f2(z), f2(V2))))))), "first best point of the padded data")
    E.prove("the same point is selected", T.eq(V1, V2))
    E.check_vacuity()
