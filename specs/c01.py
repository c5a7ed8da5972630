"""C01: fixed-size coresubset solvers return the requested number of valid indices into the data."""
from engine import model as M, sym as S, tensor as Z, terms as T

from . import gkp, greedy as G, pivot, thinning
from .base import ob

CS = G.CS
ASSUMPTIONS = [
    "at least as many positively weighted points as requested (kernel herding, Stein thinning)",
    "pigeonhole principle for finite index sets (mathematical lemma, applied where its premises are invariants)",
]


def result(s, r, count=None):
    """The postcondition of C01 for the coreset r of the set-up s."""
    E, n = s.E, s.n.n
    ix = r.unweighted_indices
    E.hold("the number of indices is the one requested", ix.ndim == 1 and Z.same_dim(ix.dims[0], s.mm if count is None else count), str(ix.dims))
    E.hold("the indices are integers", ix.dtype.kind == "i")
    c = lambda j: Z.to_num(ix.get(j))  # noqa: E731
    E.prove("every index is valid", G.valid(c, ix.dims[0], n))
    G.same_data(E, "the original data are the input", r.pre_coreset_data, s.data)
    p = r.points
    E.hold("the points are of the type of the data", type(p) is type(s.data))
    j, l = T.index_var(ix.dims[0], "j"), T.index_var(s.d.n, "l")
    E.hold("one point per index", Z.same_dim(p.data.dims[0], ix.dims[0]))
    E.prove("the points are the rows at the indices", T.eq(Z.to_num(p.data.get(j, l)), s.X.get(c(j), l)))
    if s.y is not None:
        h = T.index_var(s.y.dims[1], "h")
        E.prove("the supervision is that of the rows at the indices", T.eq(Z.to_num(p.supervision.get(j, h)), s.y.get(c(j), h)))


def post(s, r, st):
    result(s, r)


for _solver, _cls in (("herding", "KernelHerding"), ("stein", "SteinThinning"), ("stein-regularised", "SteinThinning")):
    for _start in ("reduce", "refine"):
        for _unique in (True, False):
            for _one in (False, True):
                if _one and (_start == "refine" or _solver == "stein-regularised"):
                    continue

                def _mk(solver=_solver, start=_start, cls=_cls, unique=_unique, one=_one):
                    @ob("C01", f"{solver}, {start}{'' if unique else ', repeats allowed'}{', one point' if one else ''}", [f"{CS}.{cls}.{start}", f"{CS}.{cls}.refine", f"{CS}._greedy_kernel_selection", f"{CS}._initial_coresubset", "coreax.coreset.Coresubset.points"], timeout=280)
                    def _(E):
                        G.run(E, solver, unique, start, (), post, one=one, sup=start == "reduce" and not unique)

                _mk()


for _u in (True, False):
    for _w in (True, False):
        def _mk(unique=_u, weighted=_w):
            @ob("C01", f"RandomSample{', weighted' if weighted else ''}{'' if unique else ', repeats allowed'}", [f"{CS}.RandomSample.reduce", "coreax.coreset.Coresubset.points"])
            def _(E):
                for sup in (False, True):
                    s = G.Setup(E, sup=sup)

                    def go():
                        r, st = s.sm.RandomSample(coreset_size=s.m, random_key=S.key(), weighted=weighted, unique=unique).reduce(s.data)
                        result(s, r)

                    E.paths(go)

        _mk()

    def _mk(unique=_u):
        @ob("C01", f"RPCholesky{'' if unique else ', repeats allowed'}", [f"{CS}.RPCholesky.reduce"], timeout=280)
        def _(E):
            pivot.run(E, unique, post, sup=True)

        for start in ("reduce", "refine"):
            for full in (True, False):
                def mk2(start=start, full=full):
                    @ob("C01", f"greedy kernel points, {start}{'' if unique else ', repeats allowed'}{'' if full else ', small candidate batches'}", gkp.FUNCTIONS, timeout=280)
                    def _(E):
                        gkp.run(E, unique, start, post, full=full)

                mk2()

    _mk()


@ob("C01", "too large a coreset is refused", [f"{CS}.{c}.reduce" for c in ("RandomSample", "KernelHerding", "SteinThinning", "RPCholesky", "GreedyKernelPoints", "KernelThinning", "CompressPlusPlus")])
def _(E):
    sm, dm = E.load(CS), E.load("coreax.data")
    k = G.stein_kernel(E)
    d, x = S.nat("d"), S.nat("extra")
    n = S.nat("n")
    m = n + x
    data = dm.SupervisedData(S.array("X", n, d), S.array("Y", n, S.nat("p")), S.array("w", n, sign="0+"))
    E.assume(T.gt0(Z.sum_axis(data.weights).body))
    mk = dict(
        RandomSample=lambda: sm.RandomSample(m, random_key=S.key()),
        KernelHerding=lambda: sm.KernelHerding(m, kernel=k),
        SteinThinning=lambda: sm.SteinThinning(m, kernel=k),
        RPCholesky=lambda: sm.RPCholesky(m, random_key=S.key(), kernel=k),
        GreedyKernelPoints=lambda: sm.GreedyKernelPoints(m, random_key=S.key(), feature_kernel=k),
        KernelThinning=lambda: sm.KernelThinning(coreset_size=m, random_key=S.key(), kernel=k, sqrt_kernel=k, delta=0.1),
        CompressPlusPlus=lambda: sm.CompressPlusPlus(coreset_size=m, g=1, random_key=S.key(), kernel=k, sqrt_kernel=k, delta=0.1),
    )
    for name, f in mk.items():
        E.paths(lambda: E.raises(f"{name} refuses", ValueError, lambda: f().reduce(data)))


for _s in (False, True):
    def _mk(sup=_s):
        @ob("C01", f"kernel thinning{', supervised' if sup else ''}", [f"{CS}.KernelThinning.reduce", f"{CS}.KernelThinning.kt_refine", f"{CS}.KernelHerding.refine"], timeout=280)
        def _(E):
            thinning.run_reduce(E, post, sup=sup)

    _mk()


for _s in (False, True):
    def _mk(sup=_s):
        @ob("C01", f"Compress++{', supervised' if sup else ''}", [f"{CS}.CompressPlusPlus.reduce"], timeout=280)
        def _(E):
            thinning.run_compress(E, post, sup=sup)

    _mk()


for _u in (True, False):
    def _mk(unique=_u):
        @ob("C01", f"probabilistic herding{'' if unique else ', repeats allowed'}", [f"{CS}.KernelHerding.reduce", f"{CS}.KernelHerding.refine", f"{CS}._greedy_kernel_selection"], timeout=280)
        def _(E):
            G.run(E, "herding", unique, "reduce", (), post, sup=True, probabilistic=True, temperature=S.real("temp", sign="+"), random_key=S.key())

        @ob("C01", f"iterative herding{'' if unique else ', repeats allowed'}", [f"{CS}.KernelHerding.reduce_iterative"])
        def _(E):
            G.run_iterative(E, unique, post)

    _mk()
