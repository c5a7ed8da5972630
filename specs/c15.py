"""C15: reusing a returned solver state never changes the result."""
from engine import loops, model as M, sym as S, tensor as Z, terms as T

from . import greedy as G
from .base import ob

CS = G.CS
ASSUMPTIONS = [
    "induction over the iterations of a loop from the relational contract (same start, same step from a common state)",
    "the dependencies are deterministic functions of their arguments, random numbers of their key",
]


def same_coreset(E, label, a, b):
    E.hold(f"{label}: same type", type(a) is type(b))
    E.same(f"{label}: same indices", a.indices.data, b.indices.data)
    E.same(f"{label}: same weights", a.indices.weights, b.indices.weights)
    G.same_data(E, f"{label}: same original data", a.pre_coreset_data, b.pre_coreset_data)


def two_runs(E, call, check, again=None):
    """call(None) and call(state it returned); check(s, r, st) states what the state is."""
    loop = loops.SameLoop(E, lambda kind, n, init: any(x.dtype.kind == "i" for x in init))

    def go():
        loop.reset()
        loops.LOOP_CONTRACTS[:] = [loop]
        Z.OPAQUE_INDEX[0] = True
        try:
            r1, s1 = call(None)
            check(r1, s1)
            r2, s2 = call(s1 if again is None else again(s1))
        finally:
            Z.OPAQUE_INDEX[0] = False
            loops.LOOP_CONTRACTS.clear()
        E.hold("the loop was executed for both calls", len(loop.runs) == 2)
        same_coreset(E, "the coreset is the same", r1, r2)
        return s1, s2

    return go


def _herding(start, prob, unique):
    @ob("C15", f"herding, {start}{', probabilistic' if prob else ''}{'' if unique else ', repeats allowed'}", [f"{CS}.KernelHerding.{start}", f"{CS}.KernelHerding.refine"], timeout=200)
    def _(E):
        s = G.Setup(E, sup=not unique)
        sol = s.sm.KernelHerding(coreset_size=s.m, kernel=s.k, unique=unique, **(dict(probabilistic=True, temperature=S.real("temp", sign="+"), random_key=S.key()) if prob else {}))
        L = S.nat("L")
        E.assume(T.le(L.n, s.mm))
        box = {}

        def call(st):
            if start == "refine" and st is None:
                box[0] = s.coresubset(L)
            return sol.refine(box[0], st) if start == "refine" else sol.reduce(s.data, st)

        def check(r, st):
            v = T.index_var(s.n.n, "v")
            E.hold("the state has one entry per point", Z.same_dim(st.gramian_row_mean.dims[0], s.n.n))
            E.prove("the state is the Gramian row mean", T.eq(st.gramian_row_mean.get(v), s.row_mean(v)))

        go = two_runs(E, call, check)

        def full():
            s1, s2 = go()
            E.same("the state is the same", s1.gramian_row_mean, s2.gramian_row_mean)

        E.paths(full)
        E.check_vacuity()


for _st in ("reduce", "refine"):
    for _p in (False, True):
        for _u in (True, False):
            _herding(_st, _p, _u)


@ob("C15", "herding, iterative", [f"{CS}.KernelHerding.reduce_iterative"], timeout=200)
def _(E):
    s = G.Setup(E)
    sol = s.sm.KernelHerding(coreset_size=s.m, kernel=s.k, probabilistic=True, random_key=S.key())
    seen = []

    def refine(self, coresubset, solver_state=None):
        seen.append(solver_state)
        return coresubset, solver_state

    E.callee(s.sm.KernelHerding, "refine", refine)

    def go():
        seen.clear()
        r1, s1 = sol.reduce_iterative(s.data, None, 2)
        k = len(seen)
        r2, s2 = sol.reduce_iterative(s.data, s1, 2)
        v = T.index_var(s.n.n, "v")
        E.prove("the state is the Gramian row mean", T.eq(s1.gramian_row_mean.get(v), s.row_mean(v)))
        E.same("the state is the same", s1.gramian_row_mean, s2.gramian_row_mean)
        E.hold("every refinement uses the state", 0 < k and len(seen) == 2 * k and all(x is not None for x in seen))
        for x in seen:
            if x is not s1:
                E.same("every refinement uses the state", x.gramian_row_mean, s1.gramian_row_mean)

    E.paths(go)


def _gkp(start, unique):
    @ob("C15", f"greedy kernel points, {start}{'' if unique else ', repeats allowed'}", [f"{CS}.GreedyKernelPoints.{start}", f"{CS}.GreedyKernelPoints.refine", f"{CS}._setup_batch_solver"], timeout=200)
    def _(E):
        s = G.Setup(E, sup=True, p=1)
        sol = s.sm.GreedyKernelPoints(coreset_size=s.m, random_key=S.key(), feature_kernel=s.k, unique=unique)
        L = S.nat("L")
        E.assume(T.le(L.n, s.mm))
        box = {}

        def call(st):
            if start == "refine" and st is None:
                box[0] = s.coresubset(L)
            return sol.refine(box[0], st) if start == "refine" else sol.reduce(s.data, st)

        def check(r, st):
            F = st.feature_gramian
            n = s.n.n
            E.hold("the state is one larger than the data", all(Z.same_dim(d, n + T.ONE) for d in F.dims))
            i, j, e = T.index_var(n, "i"), T.index_var(n, "j"), T.index_var(n + T.ONE, "e")
            E.prove("the state is the feature Gramian", T.eq(F.get(i, j), s.K(i, j)))
            E.prove("padded by zeros", T.band(T.eq(F.get(n, e), T.ZERO), T.eq(F.get(e, n), T.ZERO)))

        go = two_runs(E, call, check)

        def full():
            s1, s2 = go()
            E.same("the state is the same", s1.feature_gramian, s2.feature_gramian)

        E.paths(full)
        E.check_vacuity()


for _st in ("reduce", "refine"):
    for _u in (True, False):
        _gkp(_st, _u)


@ob("C15", "RPCholesky given the Gramian diagonal", [f"{CS}.RPCholesky.reduce"], timeout=200)
def _(E):
    """What holds of its state (the state it returns is the residual diagonal: known finding K2)."""
    s = G.Setup(E)
    sol = s.sm.RPCholesky(coreset_size=s.m, random_key=S.key(), kernel=s.k)
    diag = Z.build((s.n.n,), lambda v: s.K(v, v), Z.F32)
    go = two_runs(E, lambda st: sol.reduce(s.data, st), lambda r, st: None, again=lambda st: s.sm.RPCholeskyState(diag))

    def full():
        s1, s2 = go()
        E.same("the state is the same", s1.gramian_diagonal, s2.gramian_diagonal)

    E.paths(full)
    E.check_vacuity()
