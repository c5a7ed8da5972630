"""C11: weight optimisers solve the documented problem; solving replaces only the weights."""
from engine import model as M, sym as S, tensor as Z, terms as T
from engine.tensor import SV

from .base import ob, same_value
from .c06 import blocks

ASSUMPTIONS = [
    "the kernel is an arbitrary symmetric real function with finite values and the linear system is non-singular (contract of jnp.linalg.solve)",
    "the primal vector returned by jaxopt.OSQP has at least one positive entry (it approximates a point of the simplex); its optimality is not assumed",
]
W = "coreax.weights"
FS = [f"{W}._prepare_kernel_system", "coreax.kernels.base.ScalarValuedKernel.compute_mean", "coreax.kernels.base.ScalarValuedKernel.compute", "coreax.util.pairwise"]


def setup(E, how):
    dm = E.load("coreax.data")
    k = S.abstract_kernel(E.L, "K")
    n, m, d = S.nat("n"), S.nat("m"), S.nat("d")
    X, C = S.array("x", n, d), S.array("c", m, d)
    eps = S.real("eps", "0+")
    if how == "arrays":
        a, b = X, C
    else:
        # whatever weights the data sets carry, the problem is stated with the plain mean
        a, b = dm.Data(X, S.array("wx", n, sign="0+")), dm.Data(C, S.array("wc", m, sign="0+"))
    i = T.index_var(n.n, "i")
    z = Z.build((m.n,), lambda j: T.sum_([(i, n.n)], S.K("K", X[SV(i, "i")], C[SV(j, "i")])) * T.inv(n.n), Z.F32)
    A = Z.build((m.n, m.n), lambda p, q: S.K("K", C[SV(p, "i")], C[SV(q, "i")]) + eps.n * T.ite(T.eq(p, q), T.ONE, T.ZERO), Z.F32)
    return k, n, m, d, X, C, a, b, eps, z, A


def _sbq(how, bk, unroll=False):
    @ob("C11", f"Bayesian quadrature[{how}, block {bk}{', unroll' if unroll else ''}]", [f"{W}.SBQWeightsOptimiser.solve"] + FS)
    def _(E):
        wm = E.load(W)
        k, n, m, d, X, C, a, b, eps, z, A = setup(E, how)
        bs = blocks(bk)
        un = (S.nat("u1"), S.nat("u2")) if unroll else 1

        def go():
            w = wm.SBQWeightsOptimiser(k).solve(a, b, eps, block_size=bs, unroll=un)
            E.hold("one weight per coreset point", w.ndim == 1 and Z.same_dim(w.dims[0], m.n), str(w.dims)[:100])
            p, q = T.index_var(m.n, "p"), T.index_var(m.n, "q")
            want = M.solve(A, z)
            E.either("(K + eps I) w = z", [
                T.eq(w.get(p), want.get(p)),
                T.eq(T.sum_([(q, m.n)], A.get(p, q) * w.get(q)), z.get(p)),
            ])

        E.paths(go)
        E.check_vacuity()


def _mmd(how, bk):
    @ob("C11", f"discrepancy optimiser[{how}, block {bk}]", [f"{W}.MMDWeightsOptimiser.solve", f"{W}.solve_qp"] + FS)
    def _(E):
        wm = E.load(W)
        k, n, m, d, X, C, a, b, eps, z, A = setup(E, how)
        bs = blocks(bk)

        def go():
            before = len(M.QPS)
            w = wm.MMDWeightsOptimiser(k).solve(a, b, eps, block_size=bs)
            E.hold("one quadratic programme is solved", len(M.QPS) == before + 1)
            qp = M.QPS[-1]
            qp_contract(E, qp, A, z, m)
            weights_contract(E, w, qp, m)

        E.paths(go)
        E.check_vacuity()


def qp_contract(E, qp, A, z, m):
    p, q = T.index_var(m.n, "p"), T.index_var(m.n, "q")
    E.same("objective matrix", qp["q"], A)
    E.same("objective vector", qp["c"], Z.build((m.n,), lambda j: -z.get(j), Z.F32))
    ea, eb = [Z.as_st(t) for t in qp["eq"]]
    E.hold("one equality", ea.ndim == 2 and ea.dims[0].const() == 1 and Z.same_dim(ea.dims[1], m.n) and eb.ndim == 1 and eb.dims[0].const() == 1)
    # the equality is a multiple of sum(w) = 1 and the inequalities of -w <= 0
    E.prove("equality: the weights sum to one", T.band(T.eq(Z.to_num(ea.get(T.ZERO, q)), T.ONE), T.eq(Z.to_num(eb.get(T.ZERO)), T.ONE)))
    g, h = [Z.as_st(t) for t in qp["ineq"]]
    E.hold("one inequality per weight", g.ndim == 2 and Z.same_dim(g.dims[0], m.n) and Z.same_dim(g.dims[1], m.n) and Z.same_dim(h.dims[0], m.n))
    E.prove("inequalities: the weights are non-negative", T.band(T.eq(Z.to_num(g.get(p, q)), T.ite(T.eq(p, q), T.num(-1), T.ZERO)), T.eq(Z.to_num(h.get(p)), T.ZERO)))


def weights_contract(E, w, qp, m):
    p, q = T.index_var(m.n, "p"), T.index_var(m.n, "q")
    E.assume(T.gt0(T.sum_([(q, m.n)], T.max_(T.ZERO, qp["primal"].get(q)))), "the primal vector has a positive entry")
    E.hold("one weight per coreset point", w.ndim == 1 and Z.same_dim(w.dims[0], m.n), str(w.dims)[:100])
    v = T.asx(Z.to_num(w.get(p)))
    E.prove("weights are finite", T.bnot(T.bor(v.nan, v.pinf, v.ninf)))
    E.prove("weights are non-negative", T.ge0(v.v))
    s = T.asx(Z.to_num(Z.sum_axis(w).body))
    E.prove("weights sum to one", T.band(T.bnot(T.bor(s.nan, s.pinf, s.ninf)), T.eq(s.v, T.ONE)))


for _how in ("arrays", "data"):
    for _b in ("none", "int", "pair"):
        _sbq(_how, _b)
        _mmd(_how, _b)
_sbq("data", "pair", True)


@ob("C11", "solve_qp", [f"{W}.solve_qp"])
def _(E):
    wm = E.load(W)
    m = S.nat("m")
    A, z = S.array("A", m, m), S.array("z", m)
    w = wm.solve_qp(A, z)
    qp_contract(E, M.QPS[-1], A, z, m)
    weights_contract(E, w, M.QPS[-1], m)
    E.check_vacuity()


@ob("C11", "supervised data is rejected", [f"{W}._prepare_kernel_system"])
def _(E):
    wm, dm = E.load(W), E.load("coreax.data")
    k = S.abstract_kernel(E.L, "K")
    n, m, d, q = S.nat("n"), S.nat("m"), S.nat("d"), S.nat("q")
    X, C = S.array("x", n, d), S.array("c", m, d)
    sx, sc = dm.SupervisedData(X, S.array("sx", n, q)), dm.SupervisedData(C, S.array("sc", m, q))
    for o in (wm.SBQWeightsOptimiser(k), wm.MMDWeightsOptimiser(k)):
        E.raises("supervised data", ValueError, lambda: o.solve(sx, sc))
        E.raises("supervised coreset", ValueError, lambda: o.solve(X, sc))
        E.raises("supervised original", ValueError, lambda: o.solve(sx, C))


class Probe:
    def __init__(self, w):
        self.w, self.calls = w, []

    def solve(self, *a, **k):
        self.calls.append((a, k))
        return self.w


@ob("C11", "solving replaces only the weights", ["coreax.coreset.Coresubset.solve_weights", "coreax.coreset.PseudoCoreset.solve_weights", "coreax.coreset.Coresubset.points", "coreax.coreset.Coresubset.unweighted_indices"])
def _(E):
    cm, dm = E.load("coreax.coreset"), E.load("coreax.data")
    n, m, d, q = S.nat("n"), S.nat("m"), S.nat("d"), S.nat("q")
    E.assume(T.le(m.n, n.n))
    X, w = S.array("X", n, d), S.array("w", n, sign="0+")
    v, new = S.array("v", m, sign="0+"), S.array("new", m)
    ix = S.array("ix", m, dtype=Z.I32)
    t = T.index_var(m.n, "t")
    E.assume(T.forall([t], T.band(T.ge0(ix.get(t)), T.lt(ix.get(t), n.n))))

    def go(orig, sup):
        tag = "supervised" if sup else "plain"
        pts = Z.build((m.n, d.n), lambda i, l: X.get(ix.get(i), l), Z.F32)
        c = cm.Coresubset(dm.Data(ix, v), orig)
        p = Probe(new)
        r = c.solve_weights(p, epsilon=3)
        E.hold(f"{tag}: one solve, keyword arguments passed on", len(p.calls) == 1 and p.calls[0][1] == {"epsilon": 3} and len(p.calls[0][0]) == 2)
        a, b = p.calls[0][0]
        E.same(f"{tag}: solver is given the original data", a.data, X)
        E.same(f"{tag}: solver is given the coreset points", b.data, pts)
        E.hold(f"{tag}: same kind of coreset", type(r) is type(c))
        E.same(f"{tag}: new weights in order", r.points.weights, new)
        E.same(f"{tag}: index weights", r.indices.weights, new)
        E.same(f"{tag}: indices unchanged", Z.squeeze(Z.as_st(r.indices.data), 1) if Z.as_st(r.indices.data).ndim == 2 else r.indices.data, ix)
        E.same(f"{tag}: points unchanged", r.points.data, pts)
        E.same(f"{tag}: original data unchanged", r.pre_coreset_data.data, X)
        E.same(f"{tag}: original weights unchanged", r.pre_coreset_data.weights, w)
        if sup:
            E.same(f"{tag}: supervision unchanged", r.pre_coreset_data.supervision, orig.supervision)
        E.same(f"{tag}: the input coreset is unchanged", c.indices.weights, v)
        P = S.array("P", m, d)
        pc = cm.PseudoCoreset(dm.Data(P, v), orig)
        p = Probe(new)
        r = pc.solve_weights(p)
        a, b = p.calls[0][0]
        E.same(f"{tag} pseudo: solver is given the original data", a.data, X)
        E.same(f"{tag} pseudo: solver is given the nodes", b.data, P)
        E.same(f"{tag} pseudo: new weights in order", r.points.weights, new)
        E.same(f"{tag} pseudo: nodes unchanged", r.points.data, P)
        E.same(f"{tag} pseudo: original data unchanged", r.pre_coreset_data.data, X)
        E.same(f"{tag} pseudo: original weights unchanged", r.pre_coreset_data.weights, w)

    E.paths(lambda: go(dm.Data(X, w), False))
    E.paths(lambda: go(dm.SupervisedData(X, S.array("sv", n, q), w), True))
    E.check_vacuity()
