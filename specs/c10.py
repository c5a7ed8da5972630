"""C10: metrics equal the square root of their documented quadratic expression."""
from engine import model as M, sym as S, tensor as Z, terms as T
from engine.prover import CTX
from engine.tensor import SV

from .base import ob, same_value
from .c06 import FS as MEAN_FS, blocks

ASSUMPTIONS = ["weights are non-negative with a positive sum", "kernels are arbitrary symmetric real functions with finite values", "AMCMD: the regularised feature Gramians are non-singular (contract of jnp.linalg.solve)"]
MET = "coreax.metrics"


def data(E, nm, d, uniform=False):
    """Weighted data set: rows, weights and the normalised weights."""
    dm = E.load("coreax.data")
    n = S.nat("n" + nm)
    X = S.array("p" + nm, n, d)
    w = S.array("w" + nm, n, sign="0+")
    E.assume(T.gt0(Z.sum_axis(w).body))
    return dm.Data(X, w), X, w, n


def nw(w):
    s = T.inv(Z.sum_axis(w).body)
    return lambda i: w.get(i) * s


def quad(A, wa, na, B, wb, nb, val):
    i, j = T.index_var(na.n, "i"), T.index_var(nb.n, "j")
    return T.sum_([(i, na.n), (j, nb.n)], nw(wa)(i) * nw(wb)(j) * val(A, i, B, j))


def kval(name):
    return lambda A, i, B, j: S.K(name, A[SV(i, "i")], B[SV(j, "i")])


def root(sq):
    """sqrt(max(0, sq)) as a spec value."""
    return Z.xsqrt(Z.xmax(T.ZERO, sq))


def finite_nonneg(E, v):
    if isinstance(v, T.X):
        E.prove("never NaN", T.bnot(v.nan))
        E.prove("never infinite", T.bnot(T.bor(v.pinf, v.ninf)))
        E.prove("never negative", T.ge0(v.v))
    else:
        E.hold("never NaN or infinite", True)
        E.prove("never negative", T.ge0(v))


def _mmd(bk, unroll=False):
    @ob("C10", f"MMD[block {bk}{', unroll pair' if unroll else ''}]", [f"{MET}.MMD.compute"] + MEAN_FS)
    def _(E):
        mm = E.load(MET)
        k = S.abstract_kernel(E.L, "K")
        d = S.nat("d")
        a, A, wa, na = data(E, "a", d)
        b, B, wb, nb = data(E, "b", d)
        bs = blocks(bk)
        un = (S.nat("u1"), S.nat("u2")) if unroll else 1

        def go():
            r = mm.MMD(k).compute(a, b, block_size=bs, unroll=un)
            E.hold("scalar", r.ndim == 0)
            kv = kval("K")
            sq = quad(A, wa, na, A, wa, na, kv) + quad(B, wb, nb, B, wb, nb, kv) - quad(A, wa, na, B, wb, nb, kv).scale(2)
            E.prove("square root of the clipped quadratic expression", same_value(r.body, root(sq)))
            finite_nonneg(E, r.body)
            r2 = mm.MMD(k).compute(b, a, block_size=bs, unroll=un)
            E.prove("symmetric in the two data sets", same_value(r.body, r2.body))
            r3 = mm.MMD(k).compute(a, a, block_size=bs, unroll=un)
            E.prove("zero for a data set and itself", same_value(r3.body, T.ZERO))

        E.paths(go)
        E.check_vacuity()


for _b in ("none", "int", "pair", "x only", "y only"):
    _mmd(_b)
_mmd("pair", True)


@ob("C10", "MMD[supervised data]", [f"{MET}.MMD.compute"] + MEAN_FS)
def _(E):
    mm, dm = E.load(MET), E.load("coreax.data")
    k = S.abstract_kernel(E.L, "K")
    d, q = S.nat("d"), S.nat("q")
    _, A, wa, na = data(E, "a", d)
    b, B, wb, nb = data(E, "b", d)
    a = dm.SupervisedData(A, S.array("sa", na, q), wa)
    kv = kval("K")

    def go():
        r = mm.MMD(k).compute(a, b, block_size=S.nat("b"))
        sq = quad(A, wa, na, A, wa, na, kv) + quad(B, wb, nb, B, wb, nb, kv) - quad(A, wa, na, B, wb, nb, kv).scale(2)
        E.prove("square root of the clipped quadratic expression", same_value(r.body, root(sq)))

    E.paths(go)


@ob("C10", "JMMD", [f"{MET}.JMMD.compute", "coreax.data.Data.normalize"])
def _(E):
    mm, dm = E.load(MET), E.load("coreax.data")
    f, g = S.abstract_kernel(E.L, "F"), S.abstract_kernel(E.L, "G")
    d, q = S.nat("d"), S.nat("q")
    _, A, wa, na = data(E, "a", d)
    _, B, wb, nb = data(E, "b", d)
    SA, SB = S.array("sa", na, q), S.array("sb", nb, q)
    a, b = dm.SupervisedData(A, SA, wa), dm.SupervisedData(B, SB, wb)
    sup = {id(A): SA, id(B): SB}

    def kv(P, i, Q, j):
        return kval("F")(P, i, Q, j) * kval("G")(sup[id(P)], i, sup[id(Q)], j)

    def go():
        m = mm.JMMD(f, g)
        r = m.compute(a, b)
        sq = quad(A, wa, na, A, wa, na, kv) + quad(B, wb, nb, B, wb, nb, kv) - quad(A, wa, na, B, wb, nb, kv).scale(2)
        E.hold("scalar", r.ndim == 0)
        E.prove("square root of the clipped quadratic expression", same_value(r.body, root(sq)))
        finite_nonneg(E, r.body)
        E.prove("symmetric in the two data sets", same_value(r.body, m.compute(b, a).body))
        E.prove("zero for a data set and itself", same_value(m.compute(a, a).body, T.ZERO))

    E.paths(go)
    E.check_vacuity()


def gram(X, Y, name):
    return Z.build((X.dims[0], Y.dims[0]), lambda i, j: S.K(name, X[SV(i, "i")], Y[SV(j, "i")]), Z.F32)


def _amcmd(weighting):
    @ob("C10", f"AMCMD[{'weighting data' if weighting else 'reference weighting'}]", [f"{MET}.AMCMD.compute"])
    def _(E):
        mm, dm = E.load(MET), E.load("coreax.data")
        f, g = S.abstract_kernel(E.L, "F"), S.abstract_kernel(E.L, "G")
        d, q = S.nat("d"), S.nat("q")
        lam = S.real("lam", "0+")
        n1, n2, n3 = S.nat("n1"), S.nat("n2"), S.nat("n3")
        X1, X2, X3 = S.array("x1", n1, d), S.array("x2", n2, d), S.array("x3", n3, d)
        Y1, Y2 = S.array("y1", n1, q), S.array("y2", n2, q)
        # the weights must play no role: arbitrary non-negative
        a = dm.SupervisedData(X1, Y1, S.array("w1", n1, sign="0+"))
        b = dm.SupervisedData(X2, Y2, S.array("w2", n2, sign="0+"))
        c = dm.SupervisedData(X3, S.array("y3", n3, q)) if weighting else None
        C, nc = (X3, n3) if weighting else (X1, n1)

        def go():
            m = mm.AMCMD(f, g, lam)
            r = m.compute(a, b, weighting_data=c) if weighting else m.compute(a, b)

            def W(X, n):
                A = Z.build((n.n, n.n), lambda i, j: S.K("F", X[SV(i, "i")], X[SV(j, "i")]) + lam.n * T.ite(T.eq(i, j), T.ONE, T.ZERO), Z.F32)
                return M.solve(A, gram(X, C, "F"))

            W1, W2 = W(X1, n1), W(X2, n2)

            def term(U, n, V, m_, P, Q):
                i, j, l = T.index_var(n.n, "i"), T.index_var(m_.n, "j"), T.index_var(nc.n, "l")
                return T.sum_([(l, nc.n), (i, n.n), (j, m_.n)], U.get(i, l) * V.get(j, l) * S.K("G", P[SV(i, "i")], Q[SV(j, "i")]))

            sq = (term(W1, n1, W1, n1, Y1, Y1) + term(W2, n2, W2, n2, Y2, Y2) - term(W1, n1, W2, n2, Y1, Y2).scale(2)) * T.inv(nc.n)
            E.hold("scalar", r.ndim == 0)
            E.prove("square root of the clipped quadratic expression", same_value(r.body, root(sq)))
            finite_nonneg(E, r.body)

        E.paths(go)
        E.check_vacuity()


_amcmd(False)
_amcmd(True)


@ob("C10", "AMCMD[validation]", [f"{MET}.AMCMD.__check_init__"])
def _(E):
    mm = E.load(MET)
    f, g = S.abstract_kernel(E.L, "F"), S.abstract_kernel(E.L, "G")
    lam = S.real("lam_any")
    mk = CTX.mark()
    E.assume(T.gt0(-lam.n))
    E.raises("a negative regularisation parameter is rejected", ValueError, lambda: mm.AMCMD(f, g, lam))
    CTX.rewind(mk)
    E.assume(T.ge0(lam.n))
    mm.AMCMD(f, g, lam)
    E.hold("a non-negative one is accepted", True)


def _ksd(bk):
    @ob("C10", f"KSD[Stein kernel given, block {bk}]", [f"{MET}.KSD.compute", "coreax.score_matching.convert_stein_kernel", "coreax.kernels.scalar_valued.SteinKernel.compute_elementwise"] + MEAN_FS)
    def _(E):
        mm, km = E.load(MET), E.load("coreax.kernels")
        k = S.abstract_kernel(E.L, "K", symmetric=False)
        d = S.nat("d")
        a, A, wa, na = data(E, "a", d)
        b, B, wb, nb = data(E, "b", d)
        T.declare_fn("score", "R")

        def score(x):
            x = Z.as_st(x)
            return Z.build(x.dims, lambda l: T.app("score", S.row(x), l), Z.F32)

        st = km.SteinKernel(k, score)
        bs = blocks(bk)

        def stein(P, i, Q, j):
            x, y = P[SV(i, "i")], Q[SV(j, "i")]
            l = T.index_var(d.n, "l")
            g = lambda s, u, v: T.app(S.ACTUAL["K"] + s, S.row(u), S.row(v), l)  # noqa: E731
            sx, sy = score(x), score(y)
            return (
                T.app(S.ACTUAL["K"] + "_div", S.row(x), S.row(y)) + T.sum_([(l, d.n)], g("_gx", x, y) * sy.get(l))
                + T.sum_([(l, d.n)], g("_gy", x, y) * sx.get(l)) + S.K("K", x, y) * T.sum_([(l, d.n)], sx.get(l) * sy.get(l))
            )

        def go():
            r = mm.KSD(st).compute(a, b, block_size=bs)
            sq = quad(B, wb, nb, B, wb, nb, stein)
            E.hold("scalar", r.ndim == 0)
            E.prove("square root of the clipped quadratic expression", same_value(r.body, root(sq)))
            finite_nonneg(E, r.body)

        E.paths(go)
        E.check_vacuity()


_ksd("none")
_ksd("int")


class Probe:
    """A metric that records what it is asked to compare."""

    def __init__(self):
        self.calls = []

    def compute(self, *a, **k):
        self.calls.append((a, k))
        return len(self.calls)


@ob("C10", "a coreset's metric compares the original data with its points", ["coreax.coreset.AbstractCoreset.compute_metric", "coreax.coreset.Coresubset.points", "coreax.coreset.PseudoCoreset.points"])
def _(E):
    cm, dm = E.load("coreax.coreset"), E.load("coreax.data")
    n, m, d = S.nat("n"), S.nat("m"), S.nat("d")
    E.assume(T.le(m.n, n.n))
    X, w = S.array("X", n, d), S.array("w", n, sign="0+")
    v = S.array("v", m, sign="0+")
    ix = S.array("ix", m, dtype=Z.I32)
    t = T.index_var(m.n, "t")
    E.assume(T.forall([t], T.band(T.ge0(ix.get(t)), T.lt(ix.get(t), n.n))))
    orig = dm.Data(X, w)
    def go():
        c = cm.Coresubset(dm.Data(ix, v), orig)
        p = Probe()
        r = c.compute_metric(p, block_size=7)
        E.hold("one evaluation, its value is returned", len(p.calls) == 1 and r == 1)
        (args, kw) = p.calls[0]
        E.hold("keyword arguments are passed on", kw == {"block_size": 7})
        E.hold("the reference is the original data", len(args) == 2 and args[0] is orig or _same(args[0], orig))
        E.same("the points are the indexed rows", args[1].data, Z.build((m.n, d.n), lambda i, l: X.get(ix.get(i), l), Z.F32))
        E.same("with the coreset's own weights", args[1].weights, v)
        nodes = dm.Data(S.array("P", m, d), v)
        pc = cm.PseudoCoreset(nodes, orig)
        p = Probe()
        pc.compute_metric(p)
        (args, kw) = p.calls[0]
        E.hold("pseudo-coreset: reference and keyword arguments", kw == {} and _same(args[0], orig))
        E.same("pseudo-coreset: points", args[1].data, nodes.data)
        E.same("pseudo-coreset: weights", args[1].weights, v)

    E.paths(go)


def _same(a, b):
    return Z.as_st(a.data) is Z.as_st(b.data) and Z.as_st(a.weights) is Z.as_st(b.weights)
