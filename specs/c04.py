"""C04: map-reduce returns correct original indices through every level of its tree."""
from engine import prover as P
from engine import loader, loops, model as M, sym as S, tensor as Z, terms as T  # noqa: F401
from engine.tensor import CTX

from . import greedy as G
from .base import ob

MR = "coreax.solvers.composite"
ASSUMPTIONS = [
    "the base solver returns distinct valid indices of positively weighted points of the data set it is given (quantifier of the property; proved for the solvers in C01 to C03)",
    "induction over the recursion of _reduce_coreset from its contract (termination: the data set shrinks when the coreset size is at most half the leaf size; larger sizes are the known finding K5)",
    "math.log2 and division are exact",
]


def SVd(n):
    return Z.SV(n) if n.const() is None else int(n.const())


class Setup:
    def __init__(self, E, sup=False, one=None):
        self.E = E
        self.mm, self.dm, self.cm = E.load(MR), E.load("coreax.data"), E.load("coreax.coreset")
        self.bm = E.load("coreax.solvers.base")
        self.n, self.d, self.m, self.leaf = S.nat("n"), S.nat("d"), S.nat("m") if one is None else S.nat("m2", at_least=2), S.nat("leaf", at_least=2)
        if one:
            self.m = 1
        self.mn = Z.dim(self.m)
        self.sup = sup
        self.p = S.nat("p")
        self.X, self.w = S.array("X", self.n, self.d), S.array("w", self.n, sign="0+")
        self.y = S.array("Y", self.n, self.p) if sup else None
        self.data = self.make(self.X, self.y, self.w)
        E.assume(T.lt(self.mn, self.leaf.n))
        self.calls = []
        self.whole = False
        self.solver = self.base()

    def make(self, x, y, w):
        return self.dm.SupervisedData(x, y, w) if self.sup else self.dm.Data(x, w)

    def base(self):
        s = self
        bm, cm, dm = self.bm, self.cm, self.dm

        class Base(bm.CoresubsetSolver, bm.ExplicitSizeSolver, bm.PaddingInvariantSolver):
            """Contract of the base solver: distinct valid indices of points that are not zero-weighted, arbitrary weights."""

            def reduce(self, dataset, solver_state=None):
                k = len(s.calls)
                x = Z.as_st(dataset.data)
                L, m = x.dims[0], s.mn
                if s.whole and not Z.same_dim(L, s.n.n):
                    raise T.VerifierLimit("data no larger than the leaf size are partitioned")
                wt = Z.as_st(dataset.weights)
                free = [T.num(v) for v in sorted(M._quantifiable((T.lam([x.vars[0], x.vars[1]], list(x.dims), Z.to_num(x.body)).fv | T.lam([wt.vars[0]], list(wt.dims), Z.to_num(wt.body)).fv)), key=lambda a: a.id)]
                c, u = f"base{k}", f"basew{k}"
                T.declare_fn(c, "I")
                T.declare_fn(u, "R")
                at = lambda j: T.app(c, *free, j)  # noqa: E731
                j, h = T.index_var(m, "j"), T.index_var(m, "h")
                s.E.prove("the base solver is asked for no more points than there are", T.le(m, L))
                CTX.assume(T.forall(free + [j], T.band(T.ge0(at(j)), T.lt(at(j), L), T.bnot(T.eq(Z.to_num(wt.get(at(j))), T.ZERO)))), "contract of the base solver")
                CTX.assume(T.forall(free + [j, h], T.bor(T.eq(j, h), T.bnot(T.eq(at(j), at(h))))), "contract of the base solver")
                s.calls.append(dict(data=dataset, at=at, free=free, L=L))
                idx = Z.build((m,), at, Z.I32)
                return cm.Coresubset(dm.Data(idx, Z.build((m,), lambda q: T.app(u, *free, q), Z.F32)), dataset), ("state", k)

        return Base(coreset_size=self.m)

    def run(self):
        return self.mm.MapReduce(self.solver, self.leaf, tree_type=M.KDTree).reduce(self.data)

    # -- contract of _reduce_coreset
    def rows(self, data, idx, i):
        """The i-th row of data is the original row idx(i)."""
        E, e = self.E, T.index_var(self.d.n, "e")
        out = [T.eq(Z.to_num(Z.as_st(data.data).get(i, e)), self.X.get(idx, e))]
        if self.sup:
            e2 = T.index_var(self.p.n, "e")
            out.append(T.eq(Z.to_num(Z.as_st(data.supervision).get(i, e2)), self.y.get(idx, e2)))
        return out

    def rows2(self, part, idx, l, j):
        e = T.index_var(self.d.n, "e")
        out = [T.forall([e], T.eq(Z.to_num(Z.as_st(part.data).get(l, j, e)), self.X.get(idx, e)))]
        if self.sup:
            e2 = T.index_var(self.p.n, "e")
            out.append(T.forall([e2], T.eq(Z.to_num(Z.as_st(part.supervision).get(l, j, e2)), self.y.get(idx, e2))))
        return out

    def good(self, label, c, L):
        E, n = self.E, self.n.n
        i, j = T.index_var(L, "i"), T.index_var(L, "j")
        lemma(E, f"{label}: valid indices of the original data", T.forall([i], T.band(T.ge0(c(i)), T.lt(c(i), n))))
        lemma(E, f"{label}: distinct indices of the original data", T.forall([i, j], T.bor(T.eq(i, j), T.bnot(T.eq(c(i), c(j))))))

    def arbitrary(self, name, L):
        """A data set of L rows that are the distinct original rows ix(0), ix(1), ..., with arbitrary weights."""
        f = f"{name}_ix"
        T.declare_fn(f, "I")
        ix = lambda i: T.app(f, i)  # noqa: E731
        i, j = T.index_var(L, "i"), T.index_var(L, "j")
        CTX.assume(T.forall([i], T.band(T.ge0(ix(i)), T.lt(ix(i), self.n.n))), "contract of _reduce_coreset")
        CTX.assume(T.forall([i, j], T.bor(T.eq(i, j), T.bnot(T.eq(ix(i), ix(j))))), "contract of _reduce_coreset")
        x = Z.build((L, self.d.n), lambda a, e: self.X.get(ix(a), e), Z.F32)
        y = Z.build((L, self.p.n), lambda a, e: self.y.get(ix(a), e), Z.F32) if self.sup else None
        return x, y, Z.build((L,), ix, Z.I32), ix


lemma = None


def _lemma(E, label, g):
    E.prove(label, g)
    CTX.assume(g, "lemma: " + label)


lemma = _lemma


def contract(s, level):
    """_reduce_coreset(data, indices): the rows of data are the distinct original rows `indices` (all, if None); the result
    is a coreset of size m of some such data set, with the original indices of its points (None: the whole data set)."""

    E, m = s.E, s.mn

    def args(a, k):
        k = dict(k)
        data = a[0] if a else k.pop("data", None)
        rest = list(a[1:]) + list(k.values())
        if data is None or len(rest) > 1:
            raise T.VerifierLimit("the recursion of map-reduce has other arguments")
        return data, (rest[0] if rest else None)

    def check(label, data, ix):
        if ix is None:
            G.same_data(E, f"{label}: the original data", data, s.data)
            return s.n.n
        ix = Z.ravel(Z.as_st(ix))
        L = ix.dims[0]
        E.hold(f"{label}: one index per row", Z.same_dim(Z.as_st(data.data).dims[0], L) and Z.same_dim(Z.as_st(data.weights).dims[0], L))
        E.prove(f"{label}: at least as many rows as the size of the coreset", T.le(m, L))
        i = T.index_var(L, "i")
        s.good(label, lambda q: Z.to_num(ix.get(q)), L)
        for g in s.rows(data, Z.to_num(ix.get(i)), i):
            E.prove(f"{label}: every row is the original row at its index", g)
        return L

    def inner(fn, a, k):
        data, ix = args(a, k)
        L = check("passed to the next level", data, ix)
        E.prove("the data passed to the next level is smaller", T.lt(L, s.L0))
        q = S.nat("q")
        CTX.assume(T.le(m, q.n), "contract of _reduce_coreset")
        x, y, st, f = s.arbitrary("last", q.n)
        sel = S.array("sel", s.m, dtype=Z.I32)
        j, h = T.index_var(m, "j"), T.index_var(m, "h")
        CTX.assume(T.forall([j], T.band(T.ge0(sel.get(j)), T.lt(sel.get(j), q.n))), "contract of _reduce_coreset")
        CTX.assume(T.forall([j, h], T.bor(T.eq(j, h), T.bnot(T.eq(sel.get(j), sel.get(h))))), "contract of _reduce_coreset")
        co = s.cm.Coresubset(s.dm.Data(sel, S.array("selw", s.m)), s.make(x, y, S.array("lastw", q)))
        s.inner = (co, f, sel)
        return co, ("state", "inner"), Z.build((m, T.ONE), lambda t, z: f(sel.get(t)), Z.I32)

    def start(a, k):
        data, ix = args(a, k)
        check("passed first", data, ix)
        if level == "top":
            s.L0 = s.n.n
            return a, k
        q = S.nat("L0")
        s.L0 = q.n
        CTX.assume(T.le(m, q.n), "contract of _reduce_coreset")
        x, y, st, f = s.arbitrary("some", q.n)
        s.given = f
        return (s.make(x, y, S.array("somew", q)), st), {}

    def post(a, k, r):
        data, ix = args(a, k)
        co, state, out = r
        s.outer = r
        E.hold("the result is a coreset of the size of the base solver", Z.same_dim(co.indices.data.dims[0], m))
        if out is None:
            E.hold("no indices: the base solver was applied once", len(s.calls) == 1)
            G.same_data(E, "no indices: the coreset is one of the original data", co.pre_coreset_data, s.data)
            return
        out = Z.ravel(Z.as_st(out))
        E.hold("one original index per point of the coreset", Z.same_dim(out.dims[0], m))
        s.good("returned", lambda q: Z.to_num(out.get(q)), m)
        i = T.index_var(m, "i")
        for g in s.rows(co.points, Z.to_num(out.get(i)), i):
            E.prove("returned: every point is the original row at its index", g)

    inner.start, inner.post = start, post
    return inner


def _step(level, sup, one):
    @ob("C04", f"{'first level' if level == 'top' else 'any deeper level'}{', supervised' if sup else ''}{', coresets of one point' if one else ''}", [f"{MR}.MapReduce.reduce", f"{MR}._jit_tree", "coreax.util.tree_zero_pad_leading_axis"], timeout=250)
    def _(E):
        P.PHASES[0] = P.NONLINEAR_FIRST
        s = Setup(E, sup=sup, one=one)
        E.assume(T.le(s.mn.scale(2), s.leaf.n), "coreset size at most half the leaf size")
        if level == "top":
            E.assume(T.lt(s.leaf.n, s.n.n))

        def go():
            s.calls.clear()
            loader.CONTRACTS["*"] = contract(s, level)
            Z.INT_POWERS[0] = True
            try:
                r, st = s.run()
            finally:
                Z.INT_POWERS[0] = False
                loader.CONTRACTS.clear()
            if level == "top":
                finish(s, r)

        E.paths(go)
        E.check_vacuity()


def finish(s, r):
    E, m = s.E, s.mn
    out = s.outer[2]
    E.hold("the result is a coresubset", type(r).__name__ == "Coresubset")
    E.hold("of the size of the base solver", Z.same_dim(Z.as_st(r.indices.data).dims[0], m))
    G.same_data(E, "of the original data", r.pre_coreset_data, s.data)
    E.same("with the original indices", Z.ravel(Z.as_st(r.indices.data)), Z.ravel(Z.as_st(out)))
    E.hold("as a vector", r.unweighted_indices.ndim == 1)
    E.same("and the weights of the coreset", r.indices.weights, s.outer[0].indices.weights)


for _l in ("top", "deep"):
    for _s, _o in ((False, False), (True, False), (True, True)):
        _step(_l, _s, _o)


@ob("C04", "data no larger than the leaf size", [f"{MR}.MapReduce.reduce"])
def _(E):
    s = Setup(E, sup=True)
    s.whole = True
    E.assume(T.le(s.n.n, s.leaf.n))
    E.assume(T.le(s.mn, s.n.n))

    def go():
        s.calls.clear()
        r, st = s.run()
        E.hold("the base solver is applied once", len(s.calls) == 1)
        G.same_data(E, "the base solver is applied to the data", s.calls[0]["data"], s.data)
        a = s.calls[0]["at"]
        i = T.index_var(s.mn, "i")
        E.prove("its indices", T.eq(Z.to_num(Z.as_st(r.indices.data).get(i)), a(i)))
        E.prove("its weights", T.eq(Z.to_num(Z.as_st(r.indices.weights).get(i)), T.app("basew0", i)))
        E.hold("its state", st == ("state", 0))
        G.same_data(E, "the original data", r.pre_coreset_data, s.data)

    E.paths(go)
    E.check_vacuity()


def _partition(sup, tree):
    @ob("C04", f"partition{', supervised, ball tree' if sup else ''}", [f"{MR}._jit_tree", "coreax.util.tree_zero_pad_leading_axis"], timeout=150)
    def _(E):
        P.PHASES[0] = P.NONLINEAR_FIRST
        s = Setup(E, sup=sup)
        E.assume(T.lt(s.leaf.n, s.n.n))
        if not hasattr(s.mm, "_jit_tree"):
            raise T.VerifierLimit("_jit_tree is no longer a function")

        def go():
            M.TREES.clear()
            Z.INT_POWERS[0] = True
            try:
                part, ix = s.mm._jit_tree(s.data, s.leaf, getattr(M, tree))
                ix = Z.as_st(ix)
                data, wt = Z.as_st(part.data), Z.as_st(part.weights)
                nl, size = ix.dims
                n = s.n.n
                E.hold("an index, weight and supervision for every row", all(Z.same_dim(z.dims[0], nl) and Z.same_dim(z.dims[1], size) for z in (data, wt) + ((Z.as_st(part.supervision),) if sup else ())))
                E.prove("the number of rows handed over", T.band(T.le(n, nl * size), T.lt(nl * size, n + nl)))
                E.prove("a partition is larger than half the leaf size", T.lt(T.fdiv(s.leaf.n, T.num(2)), size))
                E.prove("no partition is larger than the leaf size", T.le(size, s.leaf.n))
                l, j = T.index_var(nl, "l"), T.index_var(size, "j")
                k, h = T.index_var(nl, "l"), T.index_var(size, "j")
                at = lambda a, b: Z.to_num(ix.get(a, b))  # noqa: E731
                W = lambda a, b: Z.to_num(wt.get(a, b))  # noqa: E731
                lemma(E, "indices are valid", T.forall([l, j], T.band(T.ge0(at(l, j)), T.lt(at(l, j), n))))
                rows = T.band(*[g for g in s.rows2(part, at(l, j), l, j)], T.eq(W(l, j), s.w.get(at(l, j))))
                E.prove("every row is the original row at its index with its weight, or zero-weighted padding", T.forall([l, j], T.bor(rows, T.eq(W(l, j), T.ZERO))))
                E.prove("an original row occurs once, apart from zero-weighted padding", T.forall([l, j, k, h], T.bor(T.band(T.eq(l, k), T.eq(j, h)), T.bnot(T.eq(at(l, j), at(k, h))), T.eq(W(l, j), T.ZERO), T.eq(W(k, h), T.ZERO))))
                t = M.TREES[-1]
                i = T.index_var(n, "i")
                pos = T.app(t["fn"] + "_inv", *t["key"], i)
                lw, jw = T.fdiv(pos, size), T.mod(pos, size)
                lemma(E, "the place of an original row", T.forall([i], T.band(T.ge0(pos), T.lt(pos, nl * size), T.eq(lw * size + jw, pos))))
                lemma(E, "the partition of an original row", T.forall([i], T.band(T.ge0(lw), T.lt(lw, nl), T.ge0(jw), T.lt(jw, size))))
                found = T.band(T.eq(at(lw, jw), i), T.eq(W(lw, jw), s.w.get(i)), *s.rows2(part, i, lw, jw))
                E.prove("no original row is lost", T.forall([i], found))
            finally:
                Z.INT_POWERS[0] = False

        E.paths(go)
        E.check_vacuity()


_partition(False, "KDTree")
_partition(True, "BallTree")
