"""C12: recombination preserves mass and weighted moments with non-negative weights."""
from engine import loops, model as M, prover as P, sym as S, tensor as Z, terms as T
from engine.tensor import CTX

from .base import ob
from .greedy import lemma, xval

RC = "coreax.solvers.recombination"
ASSUMPTIONS = [
    "singular values not above the tolerance of the numerical rank are exactly zero (machine arithmetic treated as exact)",
    "the null vectors remaining after an elimination are linearly independent, so the next one is not zero, and a non-zero vector with sum zero has a positive entry (not proved)",
    "finite sums: over a bijection of the range, column by column, of equal terms; a sum of non-negative terms is at least each of them and vanishes only if all do",
    "tree recombination: the contract of CaratheodoryRecombination.reduce used per level is the composition of the obligations on its parts; the number of positive weights after the last level is bounded by run time only",
    "the cardinality of a proper superset is larger; a sequence that decreases exceeds a threshold exactly on a prefix whose length is the count",
]


class Setup:
    def __init__(self, E):
        self.E = E
        self.rm, self.dm, self.cm = E.load(RC), E.load("coreax.data"), E.load("coreax.coreset")
        self.n, self.k = S.nat("n"), S.nat("k")
        self.F = S.array("F", self.n, self.k)
        self.w = S.array("w", self.n, sign="0+")

    def moment(self, w, F, c, n=None):
        i = T.index_var(n or self.n.n, "i")
        return T.sum_([(T.the_var(i), n or self.n.n)], w(i) * F(i, c))


def fn(E, mod, name):
    if not hasattr(mod, name):
        raise T.VerifierLimit(f"{name} is no longer a function of {RC}")
    return getattr(mod, name)


def xn(z):
    """A value that has to be a number."""
    return xval(z)


def cleared(E, z):
    """z without sums whose terms all vanish (proved), multiplied by its one denominator (proved positive)."""
    for a in T.atoms_in(z, lambda a: a.op == "sum"):
        bvs, body = T.open_sum(a)
        if len(bvs) == 1:
            v = T.index_var(bvs[0][1], "v")
            if P.prove(T.eq(T.subst(body, {bvs[0][0]: v}), T.ZERO), ms=3000):
                E.prove("the terms of a sum vanish", T.eq(T.subst(body, {bvs[0][0]: v}), T.ZERO))
                z = T.replace_atom(z, a, T.ZERO)
    for a in T.atoms_in(z, lambda a: a.op == "P"):
        d = a.args[0]
        lemma(E, "the divisor is positive", T.gt0(d))
        out = T.ZERO
        for mono, c in z.terms:
            t = T.num(c)
            hit = False
            for x, e in mono:
                if x is a and e == -1:
                    hit = True
                else:
                    t = t * T.power(T.num(x), e)
            out = out + (t if hit else t * d)
        z = out
    return z


@ob("C12", "zero-weighted points are replaced by copies of the heaviest one", [f"{RC}._co_linearize"], timeout=120)
def _(E):
    s = Setup(E)
    f = fn(E, s.rm, "_co_linearize")
    n = s.n.n

    def go():
        M.ARGS.clear()
        nodes, weights, idx = [Z.as_st(z) for z in f(s.F, s.w)]
        E.hold("one node, weight and index per point", Z.same_dim(nodes.dims[0], n) and Z.same_dim(weights.dims[0], n) and Z.same_dim(idx.dims[0], n))
        h = T.fresh("heavy", "I", T.ZERO, n)
        E.assume(T.gt0(s.w.get(h)), "the weights have a positive sum, so some weight is positive")
        i, c = T.index_var(n, "i"), T.index_var(s.k.n, "c")
        at = lambda q: Z.to_num(idx.get(q))  # noqa: E731
        W = lambda q: xn(weights.get(q))  # noqa: E731
        for a in M.ARGS:
            lemma(E, "the heaviest point has a positive weight", T.band(T.ge0(a["r"]), T.lt(a["r"], n), T.gt0(s.w.get(a["r"]))))
        lemma(E, "valid indices of positively weighted points", T.forall([i], T.band(T.ge0(at(i)), T.lt(at(i), n), T.gt0(s.w.get(at(i))))))
        E.prove("positively weighted points stay in place", T.forall([i], T.implies(T.gt0(s.w.get(i)), T.eq(at(i), i))))
        E.prove("every weight is positive", T.forall([i], T.band(W(i).finite(), T.gt0(W(i).v))))
        E.prove("every node is the node at its index", T.forall([i, c], T.eq(Z.to_num(nodes.get(i, c)), s.F.get(at(i), c))))
        g = lambda q: weights.get(q).v if isinstance(weights.body, T.X) else Z.to_num(weights.get(q))  # noqa: E731
        N = lambda q, cc: Z.to_num(nodes.get(q, cc))  # noqa: E731
        for lab, a, b in (("moments are", N, lambda q, cc: s.F.get(q, cc)), ("mass is", lambda q, cc: T.ONE, lambda q, cc: T.ONE)):
            z = s.moment(g, a, c) - s.moment(lambda q: s.w.get(q), b, c)
            E.prove(f"the {lab} unchanged", T.eq(cleared(E, z), T.ZERO))

    E.paths(go)
    E.check_vacuity()


@ob("C12", "push-forward", [f"{RC}._push_forward"])
def _(E):
    s = Setup(E)
    f = fn(E, s.rm, "_push_forward")
    T.declare_fn("phi", "R")
    d = S.nat("d")
    X = S.array("X", s.n, d)
    i, c, e = T.index_var(s.n.n, "i"), T.index_var(s.k.n, "c"), T.index_var(d.n, "e")
    tf = lambda x: Z.build((s.k.n,), lambda q: T.app("phi", *M.arr_key(Z.as_st(x)), q), Z.F32)  # noqa: E731

    def go():
        a = Z.as_st(f(X, None))
        E.hold("a column of ones and the data", Z.same_dim(a.dims[0], s.n.n) and Z.same_dim(a.dims[1], d.n + T.ONE))
        E.prove("ones", T.eq(Z.to_num(a.get(i, T.ZERO)), T.ONE))
        E.prove("the data", T.eq(Z.to_num(a.get(i, e + T.ONE)), X.get(i, e)))
        E.same("the data alone", f(X, None, augment=False), X)
        b = Z.as_st(f(X, tf, augment=False))
        row = Z.build((d.n,), lambda q: X.get(i, q), Z.F32)
        E.prove("the test functions of each point", T.eq(Z.to_num(b.get(i, c)), tf(row).get(c)))
        g = Z.as_st(f(X, tf))
        E.prove("ones, with test functions", T.eq(Z.to_num(g.get(i, T.ZERO)), T.ONE))
        E.prove("the test functions after the ones", T.eq(Z.to_num(g.get(i, c + T.ONE)), tf(row).get(c)))

    E.paths(go)
    E.check_vacuity()


def carath(E, mode="explicit", after=None):
    """CaratheodoryRecombination.reduce with its helpers by contract and the elimination loop under its invariant."""
    s = Setup(E)
    n, k = s.n.n, s.k.n
    rm = s.rm
    d = S.nat("d")
    s.X, s.wt = S.array("X", s.n, d), S.array("wt", s.n, sign="0+")
    s.data = s.dm.Data(s.X, s.wt)
    ws, idx = S.array("ws", s.n, sign="+"), S.array("ix", s.n, dtype=Z.I32)
    B, r = S.array("B", s.n, s.n), S.nat("r", at_least=0)
    i, c, b = T.index_var(n, "i"), T.index_var(k, "c"), T.index_var(r.n, "b")
    E.assume(T.le(r.n, n))
    C = lambda cc: s.moment(lambda q: ws.get(q), lambda q, e: s.F.get(q, e), cc)  # noqa: E731
    box = s.box = {}

    def push(nodes, tf, augment=True):
        E.same("the data are pushed forward", nodes, s.X)
        E.hold("with the constant", augment is True)
        return s.P

    s.P = S.array("Phi", s.n, s.k)

    def colin(nodes, weights):
        E.same("the push-forward is co-linearised", nodes, s.P)
        tot = T.sum_([(T.the_var(i), n)], s.wt.get(i))
        j = T.index_var(n, "j")
        E.prove("with the normalised weights", T.implies(T.gt0(tot), T.eq(xval(Z.as_st(weights).get(j)).v * tot, s.wt.get(j))))
        return s.F, ws, idx

    def null(nodes, rcond=None):
        E.same("the null space of the co-linearised push-forward", nodes, s.F)
        CTX.assume(T.forall([b, c], T.eq(s.moment(lambda q: B.get(b, q), lambda q, e: s.F.get(q, e), c), T.ZERO)), "contract of _resolve_null_basis")
        CTX.assume(T.forall([b], T.eq(s.moment(lambda q: B.get(b, q), lambda q, e: T.ONE, T.ZERO), T.ZERO)), "contract of _resolve_null_basis")
        return B, Z.scalar(r.n, Z.I32)

    def nodes_(push_forward_nodes, weights, indices, mode, is_affine_augmented=False):
        E.same("presented: the nodes", push_forward_nodes, s.F)
        E.same("presented: the indices", indices, idx)
        E.hold("presented: the mode", mode == box["mode"] and is_affine_augmented is True)
        box["out"] = Z.as_st(weights)
        return s.dm.Data(idx, weights)

    for nm, st in (("_push_forward", push), ("_co_linearize", colin), ("_resolve_null_basis", null), ("_coresubset_nodes", nodes_)):
        E.callee(rm, nm, st)

    def bind(kind, trip, init):
        w = [q for q, x in enumerate(init) if x.ndim == 1 and x.dtype.kind == "f"]
        m = [q for q, x in enumerate(init) if x.ndim == 2]
        t = [q for q, x in enumerate(init) if x.ndim == 0]
        return (w[0], m[0], t[0]) if len(w) == len(m) == len(t) == 1 and len(init) == 3 else None

    T.declare_fn("eliminated", "I")  # ghost: the number of points `gone` before an iteration
    CTX.assume(T.ge0(T.app("eliminated", T.ZERO)), "a cardinality")
    pq = T.index_var(r.n, "p"), T.index_var(n, "q")

    def gone(bd, st):
        """Points with zero weight at which every vector vanishes, and their number."""
        w, m = st[bd[0]], st[bd[1]]
        p, q = pq
        z = lambda i_: T.band(T.eq(xval(w.get(i_)).v, T.ZERO), T.forall([p], T.eq(xval(m.get(p, i_)).v, T.ZERO)))  # noqa: E731
        return z

    def inv(bd, t, st):
        w, m, it = st[bd[0]], st[bd[1]], st[bd[2]]
        W = lambda q: xval(w.get(q))  # noqa: E731
        A = lambda p, q: xval(m.get(p, q))  # noqa: E731
        p, q = T.index_var(r.n, "p"), T.index_var(n, "q")
        return [
            ("the number of eliminations", T.eq(Z.to_num(it.body), t)),
            ("the weights are non-negative", T.forall([q], T.ge0(W(q).v))),
            ("the moments are unchanged", T.forall([c], T.eq(s.moment(lambda z: W(z).v, lambda z, e: s.F.get(z, e), c), C(c)))),
            ("a point is eliminated in every iteration", T.le(t, T.app("eliminated", t))),
            ("the mass is unchanged", T.eq(s.moment(lambda z: W(z).v, lambda z, e: T.ONE, T.ZERO), s.moment(lambda z: ws.get(z), lambda z, e: T.ONE, T.ZERO))),
            ("the remaining vectors are null vectors", T.forall([p, c], T.bor(T.lt(p, t), T.eq(s.moment(lambda z: A(p, z).v, lambda z, e: s.F.get(z, e), c), T.ZERO)))),
            ("the remaining vectors sum to zero", T.forall([p], T.bor(T.lt(p, t), T.eq(s.moment(lambda z: A(p, z).v, lambda z, e: T.ONE, T.ZERO), T.ZERO)))),
        ]

    def before(bd, t, pre):
        p = s.pos = T.fresh("pos", "I", T.ZERO, n)
        CTX.assume(T.lt(t, r.n), "loop condition")
        CTX.assume(T.gt0(xval(pre[bd[1]].get(t, p)).v), "a null vector has a positive entry")
        M.ARGS.clear()

    def step(bd, t, pre, post):
        if len(M.ARGS) != 1:
            raise T.VerifierLimit("one minimum per elimination")
        a = M.ARGS[0]
        e, at = a["r"], lambda z: xval(a["at"](z))
        q = T.index_var(n, "q")
        w, m = pre[bd[0]], pre[bd[1]]
        W, b_ = (lambda z: xval(w.get(z)).v), (lambda z: xval(m.get(t, z)).v)
        CTX.assume(T.band(T.ge0(e), T.lt(e, n)), "instance of the contract of argmin")
        lemma(E, "the condition is never undefined", T.forall([q], T.bnot(at(q).nan)))
        lemma(E, "the entry eliminated is positive", T.gt0(b_(e)))
        p = T.index_var(r.n, "p")
        for lab, vs, z in (("the null vector", [c], s.moment(b_, lambda z, g: s.F.get(z, g), c)), ("the sum of the null vector", [], s.moment(b_, lambda z, g: T.ONE, T.ZERO))):
            lemma(E, f"{lab} vanishes", T.forall(vs, T.eq(z, T.ZERO)))
            # zero times anything
            CTX.assume(T.forall(vs, T.eq(T.inv(b_(e)) * W(e) * z, T.ZERO)), "lemma: " + lab)
            CTX.assume(T.forall(vs + [p], T.eq(T.inv(b_(e)) * xval(m.get(p, e)).v * z, T.ZERO)), "lemma: " + lab)
        z0, z1 = gone(bd, pre), gone(bd, post)
        lemma(E, "the point eliminated was not", T.bnot(z0(e)))
        lemma(E, "the point eliminated is", z1(e))
        lemma(E, "points eliminated stay so", T.forall([q], T.implies(z0(q), z1(q))))
        CTX.assume(T.le(T.app("eliminated", t) + T.ONE, T.app("eliminated", t + T.ONE)), "cardinality of a proper superset")
        lemma(E, "the ratio is the least one", T.forall([q], T.bor(T.ge0(-b_(q)), T.le(W(e) * b_(q), W(q) * b_(e)))))

    fin = lambda bd: {bd[0]: ("pinf", "ninf", "nan"), bd[1]: ("pinf", "ninf", "nan")}  # noqa: E731
    cons = loops.LoopContract(E, bind, inv, before, step, lambda bd, t: {bd[2]: Z.scalar(t, Z.I32)}, fin, abbr=(10**6, 10**6, 10**6))
    s.cons, s.ws, s.idx, s.C = cons, ws, idx, C
    return s


@ob("C12", "elimination", [f"{RC}.CaratheodoryRecombination.reduce"], timeout=200)
def _(E):
    P.PHASES[0] = P.NONLINEAR_FIRST
    s = carath(E)

    def go():
        loops.LOOP_CONTRACTS[:] = [s.cons]
        s.box["mode"] = "implicit"
        co, st = s.rm.CaratheodoryRecombination(test_functions=None, mode="implicit").reduce(s.data)
        loops.LOOP_CONTRACTS.clear()

    E.paths(go)
    if not s.cons.used:
        raise T.VerifierLimit("the elimination loop was not recognised")
    E.check_vacuity()


def _present(mode, aug):
    @ob("C12", f"presentation, {mode}{'' if aug else ', without the constant'}", [f"{RC}._coresubset_nodes"], timeout=120)
    def _(E):
        s = Setup(E)
        f = fn(E, s.rm, "_coresubset_nodes")
        n = s.n.n
        N = S.nat("N")  # the tree hands over more weights than points
        size = n if aug else N.n
        if not aug:
            E.assume(T.le(n, size))
        w = S.array("ow", s.n if aug else N, sign="0+")
        idx = S.array("ix", s.n if aug else N, dtype=Z.I32)
        m = s.k.n + (T.ZERO if aug else T.ONE)

        def go():
            M.FLATNZ.clear()
            M.ARGS.clear()
            d = f(s.F, w, idx, mode, is_affine_augmented=True) if aug else f(s.F, w, idx, mode)
            if len(M.FLATNZ) != 1:
                raise T.VerifierLimit("one enumeration of the positive weights")
            z = M.FLATNZ[0]
            out, ow = Z.ravel(Z.as_st(d.data)), Z.as_st(d.weights)
            L = out.dims[0]
            cnt = z["count"]
            i = T.index_var(size, "i")
            E.prove("the entries enumerated are those of positive weight", T.forall([i], T.iff(Z.to_b(z["x"].get(i)), T.gt0(w.get(i)))))
            if mode == "explicit":
                E.hold("as many entries as positive weights", Z.same_dim(L, cnt))
            elif mode == "implicit":
                E.hold("as many entries as points", Z.same_dim(L, n))
            else:
                E.prove("as many entries as moments, at most as many as points", T.eq(L, T.min_(n, m)))
            E.hold("one weight per entry", Z.same_dim(ow.dims[0], L))
            # entry j < count: the j-th positive weight; later ones have zero weight
            j = T.index_var(L, "j")
            pos = T.app(z["fn"], *z["key"], j)
            q = T.index_var(z["cap"], "j")
            posq = T.app(z["fn"], *z["key"], q)
            lemma(E, "positions of positive weights", T.forall([q], T.band(T.ge0(posq), T.lt(posq, size))))
            E.prove("the positive weights in order, each with its index", T.forall([j], T.implies(T.lt(j, cnt), T.band(T.eq(Z.to_num(out.get(j)), idx.get(pos)), T.eq(Z.to_num(ow.get(j)), w.get(pos))))))
            if mode != "explicit":
                # fewer positive weights than entries: some weight is zero, so the least one is
                zr = T.fresh("zr", "I", T.ZERO, size)
                few = T.lt(cnt, L)
                E.assume(T.implies(T.lt(cnt, size), T.eq(w.get(zr), T.ZERO)), "fewer positive weights than weights: some weight is zero")
                for a in M.ARGS:
                    CTX.assume(T.band(T.ge0(a["r"]), T.lt(a["r"], size)), "instance of the contract of argmin")
                    lemma(E, "the least weight is no larger than a zero weight", T.le(w.get(a["r"]), w.get(zr)))
                E.prove("further entries have zero weight", T.forall([j], T.implies(T.band(few, T.le(cnt, j)), T.eq(Z.to_num(ow.get(j)), T.ZERO))))

        E.paths(go)
        E.check_vacuity()


for _m in ("explicit", "implicit", "implicit-explicit"):
    for _a in (True, False):
        _present(_m, _a)


@ob("C12", "null space", [f"{RC}._resolve_null_basis", f"{RC}._resolve_rcond"], timeout=120)
def _(E):
    s = Setup(E)
    f = fn(E, s.rm, "_resolve_null_basis")
    n, k = s.n.n, s.k.n
    rcond = S.real("rcond", sign="0+")

    def go():
        M.SVDS.clear()
        B, r = f(s.F, rcond)
        B, r = Z.as_st(B), Z.to_num(Z.as_st(r).body)
        if len(M.SVDS) != 1:
            raise T.VerifierLimit("one singular value decomposition")
        a, u, sv, v, key = M.SVDS[0]
        E.same("the decomposition of the nodes", a, s.F)
        E.hold("a square basis", Z.same_dim(B.dims[0], n) and Z.same_dim(B.dims[1], n))
        lo = sv.dims[0]
        b, i, j = T.index_var(n, "b"), T.index_var(n, "i"), T.index_var(lo, "j")
        E.prove("the last left singular vectors first", T.eq(Z.to_num(B.get(b, i)), Z.to_num(u.get(i, n - T.ONE - b))))
        one = lambda q: T.ind(T.gt0(Z.to_num(sv.get(q)) - Z.to_num(Z.as_st(rcond).body) * Z.to_num(sv.get(T.ZERO))))  # noqa: E731
        rank = T.sum_([(T.the_var(j), lo)], one(j))
        E.assume(T.band(T.ge0(rank), T.le(rank, lo)), "a count")
        E.prove("the rank of the null space is the number of points less the number of singular values above the tolerance", T.eq(r, n - rank))

    E.paths(go)
    E.check_vacuity()


class TreeSetup:
    """TreeRecombination.reduce with its helpers by contract; the tree loop under its invariant."""

    def __init__(self, E):
        self.E = E
        self.rm, self.dm, self.cm = E.load(RC), E.load("coreax.data"), E.load("coreax.coreset")
        self.n, self.k, d = S.nat("n"), S.nat("k"), S.nat("d")
        self.X, self.wt = S.array("X", self.n, d), S.array("wt", self.n, sign="0+")
        self.Phi = S.array("Phi", self.n, self.k)
        self.data = self.dm.Data(self.X, self.wt)
        self.cnt, self.q, self.depth = S.nat("cnt"), S.nat("q"), S.nat("depth")
        n, cnt, q = self.n.n, self.cnt.n, self.q.n
        self.N = cnt * q
        E.assume(T.le(n, self.N), "contract of _prepare_tree")
        E.assume(T.le(T.num(2), cnt), "contract of _prepare_tree")
        i = self.i = T.index_var(n, "i")
        self.tot = T.sum_([(T.the_var(i), n)], self.wt.get(i))
        E.assume(T.gt0(self.tot), "the weights have a positive sum")

    def total(self, g, size, *a):
        i = T.index_var(size, "i")
        return T.sum_([(T.the_var(i), size)], g(i))


def tree(E):
    s = TreeSetup(E)
    rm, n, k, cnt, q, N = s.rm, s.n.n, s.k.n, s.cnt.n, s.q.n, s.N
    e = s.e = T.index_var(k, "e")
    box = s.box = {}

    def push(nodes, tf, augment=True):
        E.same("the data are pushed forward", nodes, s.X)
        E.hold("without the constant", augment is False)
        return s.Phi

    def prepare(n_, m_, f_=2):
        E.prove("the tree is prepared for the points and the moments", T.band(T.eq(Z.dim(n_), n), T.eq(Z.dim(m_), k + T.ONE)))
        return Z.SV(N - n, "i"), Z.SV(cnt, "i"), Z.SV(s.depth.n, "i")

    def car(self, dataset, solver_state=None):
        box["cent"] = (Z.as_st(dataset.data), Z.as_st(dataset.weights))
        E.hold("every centroid presented", self.mode == "implicit" and self.test_functions is None)
        cw, ci = S.array("cw", s.cnt, sign="0+"), S.array("ci", s.cnt, dtype=Z.I32)
        b = T.index_var(cnt, "b")
        CTX.assume(T.forall([b], T.band(T.ge0(ci.get(b)), T.lt(ci.get(b), cnt))), "contract of CaratheodoryRecombination.reduce")
        box["car"] = (cw, ci)
        return s.cm.Coresubset(s.dm.Data(ci, cw), dataset), solver_state

    def nodes_(push_forward_nodes, weights, indices, mode, is_affine_augmented=False):
        E.same("presented: the nodes", push_forward_nodes, s.Phi)
        E.hold("presented: the mode", mode == "implicit" and is_affine_augmented is False)
        w, x = Z.as_st(weights), Z.as_st(indices)
        for lab, f in inv((0, 1), None, [w, x]):
            E.prove(f"presented: {lab}", f)
        return s.dm.Data(Z.build((n,), lambda i: T.ZERO, Z.I32), S.array("fw", s.n, sign="0+"))

    for nm, st in (("_push_forward", push), ("_prepare_tree", prepare), ("_coresubset_nodes", nodes_)):
        E.callee(rm, nm, st)
    E.callee(rm.CaratheodoryRecombination, "reduce", car)

    def bind(kind, trip, init):
        if len(init) != 2:
            return None
        w = [p for p, x in enumerate(init) if x.ndim == 1 and x.dtype.kind == "f"]
        x = [p for p, x in enumerate(init) if x.ndim == 1 and x.dtype.kind == "i"]
        return (w[0], x[0]) if len(w) == len(x) == 1 else None

    def inv(bd, t, st):
        w, x = st[bd[0]], st[bd[1]]
        W, I = (lambda z: xval(w.get(z)).v), (lambda z: Z.to_num(x.get(z)))
        z = T.index_var(N, "z")
        return [
            ("valid indices", T.forall([z], T.band(T.ge0(I(z)), T.lt(I(z), n)))),
            ("the weights are non-negative", T.forall([z], T.ge0(W(z)))),
            ("positive weights belong to positively weighted points", T.forall([z], T.implies(T.gt0(W(z)), T.gt0(s.wt.get(I(z)))))),
            ("the weights sum to one", T.eq(s.total(W, N), T.ONE)),
            ("the moments are unchanged", T.forall([e], T.eq(s.total(lambda p: W(p) * s.Phi.get(I(p), e), N) * s.tot, s.total(lambda p: s.wt.get(p) * s.Phi.get(p, e), n)))),
        ]

    def before(bd, t, pre):
        box.pop("cent", None)
        M.PERMS.clear()

    def congr(lab, lo, f, g):
        """Sums of equal terms are equal."""
        b = T.index_var(lo, "b")
        E.prove(lab, T.eq(f(b), g(b)))
        CTX.assume(T.forall([e], T.eq(s.total(f, lo), s.total(g, lo))), "sums of equal terms")

    def step(bd, t, pre, post):
        if "cent" not in box or len(M.PERMS) != 1:
            raise T.VerifierLimit("one recombination of centroids in an order per level")
        w0, x0, w1, x1 = pre[bd[0]], pre[bd[1]], post[bd[0]], post[bd[1]]
        cw, ci = box["car"]
        node, cent = box["cent"]
        order = M.PERMS[0]
        W, I = (lambda z: xval(w0.get(z)).v), (lambda z: Z.to_num(x0.get(z)))
        p = lambda j, b: order(cnt * j + b)  # noqa: E731
        z, j, c, b = T.index_var(N, "z"), T.index_var(q, "j"), T.index_var(cnt, "c"), T.index_var(cnt, "b")
        over_j = lambda g: T.sum_([(T.the_var(j), q)], g(j))  # noqa: E731
        u = lambda b_: over_j(lambda j_: W(p(j_, b_)))  # noqa: E731
        Sm = lambda b_, e_: over_j(lambda j_: W(p(j_, b_)) * s.Phi.get(I(p(j_, b_)), e_))  # noqa: E731
        E.prove("the weight of a centroid is that of its members", T.eq(Z.to_num(cent.get(b)), u(b)))
        # the contract of CaratheodoryRecombination.reduce on the centroids (total weight one)
        CTX.assume(T.forall([c], T.gt0(u(ci.get(c)))), "contract of CaratheodoryRecombination.reduce: positively weighted")
        CTX.assume(T.eq(s.total(lambda b_: cw.get(b_), cnt), T.ONE), "contract of CaratheodoryRecombination.reduce: mass")
        nd = lambda b_, e_: xval(node.get(b_, e_)).v  # noqa: E731
        lhs, rhs = s.total(lambda b_: cw.get(b_) * nd(ci.get(b_), e), cnt), s.total(lambda b_: u(b_) * nd(b_, e), cnt)
        CTX.assume(T.forall([e], T.eq(lhs * s.total(u, cnt), rhs)), "contract of CaratheodoryRecombination.reduce: moments")
        # centroids
        lemma(E, "members have non-negative weight", T.forall([b, j], T.ge0(W(p(j, b)))))
        CTX.assume(T.forall([b, j], T.implies(T.eq(u(b), T.ZERO), T.eq(W(p(j, b)), T.ZERO))), "a sum of non-negative terms vanishes only if every term does")
        CTX.assume(T.forall([b], T.ge0(u(b))), "a sum of non-negative terms")
        CTX.assume(T.forall([b, j], T.le(W(p(j, b)), u(b))), "a sum of non-negative terms is at least each")
        CTX.assume(T.forall([b, e], T.implies(T.eq(u(b), T.ZERO), T.eq(Sm(b, e), T.ZERO))), "a sum of terms that vanish")
        lemma(E, "a centroid is the weighted mean of its members", T.forall([b, e], T.implies(T.gt0(u(b)), T.eq(nd(b, e) * u(b), Sm(b, e)))))
        congr("a centroid stands for the moment of its members", cnt, lambda b_: u(b_) * nd(b_, e), lambda b_: Sm(b_, e))
        congr("a centroid chosen", cnt, lambda b_: cw.get(b_) * nd(ci.get(b_), e), lambda b_: cw.get(b_) * T.inv(u(ci.get(b_))) * Sm(ci.get(b_), e))
        congr("a centroid chosen, its weight", cnt, lambda b_: cw.get(b_), lambda b_: cw.get(b_) * T.inv(u(ci.get(b_))) * u(ci.get(b_)))
        # sums over a bijection of their range
        bij = "a sum over all centroids and members is the sum over all entries (bijection)"
        CTX.assume(T.eq(s.total(u, cnt), s.total(W, N)), bij)
        CTX.assume(T.forall([e], T.eq(s.total(lambda b_: Sm(b_, e), cnt), s.total(lambda i_: W(i_) * s.Phi.get(I(i_), e), N))), bij)
        # the new state, entry (member j, choice c) at cnt j + c
        fd = T.fdiv(cnt * j + c, cnt)
        lemma(E, "the layout of the new state", T.forall([j, c], T.eq(fd, j)))
        g = lambda x: T.replace_atom(x, T.the_var(fd), j)  # noqa: E731
        W1, I1 = (lambda z_: xval(w1.get(z_)).v), (lambda z_: Z.to_num(x1.get(z_)))
        lay = "a sum over cnt q entries, column by column, of equal terms"
        for lab, f, h, vs in (("mass", lambda z_: T.ONE, u, []), ("moments", lambda z_: s.Phi.get(I1(z_), e), lambda b_: Sm(b_, e), [e])):
            new = lambda z_: W1(z_) * f(z_)  # noqa: E731
            col = lambda b_: cw.get(b_) * T.inv(u(ci.get(b_))) * h(ci.get(b_))  # noqa: E731
            E.prove(f"the new {lab}, for a centroid chosen", T.eq(T.sum_([(T.the_var(j), q)], g(new(cnt * j + c))), col(c)))
            CTX.assume(T.forall(vs, T.eq(s.total(new, N), s.total(col, cnt))), lay)
        r = z - cnt * T.fdiv(z, cnt)
        lemma(E, "entries stem from a member and a choice", T.forall([z], T.band(T.ge0(r), T.lt(r, cnt), T.ge0(T.fdiv(z, cnt)), T.lt(T.fdiv(z, cnt), q))))
        lemma(E, "entries stem from positively weighted centroids", T.forall([z], T.gt0(u(ci.get(r)))))

    fin = lambda bd: {bd[0]: ("pinf", "ninf", "nan")}  # noqa: E731
    s.cons = loops.LoopContract(E, bind, inv, before, step, None, fin, abbr=(10**6, 10**6, 10**6))
    return s


@ob("C12", "tree step", [f"{RC}.TreeRecombination.reduce", f"{RC}._centroid"], timeout=300)
def _(E):
    P.PHASES[0] = P.NONLINEAR_FIRST
    s = tree(E)

    def go():
        loops.LOOP_CONTRACTS[:] = [s.cons]
        co, st = s.rm.TreeRecombination(test_functions=None, mode="implicit").reduce(s.data)
        loops.LOOP_CONTRACTS.clear()

    E.paths(go)
    if not s.cons.used:
        raise T.VerifierLimit("the tree loop was not recognised")
    E.check_vacuity()


@ob("C12", "tree layout", [f"{RC}._prepare_tree"])
def _(E):
    rm = E.load(RC)
    f = fn(E, rm, "_prepare_tree")
    n, m, r = S.nat("n"), S.nat("m2", at_least=2), S.nat("factor", at_least=2)

    def go():
        pad, cnt, depth = [Z.dim(z) for z in f(n, m, r)]
        E.prove("at least one level", T.le(T.ONE, depth))
        CTX.assume(T.le(r.n, T.power(r.n, depth)), "a positive power of a number above one is at least that number")
        E.prove("at least as many entries as points", T.ge0(pad))
        E.prove("at least two centroids", T.le(T.num(2), cnt))
        E.prove("every centroid has the same number of members", T.eq(n.n + pad, cnt * T.power(r.n, depth - T.ONE)))

    E.paths(go)
    E.check_vacuity()
