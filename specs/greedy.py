"""Shared by C01, C02, C03, C17: the greedy selection loop of kernel herding and Stein thinning under contract."""
from engine import loops, model as M, sym as S, tensor as Z, terms as T
from engine.prover import CTX

CS = "coreax.solvers.coresubset"


def xval(b):
    return T.asx(Z.to_num(b))


class Setup:
    """Symbolic problem: n weighted points, m of them wanted, at least m of positive weight (witness: injection g)."""

    def __init__(self, E, m=None, stein=False, sup=False, score=None, p=None):
        self.E = E
        self.sm, self.dm, self.cm = E.load(CS), E.load("coreax.data"), E.load("coreax.coreset")
        self.k = stein_kernel(E) if stein else S.abstract_kernel(E.L, "K")
        self.n, self.d = S.nat("n"), S.nat("d")
        self.m = S.nat("m2", at_least=2) if m is None else m
        mm = Z.dim(self.m)
        E.assume(T.le(mm, self.n.n))
        self.X = S.array("X", self.n, self.d)
        self.w = S.array("w", self.n, sign="0+")
        E.assume(T.gt0(Z.sum_axis(self.w).body))
        T.declare_fn("g", "I")
        a, b = T.index_var(mm, "a"), T.index_var(mm, "b")
        self.g = lambda v: T.app("g", v)  # noqa: E731
        lab = "at least m points have positive weight (g lists m of them)"
        E.assume(T.forall([a], T.band(T.ge0(self.g(a)), T.lt(self.g(a), self.n.n), T.gt0(self.wt(self.g(a))))), lab)
        E.assume(T.forall([a, b], T.bor(T.eq(a, b), T.bnot(T.eq(self.g(a), self.g(b))))), lab)
        self.y = S.array("Y", self.n, p or S.nat("p")) if sup else None
        self.data = self.dm.SupervisedData(self.X, self.y, self.w) if sup else self.dm.Data(self.X, self.w)

    @property
    def mm(self):
        return Z.dim(self.m)

    def wt(self, p):
        return self.w.get(p)

    def at(self, p):
        return Z.build((self.d.n,), lambda l: self.X.get(p, l), Z.F32)

    def K(self, p, q):
        return S.K("K", self.at(p), self.at(q))

    def row_mean(self, p):
        """Weighted mean of the kernel between the data and point p."""
        i = T.index_var(self.n.n, "i")
        return T.sum_([(i, self.n.n)], self.wt(i) * self.K(i, p)) * T.inv(T.sum_([(i, self.n.n)], self.wt(i)))

    def coresubset(self, L, uniform=False):
        """An arbitrary starting coreset of L distinct points with positive (or unit) weights."""
        c = S.array("start", L, dtype=Z.I32)
        a, b = T.index_var(L.n, "a"), T.index_var(L.n, "b")
        self.E.assume(T.forall([a], T.band(T.ge0(c.get(a)), T.lt(c.get(a), self.n.n))), "starting coreset: valid indices")
        self.E.assume(T.forall([a, b], T.bor(T.eq(a, b), T.bnot(T.eq(c.get(a), c.get(b))))), "starting coreset: distinct")
        self.start = lambda j: c.get(j)  # noqa: E731
        if uniform:
            return self.cm.Coresubset(self.dm.Data(c), self.data)
        cw = S.array("cw", L, sign="+")
        return self.cm.Coresubset(self.dm.Data(c, cw), self.data)

    def spare(self, c, t):
        """m - 1 values cannot exhaust the m distinct values of g: some g(a) is none of the c(j), j != t."""
        a, j = self.witness(), T.index_var(self.mm, "j")
        CTX.assume(T.forall([j], T.bor(T.eq(j, t), T.bnot(T.eq(c(j), self.g(a))))), "pigeonhole principle")

    def spare_prefix(self, c, t):
        """t < m values cannot exhaust the m distinct values of g."""
        a, s = self.witness(), T.index_var(t, "s")
        CTX.assume(T.forall([s], T.bnot(T.eq(c(s), self.g(a)))), "pigeonhole principle")

    def witness(self):
        a = T.fresh("a0", "I")
        g = self.g(a)
        self.free = g
        CTX.assume(T.band(T.ge0(a), T.lt(a, self.mm), T.ge0(g), T.lt(g, self.n.n), T.gt0(self.wt(g))), "pigeonhole principle")
        return a


def stein_kernel(E):
    """A Stein kernel known by its contract: a symmetric function K."""
    st = E.load("coreax.kernels").SteinKernel
    base = S.abstract_kernel(E.L, "K")
    T.declare_fn("score", "R")

    class AbstractStein(st):
        def compute_elementwise(self, x, y):
            return base.compute_elementwise(x, y)

    def score(x):
        x = Z.as_st(x)
        key = S.row(x)
        return Z.build((x.dims[-1],), lambda j: T.app("score", key, j), Z.F32)

    T.declare_fn("dscore", "R")

    def dscore(x):
        x = Z.as_st(x)
        key = S.row(x)
        return Z.build((x.dims[-1], x.dims[-1]), lambda j, l: T.app("dscore", key, j, l), Z.F32)

    score.abstract_jacobian = dscore
    return AbstractStein(base, score)


def find(leaves, n, m):
    """The index vector, the penalty vector and the size counter of the loop state."""
    ix = [k for k, x in enumerate(leaves) if x.dtype.kind == "i" and x.ndim == 1]
    pen = [k for k, x in enumerate(leaves) if x.dtype.kind == "f" and x.ndim == 1 and Z.same_dim(x.dims[0], n)]
    cnt = [k for k, x in enumerate(leaves) if x.ndim == 0 and x.dtype.kind in "if"]
    if len(ix) != 1 or len(pen) != 1 or len(cnt) != 1 or len(leaves) != 3:
        return None
    return ix[0], pen[0], cnt[0]


def same_data(E, label, a, b):
    """Two data containers hold the same arrays."""
    names = ["data", "weights"] + (["supervision"] if hasattr(b, "supervision") else [])
    if type(a) is not type(b):
        E.fail(label, f"{type(a).__name__} instead of {type(b).__name__}")
        return
    for nm in names:
        x, y = Z.as_st(getattr(a, nm)), Z.as_st(getattr(b, nm))
        if x is not y:
            E.same(f"{label}: {nm}", x, y)
    E.hold(label, True)


def lemma(E, label, goal):
    """Prove an intermediate assertion; afterwards it may be used."""
    if E.prove(label, goal):
        CTX.assume(goal, "assertion: " + label)


def distinct(c, t):
    a, b = T.index_var(t, "s"), T.index_var(t, "s")
    return T.forall([a, b], T.bor(T.eq(a, b), T.bnot(T.eq(c(a), c(b)))))


def valid(c, t, n):
    a = T.index_var(t, "s")
    return T.forall([a], T.band(T.ge0(c(a)), T.lt(c(a), n)))


def draw(s, V, ch, c, sv):
    """The point is drawn with softmax probabilities: those of unavailable points are zero, and some is positive."""
    E, n = s.E, s.n.n
    q, u = T.index_var(n, "q"), T.index_var(n, "u")
    sm = M.SOFTMAX[-1]
    x = lambda k: T.asx(Z.to_num(sm["x"].get(k)))  # noqa: E731
    lemma(E, "no residual is NaN or plus infinity", T.forall([q], T.band(T.bnot(x(q).nan), T.bnot(x(q).pinf))))
    lemma(E, "an available point has a finite residual", T.bnot(x(s.free).ninf))
    lemma(E, "the residual of points of zero weight is minus infinity", T.forall([q], T.bor(T.gt0(s.wt(q)), x(q).ninf)))
    if sv is not None:
        lemma(E, "the residual of points chosen before is minus infinity", T.forall([sv], x(c(sv)).ninf))
    p = lambda k: xval(ch["p"].get(k))  # noqa: E731
    for k in (s.free, q):
        g = T.band(T.ge0(sm["p"](k)), T.iff(T.eq(sm["p"](k), T.ZERO), x(k).ninf))
        CTX.assume(T.implies(T.band(sm["ok"]), T.forall([q], g) if k is q else g), "instance of the contract of softmax")
    lemma(E, "softmax applies", sm["ok"])
    lemma(E, "the probabilities are finite and non-negative", T.forall([q], T.band(p(q).finite(), T.ge0(p(q).v))))
    lemma(E, "the probability of an available point is positive", T.gt0(p(s.free).v))
    CTX.assume(T.implies(T.band(T.forall([q], T.band(p(q).finite(), T.ge0(p(q).v))), T.exists([u], T.gt0(p(u).v))), T.band(T.ge0(V), T.lt(V, n), T.gt0(p(V).v))), "instance of the contract of jax.random.choice")
    lemma(E, "some probability is positive", T.exists([u], T.gt0(p(u).v)))
    lemma(E, "the probability of the point drawn is positive", T.band(T.ge0(V), T.lt(V, n), T.gt0(p(V).v)))
    g = T.band(T.ge0(sm["p"](V)), T.iff(T.eq(sm["p"](V), T.ZERO), x(V).ninf))
    CTX.assume(g, "instance of the contract of softmax")
    lemma(E, "the residual of the point drawn is finite", T.bnot(x(V).ninf))


def contract(s, unique, refine, want, after=None, size=None):
    """The invariant of the selection loop after t steps; `want` are the parts of it stated."""
    n, m = s.n.n, s.mm

    def bind(kind, trip, init):
        return find(init, n, m)

    def inv(b, t, st):
        c, p = (lambda j: st[b[0]].get(j)), st[b[1]]
        sv, v = T.index_var(t, "s"), T.index_var(n, "v")
        pv = xval(p.get(v))
        out = [("every index is valid", valid(c, st[b[0]].dims[0], n))]
        if "positive" in want:
            out.append(("the points chosen have positive weight", T.forall([sv], T.gt0(s.wt(c(sv))))))
        if unique:
            out.append(("the points chosen are distinct", distinct(c, t)))
            out.append(("exactly the points chosen are blocked", T.forall([v], T.iff(pv.pinf, T.exists([sv], T.eq(c(sv), v))))))
        if "all" in want:
            jv = T.index_var(m, "j")
            out.append(("the points not yet reconsidered are the initial ones", T.forall([jv], T.bor(T.lt(jv, t), T.eq(c(jv), s.start(jv))))))
            out.append(("the penalty is the sum of the kernel values to all points of the coreset", T.forall([v], T.bor(pv.pinf, T.eq(pv.v, T.sum_([(jv, m)], s.K(v, c(jv))))))))
        if "sum" in want:
            out.append(("the penalty is the sum of the kernel values to the points chosen", T.forall([v], T.bor(pv.pinf, T.eq(pv.v, T.sum_([(sv, t)], s.K(v, c(sv))))))))
        return out

    def before(b, t, pre):
        c = lambda j: pre[b[0]].get(j)  # noqa: E731
        (s.spare if refine else s.spare_prefix)(c, t)

    def step(b, t, pre, post):
        c = lambda j: pre[b[0]].get(j)  # noqa: E731
        V = Z.to_num(post[b[0]].get(t))
        sv = T.index_var(t, "s")
        if M.ARGS and M.ARGS[-1]["nan_aware"] and M.ARGS[-1]["r"] is V:
            at = T.asx(M.ARGS[-1]["at"](s.free))
            lemma(s.E, "some point is available", T.band(T.bnot(at.nan), T.bnot(at.ninf), T.bnot(at.pinf)))
            CTX.assume(M.arg_instance(M.ARGS[-1], s.free), "instance of the contract of nanargmax / nanargmin")
        ch = M.CHOICES[-1] if M.CHOICES else None
        if ch is not None and ch["p"] is not None and ch["r"] is V and M.SOFTMAX:
            draw(s, V, ch, c, sv if unique else None)
        lemma(s.E, "the point selected is valid", T.band(T.ge0(V), T.lt(V, n)))
        lemma(s.E, "the point selected has positive weight", T.gt0(s.wt(V)))
        if unique:
            lemma(s.E, "the point selected was not chosen before", T.forall([sv], T.bnot(T.eq(c(sv), V))))
        if after:
            after(b, t, pre, post)

    return loops.LoopContract(
        s.E, bind, inv, before, step,
        (lambda b, t: {b[2]: Z.scalar(T.max_(S.nat("L").n if size is None else size, t), Z.I32)}) if refine else (lambda b, t: {b[2]: Z.scalar(t, Z.I32)}),
        lambda b: {b[1]: ("ninf", "nan") if unique else ("pinf", "ninf", "nan")},
    )


def make(s, solver, unique, **kw):
    if solver == "herding":
        return s.sm.KernelHerding(coreset_size=s.m, kernel=s.k, unique=unique, **kw)
    return s.sm.SteinThinning(coreset_size=s.m, kernel=s.k, unique=unique, regularise=solver == "stein-regularised", **kw)


def run(E, solver, unique, start, want, post, one=False, sup=False, after=None, box=None, **kw):
    """Execute the real solver on the symbolic problem; post(s, coreset, state) states the postcondition."""
    s = Setup(E, m=1 if one else None, stein=solver != "herding", sup=sup)
    if box is not None:
        box["s"] = s
    L = S.nat("L")
    if start == "refine":
        E.assume(T.le(L.n, s.mm))
    full = start == "refine" and "all" in want
    cons = contract(s, unique, start == "refine", want, after, size=s.mm if full else None)

    def go():
        if not one:
            loops.LOOP_CONTRACTS[:] = [cons]
        sol = make(s, solver, unique, **kw)
        r, st = sol.refine(s.coresubset(s.m if full else L, full)) if start == "refine" else sol.reduce(s.data)
        loops.LOOP_CONTRACTS.clear()
        post(s, r, st)

    used = cons.used
    E.paths(go)
    if not one and cons.used == used:
        raise T.VerifierLimit("the selection loop was not recognised")
    E.check_vacuity()


def run_iterative(E, unique, post, schedule=False):
    """KernelHerding.reduce_iterative with `refine` by its contract (proved for both kinds of start):
    from an empty start, or from distinct valid indices of unit weight, it returns valid indices of positively
    weighted points (distinct if unique) of unit weight."""
    s = Setup(E)
    n, m = s.n.n, s.mm
    calls = []

    def good(c, cw):
        j = T.index_var(m, "j")
        out = [valid(c, m, n), T.forall([j], T.gt0(s.wt(c(j)))), T.forall([j], T.eq(cw(j), T.ONE))]
        return T.band(*out, *([distinct(c, m)] if unique else []))

    def parts(st):
        a = st.indices.data
        return (lambda j: Z.to_num(a.get(j, T.ZERO))), (lambda j: Z.to_num(st.indices.weights.get(j)))

    def refine(self, coresubset, solver_state=None):
        c, cw = parts(coresubset)
        j = T.index_var(m, "j")
        same_data(E, "the coreset refined is one of the data", coresubset.pre_coreset_data, s.data)
        E.hold("the coreset refined has the size requested", Z.same_dim(coresubset.indices.data.dims[0], m) and Z.same_dim(Z.dim(self.coreset_size), m))
        lemma(E, "precondition of refine", T.bor(T.forall([j], T.band(T.eq(cw(j), T.ZERO), T.eq(c(j), T.ZERO))), good(c, cw)))
        E.hold("the settings are kept", type(self.kernel) is type(s.k) and self.unique is unique)
        out = S.array(f"ref{len(calls)}", s.m, dtype=Z.I32)
        r = s.cm.Coresubset.build(out, s.data)
        calls.append(r)
        CTX.assume(good(lambda j: out.get(j), lambda j: T.ONE), "contract of refine")
        return r, solver_state

    E.callee(s.sm.KernelHerding, "refine", refine)

    def bind(kind, trip, init):
        ix = [k for k, x in enumerate(init) if x.dtype.kind == "i" and x.ndim == 2]
        cw = [k for k, x in enumerate(init) if x.ndim == 1 and Z.same_dim(x.dims[0], m) and x.dtype.kind in "if"]
        rest = [k for k, x in enumerate(init) if k not in ix and k not in cw]
        return (ix[0], cw[0], {k: init[k] for k in rest}) if len(ix) == 1 and len(cw) == 1 else None

    def inv(b, t, st):
        c, cw = (lambda j: Z.to_num(st[b[0]].get(j, T.ZERO))), (lambda j: Z.to_num(st[b[1]].get(j)))
        j = T.index_var(m, "j")
        start = T.forall([j], T.band(T.eq(cw(j), T.ZERO), T.eq(c(j), T.ZERO)))
        return [("the coreset is the initial one or a refined one", T.bor(T.band(T.eq(t, T.ZERO), start), good(c, cw)))]

    cons = loops.LoopContract(E, bind, inv, None, None, lambda b, t: b[2], simp=False)

    def go():
        calls.clear()
        loops.LOOP_CONTRACTS[:] = [cons]
        it = S.nat("iterations")
        kw = dict(t_schedule=S.array("schedule", it, sign="+")) if schedule else {}
        r, st = s.sm.KernelHerding(coreset_size=s.m, kernel=s.k, unique=unique, probabilistic=True, random_key=S.key()).reduce_iterative(s.data, num_iterations=it, **kw)
        loops.LOOP_CONTRACTS.clear()
        post(s, r, st)

    E.paths(go)
    if not cons.used:
        raise T.VerifierLimit("the loop over the iterations was not recognised")
    E.check_vacuity()
