"""C17: greedy solvers pick the best available point at every step."""
from engine import loops, model as M, sym as S, tensor as Z, terms as T
from engine.prover import CTX

from . import greedy as G
from .base import ob

CS = G.CS
ASSUMPTIONS = [
    "at least as many positively weighted points as requested",
    "pigeonhole principle for finite index sets (mathematical lemma, applied where its premises are invariants)",
]


def best(s_of, crit, unique, is_max, refine=False, strict=False):
    """Step assertion: the point selected is available and no available point is better."""

    def after(s, b, t, pre, post):
        E, n = s.E, s.n.n
        c = lambda j: pre[b[0]].get(j)  # noqa: E731
        V = Z.to_num(post[b[0]].get(t))
        v, sv = T.index_var(n, "v"), T.index_var(t, "s")
        rec = M.ARGS[-1] if M.ARGS else None
        if rec is None or not rec["nan_aware"] or rec["r"] is not V:
            raise T.VerifierLimit("the point is not selected by nanargmax / nanargmin")
        at = lambda q: T.asx(rec["at"](q))  # noqa: E731
        jv = T.index_var(s.mm, "j")
        taken = T.FALSE if not unique else T.exists([jv], T.band(T.bnot(T.eq(jv, t)), T.eq(c(jv), v))) if refine else T.exists([sv], T.eq(c(sv), v))
        avail = T.band(T.gt0(s.wt(v)), T.bnot(taken))
        f = lambda q: crit(s, q, c, t)  # noqa: E731
        sgn = (lambda z: z) if rec["is_max"] == is_max else (lambda z: -z)
        val = T.bor(T.bnot(avail), T.band(at(v).finite(), T.eq(at(v).v, sgn(f(v)))))
        if E.prove("an available point has the value of the criterion", T.forall([v], val)):
            CTX.assume(T.forall([v], val), "assertion: value of the criterion")
            CTX.assume(T.subst(val, {T.the_var(v): V}), "assertion: value of the criterion")
        G.lemma(E, "the point selected has the value of the criterion", T.band(at(V).finite(), T.eq(at(V).v, sgn(f(V)))))
        u = T.fresh("u", "I", T.ZERO, n)  # an arbitrary point
        a = lambda z: T.subst(z, {T.the_var(v): u})  # noqa: E731
        CTX.assume(T.band(a(val), M.arg_instance(rec, u)), "instance of the contract of nanargmax / nanargmin")
        better = T.le(f(u), f(V)) if is_max else T.le(f(V), f(u))
        E.prove("no available point is better", T.bor(T.bnot(a(avail)), better))
        if strict:
            E.prove("no earlier available point is as good", T.bor(T.bnot(a(avail)), T.le(V, u), T.lt(f(u), f(V)) if is_max else T.lt(f(V), f(u))))

    return after


def chosen_sum(s, q, c, t):
    sv = T.index_var(t, "s")
    return T.sum_([(sv, t)], s.K(q, c(sv)))


def herding(s, q, c, t):
    return s.row_mean(q) - chosen_sum(s, q, c, t) * T.inv(t + T.ONE)


def stein(s, q, c, t):
    return s.K(q, q) + T.num(2) * chosen_sum(s, q, c, t)


def _reduce(solver, cls, unique):
    @ob("C17", f"{solver}, {'unique' if unique else 'repeats allowed'}", [f"{CS}.{cls}.reduce", f"{CS}.{cls}.refine", f"{CS}._greedy_kernel_selection"], timeout=280)
    def _(E):
        h = best(None, herding if solver == "herding" else stein, unique, solver == "herding")
        box = {}

        def after(b, t, pre, post):
            h(box["s"], b, t, pre, post)

        G.run(E, solver, unique, "reduce", ("sum",), lambda s, r, st: None, after=after, box=box)


for _s, _c in (("herding", "KernelHerding"), ("stein", "SteinThinning")):
    for _u in (True, False):
        _reduce(_s, _c, _u)


def _one(solver, cls):
    @ob("C17", f"{solver}, one point", [f"{CS}.{cls}.reduce", f"{CS}._greedy_kernel_selection"], timeout=280)
    def _(E):
        def post(s, r, st):
            V = Z.to_num(r.unweighted_indices.get(T.ZERO))
            u = T.fresh("u", "I", T.ZERO, s.n.n)
            rec = M.ARGS[-1] if M.ARGS else None
            if rec is None or not rec["nan_aware"]:
                raise T.VerifierLimit("the point is not selected by nanargmax / nanargmin")
            CTX.assume(T.band(M.arg_instance(rec, u), M.arg_instance(rec, s.g(T.ZERO))), "instance of the contract of nanargmax / nanargmin")
            better = T.le(s.row_mean(u), s.row_mean(V)) if solver == "herding" else T.le(s.K(V, V), s.K(u, u))
            E.prove("the point selected has positive weight", T.gt0(s.wt(V)))
            E.prove("no available point is better", T.bor(T.bnot(T.gt0(s.wt(u))), better))

        G.run(E, solver, True, "reduce", (), post, one=True)


_one("herding", "KernelHerding")
_one("stein", "SteinThinning")


def _refine(solver, cls, unique):
    """Refining a coreset of the size requested: each point is replaced by the best one given all the others."""

    @ob("C17", f"{solver}, refine, {'unique' if unique else 'repeats allowed'}", [f"{CS}.{cls}.refine", f"{CS}._greedy_kernel_selection"], timeout=280)
    def _(E):
        box = {}

        def others(s, q, c, t):
            j = T.index_var(s.mm, "j")
            return T.sum_([(j, s.mm)], s.K(q, c(j))) - s.K(q, c(t))

        crit = (lambda s, q, c, t: s.row_mean(q) - others(s, q, c, t) * T.inv(s.mm)) if solver == "herding" else (lambda s, q, c, t: s.K(q, q) + T.num(2) * others(s, q, c, t))
        h = best(None, crit, unique, solver == "herding", True)

        def after(b, t, pre, post):
            h(box["s"], b, t, pre, post)

        G.run(E, solver, unique, "refine", ("all",), lambda s, r, st: None, after=after, box=box)


for _s, _c in (("herding", "KernelHerding"), ("stein", "SteinThinning")):
    for _u in (True, False):
        _refine(_s, _c, _u)


def _pivot(unique):
    from . import pivot

    @ob("C17", f"RPCholesky pivots{'' if unique else ', repeats allowed'}", [f"{CS}.RPCholesky.reduce"], timeout=280)
    def _(E):
        box = {}

        def after(b, t, pre, post):
            s = box["s"]
            n, m = s.n.n, s.mm
            V = Z.to_num(post[b[0]].get(t))
            ch = M.CHOICES[-1] if M.CHOICES else None
            if ch is None or ch["p"] is None or ch["r"] is not V:
                raise T.VerifierLimit("the pivot is not drawn by jax.random.choice with probabilities")
            u, v, j = T.index_var(n, "u"), T.index_var(n, "v"), T.index_var(m, "j")
            res = lambda q: G.xval(pre[b[1]].get(q))  # noqa: E731
            new = lambda q: G.xval(post[b[1]].get(q))  # noqa: E731
            A0, A1 = pre[b[2]], post[b[2]]
            p = G.xval(ch["p"].get(v))
            good = T.band(T.forall([u], res(u).finite()), T.exists([u], T.bnot(T.eq(res(u).v, T.ZERO))))
            E.prove("the pivot is drawn with the residual diagonal as probabilities", T.forall([v], T.implies(good, T.band(p.finite(), T.eq(p.v, res(v).v)))))
            a0 = lambda q, k: G.xval(A0.get(q, k))  # noqa: E731
            a1 = lambda q, k: G.xval(A1.get(q, k))  # noqa: E731
            E.prove("earlier columns are kept", T.forall([v, j], T.bor(T.eq(j, t), T.band(T.iff(a1(v, j).nan, a0(v, j).nan), T.bor(a0(v, j).nan, T.eq(a1(v, j).v, a0(v, j).v))))))
            rest = T.bnot(T.eq(v, V)) if unique else T.TRUE
            E.prove("the residual is reduced by the square of the new column", T.forall([v], T.implies(T.band(rest, res(v).finite(), a1(v, t).finite()), T.band(new(v).finite(), T.eq(new(v).v, T.max_(res(v).v - a1(v, t).v * a1(v, t).v, T.ZERO))))))

        pivot.run(E, unique, lambda s, r, st: None, after=after, box=box, extra=True)


def _column(unique):
    from . import pivot

    @ob("C17", f"RPCholesky columns{'' if unique else ', repeats allowed'}", [f"{CS}.RPCholesky.reduce"], timeout=280)
    def _(E):
        box = {}

        def after(b, t, pre, post):
            s = box["s"]
            V = Z.to_num(post[b[0]].get(t))
            v, j = T.index_var(s.n.n, "v"), T.index_var(s.mm, "j")
            a0 = lambda q, k: G.xval(pre[b[2]].get(q, k)).v  # noqa: E731
            g = lambda q: s.K(q, V) - T.sum_([(j, s.mm)], a0(q, j) * a0(V, j))  # noqa: E731
            CTX.assume(T.gt0(g(V)), "the residual at the pivot is positive")
            new = G.xval(post[b[2]].get(v, t))
            E.prove("the new column is the residual of the kernel to the pivot, divided by the root of that of the pivot", T.band(new.finite(), T.eq(new.v, g(v) * T.inv(T.sqrt(g(V))))))

        pivot.run(E, unique, lambda s, r, st: None, after=after, box=box, given=lambda b: {b[2]: ("pinf", "ninf", "nan")})


for _u in (True, False):
    _pivot(_u)
    _column(_u)


def _gkp(unique, start):
    from . import gkp

    @ob("C17", f"greedy kernel points, {start}, {'unique' if unique else 'repeats allowed'}", gkp.FUNCTIONS, timeout=280)
    def _(E):
        box = {}

        def after(b, t, pre, post, rec):
            s = box["s"]
            n, m = s.n.n, s.mm
            loss, args = s.losses[-1]
            c = lambda j: pre[b[0]].get(j)  # noqa: E731
            cand = Z.as_st(args["candidate_coresets"])
            V = Z.to_num(post[b[0]].get(t))
            r, q, j, h = T.index_var(n, "r"), T.index_var(n, "q"), T.index_var(m, "j"), T.index_var(m, "h")
            E.same("the losses are those of the candidates at hand", cand, pre[b[1]])
            # what the loss is computed from
            F, Y = Z.as_st(args["feature_gramian"]), Z.as_st(args["responses"])
            E.hold("shapes of the padded Gramian and responses", all(Z.same_dim(x, n + T.ONE) for x in (*F.dims, Y.dims[0])))
            i = T.index_var(n, "i")
            y = T.index_var(s.y.dims[1], "y")
            E.prove("the loss uses the kernel matrix of the data", T.eq(F.get(i, q), s.K(i, q)))
            E.prove("the loss uses the responses of the data", T.eq(Y.get(i, y), s.y.get(i, y)))
            e = T.index_var(n + T.ONE, "e")
            E.prove("placeholders have zero kernel values and responses", T.band(T.eq(F.get(n, e), T.ZERO), T.eq(F.get(e, n), T.ZERO), T.eq(Y.get(n, y), T.ZERO)))
            I = Z.as_st(args["identity"])
            on = T.band(T.eq(h, j), T.bor(T.le(h, t), T.ge0(c(h))))
            E.prove("the points in use, the candidate included, are regularised", T.forall([h, j], T.eq(Z.to_num(I.get(h, j)), T.ind(on))))
            E.hold("with the regularisation parameter", Z.dim(args["regularisation_parameter"]) is s.lam.n if isinstance(args["regularisation_parameter"], Z.SV) else False)
            lb = s.batches[1]
            bt = Z.as_st(args["loss_batch"])
            z = T.index_var(lb.dims[1], "z")
            E.prove("on the loss batch of the step", T.eq(bt.get(z), lb.get(t, z)))
            # and which candidate is taken
            bad = lambda k: T.bor(T.lt(cand.get(k, t), T.ZERO), T.exists([j], T.band(T.bnot(T.eq(j, t)), T.eq(c(j), cand.get(k, t)))) if unique else T.FALSE)  # noqa: E731
            at = lambda k: T.asx(rec["at"](k))  # noqa: E731
            R = rec["r"]
            u = T.fresh("u", "I", T.ZERO, rec["hi"])
            G.lemma(E, "an available candidate counts with its loss", T.bor(bad(u), T.band(at(u).finite(), T.eq(at(u).v, loss.get(u)))))
            G.lemma(E, "the candidate selected counts with its loss", T.band(at(R).finite(), T.eq(at(R).v, loss.get(R))))
            better = M.xle(at(R), at(u))
            G.lemma(E, "the candidate selected counts least", better)
            E.prove("no available candidate has a smaller loss", T.bor(bad(u), T.le(loss.get(R), loss.get(u))))
            E.prove("the point added is that of the candidate selected", T.eq(V, cand.get(R, t)))

        gkp.run(E, unique, start, lambda s, r, st: None, after=after, box=box, ident=True)


for _u in (True, False):
    for _st in ("reduce", "refine"):
        _gkp(_u, _st)


@ob("C17", "regularised least-squares loss", [f"{CS}._greedy_kernel_points_loss"])
def _(E):
    sm = E.load(CS)
    r, m, n, p, z = S.nat("r"), S.nat("m"), S.nat("n"), S.nat("p"), S.nat("z")
    C = S.array("C", r, m, dtype=Z.I32)
    B = S.array("B", z, dtype=Z.I32)
    a, b = T.index_var(r.n, "a"), T.index_var(m.n, "b")
    q = T.index_var(z.n, "q")
    N1 = n + 1
    E.assume(T.forall([a, b], T.band(T.le(T.num(-1), C.get(a, b)), T.lt(C.get(a, b), n.n))), "candidates: valid indices or the placeholder -1")
    E.assume(T.forall([q], T.band(T.ge0(B.get(q)), T.lt(B.get(q), n.n))), "loss batch: valid indices")
    F, Y, I = S.array("F", N1, N1), S.array("Y", N1, p), S.array("I", m, m)
    lam = S.real("lam", sign="0+")
    T.declare_fn("coef", "R")
    got = []

    class Solver:
        """Contract of solve_stack (C13): one solution per element, determined by that element."""

        def solve_stack(self, arrays, regularisation_parameter, targets, identity, **kw):
            got.append((arrays, regularisation_parameter, targets, identity, kw))
            return S.array("coef", r, m, p)

    def go():
        got.clear()
        L = Z.as_st(sm._greedy_kernel_points_loss(C, Y, F, lam, I, Solver(), B))
        E.hold("the systems of all candidates are solved as one stack", len(got) == 1 and not got[0][4])
        A, rp, tg, idn, _ = got[0]
        wrap = lambda t: t + T.ind(T.lt(t, T.ZERO)) * N1.n  # noqa: E731
        i, j, h, k, y = T.index_var(r.n, "i"), T.index_var(m.n, "j"), T.index_var(m.n, "h"), T.index_var(r.n, "k"), T.index_var(p.n, "y")
        E.prove("the system is the Gramian of the candidate", T.eq(Z.as_st(A).get(i, j, h), F.get(wrap(C.get(i, j)), wrap(C.get(i, h)))))
        E.prove("the target is the responses of the candidate", T.eq(Z.as_st(tg).get(i, j, y), Y.get(wrap(C.get(i, j)), y)))
        E.hold("the regularisation parameter is passed", isinstance(rp, Z.SV) and rp.n is lam.n)
        E.same("the identity is passed", idn, I)
        E.hold("one loss per candidate", L.ndim == 1 and Z.same_dim(L.dims[0], r.n))
        if p.n.const() == 1:
            pred = lambda v: T.sum_([(j, m.n)], F.get(wrap(C.get(i, j)), B.get(v)) * T.app("coef", i, j, T.ZERO))  # noqa: E731
            v = T.index_var(z.n, "v")
            E.prove("the loss is the squared error up to a constant", T.eq(L.get(i), T.sum_([(v, z.n)], (pred(v) - T.num(2) * Y.get(B.get(v), T.ZERO)) * pred(v))))

    p = Z.SV(T.ONE, "i")
    Y = S.array("Y", N1, 1)
    E.paths(go)
    E.check_vacuity()


@ob("C17", "candidate and loss batches", ["coreax.util.sample_batch_indices"])
def _(E):
    U = E.load("coreax.util")
    n, bs, nb = S.nat("n"), S.nat("bs"), S.nat("nb")
    E.assume(T.le(bs.n, n.n))

    def go():
        r = Z.as_st(U.sample_batch_indices(S.key(), n, bs, nb))
        E.hold("one row per batch", r.ndim == 2 and Z.same_dim(r.dims[0], nb.n) and Z.same_dim(r.dims[1], bs.n))
        t, a, b = T.index_var(nb.n, "t"), T.index_var(bs.n, "a"), T.index_var(bs.n, "b")
        E.prove("batches consist of valid indices", T.band(T.ge0(r.get(t, a)), T.lt(r.get(t, a), n.n)))
        E.prove("no batch repeats an index", T.bor(T.eq(a, b), T.bnot(T.eq(r.get(t, a), r.get(t, b)))))

    E.paths(go)
    E.check_vacuity()
