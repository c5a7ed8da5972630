"""The loop of randomly pivoted Cholesky under contract (C01, C02, C17)."""
from engine import loops, model as M, sym as S, tensor as Z, terms as T
from engine.prover import CTX

from .greedy import CS, Setup, distinct, lemma, valid, xval


def find(leaves, n):
    ix = [k for k, x in enumerate(leaves) if x.dtype.kind == "i" and x.ndim == 1]
    res = [k for k, x in enumerate(leaves) if x.dtype.kind == "f" and x.ndim == 1 and Z.same_dim(x.dims[0], n)]
    mat = [k for k, x in enumerate(leaves) if x.dtype.kind == "f" and x.ndim == 2]
    if len(ix) != 1 or len(res) != 1 or len(mat) != 1 or len(leaves) != 3:
        return None
    return ix[0], res[0], mat[0]


def counts(terms, point, n):
    """A sum of indicators over [0, n) is at least its term at `point`, and n minus it at least one minus that term."""
    for z in terms:
        for a in T.atoms_in(z, lambda a: a.op == "sum"):
            bvs, body = T.open_sum(a)
            if len(bvs) != 1 or not Z.same_dim(bvs[0][1], n) or len(body.terms) != 1 or body.terms[0][1] != 1:
                continue
            if all(x.op == "ind" and e == 1 for x, e in body.terms[0][0]):
                one = T.subst(body, {bvs[0][0]: point})
                CTX.assume(T.band(T.le(one, T.num(a)), T.le(T.ONE - one, n - T.num(a))), "a sum of indicators bounds each of its terms")


def contract(s, unique, after=None, extra=False, given=None):
    n, m = s.n.n, s.mm

    def inv(b, t, st):
        if given:
            return []
        c, r = (lambda j: st[b[0]].get(j)), st[b[1]]
        sv, v, j = T.index_var(t, "s"), T.index_var(n, "v"), T.index_var(m, "j")
        rv = xval(r.get(v))
        out = [
            ("the pivots are valid", valid(c, t, n)),
            ("slots not yet filled point outside the data", T.forall([j], T.bor(T.lt(j, t), T.le(n, c(j))))),
            ("the residual is non-negative where it is a number", T.forall([v], T.bor(rv.nan, T.ge0(rv.v)))),
        ]
        if unique:
            out.append(("the pivots are distinct", distinct(c, t)))
            out.append(("the residual of a pivot is zero or not a number", T.forall([sv, v], T.bor(T.bnot(T.eq(c(sv), v)), rv.nan, T.eq(rv.v, T.ZERO)))))
        if extra and t is T.ZERO:
            out.append(("the residual is at first the diagonal of the kernel matrix", T.forall([v], T.band(rv.finite(), T.eq(rv.v, s.K(v, v))))))
        if extra:
            A = xval(st[b[2]].get(v, j))
            out.append(("columns not yet filled are zero", T.forall([v, j], T.bor(T.lt(j, t), T.band(T.bnot(A.nan), T.bnot(A.pinf), T.bnot(A.ninf), T.eq(A.v, T.ZERO))))))
        return out

    def before(b, t, pre):
        if given:
            return
        # t < m <= n values cannot exhaust [0, n)
        f, sv = T.fresh("free", "I"), T.index_var(t, "s")
        CTX.assume(T.band(T.ge0(f), T.lt(f, n)), "pigeonhole principle")
        CTX.assume(T.forall([sv], T.bnot(T.eq(pre[b[0]].get(sv), f))), "pigeonhole principle")
        s.free = f

    def step(b, t, pre, post):
        if given:
            return after(b, t, pre, post)
        c = lambda j: pre[b[0]].get(j)  # noqa: E731
        V = Z.to_num(post[b[0]].get(t))
        if after:
            after(b, t, pre, post)
        sv, q, u = T.index_var(t, "s"), T.index_var(n, "q"), T.index_var(n, "u")
        ch = M.CHOICES[-1] if M.CHOICES else None
        if ch is None or ch["p"] is None or ch["r"] is not V:
            raise T.VerifierLimit("the pivot is not drawn by jax.random.choice with probabilities")
        p = lambda j: xval(ch["p"].get(j))  # noqa: E731
        pq = p(q)
        counts([pq.v, pq.pinf, pq.ninf, pq.nan], s.free, n)
        lemma(s.E, "the probabilities are finite and non-negative", T.forall([q], T.band(p(q).finite(), T.ge0(p(q).v))))
        if unique:
            lemma(s.E, "the probability of an earlier pivot is zero", T.forall([sv], T.eq(p(c(sv)).v, T.ZERO)))
        lemma(s.E, "some probability is positive", T.exists([q], T.gt0(p(q).v)))
        CTX.assume(T.implies(T.band(T.forall([q], T.band(p(q).finite(), T.ge0(p(q).v))), T.exists([u], T.gt0(p(u).v))), T.gt0(p(V).v)), "instance of the contract of jax.random.choice")
        lemma(s.E, "the pivot is valid", T.band(T.ge0(V), T.lt(V, n)))
        if unique:
            lemma(s.E, "the pivot was not chosen before", T.forall([sv], T.bnot(T.eq(c(sv), V))))
            r0, r1 = xval(pre[b[1]].get(u)), xval(post[b[1]].get(u))
            lemma(s.E, "a zero residual stays zero", T.forall([u], T.bor(r0.nan, T.bnot(T.eq(r0.v, T.ZERO)), r1.nan, T.eq(r1.v, T.ZERO))))
            lemma(s.E, "the residual of the pivot becomes zero", T.forall([u], T.bor(T.bnot(T.eq(u, V)), r1.nan, T.eq(r1.v, T.ZERO))))
            lemma(s.E, "not a number stays not a number", T.forall([u], T.bor(T.bnot(r0.nan), r1.nan, T.eq(r1.v, T.ZERO))))

    return loops.LoopContract(s.E, lambda k, trip, init: find(init, n), inv, before, step, None, lambda b: {b[1]: ("pinf", "ninf")}, abbr=(14, 24, 1), given=given)


def run(E, unique, post, one=False, sup=False, after=None, state=None, box=None, extra=False, given=None):
    s = Setup(E, m=1 if one else None, sup=sup)
    i = T.index_var(s.n.n, "i")
    E.assume(T.forall([i], T.ge0(s.K(i, i))), "the kernel has a non-negative diagonal")
    if box is not None:
        box["s"] = s
    cons = contract(s, unique, after, extra, given)

    def go():
        if not one:
            loops.LOOP_CONTRACTS[:] = [cons]
        r, st = s.sm.RPCholesky(coreset_size=s.m, random_key=S.key(), kernel=s.k, unique=unique).reduce(s.data)
        loops.LOOP_CONTRACTS.clear()
        post(s, r, st)

    E.paths(go)
    if not one and not cons.used:
        raise T.VerifierLimit("the pivoting loop was not recognised")
    E.check_vacuity()
