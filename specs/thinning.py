"""Kernel thinning and Compress++ under contract (C01, C02, C14)."""
from engine import loops, model as M, sym as S, tensor as Z, terms as T
from engine.prover import CTX

from .greedy import CS, distinct, lemma, valid, xval

FUNCTIONS = [f"{CS}.KernelThinning.kt_half"]


def solver(E, m, k=None):
    sm = E.load(CS)
    k = k or S.abstract_kernel(E.L, "K")
    T.declare_fn("SK", "R", symmetric=True)
    sk = S.abstract_kernel(E.L, "SK")
    return sm.KernelThinning(coreset_size=m, random_key=S.key(), kernel=k, sqrt_kernel=sk, delta=S.real("delta01", sign="+"))


def split(a, b, j):
    """Of the points 2j and 2j + 1 one is a and the other b."""
    e, o = T.num(2) * j, T.num(2) * j + T.ONE
    return T.bor(T.band(T.eq(a, e), T.eq(b, o)), T.band(T.eq(a, o), T.eq(b, e)))


def half_contract(E, q):
    def bind(kind, trip, init):
        ix = [k for k, x in enumerate(init) if x.dtype.kind == "i" and x.ndim == 1]
        return tuple(ix) if len(ix) == 2 and all(Z.same_dim(init[k].dims[0], q) for k in ix) else None

    def inv(b, t, st):
        j = T.index_var(t, "j")
        i = T.index_var(q, "i")
        ok = lambda z: T.band(T.ge0(z), T.lt(z, q + q))  # noqa: E731
        return [
            ("every index is valid", T.forall([i], T.band(ok(st[b[0]].get(i)), ok(st[b[1]].get(i))))),
            ("of each pair handled, one point is in each half", T.forall([j], split(st[b[0]].get(j), st[b[1]].get(j), j))),
        ]

    return loops.LoopContract(E, bind, inv, abbr=(6, 6, 1), simp=False)


def run_half(E, post, sup=False):
    dm = E.load("coreax.data")
    q, d = S.nat("q"), S.nat("d")
    N2 = q + q
    X, w = S.array("X", N2, d), S.array("w", N2, sign="0+")
    data = dm.SupervisedData(X, S.array("Y", N2, S.nat("p")), w) if sup else dm.Data(X, w)
    cons = half_contract(E, q.n)

    def go():
        loops.LOOP_CONTRACTS[:] = [cons]
        a, b = solver(E, S.nat("m2", at_least=2)).kt_half(data)
        loops.LOOP_CONTRACTS.clear()
        post(q, data, a, b)

    E.paths(go)
    if not cons.used:
        raise T.VerifierLimit("the halving loop was not recognised")
    E.check_vacuity()


def halving(E, sm, q):
    """Contract of kt_half (proved in C14): two coresubsets of the data given, splitting each consecutive pair."""
    calls = []

    def stub(self, dataset):
        k = len(calls)
        N2 = dataset.data.dims[0]
        h = T.fdiv(N2, T.num(2))
        a, b = S.array(f"half{k}a", SVd(h), dtype=Z.I32), S.array(f"half{k}b", SVd(h), dtype=Z.I32)
        j = T.index_var(h, "j")
        CTX.assume(T.forall([j], split(a.get(j), b.get(j), j)), "contract of kt_half")
        cm = E.load("coreax.coreset")
        calls.append((dataset, a, b))
        return cm.Coresubset.build(a, dataset), cm.Coresubset.build(b, dataset)

    E.callee(sm.KernelThinning, "kt_half", stub)
    return calls


def SVd(t):
    return Z.SV(t, "i")


def candidate(E, name, size, data, n):
    """An arbitrary coresubset of the data with distinct valid indices."""
    c = S.array(name, size, dtype=Z.I32)
    CTX.assume(valid(lambda j: c.get(j), c.dims[0], n), "candidate: valid")
    CTX.assume(distinct(lambda j: c.get(j), c.dims[0]), "candidate: distinct")
    return E.load("coreax.coreset").Coresubset.build(c, data)


def run_reduce(E, post, sup=False, want=(), checks=None):
    """KernelThinning.reduce with its callees by contract: halving yields candidates with distinct valid indices
    (C14), the choice is one of them, and the refinement is that of kernel herding (its loop under contract)."""
    from . import greedy as G

    s = G.Setup(E, sup=sup)
    s.rec, s.chosen, s.base = [], [], []
    cons = G.contract(s, True, True, want, None, size=s.mm)
    kt = s.sm.KernelThinning
    cm = s.cm

    def recursive(self, current, m, original):
        s.rec.append((self, current, m, original))
        return [candidate(E, "cand", s.m, original, s.n.n)]

    def baseline(self, dataset, size):
        s.base.append((dataset, size))
        return candidate(E, "base", s.m, dataset, s.n.n)

    def choose(self, candidates, points):
        s.chosen.append((list(candidates), points))
        T.declare_fn("best", "I")
        best = S.array("best", s.m, dtype=Z.I32)
        opts = []
        for c in candidates:
            j = T.index_var(s.mm, "j")
            ix = c.unweighted_indices
            if not (ix.ndim == 1 and Z.same_dim(ix.dims[0], s.mm)):
                E.fail("the candidates have the size requested", str(ix.dims)[:200])
                raise T.VerifierLimit("candidates of another size")
            opts.append(T.forall([j], T.eq(best.get(j), ix.get(j))))
        CTX.assume(T.bor(*opts), "contract of kt_choose: one of the candidates is returned")
        # consequences of the contract, both candidates being valid and distinct
        lemma(E, "the candidate chosen is valid", valid(lambda j: best.get(j), s.mm, s.n.n))
        lemma(E, "the candidate chosen is distinct", distinct(lambda j: best.get(j), s.mm))
        return Z.expand_dims(best, 1)

    E.callee(kt, "kt_half_recursive", recursive)
    E.callee(kt, "get_baseline_coreset", baseline)
    E.callee(kt, "kt_choose", choose)

    def go():
        for l in (s.rec, s.chosen, s.base):
            l.clear()
        loops.LOOP_CONTRACTS[:] = [cons]
        r, st = solver(E, s.m, s.k).reduce(s.data)
        loops.LOOP_CONTRACTS.clear()
        post(s, r, st)

    E.paths(go)
    if not cons.used:
        raise T.VerifierLimit("the selection loop was not recognised")
    E.check_vacuity()


def run_compress(E, post, sup=False):
    """Compress++ with kernel thinning by contract and its recursion `_compress` checked against its own contract:
    given 4^p indices it returns sqrt(4^p 4^g) of them, at distinct positions."""
    from engine import loader

    from . import greedy as G

    sm, dm, cm = E.load(CS), E.load("coreax.data"), E.load("coreax.coreset")
    n, d, m, g = S.nat("n"), S.nat("d"), S.nat("m2", at_least=2), S.nat("g", at_least=0)

    class s:  # what the postconditions need
        pass

    s.E, s.sm, s.n, s.d, s.m, s.mm = E, sm, n, d, m, m.n
    s.X, s.w = S.array("X", n, d), S.array("w", n, sign="0+")
    s.y = S.array("Y", n, S.nat("p")) if sup else None
    s.data = dm.SupervisedData(s.X, s.y, s.w) if sup else dm.Data(s.X, s.w)
    E.assume(T.le(m.n, n.n))
    calls = s.calls = []

    class Thinning:
        """Contract of KernelThinning.reduce (proved above): a coreset of the size requested, indices distinct and valid."""

        def __init__(self, *a, **k):
            self.size = Z.dim(k["coreset_size"])
            self.k = k

        def reduce(self, dataset, solver_state=None):
            c = len(calls)
            L = dataset.data.dims[0]
            lemma(E, "kernel thinning is asked for no more points than there are", T.le(self.size, L))
            h = S.array(f"thin{c}", SVd(self.size), dtype=Z.I32)
            CTX.assume(valid(lambda j: h.get(j), self.size, L), "contract of KernelThinning.reduce")
            CTX.assume(distinct(lambda j: h.get(j), self.size), "contract of KernelThinning.reduce")
            calls.append((self.k, dataset))
            return cm.Coresubset.build(h, dataset), None

    E.callee(sm, "KernelThinning", Thinning)

    def inner(fn, a, k):
        arg = Z.as_st(a[0])
        L = arg.dims[0]
        T.declare_fn("pick", "I")
        T.declare_fn("sub", "I")
        # the size of the result: H^2 = L 4^g
        H = Z.as_int(T.sqrt(Z.expose(L) * T.power(T.num(4), g.n)))
        i, j = T.index_var(H, "i"), T.index_var(H, "j")
        lam = T.lam([arg.vars[0]], [L], Z.to_num(arg.body))
        free = [v for v in sorted(lam.fv, key=repr) if v in T.VAR_INFO and T.VAR_INFO[v].get("hi") is not None]
        if len(free) > 1 or (free and not (T.VAR_INFO[free[0]]["hi"].const() or 99) <= 8):
            raise T.VerifierLimit("the indices are not compressed in a constant number of parts")
        parts = [{free[0]: T.num(b)} for b in range(int(T.VAR_INFO[free[0]]["hi"].const()))] if free else [{}]
        at = lambda z, q: T.subst(T.app("pick", lam, q), z)  # noqa: E731
        sub = lambda z, q: T.subst(T.app("sub", lam, q), z)  # noqa: E731
        for z in parts:
            CTX.assume(T.forall([i], T.band(T.ge0(at(z, i)), T.lt(at(z, i), L), T.eq(sub(z, i), T.subst(arg.get(at(z, i)), z)))), "contract of _compress")
            CTX.assume(T.forall([i, j], T.bor(T.eq(i, j), T.bnot(T.eq(at(z, i), at(z, j))))), "contract of _compress")
        for z in parts:
            lemma(E, "what is compressed are valid indices", T.forall([i], T.band(T.ge0(sub(z, i)), T.lt(sub(z, i), n.n))))
            for y in parts:
                if y is not z:
                    lemma(E, "the parts compressed are disjoint", T.forall([i, j], T.bnot(T.eq(sub(z, i), sub(y, j)))))
                else:
                    lemma(E, "no part compressed repeats an index", T.forall([i, j], T.bor(T.eq(i, j), T.bnot(T.eq(sub(z, i), sub(z, j))))))
        return Z.build((H,), lambda q: T.app("sub", lam, q), arg.dtype)

    def outer(a, k, r):
        arg, r = Z.as_st(a[0]), Z.as_st(r)
        L, R = arg.dims[0], r.dims[0]
        E.prove("the size of the compression", T.eq(Z.expose(R), T.sqrt(Z.expose(L) * T.power(T.num(4), g.n))))
        i, j, v = T.index_var(R, "i"), T.index_var(R, "j"), T.index_var(L, "v")
        s.compressed = r
        lemma(E, "the compression consists of the indices given", valid(lambda q: Z.to_num(r.get(q)), R, n.n))
        lemma(E, "the compression repeats none", distinct(lambda q: Z.to_num(r.get(q)), R))

    inner.post = outer

    def go():
        calls.clear()
        loader.CONTRACTS["_compress"] = inner
        try:
            r, st = sm.CompressPlusPlus(coreset_size=m, g=g, random_key=S.key(), kernel=S.abstract_kernel(E.L, "K"), sqrt_kernel=S.abstract_kernel(E.L, "SK"), delta=0.5).reduce(s.data)
        except ValueError as e:
            if "coreset" in str(e).lower() or "over-sampling" in str(e):
                return
            raise
        finally:
            loader.CONTRACTS.clear()
        post(s, r, st)

    E.paths(go)
    E.check_vacuity()
