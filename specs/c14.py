"""C14: kernel halving partitions the data and its recursion tracks original indices."""
from engine import loops, model as M, sym as S, tensor as Z, terms as T
from engine.prover import CTX

from . import thinning as H
from .base import ob
from .greedy import CS, same_data

ASSUMPTIONS = ["data sets of even length for kt_half (as its documentation requires)"]


@ob("C14", "kt_half partitions pairs", [f"{CS}.KernelThinning.kt_half"], timeout=280)
def _(E):
    def post(q, data, a, b):
        j, i = T.index_var(q.n, "j"), T.index_var(q.n, "j")
        ia, ib = a.unweighted_indices, b.unweighted_indices
        E.hold("the halves have half the length", Z.same_dim(ia.dims[0], q.n) and Z.same_dim(ib.dims[0], q.n))
        E.prove("of each consecutive pair one point is in each half", H.split(Z.to_num(ia.get(j)), Z.to_num(ib.get(j)), j))
        E.prove("the halves are disjoint", T.bnot(T.eq(ia.get(j), ib.get(i))))
        v = T.index_var(q.n + q.n, "v")
        u = T.fdiv(v, T.num(2))
        E.prove("together they cover the data", T.bor(T.eq(ia.get(u), v), T.eq(ib.get(u), v)))
        for c in (a, b):
            same_data(E, "both halves index the data given", c.pre_coreset_data, data)

    H.run_half(E, post)


def _ix(c, j):
    a = c.indices.data
    return Z.to_num(a.get(j, T.ZERO) if a.ndim == 2 else a.get(j))


def _recursion(form, sup):
    @ob("C14", f"recursive halving, one level[{form}{', supervised' if sup else ''}]", [f"{CS}.KernelThinning.kt_half_recursive"])
    def _(E):
        from engine import loader

        sm, dm, cm = E.load(CS), E.load("coreax.data"), E.load("coreax.coreset")
        q, d, n = S.nat("q"), S.nat("d"), S.nat("n")
        N2 = q + q
        E.assume(T.le(N2.n, n.n))
        X, w = S.array("X", n, d), S.array("w", n, sign="0+")
        orig = dm.SupervisedData(X, S.array("Y", n, S.nat("p")), w) if sup else dm.Data(X, w)
        m = S.nat("depth")
        rec = []

        def call(fn, a, k):
            rec.append((a[1:] if not isinstance(a[0], (dm.Data, cm.Coresubset)) else a, k))
            return [("candidates of call", len(rec))]

        def go():
            rec.clear()
            calls = H.halving(E, sm, q)
            P = None
            if form == "coresubset":
                cur = H.candidate(E, "P", N2, orig, n.n)
                P = lambda v: T.app("P", v)  # noqa: E731
            else:
                cur = orig[: N2]
                P = lambda v: v  # noqa: E731
            loader.CONTRACTS["kt_half_recursive"] = call
            try:
                r = H.solver(E, S.nat("m2", at_least=2)).kt_half_recursive(cur, m, orig)
            finally:
                loader.CONTRACTS.clear()
            E.hold("the data are halved once", len(calls) == 1)
            E.hold("the recursion continues in both halves", len(rec) == 2 and len(r) == 2 and sorted(x[1] for x in r) == [1, 2], str(len(rec)))
            given, a, b = calls[0]
            i = T.index_var(N2.n, "i")
            l = T.index_var(d.n, "l")
            E.prove("the points halved are the original rows", T.eq(given.data.get(i, l), X.get(P(i), l)))
            subs = [x[0][0] for x in rec]
            for x in rec:
                E.prove("one level less to go", T.eq(Z.dim(x[0][1]), m.n - T.ONE))
                same_data(E, "the original data are passed on", x[0][2], orig)
            for s in subs:
                E.hold("candidates are coresubsets", isinstance(s, cm.Coresubset))
                same_data(E, "candidates refer to the original data", s.pre_coreset_data, orig)
            E.hold("the halves have half the length", all(Z.same_dim(s.indices.data.dims[0], q.n) for s in subs))
            j, j2 = T.index_var(q.n, "j"), T.index_var(q.n, "j")
            E.either("the indices are those of the parent at the half", [T.band(T.eq(_ix(subs[0], j), P(a.get(j))), T.eq(_ix(subs[1], j), P(b.get(j)))), T.band(T.eq(_ix(subs[1], j), P(a.get(j))), T.eq(_ix(subs[0], j), P(b.get(j))))])
            if form == "coresubset":
                E.prove("the halves are disjoint", T.bnot(T.eq(_ix(subs[0], j), _ix(subs[1], j2))))
                E.prove("each half has distinct indices", T.bor(T.eq(j, j2), T.bnot(T.eq(_ix(subs[0], j), _ix(subs[0], j2)))))

        E.paths(go)
        E.check_vacuity()


for _f in ("coresubset", "data"):
    for _s in (False, True):
        _recursion(_f, _s)


@ob("C14", "recursive halving, base case", [f"{CS}.KernelThinning.kt_half_recursive"])
def _(E):
    sm, dm, cm = E.load(CS), E.load("coreax.data"), E.load("coreax.coreset")
    n, d, k = S.nat("n"), S.nat("d"), S.nat("k")
    E.assume(T.le(k.n, n.n))
    orig = dm.Data(S.array("X", n, d), S.array("w", n, sign="0+"))

    def go():
        cur = H.candidate(E, "P", k, orig, n.n)
        sol = H.solver(E, S.nat("m2", at_least=2))
        r = sol.kt_half_recursive(cur, 0, orig)
        E.hold("a coresubset is its own candidate", len(r) == 1 and (r[0] is cur or r[0].indices.data is cur.indices.data))
        r = sol.kt_half_recursive(orig[:k], 0, orig)
        j = T.index_var(k.n, "j")
        E.hold("one candidate", len(r) == 1 and Z.same_dim(r[0].indices.data.dims[0], k.n))
        same_data(E, "of the original data", r[0].pre_coreset_data, orig)
        E.prove("the first rows of the data", T.eq(_ix(r[0], j), j))

    E.paths(go)
    E.check_vacuity()


def _choose(count):
    @ob("C14", f"kt_choose, {count} candidates", [f"{CS}.KernelThinning.kt_choose", "coreax.metrics.MMD.compute"])
    def _(E):
        sm, dm, cm = E.load(CS), E.load("coreax.data"), E.load("coreax.coreset")
        n, d, k = S.nat("n"), S.nat("d"), S.nat("k2", at_least=2)
        E.assume(T.le(k.n, n.n))
        X, w = S.array("X", n, d), S.array("w", n, sign="0+")
        orig = dm.Data(X, w)
        met = E.load("coreax.metrics")
        seen = []

        def mmd(self, ref, other):
            """Contract of MMD.compute: a number determined by its two arguments (its formula is C10)."""
            r = ref.data if isinstance(ref, dm.Data) else ref
            same = other is orig
            seen.append(same)
            vs = [T.index_var(x, "v") for x in r.dims]
            T.declare_fn("mmd", "R", sign="0+")
            return Z.ST((), (), T.app("mmd", T.lam(vs, list(r.dims), r.get(*vs))), Z.F32)

        E.callee(sm.MMD, "compute", mmd)

        def go():
            cs = [H.candidate(E, f"cand{i}", k, orig, n.n) for i in range(count)]
            r = Z.as_st(H.solver(E, S.nat("m2", at_least=2)).kt_choose(cs, orig))
            E.hold("candidates are compared with the data", bool(seen) and all(seen))
            E.hold("one index per slot", Z.same_dim(r.dims[0], k.n))
            j = T.index_var(k.n, "j")
            vs = [T.index_var(k.n, "v"), T.index_var(d.n, "v")]
            val = lambda i: T.app("mmd", T.lam(vs, [k.n, d.n], X.get(T.app(f"cand{i}", vs[0]), vs[1])))  # noqa: E731
            got = Z.to_num(r.get(j, T.ZERO) if r.ndim == 2 else r.get(j))
            E.prove("the candidate returned has the smallest discrepancy", T.bor(*[T.band(T.eq(got, T.app(f"cand{i}", j)), *[T.le(val(i), val(h)) for h in range(count)]) for i in range(count)]))

        E.paths(go)
        E.check_vacuity()


for _c in (2, 3, 5):
    _choose(_c)


@ob("C14", "kernel thinning chooses among all candidates and the baseline", [f"{CS}.KernelThinning.reduce"], timeout=280)
def _(E):
    def post(s, r, st):
        E.hold("the data are halved recursively once, and one choice is made", len(s.rec) == 1 and len(s.chosen) == 1 and len(s.base) == 1)
        _, cur, m, orig = s.rec[0]
        e = Z.dim(m)
        same_data(E, "the recursion refers to the data", orig, s.data)
        L = cur.data.dims[0]
        E.prove("the rows halved are the coreset size times a power of two", T.eq(L, s.mm * T.power(T.num(2), e)))
        E.prove("as many halvings as the data allow", T.band(T.ge0(e), T.le(L, s.n.n), T.lt(s.n.n, L + L)))
        i, l = T.index_var(L, "i"), T.index_var(s.d.n, "l")
        E.prove("the rows halved are the first rows of the data", T.eq(cur.data.get(i, l), s.X.get(i, l)))
        cands, pts = s.chosen[0]
        same_data(E, "candidates are compared with the data", pts, s.data)
        E.hold("all candidates and the baseline take part", len(cands) == 2)
        j = T.index_var(s.mm, "j")
        got = [c.unweighted_indices.get(j) for c in cands]
        want = [T.app("cand", j), T.app("base", j)]
        E.either("they are the candidates of the recursion and the baseline", [T.band(T.eq(got[0], want[a]), T.eq(got[1], want[1 - a])) for a in (0, 1)])
        same_data(E, "the baseline is a sample of the data", s.base[0][0], s.data)
        E.prove("of the size requested", T.eq(Z.dim(s.base[0][1]), s.mm))

    H.run_reduce(E, post)


@ob("C14", "baseline", [f"{CS}.KernelThinning.get_baseline_coreset", f"{CS}.RandomSample.reduce"])
def _(E):
    from . import greedy as G

    s = G.Setup(E)

    def go():
        r = H.solver(E, s.m).get_baseline_coreset(s.data, s.m)
        ix = r.unweighted_indices
        c = lambda j: Z.to_num(ix.get(j))  # noqa: E731
        E.hold("the baseline has the size requested", Z.same_dim(ix.dims[0], s.mm))
        E.prove("its indices are valid", G.valid(c, s.mm, s.n.n))
        E.prove("its indices are distinct", G.distinct(c, s.mm))
        same_data(E, "it is a coreset of the data", r.pre_coreset_data, s.data)

    E.paths(go)
    E.check_vacuity()


@ob("C14", "Compress++ composes indices", [f"{CS}.CompressPlusPlus.reduce"], timeout=280)
def _(E):
    from . import c01

    def post(s, r, st):
        c01.result(s, r)
        c = r.unweighted_indices
        last = s.calls[-1]
        E.prove("the last thinning is asked for the size requested", T.eq(Z.dim(last[0]["coreset_size"]), s.mm))
        k = len(s.calls) - 1
        j = T.index_var(s.mm, "j")
        i, l = T.index_var(s.compressed.dims[0], "i"), T.index_var(s.d.n, "l")
        E.prove("the rows thinned last are those compressed", T.eq(last[1].data.get(i, l), s.X.get(s.compressed.get(i), l)))
        E.prove("the result indexes the data through all levels", T.eq(c.get(j), s.compressed.get(T.app(f"thin{k}", j))))

    H.run_compress(E, post)
