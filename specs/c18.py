"""C18: approximate kernels delegate everything but the row mean, which is a regression on valid subsets."""
from engine import loops, model as M, sym as S, tensor as Z, terms as T
from engine.prover import CTX
from engine.tensor import SV

from .base import ob, same_value

AP = "coreax.approximation"
ASSUMPTIONS = [
    "jax.random.choice without replacement returns distinct in-range indices; jnp.linalg.lstsq returns the least-squares solution (assumed dependency contracts)",
    "ANNchor anchor rule: kernels with non-negative values",
]
CLS = dict(mc="MonteCarloApproximateKernel", ann="ANNchorApproximateKernel", nys="NystromApproximateKernel")


@ob("C18", "delegation", [f"{AP}.ApproximateKernel.{m}" for m in ("compute_elementwise", "grad_x_elementwise", "grad_y_elementwise", "divergence_x_grad_y_elementwise")])
def _(E):
    ap = E.load(AP)
    k = S.abstract_kernel(E.L, "K", symmetric=False)
    n, m, d = S.nat("n"), S.nat("m"), S.nat("d")
    x, y = S.array("x", d), S.array("y", d)
    X, Y = S.array("X", n, d), S.array("Y", m, d)

    def go():
        for c in CLS.values():
            a = getattr(ap, c)(k, S.key(), 3, 4)
            for f in ("compute", "grad_x", "grad_y", "divergence_x_grad_y"):
                E.same(f"{c}.{f}_elementwise", getattr(a, f + "_elementwise")(x, y), getattr(k, f + "_elementwise")(x, y))
                E.same(f"{c}.{f}", getattr(a, f)(X, Y), getattr(k, f)(X, Y))

    E.paths(go)


def _row_mean(t, form):
    @ob("C18", f"row mean[{CLS[t]}, {form}]", [f"{AP}.{CLS[t]}.gramian_row_mean", f"{AP}._random_least_squares", f"{AP}._random_indices", "coreax.kernels.base.ScalarValuedKernel.compute_mean"], timeout=280)
    def _(E):
        ap, dm = E.load(AP), E.load("coreax.data")
        k = S.abstract_kernel(E.L, "K")
        n, d = S.nat("n"), S.nat("d")
        nk, nt = (S.nat("nk2", at_least=2) if t == "mc" else S.nat("nk")), S.nat("nt")
        na = nk.n - T.ONE if t == "mc" else nk.n
        E.assume(T.le(nt.n, n.n))
        E.assume(T.le(na, n.n))
        X = S.array("X", n, d)
        arg = X if form == "array" else dm.Data(X, S.array("w", n, sign="0+"))

        def go():
            c0, l0 = len(M.CHOICES), len(M.LSTSQ)
            r = getattr(ap, CLS[t])(k, S.key(), nk, nt).gramian_row_mean(arg, block_size=None)
            E.hold("one entry per data point", r.ndim == 1 and Z.same_dim(r.dims[0], n.n), str(r.dims)[:100])
            E.hold("one regression", len(M.LSTSQ) == l0 + 1)
            A, b, rc, sol = M.LSTSQ[-1]
            E.hold("one coefficient per feature, one row per training point", A.ndim == 2 and b.ndim == 1 and Z.same_dim(A.dims[0], nt.n) and Z.same_dim(A.dims[1], na) and Z.same_dim(b.dims[0], nt.n), f"{A.dims} {b.dims}"[:200])
            ch = M.CHOICES[c0:]
            E.hold("sampled without replacement", all(not c["replace"] and c["p"] is None for c in ch))
            i, j, s, u = T.index_var(n.n, "i"), T.index_var(na, "j"), T.index_var(nt.n, "s"), T.index_var(nt.n, "u")
            kk = lambda p, q: S.K("K", X[SV(p, "i")], X[SV(q, "i")])  # noqa: E731
            draw = lambda c, v: T.subst(c["r"], {T.the_var(w): v for w in c_vars(c)})  # noqa: E731
            trains = [c for c in ch if Z.same_dim(c["m"], nt.n)]
            E.hold("training points are drawn", bool(trains))
            if t == "ann":
                anchors = None
            else:
                cand = [c for c in ch if Z.same_dim(c["m"], na)]
                E.hold("anchors are drawn", bool(cand))
            # the last draw of the right size is the training set, the first the anchors
            tau = lambda v: draw(trains[-1], v)  # noqa: E731
            E.prove("training indices are in range", T.band(T.ge0(tau(s)), T.lt(tau(s), n.n)))
            E.prove("training indices are distinct", T.bor(T.eq(s, u), T.bnot(T.eq(tau(s), tau(u)))))
            if t == "ann":
                feat = None
            else:
                al = lambda v: draw(cand[0], v)  # noqa: E731
                j2 = T.index_var(na, "j")
                E.prove("anchors are in range", T.band(T.ge0(al(j)), T.lt(al(j), n.n)))
                E.prove("anchors are distinct", T.bor(T.eq(j, j2), T.bnot(T.eq(al(j), al(j2)))))
                E.prove("features of the training points", same_value(A.get(s, j), kk(tau(s), al(j))))
                E.prove("prediction", same_value(r.get(i), T.sum_([(j, na)], kk(i, al(j)) * sol.get(j))))
            if t == "nys":
                E.prove("targets: mean over the training points", same_value(b.get(s), T.sum_([(u, nt.n)], kk(tau(u), tau(s))) * T.inv(nt.n)))
            else:
                E.prove("targets: mean over the data", same_value(b.get(s), T.sum_([(i, n.n)], kk(i, tau(s))) * T.inv(n.n)))

        E.paths(go)
        E.check_vacuity()


def c_vars(c):
    return [T.num(v) for v in c["vars"]]


for _f in ("array", "data"):
    _row_mean("mc", _f)
    _row_mean("nys", _f)


def _ann(form):
    @ob("C18", f"row mean[{CLS['ann']}, {form}]", [f"{AP}.{CLS['ann']}.gramian_row_mean", f"{AP}._random_least_squares", f"{AP}._random_indices", "coreax.kernels.base.ScalarValuedKernel.compute_mean"], timeout=280)
    def _(E):
        ap, dm = E.load(AP), E.load("coreax.data")
        k = S.abstract_kernel(E.L, "K", sign="0+")
        n, d, nk, nt = S.nat("n"), S.nat("d"), S.nat("nk"), S.nat("nt")
        E.assume(T.le(nt.n, n.n))
        X = S.array("X", n, d)
        arg = X if form == "array" else dm.Data(X, S.array("w", n, sign="0+"))

        def go():
            c0, l0 = len(M.CHOICES), len(M.LSTSQ)
            loops.LOOPS.clear()
            r = ap.ANNchorApproximateKernel(k, S.key(), nk, nt).gramian_row_mean(arg, block_size=None)
            E.hold("one entry per data point", r.ndim == 1 and Z.same_dim(r.dims[0], n.n), str(r.dims)[:100])
            E.hold("one regression", len(M.LSTSQ) == l0 + 1)
            A, b, rc, sol = M.LSTSQ[-1]
            E.hold("one coefficient per feature, one row per training point", A.ndim == 2 and b.ndim == 1 and Z.same_dim(A.dims[0], nt.n) and Z.same_dim(A.dims[1], nk.n) and Z.same_dim(b.dims[0], nt.n), f"{A.dims} {b.dims}"[:200])
            sels = [l.data["sel"] for rec in loops.LOOPS for l in rec.leaves if l.data.get("sel")]
            if len(sels) != 1:
                raise T.VerifierLimit("the anchors of the loop were not identified")
            ch = M.CHOICES[c0:]
            E.hold("sampled without replacement", len(ch) == 1 and not ch[0]["replace"] and ch[0]["p"] is None and Z.same_dim(ch[0]["m"], nt.n))
            i, j, s, u, q = T.index_var(n.n, "i"), T.index_var(nk.n, "j"), T.index_var(nt.n, "s"), T.index_var(nt.n, "u"), T.index_var(n.n, "q")
            t = T.index_var(nk.n - T.ONE, "t")
            at = lambda p: Z.build((d.n,), lambda l: X.get(p, l), Z.F32)  # noqa: E731
            kk = lambda p, q: S.K("K", at(p), at(q))  # noqa: E731
            tau = lambda v: T.subst(ch[-1]["r"], {T.the_var(w): v for w in c_vars(ch[-1])})  # noqa: E731
            E.prove("training indices are in range", T.band(T.ge0(tau(s)), T.lt(tau(s), n.n)))
            E.prove("training indices are distinct", T.bor(T.eq(s, u), T.bnot(T.eq(tau(s), tau(u)))))
            an = lambda v: T.app(sels[0], v)  # noqa: E731  (anchor number v + 1)
            F = lambda p, v: T.ite(T.eq(v, T.ZERO), kk(p, T.ZERO), kk(p, an(v - T.ONE)))  # noqa: E731
            E.prove("anchors are in range", T.band(T.ge0(an(t)), T.lt(an(t), n.n)))
            E.prove("features: first point, then the anchors added", same_value(A.get(s, j), F(tau(s), j)))
            E.prove("prediction", same_value(r.get(i), T.sum_([(j, nk.n)], F(i, j) * sol.get(j))))
            E.prove("targets: mean over the data", same_value(b.get(s), T.sum_([(i, n.n)], kk(i, tau(s))) * T.inv(n.n)))

            def largest(p):
                """Largest of the first t + 1 features of p (a feature not yet added counts as zero)."""
                return Z.to_num(M.max_(Z.build((nk.n,), lambda v: T.ite(T.eq(v, T.ZERO), kk(p, T.ZERO), T.ite(T.le(v, t), kk(p, an(v - T.ONE)), T.ZERO)), Z.F32)).body)

            E.prove("the point added has the smallest largest feature", T.le(largest(an(t)), largest(q)))

        E.paths(go)
        E.check_vacuity()


_ann("array")
_ann("data")


def _errors(t):
    @ob("C18", f"errors[{CLS[t]}]", [f"{AP}.{CLS[t]}.gramian_row_mean", f"{AP}._random_indices", f"{AP}.RandomRegressionKernel.__check_init__"])
    def _(E):
        ap = E.load(AP)
        k = S.abstract_kernel(E.L, "K", sign="0+")
        n, d, nk, nt = S.nat("n"), S.nat("d"), S.nat("nk"), S.nat("nt")
        X = S.array("X", n, d)
        cls = getattr(ap, CLS[t])

        def call():
            return cls(k, S.key(), nk, nt).gramian_row_mean(X)

        def check(label, cond):
            def go():
                E.assume(cond)
                E.raises(label, ValueError, call)

            mk = CTX.mark()
            E.paths(go)
            CTX.rewind(mk)

        check("more training points than data", T.lt(n.n, nt.n))
        if t != "ann":
            check("more anchors than data", T.lt(n.n, nk.n - T.ONE if t == "mc" else nk.n))
        bad = S.integer("bad")
        mk = CTX.mark()
        E.assume(T.le(bad.n, T.ZERO))
        E.raises("number of kernel points must be positive", ValueError, lambda: cls(k, S.key(), bad, nt))
        E.raises("number of training points must be positive", ValueError, lambda: cls(k, S.key(), nk, bad))
        CTX.rewind(mk)


for _t in CLS:
    _errors(_t)
