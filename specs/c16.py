"""C16: Stein kernels and scores follow their definitions."""
from engine import model as M, sym as S, tensor as Z, terms as T
from engine.tensor import SV

from .base import ob, same_value
from . import kernels as KS

ASSUMPTIONS = ["base kernels are known by the contracts of C07/C08 (value, gradients, divergence); score functions are arbitrary"]
SM = "coreax.score_matching"


def score(x):
    x = Z.as_st(x)
    if x.ndim == 2:
        return Z.build(x.dims, lambda i, l: T.app("score", S.row(x[SV(i, "i")]), l), Z.F32)
    return Z.build(x.dims, lambda l: T.app("score", S.row(x), l), Z.F32)


def other(x):
    x = Z.as_st(x)
    return Z.build(x.dims, lambda l: T.app("other", S.row(x), l), Z.F32)


def stein_value(name, x, y, sc, d):
    l = T.index_var(Z.dim(d), "l")
    nm = S.ACTUAL[name]
    g = lambda s: T.app(nm + s, S.row(x), S.row(y), l)  # noqa: E731
    sx, sy = sc(x), sc(y)
    sm = lambda t: T.sum_([(l, Z.dim(d))], t)  # noqa: E731
    return T.app(nm + "_div", S.row(x), S.row(y)) + sm(g("_gx") * sy.get(l)) + sm(g("_gy") * sx.get(l)) + S.K(name, x, y) * sm(sx.get(l) * sy.get(l))


@ob("C16", "Stein kernel[any base kernel, any score]", ["coreax.kernels.scalar_valued.SteinKernel.compute_elementwise"])
def _(E):
    km = E.load("coreax.kernels")
    k = S.abstract_kernel(E.L, "K", symmetric=False)
    T.declare_fn("score", "R")
    d = S.nat("d")
    x, y = S.array("x", d), S.array("y", d)
    st = km.SteinKernel(k, score)
    v = Z.as_st(st.compute_elementwise(x, y))
    E.hold("scalar", v.ndim == 0)
    E.prove("definition", Z.xeq(v.body, stein_value("K", x, y, score, d)))
    w = Z.as_st(km.SteinKernel(base_kernel=k, score_function=score).compute_elementwise(x, x))
    E.prove("definition on the diagonal", Z.xeq(w.body, stein_value("K", x, x, score, d)))


@ob("C16", "Stein kernel[matrices]", ["coreax.kernels.scalar_valued.SteinKernel.compute_elementwise", "coreax.kernels.base.ScalarValuedKernel.compute", "coreax.util.pairwise"])
def _(E):
    km = E.load("coreax.kernels")
    k = S.abstract_kernel(E.L, "K", symmetric=False)
    T.declare_fn("score", "R")
    n, m, d = S.nat("n"), S.nat("m"), S.nat("d")
    x, y = S.array("X", n, d), S.array("Y", m, d)
    g = km.SteinKernel(k, score).compute(x, y)
    i, j = T.index_var(n.n, "i"), T.index_var(m.n, "j")
    E.hold("shape", g.ndim == 2 and Z.same_dim(g.dims[0], n.n) and Z.same_dim(g.dims[1], m.n))
    E.prove("entry", Z.xeq(g.get(i, j), stein_value("K", x[SV(i, "i")], y[SV(j, "i")], score, d)))


def kde_contract(E, f, X, n, d, ls, tag):
    """f is the score of the kernel density estimate of X with length scale ls, in each calling form."""
    q = S.nat("q")
    zs, z1 = S.array("Zq", q, d), S.array("z1", d)
    c = T.inv(T.power(ls.n, 2))

    def want(z, l):
        j = T.index_var(n.n, "j")
        e = lambda: KS.se(ls, SV(T.ONE, "f"))(z, X[SV(j, "i")])  # noqa: E731
        num = T.sum_([(j, n.n)], (X.get(j, l) - z.get(l)) * e()) * c
        den = T.sum_([(j, n.n)], e())
        return num * T.inv(den)

    b = f(zs)
    E.hold(f"{tag}: batch shape", b.ndim == 2 and Z.same_dim(b.dims[0], q.n) and Z.same_dim(b.dims[1], d.n), str(b.dims)[:100])
    i, l = T.index_var(q.n, "i"), T.index_var(d.n, "l")
    E.prove(f"{tag}: batch", same_value(b.get(i, l), want(zs[SV(i, "i")], l)))
    s = f(z1)
    E.hold(f"{tag}: single shape", s.ndim == 1 and Z.same_dim(s.dims[0], d.n), str(s.dims)[:100])
    E.prove(f"{tag}: single point", same_value(s.get(l), want(z1, l)))


@ob("C16", "density score", [f"{SM}.KernelDensityMatching.match", f"{SM}.KernelDensityMatching.__init__"])
def _(E):
    sm = E.load(SM)
    n, d = S.nat("n"), S.nat("d")
    ls = S.real("ls", "+")
    X = S.array("X", n, d)
    E.paths(lambda: kde_contract(E, sm.KernelDensityMatching(ls).match(X), X, n, d, ls, "score"))
    E.check_vacuity()


@ob("C16", "density score is the gradient of the log density", [f"{SM}.KernelDensityMatching.match"])
def _(E):
    """The closed form above is the derivative of log sum_j exp(-|z - x_j|^2 / (2 ls^2))."""
    sm = E.load(SM)
    n, d = S.nat("n"), S.nat("d")
    ls = S.real("ls", "+")
    X, z = S.array("X", n, d), S.array("z1", d)

    def go():
        s = sm.KernelDensityMatching(ls).match(X)(z)
        j = T.index_var(n.n, "j")

        def logdens(u):
            u = Z.as_st(u)
            return Z.scalar(T.log(T.sum_([(j, n.n)], KS.se(ls, SV(T.ONE, "f"))(u, X[SV(j, "i")]))), Z.F32)

        g = M.grad(logdens)(z)
        l = T.index_var(d.n, "l")
        E.prove("gradient of the log density", same_value(s.get(l), g.get(l)))

    E.paths(go)


class Matcher:
    def __init__(self, f):
        self.f, self.seen = f, []

    def match(self, x):
        self.seen.append(x)
        return self.f


@ob("C16", "conversion", [f"{SM}.convert_stein_kernel"])
def _(E):
    sm, km = E.load(SM), E.load("coreax.kernels")
    k = S.abstract_kernel(E.L, "K", symmetric=False)
    T.declare_fn("score", "R")
    T.declare_fn("other", "R")
    n, d = S.nat("n"), S.nat("d")
    X = S.array("X", n, d)
    x, y = S.array("x", d), S.array("y", d)

    def val(q):
        return Z.as_st(q.compute_elementwise(x, y)).body

    def go():
        st = km.SteinKernel(k, score)
        r = sm.convert_stein_kernel(X, st, None)
        E.hold("Stein kernel without matcher: a Stein kernel", isinstance(r, km.SteinKernel))
        E.prove("Stein kernel without matcher: kept with its score", Z.xeq(val(r), stein_value("K", x, y, score, d)))
        mt = Matcher(other)
        r = sm.convert_stein_kernel(X, st, mt)
        E.hold("Stein kernel with matcher: matched once, on the data", isinstance(r, km.SteinKernel) and len(mt.seen) == 1)
        E.same("Stein kernel with matcher: data", mt.seen[0], X)
        E.prove("Stein kernel with matcher: new score", Z.xeq(val(r), stein_value("K", x, y, other, d)))
        E.prove("the given kernel is not modified", Z.xeq(val(st), stein_value("K", x, y, score, d)))
        mt = Matcher(other)
        r = sm.convert_stein_kernel(X, k, mt)
        E.hold("plain kernel with matcher: matched once, on the data", isinstance(r, km.SteinKernel) and len(mt.seen) == 1)
        E.same("plain kernel with matcher: data", mt.seen[0], X)
        E.prove("plain kernel with matcher: wraps the kernel with the matched score", Z.xeq(val(r), stein_value("K", x, y, other, d)))
        ls, os = S.real("ls", "+"), S.real("os", "+")
        for nm, kk, bw in (
            ("squared exponential", km.SquaredExponentialKernel(ls, os), ls),
            ("PCIMQ", km.PCIMQKernel(ls, os), ls),
            ("linear (no length scale)", km.LinearKernel(os, 0.0), SV(T.ONE, "f")),
        ):
            r = sm.convert_stein_kernel(X, kk, None)
            E.hold(f"{nm} without matcher: wrapped", isinstance(r, km.SteinKernel) and not isinstance(r.base_kernel, km.SteinKernel))
            E.prove(f"{nm} without matcher: base kernel value", Z.xeq(Z.as_st(r.base_kernel.compute_elementwise(x, y)).body, Z.as_st(kk.compute_elementwise(x, y)).body))
            kde_contract(E, r.score_function, X, n, d, bw, f"{nm} without matcher: density score")

    E.paths(go)
    E.check_vacuity()
