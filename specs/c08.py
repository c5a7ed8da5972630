"""C08: analytic gradients and divergences are the derivatives of the kernel's own value."""
from engine import model as M, sym as S, tensor as Z, terms as T
from engine.tensor import SV

from . import kernels as KS
from .base import ob, same_value

ASSUMPTIONS = ["points at which the kernel is differentiable: x != y (radial kernels of sqrt-distance), x_k != y_k for all k (Laplacian)"]


def apart(E, k, x, y):
    """Precondition: the kernel is differentiable at (x, y)."""
    if k["apart"] == "all":
        v = T.index_var(x.dims[0], "k")
        E.assume(T.forall([T.the_var(v)] if False else [v], T.bnot(T.eq(x.get(v), y.get(v)))))
    if k["apart"]:
        E.assume(T.gt0(KS.d2(x, y)))


def derivs(ker, x, y):
    f = ker.compute_elementwise
    return M.grad(f, 0)(x, y), M.grad(f, 1)(x, y), M.trace(M.jacobian(M.grad(f, 1), 0)(x, y))


def periodic_defect(ls, os, per, x, y):
    """Known finding K1: what the divergence of the periodic kernel is off by when os != 1."""
    f = T.pi() * T.inv(per.n)
    b = f * KS.dist(x, y)
    s, c = T.power(T.sin(b), 2), T.power(T.cos(b), 2)
    return (f * f * T.inv(T.power(ls.n, 4))).scale(16) * os.n * (T.ONE - os.n) * s * c * T.exp(s.scale(-2) * T.inv(T.power(ls.n, 2)))


def _single(name):
    cls = KS.cls_of(name)
    fs = [f"{KS.SVMOD}.{cls}.{m}" for m in ("grad_x_elementwise", "grad_y_elementwise", "divergence_x_grad_y_elementwise")]

    @ob("C08", f"derivatives[{name}]", fs)
    def _(E):
        k = KS.kernels(E)[name]
        ker = k["make"]()
        x, y = KS.point("x", k), KS.point("y", k)
        apart(E, k, x, y)
        gx, gy, dv = derivs(ker, x, y)
        E.same("grad_x", ker.grad_x_elementwise(x, y), gx)
        E.same("grad_y", ker.grad_y_elementwise(x, y), gy)
        got = Z.as_st(ker.divergence_x_grad_y_elementwise(x, y))
        E.hold("divergence is a scalar", got.ndim == 0)
        if name in ("Periodic", "LocallyPeriodic"):
            p = KS.params()
            delta = periodic_defect(p["ls"], p["os"], p["per"], x, y)
            if name == "LocallyPeriodic":
                delta = delta * KS.se(p["ls2"], p["os2"])(x, y)
            E.either("divergence (exact, or exactly known finding K1 for output_scale != 1)", [Z.xeq(got.body, dv.body), Z.xeq(got.body, dv.body + delta)])
        else:
            E.prove("divergence", Z.xeq(got.body, Z.as_st(dv).body))
        E.check_vacuity()

    if name in ("Periodic", "LocallyPeriodic"):
        @ob("C08", f"derivatives[{name}, output_scale 1]", fs)
        def _(E):
            km = E.load("coreax.kernels")
            p = KS.params()
            ker = km.PeriodicKernel(p["ls"], 1.0, p["per"]) if name == "Periodic" else km.LocallyPeriodicKernel(p["ls"], 1.0, p["per"], p["ls2"], p["os2"])
            d = S.nat("d")
            x, y = S.array("x", d), S.array("y", d)
            E.assume(T.gt0(KS.d2(x, y)))
            gx, gy, dv = derivs(ker, x, y)
            E.prove("divergence", Z.xeq(Z.as_st(ker.divergence_x_grad_y_elementwise(x, y)).body, Z.as_st(dv).body))
            E.check_vacuity()


for _n in KS.NAMES:
    _single(_n)


BASE = "coreax.kernels.base"


def two(E):
    d = S.nat("d")
    return S.array("x", d), S.array("y", d)


def jet(E, name, symbolic=True):
    """Kernel given by its contract only: value v, gradients a, b and divergence c at (x, y)."""
    return S.abstract_kernel(E.L, name, symmetric=False)


def parts(k, x, y):
    n = type(k).__name__[len("Abstract_"):]
    r = (S.row(x), S.row(y))
    d = x.dims[0]
    gx = Z.build((d,), lambda j: T.app(n + "_gx", *r, j), Z.F32)
    gy = Z.build((d,), lambda j: T.app(n + "_gy", *r, j), Z.F32)
    return T.app(n, *r), gx, gy, T.app(n + "_div", *r)


def _composite(label, fs, build, rule):
    """rule(parts...) -> (value, gx(j), gy(j), div) by the rules of calculus."""

    @ob("C08", f"calculus[{label}]", fs)
    def _(E):
        x, y = two(E)
        ker, want = build(E, x, y)
        v, gx, gy, dv = want
        j = T.index_var(x.dims[0], "j")
        got = Z.as_st(ker.compute_elementwise(x, y))
        E.prove("value", Z.xeq(got.body, v))
        a, b = Z.as_st(ker.grad_x_elementwise(x, y)), Z.as_st(ker.grad_y_elementwise(x, y))
        E.hold("gradients are vectors of the dimension of the data", a.ndim == 1 and b.ndim == 1 and Z.same_dim(a.dims[0], x.dims[0]) and Z.same_dim(b.dims[0], x.dims[0]), f"{a.dims} {b.dims}"[:200])
        if a.ndim == 1 and b.ndim == 1:
            E.prove("grad_x", Z.xeq(a.get(j), gx(j)))
            E.prove("grad_y", Z.xeq(b.get(j), gy(j)))
        c = Z.as_st(ker.divergence_x_grad_y_elementwise(x, y))
        E.hold("divergence is a scalar", c.ndim == 0, str(c.dims)[:100])
        if c.ndim == 0:
            E.prove("divergence", Z.xeq(c.body, dv))


def dot_(a, b):
    return Z.dot(a, b).body


def _sum(p, q):
    return p[0] + q[0], lambda j: p[1].get(j) + q[1].get(j), lambda j: p[2].get(j) + q[2].get(j), p[3] + q[3]


def _prod(p, q):
    return (
        p[0] * q[0],
        lambda j: p[1].get(j) * q[0] + q[1].get(j) * p[0],
        lambda j: p[2].get(j) * q[0] + q[2].get(j) * p[0],
        p[0] * q[3] + q[0] * p[3] + dot_(p[1], q[2]) + dot_(q[1], p[2]),
    )


def _pow(p, n):
    v = T.power(p[0], n - 1) if n > 1 else T.ONE
    w = (T.power(p[0], n - 2) if n > 2 else T.ONE) if n > 1 else T.ZERO
    return (
        T.power(p[0], n),
        lambda j: (v * p[1].get(j)).scale(n),
        lambda j: (v * p[2].get(j)).scale(n),
        (v * p[3]).scale(n) + (w * dot_(p[1], p[2])).scale(n * (n - 1)),
    )


def _const(E, c, x):
    z = Z.build((x.dims[0],), lambda j: T.ZERO, Z.F32)
    return c, z, z, T.ZERO


def _mk_sum(E, x, y):
    f, g = jet(E, "F"), jet(E, "G")
    return f + g, _sum(parts(f, x, y), parts(g, x, y))


def _mk_prod(E, x, y):
    f, g = jet(E, "F"), jet(E, "G")
    return f * g, _prod(parts(f, x, y), parts(g, x, y))


def _mk_self(E, x, y):
    f = jet(E, "F")
    return f * f, _pow(parts(f, x, y), 2)


def _mk_eq(E, x, y):
    f = jet(E, "F")
    g = type(f)()
    return f * g, _pow(parts(f, x, y), 2)


def _fs(cls):
    return [f"{BASE}.{cls}.{m}" for m in ("grad_x_elementwise", "grad_y_elementwise", "divergence_x_grad_y_elementwise")]


_composite("sum of two kernels", _fs("AdditiveKernel"), _mk_sum, None)
_composite("product of two kernels", _fs("ProductKernel"), _mk_prod, None)
_composite("product of a kernel with itself", _fs("ProductKernel"), _mk_self, None)
_composite("product of two equal kernels", _fs("ProductKernel"), _mk_eq, None)
for _q in (1, 2, 3, 4, 5):
    _composite(f"power {_q}", _fs("PowerKernel"), lambda E, x, y, q=_q: (lambda f: (f**q, _pow(parts(f, x, y), q)))(jet(E, "F")), None)


def _mk_cadd(E, x, y):
    f, c = jet(E, "F"), S.real("cst", "0+")
    return f + c, _sum(parts(f, x, y), _const(E, c.n, x))


def _mk_cmul(E, x, y):
    f, c = jet(E, "F"), S.real("cst", "0+")
    return c * f, _prod(parts(f, x, y), _const(E, c.n, x))


def _mk_nest(E, x, y):
    f, g, h = jet(E, "F"), jet(E, "G"), jet(E, "H")
    s = _sum(parts(f, x, y), parts(g, x, y))
    s = (s[0], Z.build((x.dims[0],), s[1], Z.F32), Z.build((x.dims[0],), s[2], Z.F32), s[3])
    return (f + g) * h, _prod(s, parts(h, x, y))


_composite("kernel plus number", _fs("AdditiveKernel") + _fs("_Constant"), _mk_cadd, None)
_composite("number times kernel", _fs("ProductKernel") + _fs("_Constant"), _mk_cmul, None)
_composite("nested (F + G) * H", _fs("ProductKernel") + _fs("AdditiveKernel"), _mk_nest, None)


@ob("C08", "calculus[power n, any n >= 3]", _fs("PowerKernel"))
def _(E):
    x, y = two(E)
    f = jet(E, "F")
    n = S.nat("p", at_least=3)
    p = parts(f, x, y)
    E.assume(T.gt0(p[0]), "kernel value positive (non-integer-literal exponents)")
    ker = f**n
    j = T.index_var(x.dims[0], "j")
    v1, v2 = T.power(p[0], n.n - T.ONE), T.power(p[0], n.n - T.num(2))
    E.prove("value", Z.xeq(ker.compute_elementwise(x, y).body, T.power(p[0], n.n)))
    E.prove("grad_x", Z.xeq(ker.grad_x_elementwise(x, y).get(j), n.n * v1 * p[1].get(j)))
    E.prove("grad_y", Z.xeq(ker.grad_y_elementwise(x, y).get(j), n.n * v1 * p[2].get(j)))
    E.prove("divergence", Z.xeq(ker.divergence_x_grad_y_elementwise(x, y).body, n.n * v1 * p[3] + n.n * (n.n - T.ONE) * v2 * dot_(p[1], p[2])))


@ob("C08", "default derivatives [any kernel without analytic ones]", [f"{BASE}.ScalarValuedKernel.grad_x_elementwise", f"{BASE}.ScalarValuedKernel.grad_y_elementwise", f"{BASE}.ScalarValuedKernel.divergence_x_grad_y_elementwise"])
def _(E):
    """A kernel that defines only its value inherits exact derivatives (checked on a value with
    all the building blocks: inner products, squared norms, exponentials, cross terms)."""
    base = E.load(BASE).ScalarValuedKernel
    d = S.nat("d")
    a, b = S.array("a", d), S.array("b", d)

    class OnlyValue(base):
        def compute_elementwise(self, x, y):
            x, y = Z.as_st(x), Z.as_st(y)
            e = x - y
            s = Z.dot(x, a).body * Z.dot(y, b).body + T.exp(-Z.dot(e, e).body) + T.power(Z.dot(x, y).body, 3)
            return Z.ST((), (), s, Z.F32)

    ker = OnlyValue()
    x, y = S.array("x", d), S.array("y", d)
    gx, gy, dv = derivs(ker, x, y)
    E.same("grad_x", ker.grad_x_elementwise(x, y), gx)
    E.same("grad_y", ker.grad_y_elementwise(x, y), gy)
    E.same("divergence", ker.divergence_x_grad_y_elementwise(x, y), dv)
    e = x - y
    s = Z.dot(e, e).body
    j = T.index_var(d.n, "j")
    ex = T.exp(-s)
    xy = Z.dot(x, y).body
    E.prove("grad_y by hand", Z.xeq(ker.grad_y_elementwise(x, y).get(j), Z.dot(x, a).body * b.get(j) + (e.get(j) * ex).scale(2) + (xy * xy * x.get(j)).scale(3)))
    E.prove("divergence by hand", Z.xeq(ker.divergence_x_grad_y_elementwise(x, y).body, Z.dot(a, b).body + (d.n * ex).scale(2) - (s * ex).scale(4) + (xy * xy * d.n).scale(3) + (xy * xy).scale(6)))
