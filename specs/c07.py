"""C07: closed forms, symmetry, pairwise layout, parameter validation."""
import inspect

from engine import sym as S, tensor as Z, terms as T
from engine.tensor import SV

from . import kernels as KS
from .base import ob, same_value


def _closed(name):
    cls = KS.cls_of(name)
    fs = [f"{KS.SVMOD}.{cls}.compute_elementwise"]
    if name == "LocallyPeriodic":
        fs = [f"{KS.SVMOD}.LocallyPeriodicKernel.__init__", "coreax.kernels.base.ProductKernel.compute_elementwise"]

    @ob("C07", f"closed-form[{name}]", fs)
    def _(E):
        k = KS.kernels(E)[name]
        ker = k["make"]()
        x, y = KS.point("x", k), KS.point("y", k)
        v = ker.compute_elementwise(x, y)
        E.hold("scalar", v.ndim == 0)
        E.prove("value equals the documented formula", Z.xeq(v.body, k["spec"](x, y)))
        w = ker.compute_elementwise(y, x)
        E.prove("symmetric", Z.xeq(v.body, w.body))
        E.check_vacuity()

    @ob("C07", f"pairwise[{name}]", ["coreax.kernels.base.ScalarValuedKernel.compute", "coreax.kernels.base.ScalarValuedKernel.grad_x", "coreax.kernels.base.ScalarValuedKernel.grad_y", "coreax.kernels.base.ScalarValuedKernel.divergence_x_grad_y", "coreax.util.pairwise"])
    def _(E):
        k = KS.kernels(E)[name]
        ker = k["make"]()
        n, m = S.nat("n"), S.nat("m")
        d = S.nat("d") if k["dim"] is None else k["dim"]
        x, y = S.array("X", n, d), S.array("Y", m, d)
        i, j = T.index_var(n.n, "i"), T.index_var(m.n, "j")
        xi, yj = x[SV(i, "i")], y[SV(j, "i")]
        base = E.load("coreax.kernels.base").ScalarValuedKernel
        for nm in ("compute", "grad_x", "grad_y", "divergence_x_grad_y"):
            if inspect.getattr_static(type(ker), nm) is inspect.getattr_static(base, nm):
                # the contract of the inherited method is proved for every kernel below
                E.hold(f"{nm}: inherits the contract proved for an arbitrary kernel", True)
                continue
            full = getattr(ker, nm)(x, y)
            el = Z.as_st(getattr(ker, nm + "_elementwise")(xi, yj))
            grad = nm.startswith("grad")
            want = 3 if grad else 2
            E.hold(f"{nm}: rank", full.ndim == want and Z.same_dim(full.dims[0], n.n) and Z.same_dim(full.dims[1], m.n) and (not grad or Z.same_dim(full.dims[2], Z.dim(d))))
            if full.ndim != want:
                continue
            if grad:
                l = T.index_var(Z.dim(d), "l")
                E.prove(f"{nm}[i,j,l]", same_value(full.get(i, j, l), el.get(l)))
            else:
                E.prove(f"{nm}[i,j]", same_value(full.get(i, j), el.body))


for _n in KS.NAMES:
    _closed(_n)


@ob("C07", "pairwise[any kernel]", ["coreax.util.pairwise", "coreax.kernels.base.ScalarValuedKernel.compute", "coreax.kernels.base.ScalarValuedKernel.grad_x", "coreax.kernels.base.ScalarValuedKernel.grad_y", "coreax.kernels.base.ScalarValuedKernel.divergence_x_grad_y"])
def _(E):
    k = S.abstract_kernel(E.L, "K", symmetric=False)
    n, m, d = S.nat("n"), S.nat("m"), S.nat("d")
    x, y = S.array("X", n, d), S.array("Y", m, d)
    i, j, l = T.index_var(n.n, "i"), T.index_var(m.n, "j"), T.index_var(d.n, "l")
    xi, yj = x[SV(i, "i")], y[SV(j, "i")]
    args = (S.row(xi), S.row(yj))
    E.prove("compute[i,j] = k(x_i, y_j)", T.eq(k.compute(x, y).get(i, j), T.app(S.ACTUAL["K"], *args)))
    E.prove("grad_x[i,j]", T.eq(k.grad_x(x, y).get(i, j, l), T.app(S.ACTUAL["K"] + "_gx", *args, l)))
    E.prove("grad_y[i,j]", T.eq(k.grad_y(x, y).get(i, j, l), T.app(S.ACTUAL["K"] + "_gy", *args, l)))
    E.prove("divergence[i,j]", T.eq(k.divergence_x_grad_y(x, y).get(i, j), T.app(S.ACTUAL["K"] + "_div", *args)))
    # a set against itself (one and the same array object)
    i2 = T.index_var(n.n, "i2")
    args2 = (S.row(xi), S.row(x[SV(i2, "i")]))
    E.prove("compute[i,j] of a set with itself", T.eq(k.compute(x, x).get(i, i2), T.app(S.ACTUAL["K"], *args2)))
    E.prove("grad_x[i,j] of a set with itself", T.eq(k.grad_x(x, x).get(i, i2, l), T.app(S.ACTUAL["K"] + "_gx", *args2, l)))
    E.prove("grad_y[i,j] of a set with itself", T.eq(k.grad_y(x, x).get(i, i2, l), T.app(S.ACTUAL["K"] + "_gy", *args2, l)))
    E.prove("divergence[i,j] of a set with itself", T.eq(k.divergence_x_grad_y(x, x).get(i, i2), T.app(S.ACTUAL["K"] + "_div", *args2)))
    # a single point is a collection of one
    one = k.compute(xi, yj)
    E.hold("single points give a 1x1 matrix", one.ndim == 2 and one.dims[0].const() == 1 and one.dims[1].const() == 1)
    E.prove("single point value", T.eq(one.get(0, 0), T.app(S.ACTUAL["K"], *args)))


def _valid(cls, args, bad):
    """bad: list of (position, lambda term -> B rejected, lambda term -> B accepted)."""

    @ob("C07", f"validation[{cls}]", [f"{KS.SVMOD}.{cls}.__check_init__"])
    def _(E):
        ctor = getattr(E.load("coreax.kernels"), cls)
        for pos, nm, rej, acc in bad:
            def build(cond):
                a = list(args(E))
                v = S.real("p_" + nm)
                mark = E_mark()
                E.assume(cond(v.n))
                a[pos] = v
                try:
                    return ctor(*a)
                finally:
                    E_rewind(mark)

            E.raises(f"{nm} outside its range is rejected", ValueError, lambda: build(rej))
            try:
                build(acc)
                E.hold(f"{nm} inside its range is accepted", True)
            except ValueError as e:
                E.fail(f"{nm} inside its range is accepted", repr(e)[:200])


def E_mark():
    from engine.prover import CTX

    return CTX.mark()


def E_rewind(m):
    from engine.prover import CTX

    CTX.rewind(m)


_pos = (lambda v: T.ge0(-v), lambda v: T.gt0(v))
_nonneg = (lambda v: T.gt0(-v), lambda v: T.ge0(v))
_one = lambda *n: (lambda E: [1.0] * len(n))  # noqa: E731
_valid("LinearKernel", lambda E: [1.0, 0.0], [(0, "output_scale", *_pos), (1, "constant", *_nonneg)])
_valid("PolynomialKernel", lambda E: [1.0, 0.0, 2], [(0, "output_scale", *_pos), (1, "constant", *_nonneg)])
for _c in ("ExponentialKernel", "LaplacianKernel", "SquaredExponentialKernel", "PCIMQKernel"):
    _valid(_c, lambda E: [1.0, 1.0], [(0, "length_scale", *_pos), (1, "output_scale", *_pos)])
_valid("RationalQuadraticKernel", lambda E: [1.0, 1.0, 1.0], [(0, "length_scale", *_pos), (1, "output_scale", *_pos), (2, "relative_weighting", *_nonneg)])
_valid("MaternKernel", lambda E: [1.0, 1.0, 1], [(0, "length_scale", *_pos), (1, "output_scale", *_pos)])
_valid("PeriodicKernel", lambda E: [1.0, 1.0, 1.0], [(0, "length_scale", *_pos), (1, "output_scale", *_pos)])
_valid(
    "PoissonKernel", lambda E: [0.5, 1.0],
    [
        (0, "index", lambda v: T.ge0(-v), lambda v: T.band(T.gt0(v), T.gt0(T.ONE - v))),
        (0, "index", lambda v: T.ge0(v - 1), lambda v: T.band(T.gt0(v), T.gt0(T.ONE - v))),
        (1, "output_scale", *_pos),
    ],
)


@ob("C07", "validation[integer parameters]", [f"{KS.SVMOD}.PolynomialKernel.__check_init__", f"{KS.SVMOD}.MaternKernel.__check_init__"])
def _(E):
    km = E.load("coreax.kernels")
    v = S.integer("deg")
    m = E_mark()
    E.assume(T.lt(v.n, T.num(2)))
    E.raises("polynomial degree below two is rejected", ValueError, lambda: km.PolynomialKernel(1.0, 0.0, v))
    E_rewind(m)
    E.assume(T.le(T.num(2), v.n))
    km.PolynomialKernel(1.0, 0.0, v)
    E.hold("polynomial degree two and above is accepted", True)
    E_rewind(m)
    E.raises("polynomial degree must be an integer", ValueError, lambda: km.PolynomialKernel(1.0, 0.0, 2.5))
    E.assume(T.lt(v.n, T.ZERO))
    E.raises("negative Matern degree is rejected", ValueError, lambda: km.MaternKernel(1.0, 1.0, v))
    E_rewind(m)
    E.assume(T.ge0(v.n))
    km.MaternKernel(1.0, 1.0, v)
    E.hold("non-negative Matern degree is accepted", True)
    E.raises("Matern degree must be an integer", ValueError, lambda: km.MaternKernel(1.0, 1.0, 1.5))
