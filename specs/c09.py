"""C09: kernel arithmetic denotes the sum, product or power of the values of the operands."""
from engine import sym as S, tensor as Z, terms as T
from engine.prover import CTX

from .base import ob

ASSUMPTIONS = ["operand kernels are arbitrary real functions of two points (abstract contract), each with finite values"]
BASE = "coreax.kernels.base"


def val(k, x, y):
    return Z.as_st(k.compute_elementwise(x, y)).body


def _value(label, fs, build):
    @ob("C09", f"value[{label}]", fs)
    def _(E):
        f, g, h = (S.abstract_kernel(E.L, n, symmetric=False) for n in "FGH")
        d = S.nat("d")
        x, y = S.array("x", d), S.array("y", d)
        c = S.real("cst", "0+")
        i = S.nat("ci", at_least=0)
        F, G, H = (S.K(n, x, y) for n in "FGH")

        def go():
            for nm, k, want in build(E, f, g, h, c, i, F, G, H):
                got = Z.as_st(k.compute_elementwise(x, y))
                E.hold(f"{nm}: scalar", got.ndim == 0, str(got.dims)[:100])
                E.prove(f"{nm}: value", Z.xeq(got.body, want))

        E.paths(go)
        E.check_vacuity()


def fs(*n):
    return [f"{BASE}.{q}" for q in n]


ADD = fs("ScalarValuedKernel.__add__", "ScalarValuedKernel.__radd__", "AdditiveKernel.compute_elementwise", "DuoCompositeKernel.__check_init__", "_Constant.compute_elementwise", "_Constant.__check_init__")
MUL = fs("ScalarValuedKernel.__mul__", "ScalarValuedKernel.__rmul__", "ProductKernel.compute_elementwise", "DuoCompositeKernel.__check_init__", "_Constant.compute_elementwise", "_Constant.__check_init__")
POW = fs("ScalarValuedKernel.__pow__", "PowerKernel.compute_elementwise", "PowerKernel.__check_init__")

_value("kernel + kernel", ADD, lambda E, f, g, h, c, i, F, G, H: [("F + G", f + g, F + G), ("G + F", g + f, F + G), ("F + F", f + f, F.scale(2)), ("F + equal F", f + type(f)(), F.scale(2))])
_value("kernel * kernel", MUL, lambda E, f, g, h, c, i, F, G, H: [("F * G", f * g, F * G), ("G * F", g * f, F * G), ("F * F", f * f, F * F), ("F * equal F", f * type(f)(), F * F)])
_value("kernel + number", ADD, lambda E, f, g, h, c, i, F, G, H: [("F + c", f + c, F + c.n), ("c + F", c + f, F + c.n), ("F + i", f + i, F + i.n), ("i + F", i + f, F + i.n), ("F + 0", f + 0, F), ("F + 2.5", f + 2.5, F + T.num(T.Fr(5, 2)))])
_value("kernel * number", MUL, lambda E, f, g, h, c, i, F, G, H: [("F * c", f * c, F * c.n), ("c * F", c * f, F * c.n), ("F * i", f * i, F * i.n), ("i * F", i * f, F * i.n), ("F * 0", f * 0, T.ZERO), ("3 * F", 3 * f, F.scale(3))])
_value("kernel ** power", POW, lambda E, f, g, h, c, i, F, G, H: [(f"F ** {q}", f**q, T.power(F, q)) for q in range(1, 9)])
_value(
    "nested", ADD + MUL + POW,
    lambda E, f, g, h, c, i, F, G, H: [
        ("(F + G) * H", (f + g) * h, (F + G) * H), ("F * G + H", f * g + h, F * G + H), ("(F + G)**2 * c", (f + g) ** 2 * c, (F + G) * (F + G) * c.n),
        ("(F * G) * (F * G)", (f * g) * (f * g), T.power(F * G, 2)), ("((F**2)**3)", (f**2) ** 3, T.power(F, 6)), ("(F + c) * (F + c)", (f + c) * (f + c), T.power(F + c.n, 2)),
        ("(F + c) * (F + i)", (f + c) * (f + i), (F + c.n) * (F + i.n)), ("F*F*F", f * f * f, T.power(F, 3)), ("F*c*i", f * c * i, F * c.n * i.n),
    ],
)


@ob("C09", "value[kernel ** n, any n >= 1]", POW)
def _(E):
    f = S.abstract_kernel(E.L, "F", symmetric=False)
    d = S.nat("d")
    x, y = S.array("x", d), S.array("y", d)
    n = S.nat("p", at_least=1)
    F = S.K("F", x, y)
    E.assume(T.gt0(F), "kernel value positive (symbolic exponent)")
    E.prove("value", Z.xeq(val(f**n, x, y), T.power(F, n.n)))


@ob("C09", "matrix[composites]", ADD + MUL + POW + fs("ScalarValuedKernel.compute"))
def _(E):
    f, g = (S.abstract_kernel(E.L, n, symmetric=False) for n in "FG")
    d, n, m = S.nat("d"), S.nat("n"), S.nat("m")
    X, Y = S.array("X", n, d), S.array("Y", m, d)
    i, j = T.index_var(n.n, "i"), T.index_var(m.n, "j")
    F, G = (S.K(q, X[Z.SV(i, "i")], Y[Z.SV(j, "i")]) for q in "FG")
    for nm, k, w in (("F + G", f + g, F + G), ("F * G", f * g, F * G), ("F ** 3", f**3, T.power(F, 3)), ("2 * F + 1", 2 * f + 1, F.scale(2) + T.ONE)):
        r = k.compute(X, Y)
        E.hold(f"{nm}: n x m", r.ndim == 2 and Z.same_dim(r.dims[0], n.n) and Z.same_dim(r.dims[1], m.n), str(r.dims)[:100])
        E.prove(f"{nm}: entry", Z.xeq(r.get(i, j), w))


@ob("C09", "rejection", ADD + MUL + POW)
def _(E):
    f = S.abstract_kernel(E.L, "F", symmetric=False)
    ops = {"F + c": lambda c: f + c, "c + F": lambda c: c + f, "F * c": lambda c: f * c, "c * F": lambda c: c * f}
    for nm, op in ops.items():
        for v, srt in ((S.real("neg"), "number"), (S.integer("negi"), "integer")):
            m = CTX.mark()
            E.assume(T.gt0(-v.n))
            E.raises(f"{nm}: negative {srt} rejected", ValueError, lambda: op(v))
            CTX.rewind(m)
        for bad in ("1", None, [1.0], (2,), {}):
            E.raises(f"{nm}: {bad!r} rejected", (ValueError, TypeError), lambda: op(bad))
    v = S.integer("pw")
    m = CTX.mark()
    E.assume(T.le(v.n, T.ZERO))
    E.raises("power below one rejected", ValueError, lambda: f**v)
    CTX.rewind(m)
    r = S.real("pr")
    E.raises("real power rejected", ValueError, lambda: f**r)
    for bad in (0.5, 2.5, "2", None):
        E.raises(f"power {bad!r} rejected", (ValueError, TypeError), lambda: f**bad)
    km = E.load(BASE)
    for cls in ("AdditiveKernel", "ProductKernel"):
        for a, b in ((f, 1.0), (1.0, f), ("a", f), (f, None)):
            E.raises(f"{cls} of non-kernels rejected", (ValueError, TypeError), lambda: getattr(km, cls)(a, b))
