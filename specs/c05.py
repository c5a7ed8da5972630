"""C05: data containers keep points, supervision and weights paired."""
from engine import sym as S, tensor as Z, terms as T
from engine.prover import CTX
from engine.tensor import SV

from .base import ob

ASSUMPTIONS = ["array entries are finite reals; index arrays hold integers in [-n, n) (jax clamps the others)"]
DATA = "coreax.data"
CON = [f"{DATA}.Data.__init__", f"{DATA}.SupervisedData.__init__", f"{DATA}.SupervisedData.__check_init__", f"{DATA}._atleast_2d_consistent"]


def containers(E):
    """Every kind of container over symbolic sizes: (label, container, X, Y or None, weights)."""
    dm = E.load(DATA)
    n, d, q = S.nat("n"), S.nat("d"), S.nat("q")
    X, Y, w = S.array("x", n, d), S.array("sv", n, q), S.array("w", n)
    c = S.real("c")
    ones = Z.build((n.n,), lambda i: T.ONE, Z.F32)
    cs = Z.build((n.n,), lambda i: c.n, Z.F32)
    return n, [
        ("data, weighted", lambda: dm.Data(X, w), X, None, w),
        ("data, default weights", lambda: dm.Data(X), X, None, ones),
        ("data, scalar weight", lambda: dm.Data(X, c), X, None, cs),
        ("supervised, weighted", lambda: dm.SupervisedData(X, Y, w), X, Y, w),
        ("supervised, default weights", lambda: dm.SupervisedData(X, Y), X, Y, ones),
    ]


def holds(E, label, D, X, Y, w):
    E.same(f"{label}: data", D.data, X)
    E.same(f"{label}: weights", D.weights, w)
    if Y is not None:
        E.same(f"{label}: supervision", D.supervision, Y)


@ob("C05", "construction", CON + [f"{DATA}.as_data", f"{DATA}.as_supervised_data", f"{DATA}.Data.__len__", f"{DATA}.Data.__jax_array__", f"{DATA}.Data.shape"])
def _(E):
    dm = E.load(DATA)
    n, cs = containers(E)
    for label, mk, X, Y, w in cs:
        D = mk()
        holds(E, label, D, X, Y, w)
        E.hold(f"{label}: as_data is the identity", dm.as_data(D) is D)
        E.prove(f"{label}: shape", T.band(T.eq(Z.dim(D.shape[0]), X.dims[0]), T.eq(Z.dim(D.shape[1]), X.dims[1])))
    X, Y = cs[3][2], cs[3][3]
    ones = cs[1][4]
    holds(E, "as_data of an array", dm.as_data(X), X, None, ones)
    holds(E, "as_supervised_data of a pair", dm.as_supervised_data((X, Y)), X, Y, ones)
    S3 = cs[3][1]()
    E.hold("as_supervised_data is the identity", dm.as_supervised_data(S3) is S3)
    v = S.array("v", n)
    col = Z.expand_dims(v, 1)
    E.same("one-dimensional data is a column", dm.Data(v).data, col)
    E.same("one-dimensional data has a weight per entry", dm.Data(v).weights, ones)
    E.same("one-dimensional supervision is a column", dm.SupervisedData(X, v).supervision, col)
    i, j = T.index_var(n.n, "i"), T.index_var(X.dims[1], "j")
    l = T.index_var(Y.dims[1], "l")
    arr = S3.__jax_array__()
    E.prove("as array: data first", Z.xeq(arr.get(i, j), X.get(i, j)))
    E.prove("as array: supervision after", Z.xeq(arr.get(i, X.dims[1] + l), Y.get(i, l)))
    E.same("as array (unsupervised)", cs[0][1]().__jax_array__(), X)
    E.check_vacuity()


@ob("C05", "rejects mismatched supervision", CON)
def _(E):
    dm = E.load(DATA)
    n, k, d, q = S.nat("n"), S.nat("k"), S.nat("d"), S.nat("q")
    X = S.array("x", n, d)
    E.assume(T.bnot(T.eq(n.n, k.n)))
    for lab, y in (("matrix", S.array("sv", k, q)), ("vector", S.array("sv1", k))):
        E.raises(f"{lab} of another length", ValueError, lambda: dm.SupervisedData(X, y))
        E.raises(f"{lab} of another length, weighted", ValueError, lambda: dm.SupervisedData(X, y, S.array("w", n)))
    E.check_vacuity()


def _index(label, key, row):
    """key() -> index expression; row(i) -> (source row, guard)."""

    @ob("C05", f"indexing[{label}]", [f"{DATA}.Data.__getitem__"])
    def _(E):
        n, cs = containers(E)

        def go():
            for lab, mk, X, Y, w in cs:
                kx, ext, src = key(E, n)
                D = mk()
                R = D[kx]
                E.hold(f"{lab}: container kind kept", type(R) is type(D))
                parts = [("data", R.data, X), ("weights", R.weights, w)] + ([("supervision", R.supervision, Y)] if Y is not None else [])
                for nm, got, of in parts:
                    got = Z.as_st(got)
                    if ext is None:  # scalar index
                        vs = [T.index_var(dd, "e") for dd in got.dims]
                        E.prove(f"{lab}: {nm}", Z.xeq(got.get(*vs), of.get(src(None), *vs)))
                        continue
                    E.prove(f"{lab}: {nm} rows", T.eq(got.dims[0], ext))
                    vs = [T.index_var(dd, "e") for dd in got.dims]
                    E.prove(f"{lab}: {nm}", Z.xeq(got.get(*vs), of.get(src(vs[0]), *vs[1:])))

        E.paths(go)
        E.check_vacuity()


def _k_arr(E, n):
    m = S.nat("m")
    ix = S.array("ix", m, dtype=Z.I32)
    i = T.index_var(m.n, "i")
    CTX.assume(T.forall([i], T.band(T.le(T.ZERO, ix.get(i)), T.lt(ix.get(i), n.n))), "indices in range")
    return ix, m.n, lambda i: ix.get(i)


def _k_any(E, n):
    """Any indices: negative ones count from the end, and the rest are clamped."""
    m = S.nat("m")
    ix = S.array("iy", m, dtype=Z.I32)

    def src(i):
        v = ix.get(i)
        v = T.ite(T.lt(v, T.ZERO), v + n.n, v)
        return T.ite(T.lt(v, T.ZERO), T.ZERO, T.ite(T.lt(v, n.n), v, n.n - T.ONE))

    return ix, m.n, src


def _k_int(E, n):
    k = S.nat("k", at_least=0)
    E.assume(T.lt(k.n, n.n))
    return k, None, lambda _: k.n


def _k_neg(E, n):
    k = S.nat("k1")
    E.assume(T.le(k.n, n.n))
    return -k, None, lambda _: n.n - k.n


def _k_slice(E, n):
    a, b = S.nat("a", at_least=0), S.nat("b", at_least=0)
    E.assume(T.band(T.le(a.n, b.n), T.le(b.n, n.n)))
    return slice(a, b), b.n - a.n, lambda i: a.n + i


def _k_from(E, n):
    a = S.nat("a", at_least=0)
    E.assume(T.le(a.n, n.n))
    return slice(a, None), n.n - a.n, lambda i: a.n + i


def _k_rev(E, n):
    return slice(None, None, -1), n.n, lambda i: n.n - T.ONE - i


_index("array of indices", _k_arr, None)
_index("any array of integers", _k_any, None)
_index("integer", _k_int, None)
_index("negative integer", _k_neg, None)
_index("slice", _k_slice, None)
_index("open slice", _k_from, None)
_index("reversal", _k_rev, None)


@ob("C05", "normalisation", [f"{DATA}.Data.normalize"])
def _(E):
    n, cs = containers(E)
    for label, mk, X, Y, w in cs:
        m = CTX.mark()
        tot = Z.sum_axis(w).body
        E.assume(T.bnot(T.eq(tot, T.ZERO)), "non-zero total weight")
        D = mk()
        for pz in (False, True):
            R = D.normalize(preserve_zeros=pz)
            lab = f"{label}, preserve_zeros={pz}"
            E.hold(f"{lab}: container kind kept", type(R) is type(D))
            holds(E, lab, R, X, Y, Z.build((n.n,), lambda i: w.get(i) * T.inv(tot), Z.F32))
        E.check_vacuity(label)
        CTX.rewind(m)
    dm = E.load(DATA)
    zero = Z.build((n.n,), lambda i: T.ZERO, Z.F32)
    for label, mk, X, Y in (("data", lambda: dm.Data(cs[0][2], zero), cs[0][2], None), ("supervised", lambda: dm.SupervisedData(cs[3][2], cs[3][3], zero), cs[3][2], cs[3][3])):
        holds(E, f"{label}: zero weights stay zero", mk().normalize(preserve_zeros=True), X, Y, zero)


@ob("C05", "zero padding", ["coreax.util.tree_zero_pad_leading_axis"])
def _(E):
    n, cs = containers(E)
    pad = S.nat("pad", at_least=0)
    f = E.load("coreax.util").tree_zero_pad_leading_axis
    for label, mk, X, Y, w in cs:
        R = f(mk(), pad)
        for nm, got, of in [("data", R.data, X), ("weights", R.weights, w)] + ([("supervision", R.supervision, Y)] if Y is not None else []):
            got = Z.as_st(got)
            E.prove(f"{label}: {nm} rows", T.eq(got.dims[0], n.n + pad.n))
            vs = [T.index_var(d, "e") for d in of.dims]
            E.prove(f"{label}: {nm} kept", Z.xeq(got.get(*vs), of.get(*vs)))
            p = T.index_var(pad.n, "p")
            E.prove(f"{label}: {nm} zero in the padding", Z.xeq(got.get(n.n + p, *vs[1:]), T.ZERO))
    neg = S.integer("negpad")
    E.assume(T.lt(neg.n, T.ZERO))
    E.raises("negative width rejected", ValueError, lambda: f(cs[0][1](), neg))
