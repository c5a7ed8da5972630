"""C06: blocked kernel means equal the exact weighted mean, for any block size."""
from engine import sym as S, tensor as Z, terms as T
from engine.tensor import SV

from .base import ob, same_value

ASSUMPTIONS = ["weights are non-negative with a positive sum (arrays: one or more rows)"]
FS = ["coreax.kernels.base.ScalarValuedKernel.compute_mean", "coreax.kernels.util._block_data_convert", "coreax.util.tree_leaves_repeat", "coreax.util.tree_zero_pad_leading_axis", "coreax.data.Data.normalize", "coreax.data.as_data"]


def setup(E, raw, symmetric):
    dm = E.load("coreax.data")
    k = S.abstract_kernel(E.L, "K", symmetric=symmetric)
    n, m, d = S.nat("n"), S.nat("m"), S.nat("d")
    X, Y = S.array("x", n, d), S.array("y", m, d)
    if raw:
        wx = Z.build((n.n,), lambda i: T.ONE, Z.F32)
        wy = Z.build((m.n,), lambda i: T.ONE, Z.F32)
        return k, n, m, d, X, Y, X, Y, wx, wy
    wx, wy = S.array("wx", n, sign="0+"), S.array("wy", m, sign="0+")
    E.assume(T.gt0(Z.sum_axis(wx).body))
    E.assume(T.gt0(Z.sum_axis(wy).body))
    return k, n, m, d, X, Y, dm.Data(X, wx), dm.Data(Y, wy), wx, wy


def blocks(kind):
    if kind == "none":
        return None
    if kind == "int":
        return S.nat("b")
    if kind == "pair":
        return (S.nat("b1"), S.nat("b2"))
    if kind == "x only":
        return (S.nat("b1"), None)
    return (None, S.nat("b2"))


def _mean(axis, bk, raw, unroll, tier="quick"):
    @ob("C06", f"mean[axis {axis}, block {bk}, {'arrays' if raw else 'weighted'}{', unroll pair' if unroll else ''}]", FS, tier=tier)
    def _(E):
        k, n, m, d, X, Y, dx, dy, wx, wy = setup(E, raw, axis == 0)
        bs = blocks(bk)
        un = (S.nat("u1"), S.nat("u2")) if unroll else 1

        def go():
            r = k.compute_mean(dx, dy, axis=axis, block_size=bs, unroll=un)
            i, j = T.index_var(n.n, "i"), T.index_var(m.n, "j")
            Wx, Wy = Z.sum_axis(wx).body, Z.sum_axis(wy).body
            kij = S.K("K", X[SV(i, "i")], Y[SV(j, "i")])
            if axis is None:
                E.hold("scalar", r.ndim == 0)
                E.prove("mean over both", Z.xeq(r.body, T.sum_([(i, n.n), (j, m.n)], wx.get(i) * wy.get(j) * kij) * T.inv(Wx) * T.inv(Wy)))
            elif axis == 1:
                E.hold("one entry per row of x", r.ndim == 1 and Z.same_dim(r.dims[0], n.n), str(r.dims)[:100])
                E.prove("mean over y", Z.xeq(r.get(i), T.sum_([(j, m.n)], wy.get(j) * kij) * T.inv(Wy)))
            else:
                E.hold("one entry per row of y", r.ndim == 1 and Z.same_dim(r.dims[0], m.n), str(r.dims)[:100])
                E.prove("mean over x", Z.xeq(r.get(j), T.sum_([(i, n.n)], wx.get(i) * kij) * T.inv(Wx)))

        E.paths(go)
        E.check_vacuity()


for _axis in (None, 0, 1):
    for _bk in ("none", "int", "pair", "x only", "y only"):
        _mean(_axis, _bk, False, False)
    _mean(_axis, "pair", True, False)
    _mean(_axis, "none", True, False)
    _mean(_axis, "pair", False, True)


def _row_mean(bk):
    @ob("C06", f"gramian row mean[block {bk}]", FS + ["coreax.kernels.base.ScalarValuedKernel.gramian_row_mean"])
    def _(E):
        k, n, m, d, X, Y, dx, dy, wx, wy = setup(E, False, True)
        bs = blocks(bk)

        def go():
            r = k.gramian_row_mean(dx, block_size=bs)
            i, j = T.index_var(n.n, "i"), T.index_var(n.n, "j")
            kij = S.K("K", X[SV(i, "i")], X[SV(j, "i")])
            E.hold("one entry per row", r.ndim == 1 and Z.same_dim(r.dims[0], n.n), str(r.dims)[:100])
            E.prove("row mean", Z.xeq(r.get(j), T.sum_([(i, n.n)], wx.get(i) * kij) * T.inv(Z.sum_axis(wx).body)))

        E.paths(go)
        E.check_vacuity()


for _bk in ("none", "int", "pair"):
    _row_mean(_bk)


@ob("C06", "gramian row mean[supervised data]", FS + ["coreax.kernels.base.ScalarValuedKernel.gramian_row_mean"])
def _(E):
    dm = E.load("coreax.data")
    k, n, m, d, X, Y, dx, dy, wx, wy = setup(E, False, True)
    sup = dm.SupervisedData(X, S.array("sv", n, S.nat("q")), wx)

    def go():
        r = k.gramian_row_mean(sup, block_size=S.nat("b"))
        i, j = T.index_var(n.n, "i"), T.index_var(n.n, "j")
        kij = S.K("K", X[SV(i, "i")], X[SV(j, "i")])
        E.prove("row mean", Z.xeq(r.get(j), T.sum_([(i, n.n)], wx.get(i) * kij) * T.inv(Z.sum_axis(wx).body)))

    E.paths(go)
