"""Symbolic inputs for the specifications."""
from __future__ import annotations

from . import terms as T, tensor as Z, model as M
from .prover import CTX
from .tensor import F32, I32, BOOL, KEY, ST, SV, as_st
from .terms import N


def nat(name, at_least=1):
    """Symbolic Python int >= at_least."""
    v = T.var(name, "I", lo=T.num(at_least), sign="+" if at_least >= 1 else ("0+" if at_least == 0 else None))
    return SV(v, "i")


def integer(name):
    return SV(T.var(name, "I"), "i")


def real(name, sign=None):
    return SV(T.var(name, "R", sign=sign), "f")


def array(name, *dims, dtype=F32, sign=None):
    """Arbitrary finite array with the given extents."""
    sort = "I" if dtype.kind == "i" else "R"
    T.declare_fn(name, sort, sign=sign)
    ds = [Z.dim(d) for d in dims]
    vs = [T.index_var(d, "t") for d in ds]
    if not ds:
        return ST((), (), T.var(name, sort, sign=sign), dtype)
    return ST(ds, vs, T.app(name, *vs), dtype)


def key(name="key"):
    return ST((), (), T.var(name, "R"), KEY)


def row(x: ST):
    """Canonical argument for a point."""
    x = as_st(x)
    if x.ndim == 0:
        x = Z.expand_dims(x, 0)
    b = Z.to_num(x.body)
    if not isinstance(b, N):
        raise T.VerifierLimit("kernel applied to non-finite data")
    if x.ndim != 1:
        raise T.VerifierLimit("kernel applied to a non-vector")
    return T.lam([T.num(x.vars[0])], [x.dims[0]], b)


ACTUAL = {}


def abstract_kernel(L, name="K", symmetric=True, sign=None):
    """A kernel known only through its contract: a (symmetric) real function."""
    base = L.load("coreax.kernels.base").ScalarValuedKernel
    ACTUAL[name] = name + ("" if symmetric else "~a") + ("" if sign is None else "~" + sign)
    name = ACTUAL[name]
    T.declare_fn(name, "R", symmetric=symmetric, sign=sign)
    T.declare_fn(name + "_gx", "R")
    T.declare_fn(name + "_gy", "R")
    T.declare_fn(name + "_div", "R")

    class AbstractKernel(base):
        def compute_elementwise(self, x, y):
            return ST((), (), T.app(name, row(x), row(y)), F32)

        def grad_x_elementwise(self, x, y):
            d = Z.expand_dims(as_st(x), 0).dims[-1]
            return Z.build((d,), lambda j: T.app(name + "_gx", row(x), row(y), j), F32)

        def grad_y_elementwise(self, x, y):
            d = Z.expand_dims(as_st(x), 0).dims[-1]
            return Z.build((d,), lambda j: T.app(name + "_gy", row(x), row(y), j), F32)

        def divergence_x_grad_y_elementwise(self, x, y):
            return ST((), (), T.app(name + "_div", row(x), row(y)), F32)

    AbstractKernel.__name__ = "Abstract_" + name
    return AbstractKernel()


def K(name, x, y):
    """Spec-side kernel value."""
    return T.app(ACTUAL.get(name, name), row(x), row(y))
