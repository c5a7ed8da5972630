"""Assumed contracts of the dependencies (JAX, sklearn, jaxopt ...) on symbolic tensors.

Each function here states what the verifier assumes about the library function of the
same name.  Where the library is too rich the function raises ``VerifierLimit`` and the
obligation is reported as out of reach (never as proved).
"""
from __future__ import annotations

import builtins
import itertools
import math as _math
import operator
import types
from fractions import Fraction as Fr

import jax.tree_util as real_jtu

from . import prover as P
from . import terms as T
from . import tensor as Z
from .prover import CTX, decide
from .tensor import (
    BOOL, F32, I32, INF, KEY, NAN, NINF, ST, SV, SymBool, as_bool, as_dtype, as_st, astype,
    broadcast_dims, build, dim, dot, elementwise, fork, lit, matmul, mk_sv, norm_index,
    pydim, reduce_, require_dim, same_dim, scalar, simp_x, squeeze, sum_axis, to_b, to_num,
    transpose, tsum, unary, xabs, xadd, xdiv, xeq, xfun, xite, xle, xlt, xmax, xmin, xmul,
    xneg, xpow, xsqrt, xsub,
)
from .terms import B, L, N, X, VerifierLimit

USED: dict = {}


def contract(name):
    """Record that an assumed dependency contract was used."""
    USED[name] = USED.get(name, 0) + 1


class Module(types.SimpleNamespace):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        name = self.__dict__.get("_name", "?")

        return _Unsupported(f"{name}.{k}")


class _Unsupported:
    """Referencing an unmodelled function is fine; using it is out of reach."""

    def __init__(self, name):
        self._n = name

    def __call__(self, *a, **k):
        raise VerifierLimit(f"no contract for {self._n}")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Unsupported(f"{self._n}.{k}")

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __mro_entries__(self, bases):
        return ()


class _Anno:
    """Stands for jaxtyping annotations (no run-time effect)."""

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __call__(self, *a, **k):
        return self


# ------------------------------------------------------------------------ jnp basics


def asarray(x, dtype=None, copy=None, **kw):
    return as_st(x, dtype)


def array(x, dtype=None, copy=None, ndmin=0, **kw):
    r = as_st(x, dtype)
    while r.ndim < ndmin:
        r = Z.expand_dims(r, 0)
    return r


def _shape(s):
    if isinstance(s, (tuple, list)):
        return [dim(x) for x in s]
    return [dim(s)]


def full(shape, fill, dtype=None, **kw):
    f = as_st(fill)
    if dtype is not None:
        f = astype(f, dtype)
    return Z.broadcast_to(f, [pydim(d) for d in _shape(shape)])


def zeros(shape, dtype=None, **kw):
    return full(shape, 0, as_dtype(dtype) or F32)


def ones(shape, dtype=None, **kw):
    return full(shape, 1, as_dtype(dtype) or F32)


def full_like(x, v, dtype=None, **kw):
    x = as_st(x)
    return full(x.shape, v, dtype or x.dtype)


def zeros_like(x, dtype=None, **kw):
    return full_like(x, 0, dtype)


def ones_like(x, dtype=None, **kw):
    return full_like(x, 1, dtype)


def eye(n, m=None, k=0, dtype=None, **kw):
    n, m = dim(n), dim(m if m is not None else n)
    return build((n, m), lambda i, j: T.ind(T.eq(i + dim(k), j)), as_dtype(dtype) or F32)


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def arange(start, stop=None, step=None, dtype=None):
    if stop is None:
        start, stop = 0, start
    if step not in (None, 1):
        raise VerifierLimit("arange step")
    a, b = dim(start), dim(stop)
    n = b - a
    if decide(T.ge0(n)) is not True:
        n = T.max_(n, T.ZERO)
    return build((n,), lambda i: a + i, as_dtype(dtype) or I32)


def linspace(a, b, n, **kw):
    raise VerifierLimit("linspace")


def atleast_1d(*xs):
    if len(xs) > 1:
        return [atleast_1d(x) for x in xs]
    x = as_st(xs[0])
    return Z.expand_dims(x, 0) if x.ndim == 0 else x


def atleast_2d(*xs):
    if len(xs) > 1:
        return [atleast_2d(x) for x in xs]
    x = as_st(xs[0])
    while x.ndim < 2:
        x = Z.expand_dims(x, 0)
    return x


def where(c, a=None, b=None, **kw):
    if a is None:
        raise VerifierLimit("where with one argument")
    c, a, b = as_st(c), as_st(a), as_st(b)
    dt = Z.promote(a.dtype, b.dtype)
    return elementwise(lambda p, q, r: xite(to_b(p), q if dt is BOOL else to_num(q), r if dt is BOOL else to_num(r)), c, a, b, dtype=dt)


def mean(x, axis=None, keepdims=False, **kw):
    x = as_st(x)
    s = sum_axis(x, axis, keepdims)
    cnt = Z.prod_dims([x.dims[a] for a in Z._axes(x, axis)])
    return elementwise(lambda t: xdiv(to_num(t), cnt), s, dtype=F32)


def _free_index_vars(*bodies):
    fv = set()
    for b in bodies:
        fv |= b.fv
    return fv


_opq = {}


def opaque_fn(name, sort="R", **kw):
    T.declare_fn(name, sort, **kw)
    return name


def body_key(vs, body):
    """Canonical opaque argument(s) standing for an array body over vs."""
    rs = [T.VAR_INFO[T.the_var(v)]["hi"] for v in vs]
    if isinstance(body, B):
        return (T.lam(vs, rs, T.ind(body)),)
    if isinstance(body, X):
        return (
            T.lam(vs, rs, body.v),
            T.lam(vs, rs, T.ind(body.pinf)),
            T.lam(vs, rs, T.ind(body.ninf)),
            T.lam(vs, rs, T.ind(body.nan)),
        )
    return (T.lam(vs, rs, body),)


def tidy(x: ST) -> ST:
    """The same array with the indicators that its index ranges decide removed."""
    if not x.dims or not isinstance(x.body, N):
        return x
    vs = [T.index_var(d, "t") for d in x.dims]
    b = x.get(*vs)
    if not isinstance(b, N):
        return x
    return ST(x.dims, vs, P.simplify_inds(b), x.dtype)


def arr_key(x: ST):
    x = tidy(x)
    vs = [T.num(v) for v in x.vars]
    if not vs:
        b = to_num(x.body)
        return (b,) if isinstance(b, N) else (b.v, T.ind(b.pinf), T.ind(b.ninf), T.ind(b.nan))
    return body_key(vs, x.body)


def assume_for(fvs, b: B, label):
    """Assume b universally over its index variables among fvs."""
    qs = [v for v in b.fv if v in fvs]
    CTX.assume(T.forall(qs, b) if qs else b, label)


def _quantifiable(fv):
    """Variables a skolem axiom has to range over (those with index ranges)."""
    return {v for v in fv if T.VAR_INFO.get(v, {}).get("hi") is not None or v.args[0].startswith("lp!")}


def extremum(name, x, axis, is_max, keepdims=False):
    x = as_st(x)

    def f(vs, body):
        body = to_num(body)
        n = Z.prod_dims([T.VAR_INFO[T.the_var(v)]["hi"] for v in vs])
        if n.const() == 1:
            return T.subst(body, {T.the_var(v): T.ZERO for v in vs})
        if isinstance(body, X):
            raise VerifierLimit(f"{name} of non-finite values")
        contract(f"jnp.{name}: attained bound")
        key = body_key(vs, body)
        fn = opaque_fn(name, "I" if body.sort == "I" else "R")
        m = T.app(fn, *key)
        fv = _quantifiable(key[0].fv)
        c = T.le(body, m) if is_max else T.le(m, body)
        qs = list(vs) + [T.num(v) for v in fv]
        CTX.assume(T.forall(qs, c), f"jnp.{name}")
        wit = []
        for k, v in enumerate(vs):
            w = T.app(opaque_fn(f"arg{name}{k}", "I"), *key)
            wit.append(w)
            hi = T.VAR_INFO[T.the_var(v)]["hi"]
            CTX.assume(T.forall([T.num(q) for q in fv], T.band(T.ge0(w), T.lt(w, hi))), f"jnp.{name}")
        at = T.subst(body, {T.the_var(v): w for v, w in zip(vs, wit)})
        CTX.assume(T.forall([T.num(q) for q in fv], T.eq(at, m)), f"jnp.{name}")
        return m

    return reduce_(x, axis, f, keepdims=keepdims)


def max_(x, axis=None, keepdims=False, **kw):
    return extremum("max", x, axis, True, keepdims)


def min_(x, axis=None, keepdims=False, **kw):
    return extremum("min", x, axis, False, keepdims)


_named = [0]
ARGS: list = []  # applications of argmax and the like


def arg_instance(rec, q):
    """Instance of the contract of nanargmax / nanargmin at position q (0 <= q < extent): if the entry is not NaN, the result is in
    range, not NaN and at least as good."""
    a, b = T.asx(rec["at"](q)), T.asx(rec["at"](rec["r"]))
    assert rec["nan_aware"]
    better = xle(a, b) if rec["is_max"] else xle(b, a)
    return T.implies(T.bnot(a.nan), T.band(T.ge0(rec["r"]), T.lt(rec["r"], rec["hi"]), T.bnot(b.nan), better))


def arg_extremum(name, x, axis, is_max, nan_aware):
    x = as_st(x)
    if axis is None:
        if x.ndim != 1:
            x = Z.ravel(x)
        axis = 0
    axs = Z._axes(x, axis)

    def f(vs, body):
        body = to_num(body)
        v = vs[0]
        hi = T.VAR_INFO[T.the_var(v)]["hi"]
        contract(f"jnp.{name}: first index of the extremum" + (" among non-NaN entries, -1 if none" if nan_aware else ", NaN counts as the extremum"))
        key = body_key([v], body)
        fn = opaque_fn(("nan" if nan_aware else "") + ("argmax" if is_max else "argmin"), "I")
        r = T.app(fn, *key)
        fvs = set()
        for k in key:
            fvs |= k.fv
        fv = [T.num(q) for q in _quantifiable(fvs)]
        if Z.NAMED[0]:  # any index with the stated property
            k = Z.named("sel", lambda: (fn, Z.closed(fv, T.app(fn, *key))))
            nm = opaque_fn(f"sel{k}", "I")
            r = T.app(nm, *(fv or [T.ZERO]))
        at = lambda t: T.subst(body, {T.the_var(v): t})  # noqa: E731
        bx = body
        isnan = bx.nan if isinstance(bx, X) else T.FALSE
        q = T.index_var(hi, "q")
        rng = T.band(T.ge0(r), T.lt(r, hi))
        ARGS.append(dict(r=r, at=at, hi=hi, is_max=is_max, nan_aware=nan_aware))
        if nan_aware:
            anyok = T.exists([v], T.bnot(isnan))
            CTX.assume(T.forall(fv, T.implies(anyok, rng)), f"jnp.{name}")
            if isnan is not T.FALSE:
                CTX.assume(T.forall(fv, T.implies(anyok, T.bnot(_sub(isnan, v, r)))), f"jnp.{name}")
                CTX.assume(T.forall(fv, T.implies(T.bnot(anyok), T.eq(r, T.num(-1)))), f"jnp.{name}")
            better = xle(at(q), at(r)) if is_max else xle(at(r), at(q))
            guard = T.bnot(_sub(isnan, v, q))
            CTX.assume(T.forall(fv + [q], T.implies(T.band(anyok, guard), better)), f"jnp.{name}")
            strict = xlt(at(q), at(r)) if is_max else xlt(at(r), at(q))
            CTX.assume(T.forall(fv + [q], T.implies(T.band(anyok, guard, T.lt(q, r)), strict)), f"jnp.{name}")
        else:
            CTX.assume(T.forall(fv, T.implies(T.gt0(hi), rng)), f"jnp.{name}")
            nonan = T.forall([v], T.bnot(isnan))
            better = xle(at(q), at(r)) if is_max else xle(at(r), at(q))
            CTX.assume(T.forall(fv + [q], T.implies(nonan, better)), f"jnp.{name}")
            strict = xlt(at(q), at(r)) if is_max else xlt(at(r), at(q))
            CTX.assume(T.forall(fv + [q], T.implies(T.band(nonan, T.lt(q, r)), strict)), f"jnp.{name}")
            if isnan is not T.FALSE:
                CTX.assume(T.forall(fv, T.implies(T.bnot(nonan), _sub(isnan, v, r))), f"jnp.{name}")
        return r

    return reduce_(x, axs, f, I32)


def _sub(b, v, t):
    return T.subst(b, {T.the_var(v): t})


def argmax(x, axis=None, **kw):
    return arg_extremum("argmax", x, axis, True, False)


def argmin(x, axis=None, **kw):
    return arg_extremum("argmin", x, axis, False, False)


def nanargmax(x, axis=None, **kw):
    return arg_extremum("nanargmax", x, axis, True, True)


def nanargmin(x, axis=None, **kw):
    return arg_extremum("nanargmin", x, axis, False, True)


PERMS: list = []  # the orders taken, for specifications


def argsort(x, axis=-1, **kw):
    x = as_st(x)
    if x.ndim != 1:
        raise VerifierLimit("argsort of a matrix")
    contract("jnp.argsort: a permutation that sorts")
    n = x.dims[0]
    key = arr_key(x)
    fn = opaque_fn("argsort", "I")
    declare_perm("argsort", fn, key, n)
    PERMS.append(lambda i: T.app(fn, *key, i))
    return build((n,), lambda i: T.app(fn, *key, i), I32)


def declare_perm(label, fn, key, n):
    """Assume i -> fn(key, i) is a permutation of [0, n) with inverse fn+'_inv'."""
    i, j = T.index_var(n, "i"), T.index_var(n, "j")
    fv = set()
    for k in key:
        if not isinstance(k, str):
            fv |= k.fv
    fvq = [T.num(q) for q in _quantifiable(fv)]
    a = T.app(fn, *key, i)
    CTX.assume(T.forall(fvq + [i], T.band(T.ge0(a), T.lt(a, n))), label)
    inv = opaque_fn(fn + "_inv", "I")
    CTX.assume(T.forall(fvq + [i], T.eq(T.app(inv, *key, a), i)), label)
    b = T.app(inv, *key, j)
    CTX.assume(T.forall(fvq + [j], T.band(T.ge0(b), T.lt(b, n), T.eq(T.app(fn, *key, b), j))), label)


def isin(x, test, **kw):
    x, test = as_st(x), as_st(test)
    t = Z.ravel(test) if test.ndim != 1 else test

    def f(b):
        j = T.index_var(t.dims[0], "j")
        return T.exists([j], xeq(to_num(b), to_num(t.get(j))))

    return ST(x.dims, x.vars, f(x.body), BOOL)


def tensordot(a, b, axes=2):
    a, b = as_st(a), as_st(b)
    if isinstance(axes, int):
        if axes == 0:
            va = [T.index_var(d, "t") for d in a.dims]
            vb = [T.index_var(d, "t") for d in b.dims]
            return ST(list(a.dims) + list(b.dims), va + vb, xmul(to_num(a.get(*va)), to_num(b.get(*vb))), Z._num_dtype(a, b))
        ax_a = list(range(a.ndim - axes, a.ndim))
        ax_b = list(range(axes))
    else:
        ax_a, ax_b = axes
        ax_a = [ax_a] if isinstance(ax_a, int) else list(ax_a)
        ax_b = [ax_b] if isinstance(ax_b, int) else list(ax_b)
    ax_a = [x % a.ndim for x in ax_a]
    ax_b = [x % b.ndim for x in ax_b]
    va = [T.index_var(d, "t") for d in a.dims]
    vb = [T.index_var(d, "t") for d in b.dims]
    for p, q in zip(ax_a, ax_b):
        require_dim(a.dims[p], b.dims[q])
        vb[q] = va[p]
    body = tsum([va[p] for p in ax_a], xmul(to_num(a.get(*va)), to_num(b.get(*vb))))
    ka = [k for k in range(a.ndim) if k not in ax_a]
    kb = [k for k in range(b.ndim) if k not in ax_b]
    return ST([a.dims[k] for k in ka] + [b.dims[k] for k in kb], [va[k] for k in ka] + [vb[k] for k in kb], body, Z._num_dtype(a, b))


def outer(a, b):
    return tensordot(Z.ravel(a), Z.ravel(b), 0)


def inner(a, b):
    a, b = as_st(a), as_st(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return tensordot(a, b, ([-1], [-1]))


def vdot(a, b):
    return dot(Z.ravel(a), Z.ravel(b))


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str) or "..." in spec:
        raise VerifierLimit("einsum form")
    ops = [as_st(o) for o in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        cnt = {}
        for c in ins.replace(",", ""):
            cnt[c] = cnt.get(c, 0) + 1
        out = "".join(sorted(c for c in cnt if cnt[c] == 1))
    ins = ins.split(",")
    ext, var = {}, {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einsum rank")
        for c, d in zip(s, o.dims):
            if c in ext:
                require_dim(ext[c], d)
            else:
                ext[c] = d
                var[c] = T.index_var(d, "e")
    body = T.ONE
    for s, o in zip(ins, ops):
        body = xmul(body, to_num(o.get(*[var[c] for c in s])))
    red = [var[c] for c in ext if c not in out]
    if red:
        body = tsum(red, body)
    return ST([ext[c] for c in out], [var[c] for c in out], body, Z._num_dtype(*ops))


def hstack(xs, **kw):
    xs = [atleast_1d(x) for x in xs]
    return Z.concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs, **kw):
    return Z.concatenate([atleast_2d(x) for x in xs], 0)


def column_stack(xs, **kw):
    xs = [as_st(x) for x in xs]
    return Z.concatenate([Z.expand_dims(x, 1) if x.ndim == 1 else x for x in xs], 1)


class _C:
    def __getitem__(self, k):
        return column_stack(list(k) if isinstance(k, tuple) else [k])


class _R:
    def __getitem__(self, k):
        return Z.concatenate([atleast_1d(x) for x in (k if isinstance(k, tuple) else (k,))], 0)


def tile(x, reps):
    x = as_st(x)
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    reps = [dim(r) for r in reps]
    while x.ndim < len(reps):
        x = Z.expand_dims(x, 0)
    while len(reps) < x.ndim:
        reps.insert(0, T.ONE)
    vs, idx, dims = [], [], []
    for d, r in zip(x.dims, reps):
        v = T.index_var(d * r, "t")
        vs.append(v)
        dims.append(d * r)
        idx.append(T.ZERO if d.const() == 1 else (v if r.const() == 1 else T.mod(v, d)))
    return ST(dims, vs, x.get(*idx), x.dtype)


def repeat(x, n, axis=None, **kw):
    x = as_st(x)
    n = dim(n)
    if axis is None:
        x = Z.ravel(x)
        axis = 0
    axis %= x.ndim
    dims = list(x.dims)
    dims[axis] = dims[axis] * n
    vs = [T.index_var(d, "t") for d in dims]
    idx = list(vs)
    idx[axis] = T.ZERO if x.dims[axis].const() == 1 else Z.floor_div(vs[axis], n)
    return ST(dims, vs, x.get(*idx), x.dtype)


def diag(x, k=0):
    x = as_st(x)
    if x.ndim == 1:
        n = x.dims[0]
        if k:
            raise VerifierLimit("diag offset")
        i, j = T.index_var(n, "t"), T.index_var(n, "t")
        return ST((n, n), (i, j), xite(T.eq(i, j), to_num(x.get(i)), T.ZERO), x.dtype)
    return diagonal(x, k)


def diagonal(x, offset=0, **kw):
    x = as_st(x)
    if offset:
        raise VerifierLimit("diagonal offset")
    n = x.dims[0] if same_dim(x.dims[0], x.dims[1]) else T.min_(x.dims[0], x.dims[1])
    i = T.index_var(n, "t")
    return ST((n,), (i,), x.get(i, i), x.dtype)


def trace(x, **kw):
    return sum_axis(diagonal(x))


def average(x, axis=None, weights=None, **kw):
    x = as_st(x)
    if weights is None:
        return mean(x, axis)
    w = as_st(weights)
    if axis is None:
        axis = tuple(range(x.ndim))
        if w.ndim != x.ndim:
            raise VerifierLimit("average weights")
    axs = Z._axes(x, axis)
    if w.ndim == 1 and x.ndim > 1:
        for k in range(x.ndim):
            if k != axs[0]:
                w = Z.expand_dims(w, k)
    return sum_axis(x * w, axis) / sum_axis(w * ones_like(x) if False else Z.broadcast_to(w, x.shape), axis)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = as_st(x)
    b = to_num(x.body)
    if isinstance(b, N):
        return x
    CTX.uses("nan_to_num")
    big = T.var("FLT_MAX", "R", sign="+")
    r = xite(b.nan, lit(nan), b)
    r = T.asx(r)
    v = T.ite(b.pinf, big if posinf is None else lit(posinf), T.ite(b.ninf, -big if neginf is None else lit(neginf), r.v))
    return ST(x.dims, x.vars, v, x.dtype)


def clip(x, min=None, max=None, a_min=None, a_max=None, **kw):
    lo = min if min is not None else a_min
    hi = max if max is not None else a_max
    x = as_st(x)
    if lo is not None:
        x = maximum(x, lo)
    if hi is not None:
        x = minimum(x, hi)
    return x


def maximum(a, b):
    a, b = as_st(a), as_st(b)
    return elementwise(xmax, a, b, dtype=Z._num_dtype(a, b))


def minimum(a, b):
    a, b = as_st(a), as_st(b)
    return elementwise(xmin, a, b, dtype=Z._num_dtype(a, b))


def isnan(x):
    x = as_st(x)
    b = to_num(x.body)
    return ST(x.dims, x.vars, b.nan if isinstance(b, X) else T.FALSE, BOOL)


def isinf(x):
    x = as_st(x)
    b = to_num(x.body)
    return ST(x.dims, x.vars, T.bor(b.pinf, b.ninf) if isinstance(b, X) else T.FALSE, BOOL)


def isfinite(x):
    x = as_st(x)
    b = to_num(x.body)
    return ST(x.dims, x.vars, b.finite() if isinstance(b, X) else T.TRUE, BOOL)


def exp_(x):
    return unary(lambda t: xfun(T.exp, t, INF, T.ZERO), x, F32)


def _xlog(t):
    if isinstance(t, N):
        if T.n_sign(t) == "+" or decide(T.gt0(t)) is True:
            return T.log(t)
        return simp_x(X(T.log(t), T.FALSE, T.eq0(t), T.gt0(-t)))
    return xfun(T.log, t, INF, NAN)


def log_(x):
    return unary(_xlog, x, F32)


def sqrt_(x):
    return unary(xsqrt, x, F32)


def sign_(x):
    return unary(lambda t: T.sign_(t) if isinstance(t, N) else xfun(T.sign_, t, T.ONE, -T.ONE), x)


def _finite_only(f, nm):
    def g(t):
        if isinstance(t, N):
            return f(t)
        r = T.asx(f(t.v))
        return simp_x(X(r.v, r.pinf, r.ninf, T.bor(t.nan, t.pinf, t.ninf)))

    return g


def power_(a, b):
    return as_st(a) ** as_st(b)


def square(x):
    return unary(lambda t: xmul(t, t), x)


def norm(x, ord=None, axis=None, keepdims=False):
    x = as_st(x)
    if axis is None and x.ndim == 0:
        return abs(x)
    if axis is None and x.ndim > 1:
        if ord not in (None, "fro"):
            raise VerifierLimit("matrix norm")
        s = sum_axis(x * x)
        return sqrt_(s)
    ax = axis if axis is not None else 0
    if ord in (None, 2):
        if x.ndim == 1 and x.dims[0].const() == 1:
            return abs(x[0])
        return sqrt_(sum_axis(x * x, ax, keepdims))
    if ord == 1:
        return sum_axis(abs(x), ax, keepdims)
    if ord in (builtins.float("inf"),):
        return max_(abs(x), ax, keepdims)
    raise VerifierLimit("norm order")


def flatnonzero(x, size=None, fill_value=None, **kw):
    x = as_st(x)
    if x.ndim != 1:
        x = Z.ravel(x)
    n = x.dims[0]
    contract("jnp.flatnonzero: indices of non-zero entries in increasing order")
    key = arr_key(x)
    nz = lambda t: to_b(x.get(t))  # noqa: E731
    i = T.index_var(n, "i")
    count = T.sum_([(T.the_var(i), n)], T.ind(nz(i)))
    fn = opaque_fn("nonzero_pos", "I")
    if size is None:
        m = count
        fill = None
        cap = m
    else:
        m = dim(size)
        fill = to_num(as_st(0 if fill_value is None else fill_value).body)
        cap = T.min_(m, count)
    j = T.index_var(cap, "j")
    a = T.app(fn, *key, j)
    CTX.assume(T.forall([j], T.band(T.ge0(a), T.lt(a, n), nz(a))), "jnp.flatnonzero")
    k = T.index_var(cap, "j")
    CTX.assume(T.forall([j, k], T.implies(T.lt(j, k), T.lt(a, T.app(fn, *key, k)))), "jnp.flatnonzero")
    T.FN_INFO[fn]["nonzero_of"] = T.FN_INFO[fn].get("nonzero_of", {})
    FLATNZ.append(dict(x=x, key=key, n=n, count=count, size=m, cap=cap, fill=fill, fn=fn))
    if fill is None:
        return build((m,), lambda t: T.app(fn, *key, t), I32)
    return build((m,), lambda t: T.ite(T.lt(t, count), T.app(fn, *key, t), fill), I32)


FLATNZ: list = []


def count_nonzero(x, axis=None, **kw):
    return sum_axis(astype(as_st(x), BOOL), axis)


def cumsum(x, axis=None, **kw):
    x = as_st(x)
    if x.ndim != 1:
        raise VerifierLimit("cumsum")
    i = T.index_var(x.dims[0], "t")
    j = T.index_var(i + 1, "j")
    return ST(x.dims, (i,), tsum([j], x.get(j)), Z._num_dtype(x))


def take(x, idx, axis=None, **kw):
    x = as_st(x)
    if axis is None:
        x = Z.ravel(x)
        axis = 0
    ax = axis % x.ndim
    ix, mode = as_st(idx), kw.get("mode")
    got = x[(slice(None),) * ax + (idx,)]
    if mode not in (None, "fill", "clip") or kw.get("fill_value") is not None:
        raise VerifierLimit("take mode")
    # out-of-range indices give NaN ("fill", the default) or are clamped
    n = x.dims[ax]
    vs = [T.index_var(d, "t") for d in ix.dims]
    neg = T.ZERO if mode == "clip" else -n

    def ok_at(at):
        v = to_num(ix.get(*at))
        return T.band(T.le(neg, v), T.lt(v, n))

    inside = ok_at(vs)
    from . import prover as P
    if P.prove(T.forall(vs, inside) if vs else inside):
        return got
    if mode == "clip" or x.dtype != F32:
        raise VerifierLimit("take out of range")
    ok = ok_at([T.num(a) for a in got.vars][ax:ax + ix.ndim])
    return ST(got.dims, got.vars, xite(ok, got.body, Z.NAN), got.dtype)


def triu(x, k=0):
    x = as_st(x)
    i, j = [T.num(v) for v in x.vars[-2:]]
    return ST(x.dims, x.vars, xite(T.ge0(j - i - dim(k)), to_num(x.body), T.ZERO), x.dtype)


def tril(x, k=0):
    x = as_st(x)
    i, j = [T.num(v) for v in x.vars[-2:]]
    return ST(x.dims, x.vars, xite(T.ge0(i + dim(k) - j), to_num(x.body), T.ZERO), x.dtype)


def shape_(x):
    return as_st(x).shape


def ndim_(x):
    return as_st(x).ndim


def size_(x, axis=None):
    x = as_st(x)
    return x.size if axis is None else x.shape[axis]


def flip(x, axis=None):
    x = as_st(x)
    axs = Z._axes(x, axis)
    idx = [d - 1 - T.num(v) if k in axs else T.num(v) for k, (v, d) in enumerate(zip(x.vars, x.dims))]
    return ST(x.dims, x.vars, x.get(*idx), x.dtype)


def prod(x, axis=None, **kw):
    x = as_st(x)
    raise VerifierLimit("prod")


def ufunc2(f, dtype=None):
    return lambda a, b, **kw: f(as_st(a), as_st(b))


# -------------------------------------------------------------------------- linalg


def opaque_op(name, ins, out_dims, sort="R", dtype=F32, extra=()):
    """Deterministic opaque result of a library routine applied to arrays."""
    key = []
    for x in ins:
        key += list(arr_key(as_st(x)))
    key += [T.num(e) if not isinstance(e, str) else e for e in extra]
    fn = opaque_fn(name, sort)
    vs = [T.index_var(d, "t") for d in out_dims]
    return ST(out_dims, vs, T.app(fn, *key, *vs), dtype), key


def _finite(x):
    if isinstance(x.body, X):
        raise VerifierLimit("linear algebra on non-finite values")
    return tidy(x)


def solve(a, b, **kw):
    a, b = _finite(as_st(a)), _finite(as_st(b))
    contract("jnp.linalg.solve: A x = b (A non-singular)")
    n = a.dims[-1]
    if a.ndim != 2:
        raise VerifierLimit("batched solve")
    if b.ndim == 1:
        require_dim(a.dims[0], b.dims[0])
        r, key = opaque_op("linsolve1", [a, b], (n,))
        i, k = T.index_var(n, "i"), T.index_var(n, "k")
        CTX.assume(T.forall([i], T.eq(tsum([k], a.get(i, k) * r.get(k)), b.get(i))), "jnp.linalg.solve")
        SOLVES.append((a, b, r))
        return r
    require_dim(a.dims[0], b.dims[0])
    r, key = opaque_op("linsolve2", [a, b], (n, b.dims[1]))
    i, j, k = T.index_var(n, "i"), T.index_var(b.dims[1], "j"), T.index_var(n, "k")
    CTX.assume(T.forall([i, j], T.eq(tsum([k], a.get(i, k) * r.get(k, j)), b.get(i, j))), "jnp.linalg.solve")
    SOLVES.append((a, b, r))
    return r


SOLVES: list = []


def lstsq(a, b, rcond=None, **kw):
    a, b = _finite(as_st(a)), _finite(as_st(b))
    contract("jnp.linalg.lstsq: least-squares solution (deterministic function of its arguments)")
    if a.ndim != 2:
        raise VerifierLimit("batched lstsq")
    require_dim(a.dims[0], b.dims[0])
    rc = [as_st(rcond)] if rcond is not None else []
    od = (a.dims[1],) if b.ndim == 1 else (a.dims[1], b.dims[1])
    r, _ = opaque_op("lstsq" + ("_rc" if rc else ""), [a, b] + rc, od)
    LSTSQ.append((a, b, rcond, r))
    u = _Unsupported("lstsq auxiliary result")
    return r, u, u, u


LSTSQ: list = []


def qr(a, mode="reduced", **kw):
    a = _finite(as_st(a))
    contract("jnp.linalg.qr: deterministic orthonormal factor")
    n, m = a.dims
    k = T.min_(n, m)
    q, _ = opaque_op("qr_q", [a], (n, k))
    r, _ = opaque_op("qr_r", [a], (k, m))
    return q, r


def eigh(a, **kw):
    a = _finite(as_st(a))
    contract("jnp.linalg.eigh: deterministic eigenpairs")
    n = a.dims[0]
    w, _ = opaque_op("eigh_w", [a], (n,))
    v, _ = opaque_op("eigh_v", [a], (n, n))
    return w, v


def svd(a, full_matrices=True, compute_uv=True, **kw):
    a = _finite(as_st(a))
    contract("svd: orthonormal left factor, non-negative decreasing singular values")
    n, m = a.dims
    k = T.min_(n, m)
    u, key = opaque_op("svd_u", [a], (n, n if full_matrices else k))
    s, _ = opaque_op("svd_s", [a], (k,))
    v, _ = opaque_op("svd_v", [a], (m if full_matrices else k, m))
    SVDS.append((a, u, s, v, key))
    return u, s, v


SVDS: list = []

# -------------------------------------------------------------------------- random


def _keyst(k):
    k = as_st(k)
    return k


def key_(seed=0, **kw):
    T.declare_fn("prngkey", "R")
    return ST((), (), T.app("prngkey", to_num(as_st(seed).body)), KEY)


def split_(key, num=2):
    T.declare_fn("prng_split", "R")
    k = _keyst(key)
    if k.ndim:
        raise VerifierLimit("split of a key array")
    n = dim(num) if not isinstance(num, tuple) else dim(num[0])
    return build((n,), lambda i: T.app("prng_split", k.body, i), KEY)


def fold_in(key, data):
    T.declare_fn("prng_fold", "R")
    k = _keyst(key)
    return ST((), (), T.app("prng_fold", k.body, to_num(as_st(data).body)), KEY)


def _rand(name, key, shape, extra=(), sort="R", dtype=F32):
    k = _keyst(key)
    dims = _shape(shape) if shape != () else []
    fn = opaque_fn(f"rand_{name}", sort)
    vs = [T.index_var(d, "t") for d in dims]
    return ST(dims, vs, T.app(fn, k.body, *extra, *dims, *vs), dtype)


def normal(key, shape=(), dtype=None):
    return _rand("normal", key, shape)


def uniform(key, shape=(), dtype=None, minval=0.0, maxval=1.0):
    contract("jax.random.uniform: value in [minval, maxval)")
    r = _rand("uniform", key, shape)
    if minval == 0.0 and maxval == 1.0:
        vs = [T.num(v) for v in r.vars]
        fv = _quantifiable(r.body.fv)
        CTX.assume(T.forall([T.num(v) for v in fv], T.band(T.ge0(r.body), T.lt(r.body, T.ONE))), "jax.random.uniform")
    return r


def randint(key, shape, minval, maxval, dtype=None):
    contract("jax.random.randint: value in [minval, maxval)")
    lo, hi = dim(minval), dim(maxval)
    r = _rand("randint", key, shape, (lo, hi), "I", I32)
    fv = _quantifiable(r.body.fv)
    CTX.assume(T.forall([T.num(v) for v in fv], T.band(T.le(lo, r.body), T.lt(r.body, hi))), "jax.random.randint")
    return r


def permutation(key, x, axis=0, independent=False):
    k = _keyst(key)
    contract("jax.random.permutation: a permutation")
    fn = opaque_fn("rand_perm", "I")
    if isinstance(x, ST) and x.ndim > 0:
        n = x.dims[0]
        declare_perm("jax.random.permutation", fn, (k.body, n), n)
        i = T.index_var(n, "t")
        vs = [T.index_var(d, "t") for d in x.dims[1:]]
        return ST(x.dims, [i] + vs, x.get(T.app(fn, k.body, n, i), *vs), x.dtype)
    n = dim(x)
    declare_perm("jax.random.permutation", fn, (k.body, n), n)
    return build((n,), lambda i: T.app(fn, k.body, n, i), I32)


def choice(key, a, shape=(), replace=True, p=None, axis=0, **kw):
    k = _keyst(key)
    arr = None
    if isinstance(a, ST) and a.ndim > 0:
        arr = a
        n = a.dims[axis]
    else:
        n = dim(a)
    dims = _shape(shape) if shape != () else []
    m = Z.prod_dims(dims)
    if not replace:
        if m.const() != 1 and fork(T.lt(n, m)):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
    if n.const() is None and decide(T.gt0(n)) is not True and fork(T.eq0(n)):
        raise ValueError("a must be greater than 0")
    contract("jax.random.choice: in range" + (", distinct without replacement" if not replace else "") + (", positive probability" if p is not None else ""))
    extra = []
    if p is not None:
        p = as_st(p)
        require_dim(p.dims[0], n, "p must be None or match the shape of a")
        extra = list(arr_key(p))
    fn = opaque_fn(f"rand_choice{'_r' if replace else ''}{'_p' if p is not None else ''}", "I")
    vs = [T.index_var(d, "t") for d in dims]
    flat = T.ZERO
    for d, v in zip(dims, vs):
        flat = flat * d + v
    head = [k.body, n, m] + extra
    if Z.NAMED[0] and extra:
        hd = [T.num(h) for h in sorted(_quantifiable(set().union(*[h.fv for h in head])), key=lambda a: a.id)]
        full = T.app(fn, *head)
        fn = opaque_fn(f"draw{Z.named('draw', lambda: Z.closed(hd, full))}", "I")
        head = hd
    r = T.app(fn, *head, flat)
    fv = set()
    for h in head:
        fv |= h.fv
    fvq = [T.num(v) for v in _quantifiable(fv)]
    t = T.index_var(m, "t")
    rt = T.app(fn, *head, t)
    CTX.assume(T.forall(fvq + [t], T.band(T.ge0(rt), T.lt(rt, n))), "jax.random.choice")
    if not replace:
        u = T.index_var(m, "u")
        ru = T.app(fn, *head, u)
        inv = opaque_fn(fn + "_inv", "I")
        CTX.assume(T.forall(fvq + [t], T.eq(T.app(inv, *head, rt), t)), "jax.random.choice")
    if p is not None:
        pb = p.get(rt)
        # assumed only when p is a genuine distribution up to scale: entries finite,
        # non-negative, and at least m of them positive
        q = T.index_var(n, "q")
        pq = to_num(p.get(q))
        okq = T.band(T.asx(pq).finite(), T.ge0(T.asx(pq).v))
        wit = T.index_var(n, "q")
        some = T.exists([wit], T.gt0(T.asx(to_num(p.get(wit))).v)) if m.const() == 1 else T.pred("enough_positive", *extra, m)
        CTX.assume(
            T.forall(fvq + [t], T.implies(T.band(T.forall([q], okq), some), T.gt0(T.asx(to_num(pb)).v))),
            "jax.random.choice",
        )
    CHOICES.append(dict(p=p, n=n, m=m, replace=replace, key=k, r=r, vars=[T.the_var(v) for v in vs]))
    if arr is not None:
        rest = [T.index_var(d, "t") for d in arr.dims[1:]]
        return ST(dims + list(arr.dims[1:]), vs + rest, arr.get(r, *rest), arr.dtype)
    return ST(dims, vs, r, I32)


CHOICES: list = []


# ------------------------------------------------------------------ transformations


def jit(f=None, *a, **k):
    if f is None:
        return lambda g: g
    return f


def _flat_axes(in_axes, args):
    if isinstance(in_axes, int) or in_axes is None:
        in_axes = (in_axes,) * len(args)
    out = []
    for ax, arg in zip(in_axes, args):
        leaves, td = real_jtu.tree_flatten(arg)
        if isinstance(ax, int) or ax is None:
            out.append((leaves, td, [ax] * len(leaves)))
        else:
            axl = real_jtu.tree_leaves(ax, is_leaf=lambda z: z is None)
            if len(axl) != len(leaves):
                raise VerifierLimit("vmap axes tree")
            out.append((leaves, td, axl))
    return out


def vmap(f, in_axes=0, out_axes=0, **kw):
    def g(*args, **kwargs):
        if kwargs:
            raise VerifierLimit("vmap with keyword arguments")
        spec = _flat_axes(in_axes, args)
        size = None
        for leaves, _, axs in spec:
            for l, a in zip(leaves, axs):
                if a is None or not _is_arraylike(l):
                    continue
                l = as_st(l)
                if l.ndim == 0:
                    raise ValueError("vmap was requested to map over a scalar")
                d = l.dims[a % l.ndim]
                if size is None:
                    size = d
                else:
                    require_dim(size, d, "vmap got inconsistent sizes")
        if size is None:
            raise ValueError("vmap must have at least one non-None value in in_axes")
        c = size.const()
        if c is not None and c <= 8:
            mark = CTX.mark()
            try:
                return mapped(spec, size, T.index_var(size, "b"))
            except VerifierLimit:
                CTX.rewind(mark)
                return unrolled(spec, int(c))
        return mapped(spec, size, T.index_var(size, "b"))

    def unrolled(spec, c):
        outs = []
        for k in range(c):
            call = []
            for leaves, td, axs in spec:
                new = [
                    l if a is None or not _is_arraylike(l) else _slice_at(as_st(l), a % as_st(l).ndim, T.num(k))
                    for l, a in zip(leaves, axs)
                ]
                call.append(real_jtu.tree_unflatten(td, new))
            outs.append(real_jtu.tree_flatten(f(*call)))
        td = outs[0][1]
        n = len(outs[0][0])
        oax = [out_axes] * n if isinstance(out_axes, int) else real_jtu.tree_leaves(out_axes, is_leaf=lambda z: z is None)
        return real_jtu.tree_unflatten(
            td, [as_st(outs[0][0][j]) if oax[j] is None else Z.stack([as_st(o[0][j]) for o in outs], oax[j]) for j in range(n)]
        )

    def mapped(spec, size, b):
        call = []
        for leaves, td, axs in spec:
            new = []
            for l, a in zip(leaves, axs):
                if a is None or not _is_arraylike(l):
                    new.append(l)
                else:
                    l = as_st(l)
                    a %= l.ndim
                    new.append(_slice_at(l, a, b))
            call.append(real_jtu.tree_unflatten(td, new))
        res = f(*call)
        leaves, td = real_jtu.tree_flatten(res)
        if isinstance(out_axes, int):
            oax = [out_axes] * len(leaves)
        else:
            oax = real_jtu.tree_leaves(out_axes, is_leaf=lambda z: z is None)
        out = []
        for l, a in zip(leaves, oax):
            l = as_st(l)
            if a is None:
                out.append(l)
                continue
            a %= l.ndim + 1
            dims, vs = list(l.dims), list(l.vars)
            for d in dims:
                if T.the_var(b) in d.fv:
                    raise VerifierLimit("vmap with varying shapes")
            dims.insert(a, size)
            vs.insert(a, T.the_var(b))
            out.append(ST(dims, vs, l.body, l.dtype))
        return real_jtu.tree_unflatten(td, out)

    return g


def _is_arraylike(l):
    return isinstance(l, (ST, SV, int, builtins.float)) or hasattr(l, "__jax_array__")


def _slice_at(l, a, b):
    keep = [k for k in range(l.ndim) if k != a]
    vs = [T.index_var(l.dims[k], "t") for k in keep]
    it = iter(vs)
    idx = [b if k == a else next(it) for k in range(l.ndim)]
    return ST([l.dims[k] for k in keep], vs, l.get(*idx), l.dtype)


_gradn = itertools.count(1)


def _sym_arg(x: ST):
    nm = f"var{next(_gradn)}"
    T.declare_fn(nm, "R")
    vs = [T.index_var(d, "t") for d in x.dims]
    return nm, ST(x.dims, vs, T.app(nm, *vs), F32)


def _finite_body(r):
    r = as_st(r)
    if isinstance(r.body, X):
        return ST(r.dims, r.vars, r.body.v, r.dtype), r.body
    return r, None


def _jac(f, argnums):
    def g(*args, **kw):
        if isinstance(argnums, (tuple, list)):
            raise VerifierLimit("multiple argnums")
        args = list(args)
        x = as_st(args[argnums])
        nm, sx = _sym_arg(x)
        call = list(args)
        call[argnums] = sx
        res = f(*call, **kw)
        r, xb = _finite_body(res)
        ds = [T.index_var(d, "g") for d in x.dims]
        body = T.diff(to_num(r.body), nm, tuple(ds))
        body = subst_fn(body, nm, x)
        if xb is not None:
            # derivative is only meaningful where the value is finite
            flags = T.bor(xb.nan, xb.pinf, xb.ninf)
            body = simp_x(X(body, T.FALSE, T.FALSE, subst_fn(flags, nm, x)))
        return ST(list(r.dims) + list(x.dims), list(r.vars) + ds, body, F32)

    return g


def subst_fn(body, nm, x: ST):
    """Replace the symbolic array nm by x's elements."""
    info = T.FN_INFO[nm]
    info["hook"] = lambda *idx: x.get(*idx) if isinstance(x.body, N) else None
    try:
        if isinstance(x.body, B):
            raise VerifierLimit("derivative wrt booleans")
        return T.rebuild(body, nm)
    finally:
        info["hook"] = None


def grad(f, argnums=0, **kw):
    j = _jac(f, argnums)

    def g(*args, **kws):
        r = j(*args, **kws)
        x = as_st(args[argnums])
        if r.ndim != x.ndim:
            raise TypeError("Gradient only defined for scalar-output functions")
        if x.dtype.kind != "f":
            raise TypeError("grad requires real-valued inputs")
        return r

    return g


def value_and_grad(f, argnums=0, **kw):
    gg = grad(f, argnums)
    return lambda *a, **k: (f(*a, **k), gg(*a, **k))


def jacobian(f, argnums=0, **kw):
    if hasattr(f, "abstract_jacobian"):
        return f.abstract_jacobian
    return _jac(f, argnums)


def hessian(f, argnums=0, **kw):
    return _jac(_jac(f, argnums), argnums)


def jvp(f, primals, tangents):
    outs = f(*primals)
    o = as_st(outs)
    tot = None
    for k, (p, t) in enumerate(zip(primals, tangents)):
        J = _jac(f, k)(*primals)
        t = as_st(t)
        vs = [T.num(v) for v in J.vars]
        no = o.ndim
        body = tsum(vs[no:], xmul(to_num(J.body), to_num(t.get(*vs[no:])))) if vs[no:] else xmul(to_num(J.body), to_num(t.body))
        r = ST(J.dims[:no], J.vars[:no], body, F32)
        tot = r if tot is None else tot + r
    return outs, tot


def stop_gradient(x):
    return x


# -------------------------------------------------------------------------- control


def tree_where(c: B, a, b):
    la, ta = real_jtu.tree_flatten(a)
    lb, tb = real_jtu.tree_flatten(b)
    if ta != tb:
        raise TypeError("branches must have equal structure")
    out = []
    for x, y in zip(la, lb):
        x, y = as_st(x), as_st(y)
        out.append(where(scalar(c, BOOL), x, y))
    return real_jtu.tree_unflatten(ta, out)


def cond(pred, tf, ff, *ops, **kw):
    p = as_bool(pred) if not isinstance(pred, ST) else to_b(pred.body)
    r = decide(p)
    if r is True:
        return tf(*ops)
    if r is False:
        return ff(*ops)
    return tree_where(p, tf(*ops), ff(*ops))


def select(c, a, b):
    return where(c, a, b)


class ShapeDtypeStruct:
    def __init__(self, shape, dtype, **kw):
        self.shape, self.dtype = shape, dtype


def pure_callback(f, result, *args, **kw):
    contract("jax.pure_callback: the value of the callback")
    r = as_st(f(*args))
    want = _shape(result.shape)
    if len(want) != r.ndim:
        raise RuntimeError("pure_callback: shape mismatch")
    for a, b in zip(want, r.dims):
        require_dim(a, b)
    return ST(want, r.vars, r.body, r.dtype)


SOFTMAX: list = []


def softmax(x, axis=-1, **kw):
    x = as_st(x)
    contract("jax.nn.softmax: exp(x) / sum exp(x)")
    if Z.NAMED[0] and x.ndim == 1 and isinstance(x.body, X):
        # used inside a loop under contract: non-negative, and zero exactly at minus infinity
        b, v = x.body, T.num(x.vars[0])
        fv = [T.num(q) for q in sorted(_quantifiable(set().union(*[T.lam([v], [x.dims[0]], T.ind(z) if isinstance(z, B) else z).fv for z in (b.v, b.pinf, b.ninf, b.nan)])), key=lambda a: a.id)]
        fn = opaque_fn(f"softmax{Z.named('softmax', lambda: Z.closed(fv + [v], b))}", "R")
        p = T.app(fn, *fv, v)
        ok = T.band(T.forall([v], T.band(T.bnot(b.nan), T.bnot(b.pinf))), T.exists([v], T.bnot(b.ninf)))
        CTX.assume(T.forall(fv + [v], T.implies(ok, T.band(T.ge0(p), T.iff(T.eq(p, T.ZERO), b.ninf)))), "jax.nn.softmax")
        SOFTMAX.append(dict(x=x, ok=ok, p=lambda q: T.app(fn, *fv, q)))
        return ST(x.dims, x.vars, p, F32)
    e = exp_(x)
    return e / sum_axis(e, axis, keepdims=True)


# ----------------------------------------------------------------------- gaussian_kde


class GaussianKDE:
    def __init__(self, data, bw_method=None, weights=None):
        contract("jax.scipy.stats.gaussian_kde: deterministic log density of its arguments")
        self.data = as_st(data)
        self.weights = None if weights is None else as_st(weights)
        self.bw = bw_method

    def logpdf(self, q):
        q = as_st(q)
        ins = [self.data] + ([self.weights] if self.weights is not None else [])
        if self.bw is not None and not callable(self.bw) and not isinstance(self.bw, str):
            ins.append(as_st(self.bw))
        # one value per column of q
        i = T.index_var(q.dims[1], "t")
        f = T.index_var(q.dims[0], "f")
        key = []
        for x in ins:
            key += list(arr_key(x))
        row = T.lam([f], [q.dims[0]], to_num(q.get(f, i)))
        fn = opaque_fn(f"kde_logpdf{len(ins)}", "R")
        return ST((q.dims[1],), (i,), T.app(fn, *key, row), F32)

    def pdf(self, q):
        return exp_(self.logpdf(q))

    evaluate = __call__ = pdf


# ----------------------------------------------------------------------- sklearn trees


class BinaryTree:
    kind = "tree"

    def __init__(self, X, leaf_size=40, sample_weight=None, **kw):
        self.X = as_st(X)
        if fork(T.lt(dim(leaf_size), T.ONE)):
            raise ValueError("leaf_size must be greater than or equal to 1")

    def get_arrays(self):
        contract("sklearn tree get_arrays: node order is a permutation of the rows")
        n = self.X.dims[0]
        key = tuple(arr_key(self.X))
        fn = opaque_fn("tree_perm_" + type(self).__name__, "I")
        declare_perm("sklearn tree", fn, key, n)
        idx = build((n,), lambda i: T.app(fn, *key, i), I32)
        TREES.append(dict(fn=fn, key=key, n=n))
        return None, idx, None, None


TREES: list = []


class KDTree(BinaryTree):
    pass


class BallTree(BinaryTree):
    pass


# ----------------------------------------------------------------------------- OSQP


class OSQP:
    def __init__(self, **kw):
        self.kw = kw

    def run(self, init_params=None, params_obj=None, params_eq=None, params_ineq=None):
        contract("jaxopt.OSQP: returns some primal vector (no feasibility assumed)")
        q, c = [as_st(z) for z in params_obj]
        r, _ = opaque_op("osqp", [q, c] + [as_st(z) for z in (params_eq or ())] + [as_st(z) for z in (params_ineq or ())], (q.dims[0],))
        QPS.append(dict(q=q, c=c, eq=params_eq, ineq=params_ineq, primal=r))
        return types.SimpleNamespace(params=types.SimpleNamespace(primal=r))


QPS: list = []

# ----------------------------------------------------------------------------- math


def m_ceil(x):
    if isinstance(x, SV):
        if x.ratio is not None:
            a, b = x.ratio
            if decide(T.gt0(b)) is True:
                return mk_sv(-T.fdiv(-a, b), "i")
        if x.n.sort == "I":
            return mk_sv(x.n, "i")
        T.declare_fn("ceil", "I")
        r = T.app("ceil", x.n)
        CTX.assume(T.band(T.ge0(r - x.n), T.lt(r - 1, x.n)), "math.ceil")
        lg = _log_ratio(x.n)
        if lg is not None:
            # ceil(log_c(a / b)) = r  implies  a <= b c^r, and  a <= b  when r <= 0
            a, b, c = lg
            CTX.assume(T.implies(T.le(r, T.ZERO), T.le(a, b)), "math.log")
            CTX.assume(T.implies(T.le(T.ONE, r), T.le(a, b * T.power(c, r))), "math.log")
        return mk_sv(r, "i")
    return _math.ceil(x)


def _log_ratio(n):
    """(a, b, c) when n is log_c(a) - log_c(b) (or log_c(a), b = 1) for a base c > 1."""
    pos, neg = [], []
    for mono, k in n.terms:
        if len(mono) != 1 or mono[0][1] != 1 or mono[0][0].op != "app" or mono[0][0].args[0] != "logb" or k not in (1, -1):
            return None
        (pos if k == 1 else neg).append(mono[0][0].args[1])
    if len(pos) != 1 or len(neg) > 1:
        return None
    c = T.num(pos[0][1])
    if (c.const() <= 1 if c.const() is not None else decide(T.lt(T.ONE, c)) is not True) or (neg and T.num(neg[0][1]) is not c and (T.num(neg[0][1]) - c).const() != 0):
        return None
    return T.num(pos[0][0]), T.num(neg[0][0]) if neg else T.ONE, c


def m_floor(x):
    if isinstance(x, SV):
        if x.ratio is not None:
            a, b = x.ratio
            if decide(T.gt0(b)) is True:
                return mk_sv(T.fdiv(a, b), "i")
        if x.n.sort == "I":
            return mk_sv(x.n, "i")
        T.declare_fn("floor", "I")
        r = T.app("floor", x.n)
        CTX.assume(T.band(T.ge0(x.n - r), T.lt(x.n - 1, r)), "math.floor")
        lg = _log_ratio(x.n)
        if lg is not None:
            # floor(log_c(a / b)) = r  iff  b c^r <= a < b c^(r + 1)
            a, b, c = lg
            if decide(T.le(b, a)) is True or P.prove(T.le(b, a), ms=1500):
                CTX.assume(T.ge0(r), "math.log")
                p = T.power(c, r)
                CTX.assume(T.band(T.le(T.ONE, p), T.le(b * p, a), T.lt(a, b * p * c)), "math.log")
        return mk_sv(r, "i")
    return _math.floor(x)


def m_log(x, base=None):
    if isinstance(x, SV) or isinstance(base, SV):
        x = x if isinstance(x, SV) else SV(T.num(x))
        if not fork(T.gt0(x.n)):
            raise ValueError("math domain error")
        if base is None:
            return SV(T.log(x.n), "f")
        b = base.n if isinstance(base, SV) else T.num(base)
        if fork(T.eq(b, T.ONE)):
            raise ZeroDivisionError("float division by zero")
        if x.ratio is not None and decide(T.gt0(x.ratio[1])) is True:
            return m_logb(x.ratio[0], b) - m_logb(x.ratio[1], b)
        return m_logb(x.n, b)
    return _math.log(x) if base is None else _math.log(x, base)


def m_logb(x, b):
    T.declare_fn("logb", "R")
    return SV(T.app("logb", x, b), "f")


def m_log2(x):
    if isinstance(x, SV):
        return m_log(x, 2)
    return _math.log2(x)


def m_sqrt(x):
    if isinstance(x, SV):
        return SV(T.sqrt(x.n), "f")
    return _math.sqrt(x)


def m_fallback(name):
    f = getattr(_math, name, None)

    def g(*a):
        if any(isinstance(z, (SV, ST)) for z in a):
            raise VerifierLimit(f"math.{name} of a symbolic value")
        return f(*a)

    return g


math = Module(_name="math", ceil=m_ceil, floor=m_floor, log=m_log, log2=m_log2, sqrt=m_sqrt, pi=None, inf=_math.inf, nan=_math.nan, e=_math.e)
for _n in ("log10", "exp", "factorial", "gamma", "comb", "isclose", "isnan", "isinf", "sin", "cos", "pow", "prod", "gcd", "fabs", "trunc"):
    setattr(math, _n, m_fallback(_n))


def factorial(x, exact=False, **kw):
    x = as_st(x)

    def f(t):
        c = t.const() if isinstance(t, N) else None
        if c is None or c.denominator != 1 or c < 0:
            raise VerifierLimit("factorial of a symbolic value")
        return T.num(_math.factorial(int(c)))

    if x.ndim == 1 and x.dims[0].const() is not None and not isinstance(x.body, X) and x.body.fv:
        return Z.stack([scalar(f(x.get(T.num(k))), F32) for k in range(int(x.dims[0].const()))], 0)
    return unary(f, x, F32)


# ----------------------------------------------------------------------- assemble jnp

linalg = Module(_name="jax.numpy.linalg", norm=norm, solve=solve, lstsq=lstsq, qr=qr, eigh=eigh, svd=svd)


class _Finfo:
    def __init__(self, d=None):
        self.eps = SV(T.var("FLT_EPS", "R", sign="+"), "f")
        self.max = SV(T.var("FLT_MAX", "R", sign="+"), "f")
        self.tiny = SV(T.var("FLT_TINY", "R", sign="+"), "f")


def make_jnp(name="jax.numpy"):
    m = Module(
        _name=name, asarray=asarray, array=array, zeros=zeros, ones=ones, full=full, eye=eye,
        identity=identity, arange=arange, atleast_1d=atleast_1d, atleast_2d=atleast_2d,
        expand_dims=Z.expand_dims, squeeze=squeeze, reshape=lambda x, s, order="C", **k: Z.reshape(x, *(s if isinstance(s, (tuple, list)) else (s,)), order=order),
        ravel=lambda x, order="C": Z.ravel(x, order), transpose=transpose, moveaxis=Z.moveaxis,
        swapaxes=lambda x, a, b: transpose(x, _swap(as_st(x).ndim, a, b)),
        concatenate=lambda xs, axis=0, **k: Z.concatenate(xs, axis), hstack=hstack, vstack=vstack,
        stack=lambda xs, axis=0, **k: Z.stack(list(xs), axis), column_stack=column_stack, c_=_C(), r_=_R(),
        append=lambda a, b, axis=None: Z.concatenate([Z.ravel(a) if axis is None else as_st(a), Z.ravel(b) if axis is None else as_st(b)], 0 if axis is None else axis),
        tile=tile, repeat=repeat, pad=Z.pad, broadcast_to=Z.broadcast_to, where=where,
        sum=sum_axis, mean=mean, max=max_, min=min_, amax=max_, amin=min_, any=Z.any_axis, all=Z.all_axis,
        argmax=argmax, argmin=argmin, nanargmax=nanargmax, nanargmin=nanargmin, argsort=argsort,
        isin=isin, dot=dot, matmul=matmul, tensordot=tensordot, outer=outer, inner=inner, vdot=vdot,
        einsum=einsum, sqrt=sqrt_, exp=exp_, log=log_, abs=lambda x: abs(as_st(x)), absolute=lambda x: abs(as_st(x)),
        fabs=lambda x: abs(as_st(x)), sign=sign_, square=square, power=power_, float_power=power_, pow=power_,
        sin=lambda x: unary(_finite_only(T.sin, "sin"), x, F32), cos=lambda x: unary(_finite_only(T.cos, "cos"), x, F32),
        maximum=maximum, minimum=minimum, clip=clip, isnan=isnan, isinf=isinf, isfinite=isfinite,
        nan_to_num=nan_to_num, add=ufunc2(operator.add), subtract=ufunc2(operator.sub),
        multiply=ufunc2(operator.mul), divide=ufunc2(operator.truediv), true_divide=ufunc2(operator.truediv),
        floor_divide=ufunc2(operator.floordiv), mod=ufunc2(operator.mod), remainder=ufunc2(operator.mod), negative=lambda x: -as_st(x),
        reciprocal=lambda x: 1 / as_st(x),
        greater=ufunc2(operator.gt), less=ufunc2(operator.lt), greater_equal=ufunc2(operator.ge),
        less_equal=ufunc2(operator.le), equal=ufunc2(operator.eq), not_equal=ufunc2(operator.ne),
        logical_and=lambda a, b: astype(as_st(a), BOOL) & astype(as_st(b), BOOL),
        logical_or=lambda a, b: astype(as_st(a), BOOL) | astype(as_st(b), BOOL),
        logical_not=lambda a: ~astype(as_st(a), BOOL), invert=lambda a: ~as_st(a),
        diag=diag, diagonal=diagonal, trace=trace, average=average, flatnonzero=flatnonzero,
        count_nonzero=count_nonzero, cumsum=cumsum, take=take, triu=triu, tril=tril, flip=flip,
        shape=shape_, ndim=ndim_, size=size_, zeros_like=zeros_like, ones_like=ones_like, full_like=full_like,
        linalg=linalg, newaxis=None, inf=builtins.float("inf"), nan=builtins.float("nan"), pi=SV(T.pi(), "f"),
        float32=F32, float64=F32, int32=I32, int64=I32, bool_=BOOL, ndarray=ST, finfo=_Finfo,
        integer=I32, floating=F32, inexact=F32, prod=prod, copy=lambda x: as_st(x),
        issubdtype=lambda a, b: as_dtype(a).kind == as_dtype(b).kind, result_type=lambda *a: Z.promote(*[as_st(x).dtype for x in a]),
    )
    return m


def _swap(n, a, b):
    l = list(range(n))
    l[a], l[b] = l[b], l[a]
    return l


def _method(f):
    return lambda self, *a, **k: f(self, *a, **k)


for _nm, _f in dict(
    sum=sum_axis, mean=mean, max=max_, min=min_, argmax=argmax, argmin=argmin, argsort=argsort,
    reshape=lambda s, *a, **k: Z.reshape(s, *a, **k), ravel=Z.ravel, flatten=Z.ravel, astype=lambda s, d, **k: astype(s, d),
    dot=dot, trace=trace, squeeze=squeeze, transpose=lambda s, *a: transpose(s, (a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a) or None),
    all=Z.all_axis, any=Z.any_axis, diagonal=diagonal, clip=clip, copy=lambda s: s, take=take, cumsum=cumsum,
    repeat=repeat, item=lambda s: st_to_sv(s), block_until_ready=lambda s: s, std=lambda s, **k: _lim("std"), swapaxes=lambda s, a, b: transpose(s, _swap(s.ndim, a, b)),
).items():
    setattr(ST, _nm, _f)
ST.T = property(lambda s: transpose(s))
ST.mT = property(lambda s: transpose(s, list(range(s.ndim - 2)) + [s.ndim - 1, s.ndim - 2]))


def _lim(n):
    raise VerifierLimit(n)


def st_to_sv(s):
    if s.ndim and not all(d.const() == 1 for d in s.dims):
        raise TypeError("only scalar arrays")
    b = to_num(s.get(*[T.ZERO] * s.ndim))
    if isinstance(b, X):
        raise VerifierLimit("non-finite scalar conversion")
    return mk_sv(b, "i" if s.dtype.kind in "ib" and b.sort == "I" else "f")
