"""Symbolic tensors: explicit lambdas over index variables with symbolic extents."""
from __future__ import annotations

import builtins
import operator
from fractions import Fraction as Fr

from . import prover as P
from . import terms as T
from .prover import CTX, decide
from .terms import A, B, L, N, X, VerifierLimit

# ------------------------------------------------------------------ path exploration


class PathAbort(Exception):
    pass


class Paths:
    log: list = []
    pos = 0
    active = False


def fork(b: B, what="branch") -> bool:
    r = decide(b)
    if r is not None:
        return r
    o = P.prove(b, ms=1500)
    if o:
        return True
    o = P.prove(T.bnot(b), ms=1500)
    if o:
        return False
    if not Paths.active:
        raise VerifierLimit(f"undetermined condition outside path exploration: {b!r}"[:300])
    if Paths.pos < len(Paths.log):
        d = Paths.log[Paths.pos]
    else:
        if len(Paths.log) > 12:
            raise VerifierLimit("too many branches")
        d = True
        Paths.log.append(d)
    Paths.pos += 1
    CTX.assume(b if d else T.bnot(b), "path")
    return d


def run_paths(fn, limit=48):
    """Run fn once per feasible path; returns list of results."""
    out = []
    saved = (Paths.log, Paths.pos, Paths.active)
    log = []
    mark = CTX.mark()
    try:
        while True:
            Paths.log, Paths.pos, Paths.active = list(log), 0, True
            out.append(fn())
            log = Paths.log
            CTX.rewind(mark)
            while log and log[-1] is False:
                log.pop()
            if not log:
                return out
            log[-1] = False
            if len(out) > limit:
                raise VerifierLimit("too many paths")
    finally:
        CTX.rewind(mark)
        Paths.log, Paths.pos, Paths.active = saved


class SymBool:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return fork(self.b)

    def __and__(self, o):
        return SymBool(T.band(self.b, as_bool(o)))

    def __or__(self, o):
        return SymBool(T.bor(self.b, as_bool(o)))

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return SymBool(T.bnot(self.b))


def as_bool(o) -> B:
    if isinstance(o, SymBool):
        return o.b
    if isinstance(o, bool):
        return T.TRUE if o else T.FALSE
    if isinstance(o, B):
        return o
    if isinstance(o, ST):
        if o.ndim == 0:
            return to_b(o.body)
    raise VerifierLimit(f"boolean from {type(o)}")


def to_b(x) -> B:
    if isinstance(x, B):
        return x
    if isinstance(x, N):
        return T.bnot(T.eq0(x))
    if isinstance(x, X):
        return T.bor(x.pinf, x.ninf, x.nan, T.bnot(T.eq0(x.v)))
    raise VerifierLimit("to_b")


# --------------------------------------------------------------- symbolic py numbers


class SV:
    """Symbolic Python int/float."""

    __slots__ = ("n", "kind", "ratio")
    __array_priority__ = 1

    def __init__(self, n, kind=None, ratio=None):
        self.n = T.num(n)
        self.kind = kind or ("i" if self.n.sort == "I" else "f")
        self.ratio = ratio

    def _c(self, o):
        if isinstance(o, SV):
            return o
        if isinstance(o, bool):
            return SV(int(o), "i")
        if isinstance(o, int):
            return SV(o, "i")
        if isinstance(o, float):
            return SV(T.num(o), "f") if o == o and abs(o) != float("inf") else None
        if isinstance(o, N):
            return SV(o)
        return None

    def _bin(self, o, f, kind=None):
        if isinstance(o, ST):
            return NotImplemented
        c = self._c(o)
        if c is None:
            return NotImplemented
        return mk_sv(f(self.n, c.n), kind or ("i" if self.kind == c.kind == "i" else "f"))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        c = self._c(o)
        if isinstance(o, ST) or c is None:
            return NotImplemented
        if fork(T.eq0(c.n)):
            raise ZeroDivisionError("division by zero")
        r = mk_sv(self.n * T.inv(c.n), "f")
        if isinstance(r, SV) and self.kind == c.kind == "i":
            r.ratio = (self.n, c.n)
        return r

    def __rtruediv__(self, o):
        c = self._c(o)
        if c is None:
            return NotImplemented
        return c.__truediv__(self)

    def __floordiv__(self, o):
        return self._bin(o, _fdiv)

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: T.fdiv(b, a))

    def __mod__(self, o):
        return self._bin(o, T.mod)

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: T.mod(b, a))

    def __pow__(self, o):
        c = self._c(o)
        if isinstance(o, ST) or c is None:
            return NotImplemented
        return mk_sv(pow_int_aware(self.n, c.n), "i" if self.kind == c.kind == "i" else "f")

    def __rpow__(self, o):
        c = self._c(o)
        if c is None:
            return NotImplemented
        return c.__pow__(self)

    def __neg__(self):
        return mk_sv(-self.n, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_sv(T.abs_(self.n), self.kind)

    def _cmp(self, o, f):
        if isinstance(o, ST):
            return NotImplemented
        if isinstance(o, float) and (o != o or abs(o) == float("inf")):
            return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}[f]
        c = self._c(o)
        if c is None:
            return NotImplemented
        a, b = expose(self.n), expose(c.n)
        r = {
            "<": lambda: T.lt(a, b),
            "<=": lambda: T.le(a, b),
            ">": lambda: T.lt(b, a),
            ">=": lambda: T.le(b, a),
            "==": lambda: T.eq(a, b),
            "!=": lambda: T.bnot(T.eq(a, b)),
        }[f]()
        if r is T.TRUE:
            return True
        if r is T.FALSE:
            return False
        return SymBool(r)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(self.n)

    def __bool__(self):
        return fork(T.bnot(T.eq0(self.n)))

    def __index__(self):
        c = self.n.const()
        if c is not None and c.denominator == 1:
            return int(c)
        raise VerifierLimit("symbolic integer used where a concrete one is required")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        c = self.n.const()
        if c is None:
            raise VerifierLimit("symbolic float made concrete")
        return builtins.float(c)

    def __repr__(self):
        return f"SV({self.n!r})"

    def __format__(self, spec):
        return repr(self)


def _is_pow(n: N) -> bool:
    """A multiple of a power of a constant with a symbolic integer exponent."""
    if len(n.terms) != 1 or len(n.terms[0][0]) != 1:
        return False
    a, e = n.terms[0][0][0]
    return a.op == "P" and a.args[0].const() is not None and isinstance(e, N) and e.sort == "I"


def _fdiv(a: N, b: N) -> N:
    """Floor division; b^e // b^k is b^(e - k) when e >= k."""
    if b.const() is not None and b.const() > 0 and len(a.terms) == 1 and a.const() is None:
        x = expose(a)
        q = x.scale(1 / b.const())
        if _is_pow(q):
            e = T._pow_compare(q - T.ONE)
            if e is not None and e.sort == "I" and decide(T.ge0(e)) is True:
                r, a0 = as_int(q), as_int(x)
                CTX.assume(T.eq(b * r, a0), "integer power")
                return r
    return T.fdiv(a, b)


def pow_int_aware(a: N, e: N) -> N:
    c = e.const()
    if c is not None:
        return T.power(a, c)
    if INT_POWERS[0] and a.sort == "I" and e.sort == "I" and T.n_sign(a) == "+" and (decide(T.ge0(e)) is True or P.prove(T.ge0(e), ms=1500)):
        return as_int(T.power(a, e))
    if a.sort == "I" and e.sort == "I" and decide(T.ge0(e)) is True:
        return T.num(T._atom("ipow", a, e)) if T.atom_sign(T._atom("ipow", a, e)) is None and a.const() is None else T.power(a, e)
    return T.power(a, e)


INT_POWERS = [False]  # powers of integers as terms of integer sort


def mk_sv(n: N, kind):
    c = n.const()
    if c is not None:
        if kind == "i" and c.denominator == 1:
            return int(c)
        return SV(n, kind)
    return SV(n, kind)


def as_int(n: N) -> N:
    """A term known to have an integer value (a power of an integer), as a term of integer sort."""
    if n.sort == "I":
        return n
    T.declare_fn("toint", "I")
    r = T.app("toint", n)
    CTX.assume(T._b("eq0", r - n), "integer power")
    if T.n_sign(n) == "+":
        CTX.assume(T.ge0(r - T.ONE), "integer power")
    return r


def expose(n: N) -> N:
    """Undo as_int."""
    if INT_POWERS[0]:
        return n
    m = {a: a.args[1][0] for a in T.atoms_in(n, lambda a: a.op == "app" and a.args[0] == "toint")}
    for a, v in m.items():
        n = T.replace_atom(n, a, v)
    return n


def dim(x) -> N:
    """Extent as a term."""
    if isinstance(x, SV):
        return as_int(x.n) if x.kind == "i" and x.n.sort != "I" and _is_pow(x.n) else x.n
    if isinstance(x, N):
        return x
    if isinstance(x, ST):
        return x.body
    return T.num(int(x))


def pydim(n: N):
    c = n.const()
    return int(c) if c is not None else SV(n, "i")


def same_dim(a: N, b: N) -> bool:
    if a is b:
        return True
    c = (a - b).const()
    if c is not None:
        return c == 0
    return decide(T.eq(a, b)) is True


# ---------------------------------------------------------------------- scalar algebra
# Bodies are N (finite), X (extended real) or B (boolean).


def to_num(x):
    """N or X."""
    if isinstance(x, B):
        return T.ind(x)
    return x


def xadd(a, b):
    if isinstance(a, N) and isinstance(b, N):
        return a + b
    a, b = T.asx(a), T.asx(b)
    nan = T.bor(a.nan, b.nan, T.band(a.pinf, b.ninf), T.band(a.ninf, b.pinf))
    return simp_x(
        X(
            a.v + b.v,
            T.band(T.bor(a.pinf, b.pinf), T.bnot(nan)),
            T.band(T.bor(a.ninf, b.ninf), T.bnot(nan)),
            nan,
        )
    )


def xneg(a):
    if isinstance(a, N):
        return -a
    return X(-a.v, a.ninf, a.pinf, a.nan)


def xsub(a, b):
    return xadd(a, xneg(b))


def _pos(a):
    return a.pinf if False else T.bor(a.pinf, T.band(a.finite(), T.gt0(a.v)))


def _negv(a):
    return T.bor(a.ninf, T.band(a.finite(), T.gt0(-a.v)))


def _zero(a):
    return T.band(a.finite(), T.eq0(a.v))


def xmul(a, b):
    if isinstance(a, N) and isinstance(b, N):
        return a * b
    a, b = T.asx(a), T.asx(b)
    ainf = T.bor(a.pinf, a.ninf)
    binf = T.bor(b.pinf, b.ninf)
    nan = T.bor(a.nan, b.nan, T.band(ainf, _zero(b)), T.band(binf, _zero(a)))
    inf = T.bor(ainf, binf)
    same = T.bor(T.band(_pos(a), _pos(b)), T.band(_negv(a), _negv(b)))
    opp = T.bor(T.band(_pos(a), _negv(b)), T.band(_negv(a), _pos(b)))
    return simp_x(X(a.v * b.v, T.band(inf, same, T.bnot(nan)), T.band(inf, opp, T.bnot(nan)), nan))


def xdiv(a, b):
    if isinstance(b, N):
        c = b.const()
        nz = (c is not None and c != 0) or T.n_sign(b) == "+" or T.n_sign(-b) == "+"
        if not nz and c is None:
            nz = decide(T.bnot(T.eq0(b))) is True
        if nz:
            if isinstance(a, N):
                return a * T.inv(b)
            ib = T.inv(b)
            sg = T.n_sign(b)
            if sg == "+" or decide(T.gt0(b)) is True:
                return simp_x(X(a.v * ib, a.pinf, a.ninf, a.nan))
            return xmul(a, ib)
        z = T.eq0(b)
        if z is T.TRUE:
            ib = T.ZERO
        else:
            ib = T.inv(b)
        ax = T.asx(a)
        nan = T.bor(ax.nan, T.band(z, _zero(ax)))
        # sign of zero: +0 assumed
        pinf = T.bor(T.band(z, _pos(ax)), T.band(ax.pinf, T.gt0(b)), T.band(ax.ninf, T.gt0(-b)))
        ninf = T.bor(T.band(z, _negv(ax)), T.band(ax.ninf, T.gt0(b)), T.band(ax.pinf, T.gt0(-b)))
        return simp_x(X(ax.v * ib, pinf, ninf, nan))
    ax, bx = T.asx(a), b
    binf = T.bor(bx.pinf, bx.ninf)
    ainf = T.bor(ax.pinf, ax.ninf)
    q = xdiv(a, bx.v)
    q = T.asx(q)
    nan = T.bor(ax.nan, bx.nan, T.band(ainf, binf), T.band(bx.finite(), q.nan))
    fin = T.bnot(binf)
    return simp_x(
        X(
            T.ite(binf, T.ZERO, q.v),
            T.band(fin, q.pinf, T.bnot(nan)),
            T.band(fin, q.ninf, T.bnot(nan)),
            nan,
        )
    )


def simp_x(x):
    if not isinstance(x, X) or (NAMED[0] and not SIMP[0]):
        return x

    def s(b):
        if b.op in ("true", "false"):
            return b
        r = decide(b)
        if r is True:
            return T.TRUE
        if r is False:
            return T.FALSE
        return b

    return T.mkx(x.v, s(x.pinf), s(x.ninf), s(x.nan))


def xite(c: B, a, b):
    if c is T.TRUE:
        return a
    if c is T.FALSE:
        return b
    if isinstance(a, B) and isinstance(b, B):
        return T.bite(c, a, b)
    a, b = to_num(a), to_num(b)
    if isinstance(a, N) and isinstance(b, N):
        return T.ite(c, a, b)
    a, b = T.asx(a), T.asx(b)
    # the finite value of an infinite/nan branch is irrelevant
    if a.pinf is T.TRUE or a.ninf is T.TRUE or a.nan is T.TRUE:
        v = b.v
    elif b.pinf is T.TRUE or b.ninf is T.TRUE or b.nan is T.TRUE:
        v = a.v
    else:
        v = T.ite(c, a.v, b.v)
    return T.mkx(
        v,
        T.bite(c, a.pinf, b.pinf),
        T.bite(c, a.ninf, b.ninf),
        T.bite(c, a.nan, b.nan),
    )


def xlt(a, b):
    """a < b in IEEE order (false when NaN)."""
    a, b = to_num(a), to_num(b)
    if isinstance(a, N) and isinstance(b, N):
        return T.lt(a, b)
    a, b = T.asx(a), T.asx(b)
    return T.band(
        T.bnot(a.nan),
        T.bnot(b.nan),
        T.bor(
            T.band(a.ninf, T.bnot(b.ninf)),
            T.band(b.pinf, T.bnot(a.pinf)),
            T.band(a.finite(), b.finite(), T.lt(a.v, b.v)),
        ),
    )


def xle(a, b):
    a, b = to_num(a), to_num(b)
    if isinstance(a, N) and isinstance(b, N):
        return T.le(a, b)
    a, b = T.asx(a), T.asx(b)
    return T.band(
        T.bnot(a.nan),
        T.bnot(b.nan),
        T.bor(a.ninf, b.pinf, T.band(a.finite(), b.finite(), T.le(a.v, b.v))),
    )


def xeq(a, b):
    if isinstance(a, B) and isinstance(b, B):
        return T.iff(a, b)
    a, b = to_num(a), to_num(b)
    if isinstance(a, N) and isinstance(b, N):
        return T.eq(a, b)
    a, b = T.asx(a), T.asx(b)
    return T.band(
        T.bnot(a.nan),
        T.bnot(b.nan),
        T.bor(
            T.band(a.pinf, b.pinf),
            T.band(a.ninf, b.ninf),
            T.band(a.finite(), b.finite(), T.eq(a.v, b.v)),
        ),
    )


def xmax(a, b):
    a, b = to_num(a), to_num(b)
    if isinstance(a, N) and isinstance(b, N):
        return T.max_(a, b)
    a, b = T.asx(a), T.asx(b)
    nan = T.bor(a.nan, b.nan)
    r = xite(xle(a, b), b, a)
    r = T.asx(r)
    return simp_x(X(r.v, T.band(r.pinf, T.bnot(nan)), T.band(r.ninf, T.bnot(nan)), nan))


def xmin(a, b):
    return xneg(xmax(xneg(to_num(a)), xneg(to_num(b))))


INF = X(T.ZERO, T.TRUE, T.FALSE, T.FALSE)
NINF = X(T.ZERO, T.FALSE, T.TRUE, T.FALSE)
NAN = X(T.ZERO, T.FALSE, T.FALSE, T.TRUE)


def lit(x):
    if isinstance(x, bool):
        return T.TRUE if x else T.FALSE
    if isinstance(x, (int, Fr)):
        return T.num(x)
    if isinstance(x, builtins.float):
        if x != x:
            return NAN
        if x == builtins.float("inf"):
            return INF
        if x == -builtins.float("inf"):
            return NINF
        return T.num(x)
    raise VerifierLimit(f"literal {type(x)}")


def xfun(f, a, at_pinf, at_ninf):
    """Lift a real function; limits at infinities are N, X."""
    if isinstance(a, N):
        return f(a)
    r = f(a.v)
    r = xite(a.pinf, at_pinf, r)
    r = xite(a.ninf, at_ninf, r)
    return simp_x(xite(a.nan, NAN, r))


# ---------------------------------------------------------------------------- tensors


class DType:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind

    def __eq__(self, o):
        o = as_dtype(o)
        return o is not None and self.kind == o.kind

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.kind)

    def __call__(self, x=0):
        return astype(as_st(x), self)

    def __repr__(self):
        return self.name


F32 = DType("float32", "f")
I32 = DType("int32", "i")
BOOL = DType("bool", "b")
KEY = DType("key", "k")


def as_dtype(d):
    if d is None or isinstance(d, DType):
        return d
    n = getattr(d, "__name__", str(d))
    if "bool" in n:
        return BOOL
    if "int" in n:
        return I32
    if "float" in n or "inexact" in n:
        return F32
    raise VerifierLimit(f"dtype {d}")


_PROMO = {"b": 0, "i": 1, "f": 2}


def promote(*ds):
    ks = [d.kind for d in ds]
    if "k" in ks:
        return KEY
    k = max(ks, key=lambda z: _PROMO[z])
    return {"b": BOOL, "i": I32, "f": F32}[k]


class ST:
    """Symbolic tensor; body is a term over self.vars (tuple of index variables)."""

    __slots__ = ("dims", "vars", "body", "dtype")
    __array_priority__ = 100

    def __init__(self, dims, vars_, body, dtype):
        self.dims = tuple(dims)
        self.vars = tuple(T.the_var(v) if isinstance(v, N) else v for v in vars_)
        self.body = body
        self.dtype = dtype
        if len(self.dims) != len(self.vars):
            raise AssertionError("rank mismatch")
        if NAMED[0]:
            _abbreviate(self)

    # -- basic
    @property
    def shape(self):
        return tuple(pydim(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        r = T.ONE
        for d in self.dims:
            r = r * d
        return pydim(r)

    @property
    def weak_type(self):
        return False

    def __len__(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def get(self, *idx):
        """Element at (in-range) index terms."""
        return T.subst(self.body, {v: T.num(i) for v, i in zip(self.vars, idx)})

    def opened(self):
        """(fresh vars, body)"""
        vs = [T.index_var(d, "t") for d in self.dims]
        return vs, self.get(*vs)

    def __repr__(self):
        return f"ST{self.dims}<{self.dtype}>({self.vars}: {self.body!r})"

    __hash__ = object.__hash__

    # -- arithmetic (filled in below)
    def __iter__(self):
        if not self.dims:
            raise TypeError("iteration over a 0-d array")
        n = self.dims[0].const()
        if n is None:
            raise VerifierLimit("iteration over a symbolic axis")
        return (self[k] for k in range(int(n)))

    def __bool__(self):
        if self.dims and not all(d.const() == 1 for d in self.dims):
            raise ValueError("truth value of an array is ambiguous")
        return fork(to_b(self.get(*[T.ZERO] * self.ndim)))

    def __index__(self):
        raise VerifierLimit("array scalar used as a concrete index")

    def __int__(self):
        raise VerifierLimit("array scalar made a Python int")

    def __float__(self):
        raise VerifierLimit("array scalar made a Python float")


def scalar(body, dtype=None):
    if dtype is None:
        dtype = BOOL if isinstance(body, B) else (I32 if isinstance(body, N) and body.sort == "I" else F32)
    return ST((), (), body, dtype)


def as_st(x, dtype=None):
    if isinstance(x, ST):
        return x if dtype is None else astype(x, dtype)
    if hasattr(x, "__jax_array__"):
        return as_st(x.__jax_array__(), dtype)
    if isinstance(x, SV):
        s = scalar(x.n, I32 if x.kind == "i" else F32)
    elif isinstance(x, SymBool):
        s = scalar(x.b, BOOL)
    elif isinstance(x, bool):
        s = scalar(lit(x), BOOL)
    elif isinstance(x, int):
        s = scalar(T.num(x), I32)
    elif isinstance(x, (builtins.float, Fr)):
        s = scalar(lit(x), F32)
    elif isinstance(x, N):
        s = scalar(x)
    elif isinstance(x, B):
        s = scalar(x)
    elif isinstance(x, (list, tuple)):
        s = stack([as_st(e) for e in x], 0)
    else:
        import numpy as _np

        if isinstance(x, (_np.generic,)):
            return as_st(x.item(), dtype)
        if isinstance(x, _np.ndarray):
            return as_st(x.tolist(), dtype)
        raise TypeError(f"cannot interpret {type(x)} as an array")
    return s if dtype is None else astype(s, dtype)


def astype(x: ST, d):
    d = as_dtype(d)
    if d is None or d.kind == x.dtype.kind:
        return x
    if d.kind == "b":
        return ST(x.dims, x.vars, to_b(x.body), BOOL)
    if d.kind == "f":
        return ST(x.dims, x.vars, to_num(x.body), F32)
    if d.kind == "i":
        b = to_num(x.body)
        if isinstance(b, N) and b.sort == "I":
            return ST(x.dims, x.vars, b, I32)
        raise VerifierLimit("float to integer conversion")
    raise VerifierLimit("astype")


def build(dims, f, dtype):
    dims = [dim(d) for d in dims]
    vs = [T.index_var(d, "t") for d in dims]
    return ST(dims, vs, f(*vs), dtype)


def broadcast_dims(*shapes):
    r = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(r):
        cur = None
        for s in shapes:
            j = len(s) - r + k
            if j < 0:
                continue
            d = s[j]
            if d.const() == 1:
                if cur is None:
                    cur = d
                continue
            if cur is None or cur.const() == 1:
                cur = d
            elif not same_dim(cur, d):
                # symbolic extents: fork on equal / one
                if fork(T.eq(cur, d)):
                    continue
                if fork(T.eq(cur, T.ONE)):
                    cur = d
                elif not fork(T.eq(d, T.ONE)):
                    raise TypeError(f"incompatible shapes for broadcasting: {shapes}")
        out.append(cur)
    return out


def bget(x: ST, vs, dims):
    """Body of x broadcast against result index vars vs (result extents dims)."""
    k = len(vs) - x.ndim
    idx = []
    for d, v, rd in zip(x.dims, vs[k:], dims[k:]):
        if d.const() == 1 or not same_dim(d, rd):
            idx.append(T.ZERO)
        else:
            idx.append(v)
    return x.get(*idx)


def elementwise(f, *xs, dtype=None):
    xs = [as_st(x) for x in xs]
    dims = broadcast_dims(*[x.dims for x in xs])
    vs = [T.index_var(d, "t") for d in dims]
    bodies = [bget(x, vs, dims) for x in xs]
    body = f(*bodies)
    if dtype is None:
        dtype = promote(*[x.dtype for x in xs])
    return ST(dims, vs, body, dtype)


def arith(f):
    return lambda a, b: f(to_num(a), to_num(b))


def _binop(f, dtype=None):
    def op(self, other):
        if other is None or isinstance(other, (str, dict)):
            return NotImplemented
        try:
            o = as_st(other)
        except TypeError:
            return NotImplemented
        return elementwise(arith(f), self, o, dtype=dtype or _num_dtype(self, o))

    return op


def _num_dtype(*xs):
    d = promote(*[x.dtype for x in xs])
    return I32 if d is BOOL else d


def _rbinop(f, dtype=None):
    def op(self, other):
        o = as_st(other)
        return elementwise(arith(f), o, self, dtype=dtype or _num_dtype(self, o))

    return op


def _fd(a, b):
    if isinstance(a, N) and isinstance(b, N) and a.sort == "I" and b.sort == "I":
        return T.fdiv(a, b)
    raise VerifierLimit("floor division of reals")


def _md(a, b):
    if isinstance(a, N) and isinstance(b, N) and a.sort == "I" and b.sort == "I":
        return T.mod(a, b)
    raise VerifierLimit("mod of reals")


def _cmpop(f):
    def op(self, other):
        if other is None or isinstance(other, str):
            return NotImplemented
        try:
            o = as_st(other)
        except TypeError:
            return NotImplemented
        return elementwise(f, self, o, dtype=BOOL)

    return op


def xpow(a, e):
    if isinstance(e, X):
        raise VerifierLimit("non-finite exponent")
    c = e.const()
    if isinstance(a, N):
        if c is not None:
            if c.denominator == 1 and c >= 0:
                return T.power(a, c)
            if c < 0:
                return xdiv(T.ONE, xpow(a, T.num(-c)))
            # fractional exponent of a possibly negative base
            return _frac_pow(a, c)
        if T.n_sign(a) == "+" or decide(T.gt0(a)) is True:
            return T.power(a, e)
        if e.sort == "I" and decide(T.ge0(e)) is True:
            return T.power(a, e) if T.n_sign(a) else int_pow(a, e)
        if e.sort == "I":
            # 0 ** negative = inf ; integer exponent
            z = T.band(T.eq0(a), T.gt0(-e))
            z = T.TRUE if decide(z) is True else (T.FALSE if decide(z) is False else z)
            return T.mkx(int_pow(a, e), z, T.FALSE, T.FALSE)
        raise VerifierLimit("symbolic power of a possibly negative base")
    if c is not None and c.denominator == 1 and 1 <= c <= 4:
        r = a
        for _ in range(int(c) - 1):
            r = xmul(r, a)
        return r
    if c is not None and c < 0 and c.denominator == 1 and c >= -4:
        return xdiv(T.ONE, xpow(a, T.num(-c)))
    if c == Fr(1, 2):
        return xsqrt(a)
    raise VerifierLimit("power of a non-finite value")


def int_pow(a: N, e: N) -> N:
    """a**e for an integer-valued symbolic e (e kept symbolic, offsets peeled)."""
    c0 = dict(e.terms).get((), Fr(0))
    base = e - T.num(c0)
    return T._raise(_pow_atom(a), base) * T.power(a, c0) if a.terms else T.power(a, e)


def _pow_atom(a: N) -> A:
    return T._atom("P", a) if not (len(a.terms) == 1 and a.terms[0][1] == 1 and len(a.terms[0][0]) == 1 and a.terms[0][0][0][1] == 1) else a.terms[0][0][0][0]


def _frac_pow(a: N, c: Fr):
    s = T.n_sign(a)
    if s is None and decide(T.ge0(a)) is not True:
        neg = T.gt0(-a)
        return simp_x(X(T.power(a, c), T.FALSE, T.FALSE, neg)) if c > 0 else _frac_neg(a, c)
    if c < 0:
        return xdiv(T.ONE, T.power(a, -c))
    return T.power(a, c)


def _frac_neg(a, c):
    raise VerifierLimit("negative fractional power of signed base")


def xsqrt(a):
    if isinstance(a, N):
        r = _abs_square_root(a)
        if r is not None:
            return r
        return _frac_pow(a, Fr(1, 2))
    return xfun(lambda t: T.power(t, Fr(1, 2)), a, INF, NAN)


def _abs_square_root(a: N):
    """sqrt(q^2) = |q| for a perfect-square polynomial with one variable part."""
    if len(a.terms) in (1, 3):
        q = perfect_square(a)
        if q is not None:
            return T.abs_(q)
    return None


def perfect_square(a: N):
    """Return q with q*q == a when a is the expansion of (m1 + m2)^2."""
    if len(a.terms) == 1:
        mono, c = a.terms[0]
        import math

        if c > 0 and all(isinstance(e, Fr) and e.denominator == 1 and e % 2 == 0 for _, e in mono):
            rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if rn * rn == c.numerator and rd * rd == c.denominator:
                return T._nfrom(tuple((x, e / 2) for x, e in mono), Fr(rn, rd))
        return None
    sq = []
    for mono, c in a.terms:
        q = perfect_square(T._nfrom(mono, c)) if c > 0 else None
        if q is not None:
            sq.append(q)
    for i in range(len(sq)):
        for j in range(len(sq)):
            if i < j:
                for s in (1, -1):
                    q = sq[i] + sq[j].scale(Fr(s))
                    if (q * q) is a:
                        return q
    return None


ST.__add__ = _binop(xadd)
ST.__radd__ = _rbinop(xadd)
ST.__sub__ = _binop(xsub)
ST.__rsub__ = _rbinop(xsub)
ST.__mul__ = _binop(xmul)
ST.__rmul__ = _rbinop(xmul)
ST.__truediv__ = _binop(xdiv, F32)
ST.__rtruediv__ = _rbinop(xdiv, F32)
ST.__floordiv__ = _binop(_fd)
ST.__rfloordiv__ = _rbinop(_fd)
ST.__mod__ = _binop(_md)
ST.__pow__ = _binop(xpow)
ST.__rpow__ = _rbinop(xpow)
ST.__neg__ = lambda s: ST(s.dims, s.vars, xneg(to_num(s.body)), _num_dtype(s))
ST.__pos__ = lambda s: s
ST.__abs__ = lambda s: unary(lambda t: xabs(t), s)
ST.__lt__ = _cmpop(xlt)
ST.__le__ = _cmpop(xle)
ST.__gt__ = _cmpop(lambda a, b: xlt(b, a))
ST.__ge__ = _cmpop(lambda a, b: xle(b, a))
ST.__eq__ = _cmpop(xeq)
ST.__ne__ = _cmpop(lambda a, b: T.bnot(xeq(a, b)))


def _logic(fb):
    def op(self, other):
        o = as_st(other)
        if self.dtype.kind != "b" or o.dtype.kind != "b":
            raise VerifierLimit("bitwise operation on integers")
        return elementwise(fb, self, o, dtype=BOOL)

    return op


ST.__and__ = ST.__rand__ = _logic(lambda a, b: T.band(a, b))
ST.__or__ = ST.__ror__ = _logic(lambda a, b: T.bor(a, b))
ST.__xor__ = _logic(lambda a, b: T.bnot(T.iff(a, b)))


def _invert(s):
    if s.dtype.kind != "b":
        raise VerifierLimit("bitwise not on integers")
    return ST(s.dims, s.vars, T.bnot(s.body), BOOL)


ST.__invert__ = _invert


def unary(f, x, dtype=None):
    x = as_st(x)
    return ST(x.dims, x.vars, f(to_num(x.body)), dtype or _num_dtype(x))


def xabs(t):
    if isinstance(t, N):
        return T.abs_(t)
    return X(T.abs_(t.v), T.bor(t.pinf, t.ninf), T.FALSE, t.nan)


# ------------------------------------------------------------------------- structure


def stack(xs, axis=0):
    xs = [as_st(x) for x in xs]
    if not xs:
        raise VerifierLimit("stack of nothing")
    dt = promote(*[x.dtype for x in xs])
    xs = [astype(x, dt) for x in xs]
    nd = xs[0].ndim + 1
    axis = axis % nd
    dims = list(xs[0].dims)
    for x in xs[1:]:
        if x.ndim != xs[0].ndim:
            raise TypeError("stack: rank mismatch")
        for a, b in zip(dims, x.dims):
            require_dim(a, b)
    vs = [T.index_var(d, "t") for d in dims]
    k = T.index_var(T.num(len(xs)), "t")
    body = xs[-1].get(*vs)
    for j in range(len(xs) - 2, -1, -1):
        body = xite(T.eq(k, T.num(j)), xs[j].get(*vs), body)
    dims.insert(axis, T.num(len(xs)))
    vs.insert(axis, k)
    return ST(dims, vs, body, dt)


def require_dim(a, b, msg="dimension mismatch"):
    if same_dim(a, b):
        return
    if not fork(T.eq(a, b)):
        raise TypeError(f"{msg}: {a!r} vs {b!r}")


def concatenate(xs, axis=0):
    if isinstance(xs, ST) and xs.dims[0].const() is None and axis == 0 and xs.ndim >= 2:
        return reshape(xs, tuple([SV(xs.dims[0] * xs.dims[1])] + [pydim(d) for d in xs.dims[2:]]))
    if isinstance(xs, ST):
        xs = [xs[k] for k in range(int_or_limit(xs.dims[0]))] if xs.dims[0].const() is not None else None
        if xs is None:
            raise VerifierLimit("concatenate over a symbolic axis")
    xs = [as_st(x) for x in xs]
    dt = promote(*[x.dtype for x in xs])
    xs = [astype(x, dt) for x in xs]
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd
    for x in xs[1:]:
        if x.ndim != nd:
            raise TypeError("concatenate: rank mismatch")
        for k in range(nd):
            if k != axis:
                require_dim(x.dims[k], xs[0].dims[k])
    tot = T.ZERO
    offs = []
    for x in xs:
        offs.append(tot)
        tot = tot + x.dims[axis]
    dims = list(xs[0].dims)
    dims[axis] = tot
    vs = [T.index_var(d, "t") for d in dims]
    v = vs[axis]
    body = None
    for x, o in reversed(list(zip(xs, offs))):
        idx = list(vs)
        idx[axis] = v - o
        part = x.get(*idx)
        if body is None:
            body = part
        else:
            body = xite(T.lt(v, o + x.dims[axis]), part, body)
    return ST(dims, vs, body, dt)


def int_or_limit(n):
    c = n.const() if isinstance(n, N) else None
    if c is None:
        raise VerifierLimit("symbolic extent where a concrete one is needed")
    return int(c)


def expand_dims(x, axis):
    x = as_st(x)
    axes = axis if isinstance(axis, (tuple, list)) else (axis,)
    nd = x.ndim + len(axes)
    axes = sorted(a % nd for a in axes)
    dims, vs = list(x.dims), list(x.vars)
    for a in axes:
        dims.insert(a, T.ONE)
        vs.insert(a, T.the_var(T.index_var(T.ONE, "u")))
    return ST(dims, vs, x.body, x.dtype)


def squeeze(x, axis=None):
    x = as_st(x)
    if axis is None:
        axes = []
        for k, d in enumerate(x.dims):
            c = d.const()
            if c == 1 or (c is None and fork(T.eq(d, T.ONE))):
                axes.append(k)
    else:
        axes = [a % x.ndim for a in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        for a in axes:
            require_dim(x.dims[a], T.ONE, "cannot squeeze")
    keep = [k for k in range(x.ndim) if k not in axes]
    vs = [T.index_var(x.dims[k], "t") for k in keep]
    it = iter(vs)
    idx = [T.ZERO if k in axes else next(it) for k in range(x.ndim)]
    return ST([x.dims[k] for k in keep], vs, x.get(*idx), x.dtype)


def transpose(x, axes=None):
    x = as_st(x)
    if axes is None:
        axes = tuple(range(x.ndim))[::-1]
    axes = [a % x.ndim for a in axes]
    return ST([x.dims[a] for a in axes], [x.vars[a] for a in axes], x.body, x.dtype)


def moveaxis(x, src, dst):
    x = as_st(x)
    axes = list(range(x.ndim))
    a = axes.pop(src % x.ndim)
    axes.insert(dst % x.ndim, a)
    return transpose(x, axes)


def prod_dims(ds):
    r = T.ONE
    for d in ds:
        r = r * d
    return r


def div_dims(a: N, b: N):
    """Exact quotient of extents."""
    q = T.exact_div(a, b)
    if q is not None:
        return q
    if len(b.terms) == 1:
        q = a * T.inv(b)
        if all(c.denominator == 1 for _, c in q.terms):
            return q
    cb = b.const()
    if cb is not None and cb > 0:
        q = T.fdiv(a, b)
        if decide(T.eq(q * b, a)) is True:
            return q
    q = T.fdiv(a, b)
    if decide(T.eq(q * b, a)) is True:
        return q
    return None


def reshape(x, *shape, order="C"):
    x = as_st(x)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    if order == "F":
        new = tuple(shape)[::-1]
        r = reshape(transpose(x), *new)
        return transpose(r)
    tot = prod_dims(x.dims)
    new = []
    miss = None
    for k, s in enumerate(shape):
        if isinstance(s, int) and s == -1:
            if miss is not None:
                raise TypeError("can only specify one unknown dimension")
            miss = k
            new.append(None)
        else:
            new.append(dim(s))
    if miss is not None:
        known = prod_dims([d for d in new if d is not None])
        if known.const() == 0 or (known.const() is None and fork(T.eq0(known))):
            raise ZeroDivisionError("integer division or modulo by zero")
        q = div_dims(tot, known)
        if q is None:
            if fork(T.eq0(T.mod(tot, known))):
                q = T.fdiv(tot, known)
            else:
                raise TypeError("cannot reshape")
        new[miss] = q
    elif not same_dim(prod_dims(new), tot):
        if not fork(T.eq(prod_dims(new), tot)):
            raise TypeError(f"cannot reshape {x.dims} into {new}")
    return _reshape(x, new)


def _reshape(x, new):
    old = list(x.dims)
    vs = [T.index_var(d, "t") for d in new]
    idx = [None] * len(old)
    i = j = 0
    no, nn = len(old), len(new)
    while i < no or j < nn:
        i0, j0 = i, j
        po, pn = T.ONE, T.ONE
        # minimal groups with equal products
        if i < no:
            po = old[i]
            i += 1
        if j < nn:
            pn = new[j]
            j += 1
        while not same_dim(po, pn):
            # extend the side that is (syntactically) smaller
            ext_old = _smaller(po, pn, i < no, j < nn)
            if ext_old:
                po = po * old[i]
                i += 1
            else:
                pn = pn * new[j]
                j += 1
        og, ng = list(range(i0, i)), list(range(j0, j))
        # trailing unit dims are absorbed naturally by later groups
        flat = T.ZERO
        for k in ng:
            flat = flat * new[k] + (T.ZERO if new[k].const() == 1 else vs[k])
        if len([k for k in og if old[k].const() != 1]) <= 1:
            for k in og:
                idx[k] = T.ZERO if old[k].const() == 1 else flat
        else:
            rem = flat
            stride = prod_dims([old[k] for k in og])
            for k in og:
                if old[k].const() == 1:
                    idx[k] = T.ZERO
                    continue
                stride = div_dims(stride, old[k])
                if stride is None:
                    raise VerifierLimit("reshape stride")
                if stride.const() == 1:
                    q = rem
                else:
                    q = floor_div(rem, stride)
                idx[k] = q
                rem = rem - q * stride
    return ST(new, vs, x.get(*idx), x.dtype)


def _smaller(po, pn, can_old, can_new):
    if not can_old and not can_new:
        raise VerifierLimit("reshape: cannot match extents")
    if not can_old:
        return False
    if not can_new:
        return True
    if div_dims_quick(pn, po):
        return True
    if div_dims_quick(po, pn):
        return False
    r = decide(T.le(po, pn))
    return r is not False


def div_dims_quick(a, b):
    if b.const() == 1:
        return True
    if len(b.terms) == 1:
        q = a * T.inv(b)
        return q.sort == "I"
    return False


def floor_div(a: N, b: N) -> N:
    """fdiv with removal of the multiple part when the remainder is provably small."""
    whole, rest = {}, {}
    if len(b.terms) == 1:
        ib = T.inv(b)
        for m, c in a.terms:
            q = T._nfrom(m, c) * ib
            if q.sort == "I":
                whole[m] = c
            else:
                rest[m] = c
        r = T._from_dict(rest)
        if whole and (not r.terms or (decide(T.ge0(r)) is True and decide(T.lt(r, b)) is True)):
            return T._from_dict(whole) * ib
        if not whole and decide(T.ge0(a)) is True and decide(T.lt(a, b)) is True:
            return T.ZERO
    return T.fdiv(a, b)


def ravel(x, order="C"):
    return reshape(x, -1, order=order)


def pad(x, width, mode="constant", constant_values=0, **kw):
    x = as_st(x)
    if mode != "constant" or kw:
        raise VerifierLimit("pad mode")
    width = list(width) if isinstance(width, (tuple, list)) else width
    if not isinstance(width, list):
        width = [(width, width)]
    if width and not isinstance(width[0], (tuple, list)):
        width = [tuple(width)] if len(width) == 2 else [(width[0], width[0])]
    width = [tuple(w) if isinstance(w, (tuple, list)) else (w, w) for w in width]
    width = [w if len(w) == 2 else (w[0], w[0]) for w in width]
    if len(width) == 1:
        width = width * x.ndim
    if len(width) != x.ndim:
        raise ValueError("pad: rank mismatch")
    dims, idx, conds = [], [], []
    vs = []
    for d, (lo, hi) in zip(x.dims, width):
        lo, hi = dim(lo), dim(hi)
        for w in (lo, hi):
            if not (w.const() is not None and w.const() >= 0) and fork(T.gt0(-w)):
                raise ValueError("index can't contain negative values")
        nd = d + lo + hi
        v = T.index_var(nd, "t")
        dims.append(nd)
        vs.append(v)
        idx.append(v - lo)
        if lo.terms:
            conds.append(T.ge0(v - lo))
        if hi.terms:
            conds.append(T.lt(v - lo, d))
    c = T.band(*conds)
    fill = lit(constant_values) if not isinstance(constant_values, ST) else constant_values.body
    if x.dtype.kind == "b":
        fill = to_b(fill)
    body = xite(c, x.get(*idx), fill)
    return ST(dims, vs, body, x.dtype)


def broadcast_to(x, shape):
    x = as_st(x)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    dims = [dim(s) for s in shape]
    if x.ndim > len(dims):
        raise ValueError("broadcast_to: too many dimensions")
    k = len(dims) - x.ndim
    idx = []
    vs = [T.index_var(d, "t") for d in dims]
    for d, v, nd in zip(x.dims, vs[k:], dims[k:]):
        if same_dim(d, nd):
            idx.append(v if nd.const() != 1 else T.ZERO)
        elif d.const() == 1:
            idx.append(T.ZERO)
        elif fork(T.eq(d, nd)):
            idx.append(v)
        elif fork(T.eq(d, T.ONE)):
            idx.append(T.ZERO)
        else:
            raise ValueError("Incompatible shapes for broadcasting")
    return ST(dims, vs, x.get(*idx), x.dtype)


# ------------------------------------------------------------------- indexing


def norm_index(t: N, n: N, clamp=True) -> N:
    """JAX index semantics: negative wraps once, then clamp (gather)."""
    c = t.const()
    if (MEMO[0] is not None or OPAQUE_INDEX[0]) and c is None and not (decide(T.ge0(t)) is True and (not clamp or decide(T.lt(t, n)) is True)):
        # comparing two executions: some function of the index and the size
        fn = "gather_index" if clamp else "scatter_index"
        T.declare_fn(fn, "I")
        return T.app(fn, t, n)
    if c is not None and c < 0:
        t = t + n
    elif decide(T.ge0(t)) is not True:
        if decide(T.gt0(-t)) is True:
            t = t + n
        else:
            o = P.prove(T.ge0(t), ms=1500)
            if not o:
                t = T.ite(T.ge0(t), t, t + n)
    if not clamp:
        return t
    if decide(T.lt(t, n)) is not True:
        if not P.prove(T.lt(t, n), ms=1500):
            t = T.min_(t, n - 1)
    if not (T.n_sign(t) or decide(T.ge0(t)) is True):
        if not P.prove(T.ge0(t), ms=1500):
            t = T.max_(t, T.ZERO)
    return t


def slice_bounds(s: slice, n: N):
    """(start, length, step) for step in {1,-1} or a constant positive step."""

    def val(z, default):
        if z is None:
            return default
        if isinstance(z, ST):
            raise TypeError("slice indices must be static")
        return dim(z)

    step = 1 if s.step is None else s.step
    if isinstance(step, SV):
        step = operator.index(step)
    if step == -1 and s.start is None and s.stop is None:
        return n - 1, n, -1
    if step < 1:
        raise VerifierLimit("slice step")

    def clampi(t):
        c = t.const()
        if (c is not None and c < 0) or (c is None and decide(T.gt0(-t)) is True):
            t = t + n
            if decide(T.ge0(t)) is not True:
                t = T.max_(t, T.ZERO)
            return t
        if c is None and decide(T.ge0(t)) is not True:
            if fork(T.gt0(-t)):
                return T.max_(t + n, T.ZERO)
        return T.min_(t, n)

    a = clampi(val(s.start, T.ZERO)) if s.start is not None else T.ZERO
    b = clampi(val(s.stop, n)) if s.stop is not None else n
    ln = b - a
    if decide(T.ge0(ln)) is not True:
        ln = T.max_(ln, T.ZERO)
    if step > 1:
        ln = -T.fdiv(-ln, T.num(step))
    return a, ln, step


def _expand_key(x, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
    for k in key:
        if isinstance(k, ST) and k.dtype.kind == "b" and k.ndim > 0:
            raise VerifierLimit("boolean mask indexing")
    if any(k is Ellipsis for k in key):
        p = next(i for i, k in enumerate(key) if k is Ellipsis)
        key[p : p + 1] = [slice(None)] * (x.ndim - n_real)
    else:
        key += [slice(None)] * (x.ndim - n_real)
    if sum(1 for k in key if k is not None) > x.ndim:
        raise IndexError("Too many indices")
    return key


def _is_scalar_idx(k):
    return isinstance(k, (int, SV)) or (isinstance(k, ST) and k.ndim == 0)


def _idx_term(k) -> N:
    if isinstance(k, ST):
        if k.dtype.kind != "i":
            raise TypeError("Indexer must have integer or boolean type")
        return to_num(k.body)
    if isinstance(k, SV) and k.kind != "i":
        raise TypeError("float index")
    return dim(k)


class Plan:
    """Indexing plan: result dims/vars and, per source axis, the source index term."""

    def __init__(self, x: ST, key, clamp=True):
        key = [as_st(k) if isinstance(k, (list,)) or hasattr(k, "__jax_array__") else k for k in _expand_key(x, key)]
        adv = [i for i, k in enumerate(key) if isinstance(k, ST) and k.ndim > 0]
        for i in adv:
            if key[i].dtype.kind != "i":
                raise TypeError("Indexer must have integer or boolean type")
        if adv:
            # scalars join the advanced group when arrays are present
            advall = [i for i, k in enumerate(key) if _is_scalar_idx(k) and isinstance(k, (int, SV, ST)) or i in adv]
            bd = broadcast_dims(*[key[i].dims for i in adv])
            bvs = [T.index_var(d, "g") for d in bd]
            contiguous = advall == list(range(advall[0], advall[-1] + 1))
        dims, vs, src = [], [], []
        placed = False
        self.norm = []
        ax = 0
        for i, k in enumerate(key):
            if k is None:
                dims.append(T.ONE)
                vs.append(T.index_var(T.ONE, "u"))
                continue
            n = x.dims[ax]
            if _is_scalar_idx(k):
                src.append(norm_index(_idx_term(k), n, clamp))
                if adv and contiguous and not placed and i == advall[0]:
                    dims += bd
                    vs += bvs
                    placed = True
            elif isinstance(k, slice):
                a, ln, st = slice_bounds(k, n)
                v = T.index_var(ln, "s")
                dims.append(ln)
                vs.append(v)
                src.append(a + v.scale(Fr(st)))
            elif isinstance(k, ST):
                t = bget(k, bvs, bd)
                src.append(norm_index(to_num(t), n, clamp))
                if contiguous and not placed:
                    dims += bd
                    vs += bvs
                    placed = True
            else:
                raise VerifierLimit(f"index {type(k)}")
            ax += 1
        if adv and not placed:
            dims = bd + dims
            vs = bvs + vs
        self.dims, self.vars, self.src = dims, vs, src
        self.adv = adv
        self.advvars = bvs if adv else []
        self.key = key


def getitem(x: ST, key):
    p = Plan(x, key)
    if x.dtype.kind == "k" and x.ndim == 0:
        raise TypeError("cannot index a scalar key")
    return ST(p.dims, p.vars, x.get(*p.src), x.dtype)


ST.__getitem__ = getitem

_sk_counter = [0]


def scatter(x: ST, key, val, combine):
    """x.at[key].op(val); combine(old, new)."""
    p = Plan(x, key, clamp=False)
    val = as_st(val)
    if x.dtype.kind == "i" and val.dtype.kind == "f":
        # JAX casts the update to the array dtype
        b = val.body
        if not (isinstance(b, N) and b.sort == "I"):
            raise VerifierLimit("float update of an integer array")
    val = broadcast_to(val, [pydim(d) for d in p.dims]) if val.ndim <= len(p.dims) else val
    vs = [T.index_var(d, "t") for d in x.dims]
    old = x.get(*vs)
    # solve src(vars) == vs for the plan variables
    conds = []
    sol = {}
    pending = []
    pvars = {T.the_var(v) for v in p.vars}
    for v, s in zip(vs, p.src):
        dep = [w for w in pvars if w in s.fv]
        if not dep:
            conds.append(T.eq(v, s))
        elif len(dep) == 1 and T.linear_in(s, dep[0]) is not None and dep[0] not in sol:
            co, rest = T.linear_in(s, dep[0])
            if co in (1, -1):
                t = (v - rest).scale(1 / co)
                sol[dep[0]] = t
                hi = T.VAR_INFO[dep[0]]["hi"]
                for c in (T.ge0(t), T.lt(t, hi)):
                    r = decide(c)
                    if r is not True:
                        conds.append(c)
            else:
                raise VerifierLimit("strided scatter")
        else:
            pending.append((v, s))
    for w in list(pvars):
        if w not in sol and T.VAR_INFO[w]["hi"].const() == 1:
            sol[w] = T.ZERO
    unsolved = [w for w in pvars if w not in sol]
    if pending or unsolved:
        # array scatter: choose a skolem preimage J(v..)
        pend = [(v, T.subst(s, sol)) for v, s in pending]
        fv = set()
        for v, s in pend:
            fv |= s.fv
        args = [v for v, _ in pend] + [T.num(f) for f in sorted(fv - set(unsolved) - {T.the_var(v) for v in vs}, key=lambda a: a.id) if f.sort == "I" and T.VAR_INFO[f].get("hi") is not None]
        hit = T.band(*[T.eq(v, s) for v, s in pend])
        ren = {}
        newv = []
        for w in unsolved:
            nv = T.index_var(T.VAR_INFO[w]["hi"], "j")
            ren[w] = nv
            newv.append(nv)
        ex = T.exists(newv, T.subst(hit, ren))
        conds.append(ex)
        _sk_counter[0] += 1
        if NAMED[0] and len(pend) == 1 and len(unsolved) == 1 and combine is _set:
            return _scatter_named(x, vs, old, conds[:-1], sol, pend[0], unsolved[0], p, val, args)
        canon = T.lam(newv, [T.VAR_INFO[T.the_var(w)]["hi"] for w in newv], T.ind(T.subst(hit, ren)))
        for k, w in enumerate(unsolved):
            nm = f"preimage{k}"
            T.declare_fn(nm, "I")
            j = T.app(nm, canon)
            sol[w] = j
            CTX.assume(T.band(T.ge0(j), T.lt(j, T.VAR_INFO[w]["hi"])) if not (j.fv & {T.the_var(v) for v in vs}) else T.forall(vs, T.band(T.ge0(j), T.lt(j, T.VAR_INFO[w]["hi"]))), "scatter")
        h2 = T.subst(hit, {w: sol[w] for w in unsolved})
        CTX.assume(T.forall([v for v in vs if T.the_var(v) in h2.fv or T.the_var(v) in ex.fv], T.implies(ex, h2)), "scatter")
        if combine is not _set:
            raise VerifierLimit("accumulating array scatter")
    new = T.subst(val.get(*[T.num(v) for v in p.vars]), sol)
    if x.dtype.kind == "b":
        new = to_b(new)
    else:
        new = to_num(new)
    body = xite(T.band(*conds), combine(old, new), old)
    return ST(x.dims, vs, body, x.dtype)


OPAQUE_INDEX = [False]  # comparing two executions: do not try to prove that an index is in range
MEMO: list = [None]  # a dictionary: names are functions of their definitions (relational contracts)


def named(kind, key):
    """A fresh number for a name, or the number of the name with the same definition."""
    if MEMO[0] is None:
        _sk_counter[0] += 1
        return _sk_counter[0]
    k = key()
    if (kind, k) not in MEMO[0]:
        _sk_counter[0] += 1
        MEMO[0][(kind, k)] = _sk_counter[0]
    return MEMO[0][(kind, k)]


def closed(args, z):
    rs = [T.VAR_INFO.get(T.the_var(a), {}).get("hi") or T.ZERO for a in args]
    if isinstance(z, T.X):
        return tuple(closed(args, q) for q in (z.v, z.pinf, z.ninf, z.nan))
    if isinstance(z, N):
        return T.lam(args, rs, z)
    vs, b, h = [T.the_var(a) for a in args], z, None
    while b.height + 1 != h:
        h = b.height + 1
        b = T.subst(z, {v: T.bv(h, j) for j, v in enumerate(vs)})
    return tuple(T.num(r) for r in rs), _alpha(b)


def _alpha(b):
    """A key equal for formulas equal up to the names of quantified variables."""
    if b.op in ("and", "or"):
        return (b.op, frozenset(_alpha(x) for x in b.args))
    if b.op == "not":
        return (b.op, _alpha(b.args[0]))
    if b.op in ("forall", "exists"):
        vs, x, h = list(b.args[0]), b.args[1], None
        while x.height + 1 != h:
            h = x.height + 1
            x = T.subst(b.args[1], {v: T.bv(h, j) for j, v in enumerate(vs)})
        info = tuple((T.VAR_INFO[v]["sort"], T.VAR_INFO[v]["lo"], T.VAR_INFO[v]["hi"], T.VAR_INFO[v]["sign"]) for v in vs)
        return (b.op, info, _alpha(x))
    return b


NAMED = [False]  # inside a loop under contract: name selected positions instead of describing them


def _scatter_named(x, vs, old, conds, sol, hit, w, p, val, args):
    """x.at[c].set(val): hit(v) <=> some c(j) == v, and J(v) is such a j (which one is left open)."""
    v, s = hit
    hi = T.VAR_INFO[w]["hi"]
    k = named("slot", lambda: (closed([v] + [T.num(w)] + [a for a in args if a is not v], s), x.dims[vs.index(v)]))
    J, H = f"slot{k}", f"hit{k}"
    T.declare_fn(J, "I")
    j, h = T.app(J, *args), T.pred(H, *args)
    wv = T.num(w)
    fvq = [a for a in args if a is not v]
    sj = T.subst(s, {w: j})
    n = x.dims[vs.index(v)]
    CTX.assume(T.forall([v] + fvq, T.implies(h, T.band(T.ge0(j), T.lt(j, hi), T.eq(sj, v)))), "scatter")
    hs = T.pred(H, s, *args[1:])
    CTX.assume(T.forall([wv] + fvq, T.implies(T.band(T.ge0(s), T.lt(s, n)), hs)), "scatter")
    new = val.get(*[T.num(q) for q in p.vars])
    new = to_b(new) if x.dtype.kind == "b" else to_num(new)
    if len(s.terms) == 1 and s.terms[0][1] == 1 and len(s.terms[0][0]) == 1 and s.terms[0][0][0][1] == 1:
        a = s.terms[0][0][0][0]
        if a.op == "app":
            new = T.mkx(*[T.replace_atom(z, a, v) for z in (new.v, new.pinf, new.ninf, new.nan)]) if isinstance(new, T.X) else T.replace_atom(new, a, v)
    new = T.subst(new, {**sol, w: j})
    if repr_same(new, old):
        return x
    return ST(x.dims, vs, xite(T.band(*conds, h), new, old), x.dtype)


_abbr_cache: dict = {}


def _bsize(b, limit):
    """Number of connectives and atoms of a formula, up to a limit."""
    n, todo = 0, [b]
    while todo and n <= limit:
        x = todo.pop()
        n += 1
        if isinstance(x, B):
            if x.op in ("and", "or"):
                todo += list(x.args)
            elif x.op == "not":
                todo.append(x.args[0])
            elif x.op in ("forall", "exists"):
                n += 6
                todo.append(x.args[1])
            elif x.op in ("ge0", "gt0", "eq0"):
                n += len(x.args[0].terms)
    return n


def _name_bool(b, args):
    if b in _abbr_cache and _abbr_cache[b][0] == CTX_ID[0]:
        return _abbr_cache[b][1]
    p = T.pred(f"abbr{named('b', lambda: closed(args, b))}", *(args or [T.ZERO]))
    CTX.assume(T.forall(args, T.iff(p, b)), "abbreviation")
    _abbr_cache[b] = (CTX_ID[0], p)
    return p


CTX_ID = [0]


def _abbreviate(x):
    """Inside a loop under contract: give long side conditions (and long values) a name."""
    b = x.body
    if isinstance(b, T.X):
        parts = [b.v, b.pinf, b.ninf, b.nan]
    elif isinstance(b, (B, N)):
        parts = [b]
    else:
        return
    new = []
    for z in parts:
        if isinstance(z, B) and z.op not in ("true", "false") and _bsize(z, ABBR[0]) > ABBR[0]:
            new.append(_name_bool(z, _args_of(z)))
        elif isinstance(z, N) and len(z.terms) > ABBR[2 if isinstance(b, T.X) else 1]:
            args = _args_of(z)
            f = f"abbr{named('n', lambda: closed(args, z))}"
            T.declare_fn(f, z.sort)
            a = T.app(f, *(args or [T.ZERO]))
            CTX.assume(T.forall(args, T.eq(a, z)), "abbreviation")
            new.append(a)
        else:
            new.append(z)
    if any(p is not q for p, q in zip(parts, new)):
        x.body = T.mkx(*new) if isinstance(b, T.X) else new[0]


ABBR = [14, 24, 24]
SIMP = [True]


def _args_of(z):
    return [T.num(f) for f in sorted(z.fv, key=lambda a: a.id) if f.sort == "I" and T.VAR_INFO.get(f, {}).get("hi") is not None]


def repr_same(a, b):
    if isinstance(a, T.X) or isinstance(b, T.X):
        a, b = T.asx(a), T.asx(b)
        return all(p is q for p, q in zip((a.v, a.pinf, a.ninf, a.nan), (b.v, b.pinf, b.ninf, b.nan)))
    return a is b


def _set(old, new):
    return new


class _AtIdx:
    def __init__(self, x, key):
        self.x, self.key = x, key

    def set(self, v, **kw):
        return scatter(self.x, self.key, v, _set)

    def add(self, v, **kw):
        return scatter(self.x, self.key, v, xadd)

    def subtract(self, v, **kw):
        return scatter(self.x, self.key, v, xsub)

    def multiply(self, v, **kw):
        return scatter(self.x, self.key, v, xmul)

    mul = multiply

    def divide(self, v, **kw):
        return scatter(self.x, self.key, v, xdiv)

    def max(self, v, **kw):
        return scatter(self.x, self.key, v, xmax)

    def min(self, v, **kw):
        return scatter(self.x, self.key, v, xmin)

    def get(self, **kw):
        return getitem(self.x, self.key)


class _At:
    def __init__(self, x):
        self.x = x

    def __getitem__(self, key):
        return _AtIdx(self.x, key)


ST.at = property(_At)

# ------------------------------------------------------------------- reductions


def _axes(x, axis):
    if axis is None:
        return list(range(x.ndim))
    if isinstance(axis, (tuple, list)):
        return [a % x.ndim for a in axis]
    axis = operator.index(axis)
    if not -x.ndim <= axis < x.ndim:
        raise ValueError("axis out of bounds")
    return [axis % x.ndim]


def reduce_(x, axis, f, dtype=None, keepdims=False):
    """f(list of bound vars (N), body) -> term"""
    x = as_st(x)
    axs = _axes(x, axis)
    keep = [k for k in range(x.ndim) if k not in axs]
    vs = [T.index_var(d, "t") for d in x.dims]
    body = x.get(*vs)
    r = f([vs[k] for k in axs], body)
    out = ST([x.dims[k] for k in keep], [vs[k] for k in keep], r, dtype or x.dtype)
    if keepdims:
        for a in sorted(axs):
            out = expand_dims(out, a)
    return out


def tsum(vs, body):
    body = to_num(body)
    bvs = [(T.the_var(v), T.VAR_INFO[T.the_var(v)]["hi"]) for v in vs]
    if isinstance(body, X):
        nan = T.bor(
            T.exists(vs, body.nan),
            T.band(T.exists(vs, body.pinf), T.exists(vs, body.ninf)),
        )
        return simp_x(
            X(
                T.sum_(bvs, body.v),
                T.band(T.exists(vs, body.pinf), T.bnot(nan)),
                T.band(T.exists(vs, body.ninf), T.bnot(nan)),
                nan,
            )
        )
    r = T.sum_(bvs, body)
    if T.n_sign(r) is None and is_nonneg(body):
        T.known_nonneg(r)
    return r


def is_nonneg(body: N) -> bool:
    """Manifestly non-negative: a square, or a sum of non-negative monomials."""
    return T.n_sign(body) is not None or perfect_square(body) is not None


def sum_axis(x, axis=None, keepdims=False, **kw):
    x = as_st(x)
    return reduce_(x, axis, tsum, dtype=_num_dtype(x), keepdims=keepdims)


def any_axis(x, axis=None, keepdims=False, **kw):
    return reduce_(x, axis, lambda vs, b: T.exists(vs, to_b(b)), BOOL, keepdims)


def all_axis(x, axis=None, keepdims=False, **kw):
    return reduce_(x, axis, lambda vs, b: T.forall(vs, to_b(b)), BOOL, keepdims)


def dot(a, b):
    a, b = as_st(a), as_st(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim == 1:
        require_dim(a.dims[-1], b.dims[0], "dot: shapes not aligned")
        va = [T.index_var(d, "t") for d in a.dims[:-1]]
        k = T.index_var(a.dims[-1], "k")
        body = tsum([k], xmul(to_num(a.get(*va, k)), to_num(b.get(k))))
        return ST(a.dims[:-1], va, body, _num_dtype(a, b))
    require_dim(a.dims[-1], b.dims[-2], "dot: shapes not aligned")
    va = [T.index_var(d, "t") for d in a.dims[:-1]]
    vb = [T.index_var(d, "t") for d in b.dims[:-2]]
    vl = T.index_var(b.dims[-1], "t")
    k = T.index_var(a.dims[-1], "k")
    body = tsum([k], xmul(to_num(a.get(*va, k)), to_num(b.get(*vb, k, vl))))
    return ST(list(a.dims[:-1]) + list(b.dims[:-2]) + [b.dims[-1]], va + vb + [vl], body, _num_dtype(a, b))


def matmul(a, b):
    a, b = as_st(a), as_st(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul input operand must have ndim at least 1")
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    # batched
    sa, sb = a.ndim == 1, b.ndim == 1
    if sa:
        a = expand_dims(a, 0)
    if sb:
        b = expand_dims(b, 1)
    require_dim(a.dims[-1], b.dims[-2], "matmul: shapes not aligned")
    bd = broadcast_dims(a.dims[:-2], b.dims[:-2])
    vs = [T.index_var(d, "t") for d in bd]
    i, j = T.index_var(a.dims[-2], "t"), T.index_var(b.dims[-1], "t")
    k = T.index_var(a.dims[-1], "k")

    def g(x, p, q):
        off = len(bd) - (x.ndim - 2)
        idx = [T.ZERO if d.const() == 1 else v for d, v in zip(x.dims[:-2], vs[off:])]
        return to_num(x.get(*idx, p, q))

    body = tsum([k], xmul(g(a, i, k), g(b, k, j)))
    r = ST(bd + [a.dims[-2], b.dims[-1]], vs + [i, j], body, _num_dtype(a, b))
    if sa:
        r = squeeze(r, -2)
    if sb:
        r = squeeze(r, -1)
    return r


ST.__matmul__ = lambda s, o: matmul(s, o)
ST.__rmatmul__ = lambda s, o: matmul(o, s)
