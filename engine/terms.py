"""Hash-consed term language for the verifier.

Numeric terms (``N``) are multivariate polynomials over *atoms*, with rational or
symbolic exponents; atoms are variables, applications of uninterpreted functions
(array elements, abstract kernels), finite sums over symbolic ranges, exponentials,
fractional powers, trigonometric terms, indicator functions of boolean terms, ...
All terms are kept in a normal form, so syntactic identity already decides a large
class of algebraic equalities; what is left goes to the SMT back end (prover.py).
"""
from __future__ import annotations

import itertools
from fractions import Fraction as Fr

# --------------------------------------------------------------------------- atoms


class VerifierLimit(Exception):
    """The construct is outside the verifier's reach (never a violation)."""


class Stats:
    rewrites = 0


_intern: dict = {}
_ids = itertools.count(1)
_fresh = itertools.count(1)


def _mk(cls, key):
    obj = _intern.get((cls, key))
    if obj is None:
        obj = object.__new__(cls)
        obj.key = key
        obj.id = next(_ids)
        obj._init(*key)
        _intern[(cls, key)] = obj
    return obj


def reset():
    """Forget all interned terms (between independent verification units)."""
    _intern.clear()
    global ZERO, ONE, TRUE, FALSE
    VAR_INFO.clear()
    FN_INFO.clear()
    _subst_cache.clear()
    _ROOT_MEMO.clear()
    KNOWN_NONNEG.clear()
    _setup_consts()


VAR_INFO: dict = {}  # A(var) -> dict(sort, lo, hi, sign)
FN_INFO: dict = {}  # name -> dict(sort, symmetric, sign)


class A:
    """Atom."""

    __slots__ = ("key", "id", "op", "args", "fv", "height", "sort", "__weakref__")

    def _init(self, op, args):
        self.op = op
        self.args = args
        self.fv = frozenset()
        h = 0
        if op == "var":
            self.fv = frozenset([self])
        else:
            fv = set()
            for a in _children(args):
                fv |= a.fv
                h = max(h, a.height)
            if op in ("sum", "prod"):
                h += 1
                fv = {v for v in fv if not _is_bv_of(v, h)}
            self.fv = frozenset(fv)
        self.height = h
        if op == "var":
            self.sort = VAR_INFO[self]["sort"] if self in VAR_INFO else "R"
        elif op == "app":
            self.sort = FN_INFO[args[0]]["sort"]
        elif op in ("fdiv", "mod", "ind", "clog"):
            self.sort = "I"
        elif op in ("max", "min", "abs", "sum", "sign"):
            if op == "sum":
                self.sort = args[1].sort
            elif op == "sign":
                self.sort = "I"
            else:
                self.sort = "I" if all(a.sort == "I" for a in args) else "R"
        elif op == "ipow":
            self.sort = args[0].sort if args[1].sort == "I" else "R"
        else:
            self.sort = "R"

    def __repr__(self):
        if self.op == "var":
            return self.args[0]
        if self.op == "app":
            return f"{self.args[0]}({', '.join(map(repr, self.args[1]))})"
        if self.op == "sum":
            return f"Σ[{', '.join(map(repr, self.args[0]))}]({self.args[1]!r})"
        return f"{self.op}({', '.join(map(repr, self.args))})"


def _children(args):
    for a in args:
        if isinstance(a, (N, B, L, A)):
            yield a
        elif isinstance(a, tuple):
            yield from _children(a)


def _is_bv_of(v, h):
    return v.args[0].startswith(f"#{h}.")


def _atom(op, *args) -> A:
    return _mk(A, (op, args))


# ----------------------------------------------------------------------- numerics


def _exp_key(e):
    if isinstance(e, Fr):
        return (0, e)
    return (1, e.id)


class N:
    """Polynomial normal form. key = tuple of (mono, coeff)."""

    __slots__ = ("key", "id", "terms", "fv", "height", "_sort", "__weakref__")

    def _init(self, *terms):
        self.terms = terms
        fv = set()
        h = 0
        for mono, _ in terms:
            for a, e in mono:
                fv |= a.fv
                h = max(h, a.height)
                if isinstance(e, N):
                    fv |= e.fv
                    h = max(h, e.height)
        self.fv = frozenset(fv)
        self.height = h
        self._sort = None

    @property
    def sort(self):
        if self._sort is None:
            s = "I"
            for mono, c in self.terms:
                if c.denominator != 1:
                    s = "R"
                    break
                for a, e in mono:
                    if a.sort != "I" or not (
                        isinstance(e, Fr) and e.denominator == 1 and e > 0
                    ):
                        s = "R"
                        break
            self._sort = s
        return self._sort

    # -- queries
    def const(self):
        """Return the constant value or None."""
        if not self.terms:
            return Fr(0)
        if len(self.terms) == 1 and self.terms[0][0] == ():
            return self.terms[0][1]
        return None

    def __repr__(self):
        if not self.terms:
            return "0"
        out = []
        for mono, c in self.terms:
            fs = []
            for a, e in mono:
                fs.append(repr(a) if e == 1 else f"{a!r}^({e})")
            s = "*".join(fs)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append(f"{c}*{s}")
        return " + ".join(out)

    # -- arithmetic
    def __add__(self, o):
        o = num(o)
        if not self.terms:
            return o
        if not o.terms:
            return self
        d = dict(self.terms)
        for m, c in o.terms:
            c2 = d.get(m, 0) + c
            if c2:
                d[m] = c2
            else:
                d.pop(m, None)
        return _from_dict(d)

    __radd__ = __add__

    def __neg__(self):
        return _mk(N, tuple((m, -c) for m, c in self.terms))

    def __sub__(self, o):
        return self + (-num(o))

    def __rsub__(self, o):
        return num(o) + (-self)

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return _mk(N, tuple((m, c * k) for m, k in self.terms))

    def __mul__(self, o):
        o = num(o)
        c = self.const()
        if c is not None:
            return o.scale(c)
        c = o.const()
        if c is not None:
            return self.scale(c)
        if len(self.terms) * len(o.terms) > 6000:
            raise VerifierLimit("polynomial too large")
        acc: dict = {}
        for m1, c1 in self.terms:
            for m2, c2 in o.terms:
                r = _mono_mul(m1, m2)
                if isinstance(r, tuple):
                    v = acc.get(r, 0) + c1 * c2
                    if v:
                        acc[r] = v
                    else:
                        acc.pop(r, None)
                else:
                    for m, c in r.terms:
                        v = acc.get(m, 0) + c * c1 * c2
                        if v:
                            acc[m] = v
                        else:
                            acc.pop(m, None)
        return _from_dict(acc)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(num(o))

    def __rtruediv__(self, o):
        return num(o) * inv(self)

    def __pow__(self, e):
        return power(self, e)


def _mono_sort(items):
    return tuple(sorted(items, key=lambda t: t[0].id))


def _from_dict(d):
    return _mk(
        N,
        tuple(
            sorted(
                d.items(),
                key=lambda mc: tuple((a.id, _exp_key(e)) for a, e in mc[0]),
            )
        ),
    )


def num(x) -> N:
    if isinstance(x, N):
        return x
    if isinstance(x, A):
        return _mk(N, ((((x, Fr(1)),), Fr(1)),))
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fr)):
        x = Fr(x)
        if x == 0:
            return ZERO
        return _mk(N, (((), x),))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise VerifierLimit("non-finite literal in finite arithmetic")
        return num(_float_literal(x))
    raise TypeError(f"not numeric: {x!r} ({type(x)})")


def _float_literal(x: float) -> Fr:
    # decimal reading of literals such as 0.95 or 1e-6 (the documented value)
    return Fr(repr(x))


def _nfrom(mono, c=Fr(1)):
    return _mk(N, ((mono, c),))


def _setup_consts():
    global ZERO, ONE, TRUE, FALSE
    ZERO = _mk(N, ())
    ONE = _mk(N, (((), Fr(1)),))
    TRUE = _mk(B, ("true", ()))
    FALSE = _mk(B, ("false", ()))


def _eadd(e1, e2):
    if isinstance(e1, Fr) and isinstance(e2, Fr):
        return e1 + e2
    r = num(e1) + num(e2)
    c = r.const()
    return r if c is None else c


def _emul(e1, e2):
    if isinstance(e1, Fr) and isinstance(e2, Fr):
        return e1 * e2
    r = num(e1) * num(e2)
    c = r.const()
    return r if c is None else c


def _mono_mul(m1, m2):
    """Multiply monomials. Returns a mono tuple, or N when expansion is needed."""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        if a in d:
            e2 = _eadd(d[a], e)
            if e2 == 0:
                del d[a]
            else:
                d[a] = e2
        else:
            d[a] = e
    return _norm_mono(d)


def _norm_mono(d):
    """Normalise a dict atom->exp; returns mono tuple or N."""
    special = False
    nexp = 0
    for a, e in d.items():
        op = a.op
        if op == "exp":
            nexp += 1
            if e != 1:
                special = True
        elif op == "P":
            if isinstance(e, Fr) and (e >= 1 or a.args[0].const() is not None):
                special = True
            elif isinstance(e, N) and a.args[0].const() is not None and (_const_part(e) or not e.terms):
                special = True
        elif op == "ind":
            if e != 1:
                special = True
        elif op == "sign":
            if isinstance(e, Fr) and e.denominator == 1 and not (0 < e < 2):
                special = True
    if nexp > 1:
        special = True
    if not special:
        return _mono_sort(d.items())
    res = ONE
    out = {}
    exparg = ZERO
    extra = ONE
    for a, e in d.items():
        op = a.op
        if op == "exp":
            exparg = exparg + a.args[0] * num(e)
        elif op == "P" and isinstance(e, Fr):
            base = a.args[0]
            c = base.const()
            if c is not None:
                # constant radicand: canonical exponent in (0, 1)
                k = e.numerator // e.denominator
                extra = extra.scale(c**k)
                if e - k:
                    out[a] = e - k
            elif e >= 1:
                k = e.numerator // e.denominator
                extra = extra * _ipow(base, k)
                if e - k:
                    out[a] = e - k
            else:
                out[a] = e
        elif op == "P" and isinstance(e, N) and a.args[0].const() is not None:
            c, k = a.args[0].const(), _const_part(e)
            extra = extra.scale(c**k if k >= 0 else Fr(1) / c ** (-k))
            if (e - num(k)).terms:
                out[a] = e - num(k)
        elif op == "ind" and isinstance(e, Fr) and e > 0:
            out[a] = Fr(1)
        elif op == "sign" and isinstance(e, Fr) and e.denominator == 1:
            # s^3 = s ; s^2 stays as |s| indicator of non-zero -> generic position: 1
            if e % 2:
                out[a] = Fr(1)
            else:
                extra = extra * ind(bnot(eq0(a.args[0])))
        else:
            out[a] = e
    if exparg.terms:
        ea = exp(exparg)
        m = _mono_sort(out.items())
        r = _nfrom(m)
        if len(ea.terms) == 1 and all(
            x.op == "exp" for x, _ in ea.terms[0][0]
        ):
            mm = dict(out)
            for x, ee in ea.terms[0][0]:
                mm[x] = ee
            r = _nfrom(_mono_sort(mm.items()), ea.terms[0][1])
        else:
            r = r * ea
        if extra is ONE:
            return r
        return r * extra
    m = _mono_sort(out.items())
    if extra is ONE:
        return m
    return _nfrom(m) * extra


def _ipow(p: N, k: int) -> N:
    if k > 64:
        raise VerifierLimit("power too large")
    r = ONE
    for _ in range(k):
        r = r * p
    return r


# ----------------------------------------------------------------- sign knowledge


def atom_sign(a: A):
    """'+', '0+' or None."""
    op = a.op
    if op == "var":
        return VAR_INFO.get(a, {}).get("sign")
    if op == "app":
        return FN_INFO[a.args[0]].get("sign")
    if op == "exp":
        return "+"
    if op in ("ind", "abs"):
        return "0+"
    if op == "P":
        return "+" if n_sign(a.args[0]) == "+" else "0+"
    if op == "sum":
        s = n_sign(a.args[1])
        if s == "+" and all(n_sign(r) == "+" for r in a.args[0]):
            return "+"  # a positive summand over a non-empty range
        return "0+" if s in ("+", "0+") else None
    if op == "pi":
        return "+"
    if op == "max":
        s = [n_sign(x) for x in a.args]
        if "+" in s:
            return "+"
        if "0+" in s:
            return "0+"
    if op == "min":
        s = [n_sign(x) for x in a.args]
        if all(x == "+" for x in s):
            return "+"
        if all(x in ("+", "0+") for x in s):
            return "0+"
    if op == "fn1" and a.args[0] in ("fact",):
        return "+"
    if op == "ipow":
        return n_sign(a.args[0])
    return None


def mono_sign(mono):
    s = "+"
    for a, e in mono:
        t = atom_sign(a)
        if t == "+":
            continue
        if isinstance(e, Fr) and e.denominator == 1 and e.numerator % 2 == 0:
            s = "0+"
            continue
        if t == "0+":
            s = "0+"
            continue
        return None
    return s


KNOWN_NONNEG: set = set()  # polynomials (normal scale) that are sums of squares


def known_nonneg(p: N):
    """Record that p >= 0 holds for all values of its variables."""
    if p.terms and n_sign(p) is None:
        KNOWN_NONNEG.add(_norm_scale(p))


def n_sign(p: N, depth=3):
    if not p.terms:
        return "0+"
    best = "0+"
    bad = None
    for m, c in p.terms:
        s = mono_sign(m) if c > 0 else None
        if s is None:
            bad = (m, c)
            break
        if s == "+":
            best = "+"
    if bad is None:
        return best
    if not KNOWN_NONNEG or len(p.terms) < 2:
        return None
    if _norm_scale(p) in KNOWN_NONNEG:
        return "0+"
    if depth == 0:
        return None
    m, c = bad
    for k in list(KNOWN_NONNEG):
        for mk, ck in k.terms:
            if ck * c <= 0:
                continue
            d = dict(m)
            for a, e in mk:
                d[a] = _eadd(d[a], -e) if a in d else -e
            if any(not isinstance(e, Fr) for e in d.values()) or sum(1 for a, e in d.items() if e != 0) > len(m):
                continue
            qm = _mono_sort((a, e) for a, e in d.items() if e != 0)
            if mono_sign(qm) not in ("+", "0+"):
                continue
            q = _nfrom(qm, c / ck)
            r = p - q * k
            if len(r.terms) < len(p.terms):
                s = n_sign(r, depth - 1)
                if s is not None:
                    return s
    return None


# ------------------------------------------------------------- division and powers


def _content(p: N):
    """Split p = c * mono * q, q primitive with leading coefficient 1."""
    common = None
    for m, _ in p.terms:
        d = {a: e for a, e in m if isinstance(e, Fr)}
        if common is None:
            common = d
        else:
            common = {
                a: min(e, d[a])
                for a, e in common.items()
                if a in d
            }
    common = {
        a: e
        for a, e in (common or {}).items()
        if a.op not in ("ind", "exp", "sign") and e != 0
    }
    c = p.terms[0][1]
    if common:
        invm = _nfrom(_mono_sort((a, -e) for a, e in common.items()))
        q = (p * invm).scale(1 / c)
    else:
        q = p.scale(1 / c)
    return c, common, q


def inv(p: N) -> N:
    if not p.terms:
        return num(_atom("undef_inv0"))
    q = _lift1(lambda t: inv(t), p)
    if q is not None:
        return q
    if len(p.terms) == 1:
        mono, c = p.terms[0]
        d = {}
        for a, e in mono:
            if a.op == "ind":
                return num(_atom("P", p)) ** -1 if False else _pexp(p, Fr(-1))
            d[a] = -e
        r = _norm_mono(d)
        r = _nfrom(r) if isinstance(r, tuple) else r
        return r.scale(1 / c)
    c, common, q = _content(p)
    r = _pexp(q, Fr(-1)).scale(1 / c)
    if common:
        r = r * _nfrom(_mono_sort((a, -e) for a, e in common.items()))
    return r


_ROOT_MEMO: dict = {}


def poly_root(p: N, k: int):
    """q with q^k == p (exact polynomial root), or None."""
    if (p, k) in _ROOT_MEMO:
        return _ROOT_MEMO[p, k]
    r = None
    if 3 <= len(p.terms) <= 60 and all(isinstance(e, Fr) and e.denominator == 1 and a.op != "ind" for m, _ in p.terms for a, e in m):
        r = _poly_root(p, k)
    _ROOT_MEMO[p, k] = r
    return r


def _iroot(n, k):
    r = round(n ** (1.0 / k))
    return next((q for q in (r - 1, r, r + 1) if q >= 0 and q**k == n), None)


def _poly_root(p: N, k: int):
    atoms = sorted({a for m, _ in p.terms for a, _ in m}, key=lambda a: a.id)
    key = lambda t: tuple(dict(t[0]).get(a, 0) for a in atoms)  # noqa: E731
    m, c = max(p.terms, key=key)
    if any(e % k for _, e in m) or (c < 0 and k % 2 == 0):
        return None
    rn, rd = _iroot(abs(c.numerator), k), _iroot(c.denominator, k)
    if rn is None or rd is None:
        return None
    lc = Fr(rn if c > 0 else -rn, rd)
    q = _nfrom(tuple((a, e / k) for a, e in m), lc)
    den = _nfrom(tuple((a, -e / k * (k - 1)) for a, e in m), 1 / (lc ** (k - 1) * k))
    last = None
    for _ in range(len(p.terms)):
        r = p - _ipow(q, k)
        if not r.terms:
            return q
        t = max(r.terms, key=key)
        if last is not None and key(t) >= last:
            return None
        last = key(t)
        step = _nfrom(*t) * den
        if len(step.terms) != 1:
            return None
        q = q + step
    return None


def _pexp(p: N, e) -> N:
    if p.const() == 1:
        return ONE
    if isinstance(e, Fr) and e.denominator == 1 and e < 0:
        for k in (2, 3):
            q = poly_root(p, k)
            if q is not None:
                return power(inv(q), int(-k * e))
    if len(p.terms) == 1 and p.terms[0][1] == 1 and len(p.terms[0][0]) == 1:
        a, e0 = p.terms[0][0][0]
        if e0 == 1 and a.op != "ind":
            return _nfrom(((a, e),))
    if isinstance(e, Fr) and e.denominator == 1 and len(p.terms) > 1:
        sp = n_sign(p)
        if sp is None and (p.terms[0][1] < 0 or n_sign(-p) is not None):
            q = -p
            if not (q.terms[0][1] < 0 and n_sign(q) is None):
                r = _norm_mono({_atom("P", q): e})
                r = _nfrom(r) if isinstance(r, tuple) else r
                return r if e % 2 == 0 else -r
    r = _norm_mono({_atom("P", p): e})
    return _nfrom(r) if isinstance(r, tuple) else r


_PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31]


def _const_pow(c: Fr, e: Fr) -> N:
    if c == 1:
        return ONE
    if c == 0:
        return ZERO
    if c < 0:
        raise VerifierLimit("fractional power of a negative constant")
    r = ONE
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p in _PRIMES:
            k = 0
            while n % p == 0:
                n //= p
                k += 1
            if k:
                x = _norm_mono({_atom("P", num(p)): e * s * k})
                r = r * (_nfrom(x) if isinstance(x, tuple) else x)
        if n != 1:
            x = _norm_mono({_atom("P", num(n)): e * s})
            r = r * (_nfrom(x) if isinstance(x, tuple) else x)
    return r


def _root(c):
    """c = b^k with the smallest integer b > 1 (c itself when it is no integer power)."""
    c = Fr(c)
    if c.denominator == 1 and 4 <= c <= 1 << 20:
        v = int(c)
        for b in range(2, 1 << 10):
            if b * b > v:
                break
            k, t = 1, b
            while t < v:
                t, k = t * b, k + 1
            if t == v:
                return Fr(b), k
    return c, 1


def _const_part(e: N) -> int:
    """The integer constant term of an exponent."""
    for m, c in e.terms:
        if m == () and c.denominator == 1 and abs(c) <= 64:
            return int(c)
    return 0


def _pow_compare(p):
    """p = c1 b^e1 - c2 b^e2 with positive c's whose ratio is a power of b > 1: the exponent difference, of the sign of p."""
    if len(p.terms) != 2:
        return None
    (m1, c1), (m2, c2) = p.terms
    if c1 < 0:
        (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
    if not (c1 > 0 > c2):
        return None
    base = None
    es = []
    for m in (m1, m2):
        if m == ():
            es.append(ZERO)
            continue
        if len(m) != 1 or m[0][0].op != "P" or m[0][0].args[0].const() is None or not isinstance(m[0][1], N):
            return None
        b = m[0][0].args[0].const()
        if b <= 1 or (base is not None and b != base):
            return None
        base = b
        es.append(m[0][1])
    if base is None:
        return None
    r, k = c1 / -c2, 0
    while r >= base:
        r, k = r / base, k + 1
    while r < 1:
        r, k = r * base, k - 1
    if r != 1:
        return None
    return es[0] - es[1] + num(k)


def power(p, e) -> N:
    p = num(p)
    if isinstance(e, N) and e.const() is not None:
        e = e.const()
    if isinstance(e, (int, float)):
        e = Fr(e) if not isinstance(e, float) else _float_literal(e)
    if isinstance(e, Fr):
        if e == 0:
            return ONE
        if e == 1:
            return p
        if e.denominator == 1:
            if e > 0:
                if e <= 24:
                    return _ipow(p, int(e))
            else:
                return power(inv(p), -e)
    if not p.terms:
        if isinstance(e, Fr) and e > 0:
            return ZERO
        return num(_atom("ipow", p, num(e)))
    if p.const() == 1:
        return ONE
    lifted = _lift1(lambda t: power(t, e), p)
    if lifted is not None:
        return lifted
    # general real power
    if len(p.terms) == 1:
        mono, c = p.terms[0]
        common, rest = {}, {}
        for a, ee in mono:
            s = atom_sign(a)
            if s in ("+", "0+"):
                common[a] = ee
            elif isinstance(ee, Fr) and ee.denominator == 1 and ee % 2 == 0:
                common[_one_atom(abs_(num(a)))] = ee
            else:
                rest[a] = ee
        q = _nfrom(_mono_sort(rest.items()))
        if rest and c < 0:
            q = -q
            c = -c
        if rest and len(rest) == 1 and c > 0 and next(iter(rest.values())) == 1:
            pass
    else:
        c, common, q = _content(p)
        rest_common = {}
        keep = {}
        for a, ee in common.items():
            s = atom_sign(a)
            if s in ("+", "0+"):
                keep[a] = ee
            elif isinstance(ee, Fr) and ee.denominator == 1 and ee % 2 == 0:
                keep[_one_atom(abs_(num(a)))] = ee
            else:
                rest_common[a] = ee
        if rest_common:
            q = q * _nfrom(_mono_sort(rest_common.items()))
        common = keep
        if c < 0:
            q, c = -q, -c
        # a perfect-square / scaled radicand is left inside P
    if c < 0:
        return num(_atom("ipow", p, num(e)))
    res = ONE
    if c != 1:
        if isinstance(e, Fr):
            res = _const_pow(c, e)
        else:
            b, k = _root(c)
            e1 = e * num(k)
            k0 = _const_part(e1)
            res = _nfrom(((_atom("P", num(b)), e1 - num(k0)),)).scale(b**k0 if k0 >= 0 else Fr(1) / b ** (-k0))
    if common:
        d = {}
        for a, ee in common.items():
            d[a] = _emul(ee, e)
        r = _norm_mono(d)
        res = res * (_nfrom(r) if isinstance(r, tuple) else r)
    if q is not ONE and q.const() != 1:
        res = res * _pexp(q, e if isinstance(e, Fr) else num(e))
    return res


def _one_atom(p: N) -> A:
    assert len(p.terms) == 1 and len(p.terms[0][0]) == 1
    return p.terms[0][0][0][0]


def sqrt(p) -> N:
    return power(num(p), Fr(1, 2))


# ------------------------------------------------------------- other constructors


def var(name, sort="R", lo=None, hi=None, sign=None) -> N:
    a = _mk_var(name, sort, lo, hi, sign)
    return num(a)


def _mk_var(name, sort, lo=None, hi=None, sign=None):
    key = ("var", (name,))
    obj = _intern.get((A, key))
    if obj is None:
        obj = object.__new__(A)
        obj.key = key
        obj.id = next(_ids)
        obj.op, obj.args = key
        obj.height = 0
        obj.sort = sort
        obj.fv = frozenset([obj])
        _intern[(A, key)] = obj
        VAR_INFO[obj] = dict(sort=sort, lo=lo, hi=hi, sign=sign)
    elif VAR_INFO.get(obj) != dict(sort=sort, lo=lo, hi=hi, sign=sign):
        raise ValueError(f"variable {name} redeclared with a different contract")
    return obj


def fresh(prefix="v", sort="I", lo=None, hi=None, sign=None) -> N:
    return var(f"{prefix}!{next(_fresh)}", sort, lo, hi, sign)


def index_var(rng: N, prefix="i") -> N:
    """Fresh integer variable with 0 <= v < rng."""
    return fresh(prefix, "I", ZERO, num(rng))


def the_var(p: N) -> A:
    return _one_atom(p)


def declare_fn(name, sort="R", symmetric=False, sign=None, arity=None, **kw):
    info = FN_INFO.setdefault(name, dict(sort=sort, symmetric=symmetric, sign=sign, **kw))
    if (info["sort"], info["symmetric"], info["sign"]) != (sort, symmetric, sign):
        raise ValueError(f"function {name} declared twice, differently")


def app(name, *args) -> N:
    """Uninterpreted function application with Shannon lifting of indicators."""
    info = FN_INFO[name]
    for a in args:
        t = _surface_ind(a)
        if t is not None:
            one = app(name, *[_set_ind(x, t, ONE) for x in args])
            zero = app(name, *[_set_ind(x, t, ZERO) for x in args])
            it = num(t)
            return it * one + (ONE - it) * zero
    if info.get("symmetric"):
        args = tuple(sorted(args, key=lambda x: x.id))
    hook = info.get("hook")
    if hook is not None:
        r = hook(*args)
        if r is not None:
            return r
    return num(_atom("app", name, tuple(args)))


def _surface_ind(x):
    """Find an indicator atom in x that does not depend on a binder inside x."""
    if isinstance(x, N):
        for mono, _ in x.terms:
            for a, _e in mono:
                if a.op == "ind":
                    return a
        for mono, _ in x.terms:
            for a, _e in mono:
                t = _surface_ind_atom(a)
                if t is not None:
                    return t
        return None
    if isinstance(x, L):
        t = _deep_inds(x)
        for a in t:
            return a
    return None


def _surface_ind_atom(a: A):
    return None


def _deep_inds(x: "L"):
    """Indicators free of x's bound variables."""
    out = []

    def walk(y):
        if isinstance(y, N):
            for mono, _ in y.terms:
                for a, _e in mono:
                    walk(a)
        elif isinstance(y, X):
            for z in (y.v,):
                walk(z)
        elif isinstance(y, A):
            if y.op == "ind" and not any(v.args[0].startswith("#") for v in y.fv):
                out.append(y)
            elif y.op in ("app", "exp", "P", "sin", "cos", "abs", "sign", "max", "min"):
                for c in _children(y.args):
                    walk(c)
        elif isinstance(y, L):
            walk(y.body)

    walk(x)
    return out


def _set_ind(x, atom, val):
    return replace_atom(x, atom, val)


def _lift1(f, p: N):
    t = _surface_ind(p)
    if t is None:
        return None
    a = f(replace_atom(p, t, ONE))
    b = f(replace_atom(p, t, ZERO))
    it = num(t)
    return it * a + (ONE - it) * b


def exp(p) -> N:
    p = num(p)
    if not p.terms:
        return ONE
    q = _lift1(exp, p)
    if q is not None:
        return q
    # exp(log t) and exp(a + log t)
    return num(_atom("exp", p))


def log(p) -> N:
    p = num(p)
    if p.const() == 1:
        return ZERO
    q = _lift1(log, p)
    if q is not None:
        return q
    if len(p.terms) == 1:
        mono, c = p.terms[0]
        if len(mono) == 1 and mono[0][0].op == "exp" and c == 1:
            return mono[0][0].args[0]
    return num(_atom("log", p))


def _canon_sign(p: N):
    """(sign, p') with p = sign * p' and p' having positive leading coefficient."""
    if p.terms and p.terms[0][1] < 0:
        return -1, -p
    return 1, p


def sin(p) -> N:
    p = num(p)
    if not p.terms:
        return ZERO
    q = _lift1(sin, p)
    if q is not None:
        return q
    t = _abs_arg(p)
    if t is not None:
        return sign_(t) * sin(t)
    s, p = _canon_sign(p)
    return num(_atom("sin", p)).scale(s)


def cos(p) -> N:
    p = num(p)
    if not p.terms:
        return ONE
    q = _lift1(cos, p)
    if q is not None:
        return q
    t = _abs_arg(p)
    if t is not None:
        return cos(t)
    _, p = _canon_sign(p)
    return num(_atom("cos", p))


def _abs_arg(p: N):
    if len(p.terms) == 1:
        mono, c = p.terms[0]
        ab = [(a, e) for a, e in mono if a.op == "abs"]
        if len(ab) == 1 and ab[0][1] == 1:
            rest = [(a, e) for a, e in mono if a.op != "abs"]
            if mono_sign(tuple(rest)) is not None:
                # c*|t|*rest = |c*t*rest| up to the sign of c
                return ab[0][0].args[0] * _nfrom(_mono_sort(rest), c)
    return None


def abs_(p) -> N:
    p = num(p)
    c = p.const()
    if c is not None:
        return num(abs(c))
    if n_sign(p) in ("+", "0+"):
        return p
    if n_sign(-p) in ("+", "0+"):
        return -p
    q = _lift1(abs_, p)
    if q is not None:
        return q
    if len(p.terms) == 1:
        mono, c = p.terms[0]
        out = num(abs(c))
        rest = []
        for a, e in mono:
            if atom_sign(a) or (
                isinstance(e, Fr) and e.denominator == 1 and e % 2 == 0
            ):
                out = out * _nfrom(((a, e),))
            else:
                rest.append((a, e))
        if len(rest) < len(mono) or abs(c) != 1:
            return out * abs_(_nfrom(_mono_sort(rest)))
    _, p = _canon_sign(p)
    return num(_atom("abs", p))


def sign_(p) -> N:
    p = num(p)
    c = p.const()
    if c is not None:
        return num((c > 0) - (c < 0))
    if n_sign(p) == "+":
        return ONE
    q = _lift1(sign_, p)
    if q is not None:
        return q
    s, p = _canon_sign(p)
    return num(_atom("sign", p)).scale(s)


def pi() -> N:
    return num(_atom("pi"))


def fn1(name, p) -> N:
    """Named elementary function of one argument kept opaque (erf, gamma, ...)."""
    q = _lift1(lambda t: fn1(name, t), num(p))
    if q is not None:
        return q
    return num(_atom("fn1", name, num(p)))


def fdiv(a, b) -> N:
    a, b = num(a), num(b)
    ca, cb = a.const(), b.const()
    if cb == 1:
        return a
    if ca is not None and cb is not None:
        return num(Fr(ca // cb))
    q = exact_div(a, b)
    if q is not None:
        return q
    if len(a.terms) == 1 and len(a.fv) == 1:
        (v,) = a.fv
        info = VAR_INFO.get(v, {})
        if a is num(v) and info.get("sort") == "I" and info.get("lo") is ZERO and info.get("hi") is b:
            return ZERO  # 0 <= v < b
    if cb is not None and cb.denominator == 1 and cb > 0:
        # split off divisible part
        whole, rest = {}, {}
        for m, c in a.terms:
            if (c / cb).denominator == 1:
                whole[m] = c / cb
            else:
                rest[m] = c
        if whole:
            return _from_dict(whole) + fdiv(_from_dict(rest), b)
    return num(_atom("fdiv", a, b))


def exact_div(a: N, b: N):
    """Polynomial quotient a/b when b is a monomial dividing a over the integers."""
    if not a.terms:
        return ZERO
    if len(b.terms) == 1:
        q = a * inv(b)
        if q.sort == "I":
            return q
    if a is b:
        return ONE
    return None


def mod(a, b) -> N:
    a, b = num(a), num(b)
    q = fdiv(a, b)
    return a - b * q


def max_(a, b) -> N:
    return _maxmin("max", num(a), num(b))


def min_(a, b) -> N:
    return _maxmin("min", num(a), num(b))


DECIDE = None  # installed by prover: B -> True/False/None


def _decide(b):
    if b.op == "true":
        return True
    if b.op == "false":
        return False
    if DECIDE is None:
        return None
    return DECIDE(b)


def _maxmin(op, a, b):
    if a is b:
        return a
    d = a - b
    c = d.const()
    if c is not None:
        return (a if c >= 0 else b) if op == "max" else (b if c >= 0 else a)
    q = _lift1(lambda t: _maxmin(op, t, b), a)
    if q is not None:
        return q
    q = _lift1(lambda t: _maxmin(op, a, t), b)
    if q is not None:
        return q
    r = _decide(ge0(d))
    if r is True:
        return a if op == "max" else b
    r = _decide(ge0(-d))
    if r is True:
        return b if op == "max" else a
    if a.id > b.id:
        a, b = b, a
    return num(_atom(op, a, b))


# ------------------------------------------------------------------------ booleans


class B:
    __slots__ = ("key", "id", "op", "args", "fv", "height", "__weakref__")

    def _init(self, op, args):
        self.op = op
        self.args = args
        fv = set()
        h = 0
        for a in _children(args):
            fv |= a.fv
            h = max(h, a.height)
        if op in ("forall", "exists"):
            fv -= set(args[0])
        self.fv = frozenset(fv)
        self.height = h

    def __repr__(self):
        if self.op in ("true", "false"):
            return self.op
        if self.op in ("ge0", "gt0", "eq0"):
            s = {"ge0": ">=", "gt0": ">", "eq0": "=="}[self.op]
            return f"({self.args[0]!r} {s} 0)"
        if self.op == "not":
            return f"!{self.args[0]!r}"
        if self.op in ("and", "or"):
            return "(" + f" {self.op} ".join(map(repr, self.args)) + ")"
        if self.op in ("forall", "exists"):
            return f"({self.op} {self.args[0]}. {self.args[1]!r})"
        return f"{self.op}{self.args!r}"


def _b(op, *args):
    return _mk(B, (op, args))


def _norm_scale(p: N):
    """Scale by a positive rational so coefficients are coprime integers."""
    from math import gcd

    l = 1
    for _, c in p.terms:
        l = l * c.denominator // gcd(l, c.denominator)
    g = 0
    for m, c in p.terms:
        g = gcd(g, abs((c * l).numerator))
    return p.scale(Fr(l, g))


def ge0(p) -> B:
    p = num(p)
    c = p.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    q = _liftb(ge0, p)
    if q is not None:
        return q
    q = _pow_compare(p)
    if q is not None:
        return ge0(q)
    if n_sign(p) is not None:
        return TRUE
    if p.sort == "I":
        # tighten: divide non-constant coefficients by gcd
        from math import gcd

        g = 0
        k = Fr(0)
        for m, c in p.terms:
            if m == ():
                k = c
            else:
                g = gcd(g, abs(c.numerator))
        if g > 1:
            rest = (p - num(k)).scale(Fr(1, g))
            p = rest + num(Fr((k / g).numerator // (k / g).denominator))
        if n_sign(-p - ONE) is not None:
            return FALSE
    else:
        if n_sign(-p) == "+":
            return FALSE
        p = _norm_scale(p)
    return _b("ge0", p)


def gt0(p) -> B:
    p = num(p)
    c = p.const()
    if c is not None:
        return TRUE if c > 0 else FALSE
    if p.sort == "I":
        return ge0(p - ONE)
    q = _liftb(gt0, p)
    if q is not None:
        return q
    q = _pow_compare(p)
    if q is not None:
        return gt0(q)
    if n_sign(p) == "+":
        return TRUE
    if n_sign(-p) is not None:
        return FALSE
    return _b("gt0", _norm_scale(p))


def eq0(p) -> B:
    p = num(p)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    q = _liftb(eq0, p)
    if q is not None:
        return q
    q = _pow_compare(p)
    if q is not None:
        return eq0(q)
    if n_sign(p) == "+" or n_sign(-p) == "+":
        return FALSE
    p = _norm_scale(p)
    if p.terms[0][1] < 0:
        p = -p
    return _b("eq0", p)


def _liftb(f, p):
    t = _surface_ind(p)
    if t is None:
        return None
    c = t.args[0]
    return bor(
        band(c, f(replace_atom(p, t, ONE))),
        band(bnot(c), f(replace_atom(p, t, ZERO))),
    )


def eq(a, b):
    return eq0(num(a) - num(b))


def le(a, b):
    return ge0(num(b) - num(a))


def lt(a, b):
    return gt0(num(b) - num(a))


_NOT: dict = {}


def bnot(b: B) -> B:
    r = _NOT.get(b)
    if r is None:
        if len(_NOT) > 200000:
            _NOT.clear()
        r = _NOT[b] = _bnot(b)
    return r


def _bnot(b: B) -> B:
    if b.op == "true":
        return FALSE
    if b.op == "false":
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "ge0":
        p = b.args[0]
        return ge0(-p - ONE) if p.sort == "I" else gt0(-p)
    if b.op == "gt0":
        return ge0(-b.args[0])
    if b.op == "and":
        return bor(*[bnot(x) for x in b.args])
    if b.op == "or":
        return band(*[bnot(x) for x in b.args])
    if b.op == "forall":
        return _b("exists", b.args[0], bnot(b.args[1]))
    if b.op == "exists":
        return _b("forall", b.args[0], bnot(b.args[1]))
    return _b("not", b)


def _flat(op, xs, unit, zero):
    out = []
    seen = set()
    for x in xs:
        ys = x.args if x.op == op else (x,)
        for y in ys:
            if y is unit:
                continue
            if y is zero:
                return None
            if y in seen:
                continue
            seen.add(y)
            out.append(y)
    for y in out:
        if bnot(y) in seen and y.op not in ("forall", "exists"):
            return None
    return out


def band(*xs) -> B:
    out = _flat("and", xs, TRUE, FALSE)
    if out is None:
        return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _b("and", *sorted(out, key=lambda x: x.id))


def bor(*xs) -> B:
    out = _flat("or", xs, FALSE, TRUE)
    if out is None:
        return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _b("or", *sorted(out, key=lambda x: x.id))


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    return band(implies(a, b), implies(b, a))


def pred(name, *args) -> B:
    return _b("pred", name, tuple(args))


def forall(vs, body: B) -> B:
    """vs: list of N (single-variable terms). Ranges come from VAR_INFO."""
    vs = tuple(the_var(v) if isinstance(v, N) else v for v in vs)
    assert all(isinstance(v, A) for v in vs)
    # a variable that does not occur matters when its range may be empty
    for v in reversed(vs):
        if v in body.fv or body.op == "true":
            continue
        i = VAR_INFO.get(v)
        if i and i["lo"] is not None and i["hi"] is not None:
            body = bor(body, le(i["hi"], i["lo"]))
    vs = tuple(v for v in vs if v in body.fv)
    if not vs or body.op in ("true", "false"):
        return body
    return _b("forall", vs, body)


def exists(vs, body: B) -> B:
    return bnot(forall(vs, bnot(body)))


def ind(b: B) -> N:
    if b.op == "true":
        return ONE
    if b.op == "false":
        return ZERO
    if b.op == "not":
        return ONE - ind(b.args[0])
    if b.op == "and":
        r = ONE
        for x in b.args:
            r = r * ind(x)
        return r
    if b.op == "or":
        r = ONE
        for x in b.args:
            r = r * (ONE - ind(x))
        return ONE - r
    if b.op == "gt0":
        return ONE - ind(ge0(-b.args[0]))
    if b.op == "ge0" and b.args[0].sort == "I":
        p = b.args[0]
        q = -p - ONE
        # canonical polarity: leading non-constant coefficient negative
        lead = next(c for m, c in p.terms if m != ())
        if lead > 0:
            nb = ge0(q)
            if nb.op == "ge0":
                return ONE - num(_atom("ind", nb))
            return ONE - ind(nb)
    if b.op == "exists":
        return ONE - ind(bnot(b))
    return num(_atom("ind", b))


def ite(c: B, a, b) -> N:
    if c.op == "true":
        return num(a)
    if c.op == "false":
        return num(b)
    a, b = num(a), num(b)
    if a is b:
        return a
    i = ind(c)
    return i * a + (ONE - i) * b


def bite(c: B, a: B, b: B) -> B:
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


# ----------------------------------------------------------- extended reals (inf/nan)


class X:
    """Extended real: finite value v unless one of the flags holds."""

    __slots__ = ("v", "pinf", "ninf", "nan")

    def __init__(self, v, pinf=None, ninf=None, nan=None):
        self.v = v
        self.pinf = FALSE if pinf is None else pinf
        self.ninf = FALSE if ninf is None else ninf
        self.nan = FALSE if nan is None else nan

    @property
    def fv(self):
        return self.v.fv | self.pinf.fv | self.ninf.fv | self.nan.fv

    @property
    def height(self):
        return max(self.v.height, self.pinf.height, self.ninf.height, self.nan.height)

    def finite(self):
        return band(bnot(self.pinf), bnot(self.ninf), bnot(self.nan))

    def __repr__(self):
        return f"X({self.v!r}; +inf:{self.pinf!r}; -inf:{self.ninf!r}; nan:{self.nan!r})"


def mkx(v, pinf, ninf, nan):
    if pinf.op == "false" and ninf.op == "false" and nan.op == "false":
        return v
    return X(v, pinf, ninf, nan)


def asx(v):
    return v if isinstance(v, X) else X(num(v))


# ------------------------------------------------------------------------- lambdas


class L:
    """Abstracted array: canonical bound variables, used as an opaque argument."""

    __slots__ = ("key", "id", "ranges", "body", "fv", "height", "__weakref__")

    def _init(self, ranges, body):
        self.ranges = ranges
        self.body = body
        h = body.height + 1
        fv = set(body.fv)
        for r in ranges:
            fv |= r.fv
        self.fv = frozenset(v for v in fv if not _is_bv_of(v, h))
        self.height = h

    def __repr__(self):
        return f"λ.{self.body!r}"


def bv(h, j) -> N:
    return var(f"#{h}.{j}", "I")


def lam(vars_, ranges, body) -> L:
    vars_ = [the_var(v) if isinstance(v, N) else v for v in vars_]
    h = body.height + 1
    m = {v: bv(h, j) for j, v in enumerate(vars_)}
    b2 = subst(body, m)
    # substitution cannot raise the height (variables only), but may lower it
    while b2.height + 1 != h:
        h = b2.height + 1
        m = {v: bv(h, j) for j, v in enumerate(vars_)}
        b2 = subst(body, m)
    return _mk(L, (tuple(num(r) for r in ranges), b2))


def lam_apply(l: L, *idx):
    h = l.body.height + 1
    return subst(l.body, {the_var(bv(h, j)): num(t) for j, t in enumerate(idx)})


# ---------------------------------------------------------------------- substitution

_subst_cache: dict = {}


def subst(x, m: dict):
    """Substitute variables (A -> N)."""
    if not m:
        return x
    if isinstance(x, X):
        return mkx(
            subst(x.v, m), subst(x.pinf, m), subst(x.ninf, m), subst(x.nan, m)
        )
    mm = {k: v for k, v in m.items() if k in x.fv}
    if not mm:
        return x
    memo: dict = {}
    return _subst(x, mm, memo)


def _subst(x, m, memo):
    if not (x.fv & m.keys()):
        return x
    r = memo.get(x)
    if r is not None:
        return r
    if isinstance(x, N):
        r = ZERO
        for mono, c in x.terms:
            t = num(c)
            for a, e in mono:
                e2 = _subst(e, m, memo) if isinstance(e, N) else e
                if (a.fv & m.keys()) or (e2 is not e):
                    a2 = _subst(a, m, memo)
                    if a.op == "P" and len(a2.terms) >= 1 and not (
                        isinstance(e2, Fr) and e2.denominator == 1
                    ):
                        t = t * power(a.args[0] if False else _subst(a.args[0], m, memo), e2)
                    else:
                        t = t * (a2 if e2 == 1 else power(a2, e2))
                else:
                    t = t * _nfrom(((a, e2),)) if not _needs_norm(a, e2) else t * power(num(a), e2)
            r = r + t
    elif isinstance(x, A):
        r = _subst_atom(x, m, memo)
    elif isinstance(x, B):
        r = _subst_b(x, m, memo)
    elif isinstance(x, L):
        h = x.body.height + 1
        fresh_vs = [index_var(_subst(rg, m, memo), "l") for rg in x.ranges]
        body = subst(x.body, {the_var(bv(h, j)): fv for j, fv in enumerate(fresh_vs)})
        body = subst(body, m)
        r = lam(fresh_vs, [_subst(rg, m, memo) for rg in x.ranges], body)
    else:
        raise TypeError(type(x))
    memo[x] = r
    return r


def _needs_norm(a, e):
    return False


def rebuild_atom(a: A, f) -> N:
    """Rebuild atom ``a`` applying ``f`` to its term children (binder-free atoms)."""
    op, args = a.op, a.args
    if op == "app":
        return app(args[0], *[f(z) for z in args[1]])
    if op == "exp":
        return exp(f(args[0]))
    if op == "log":
        return log(f(args[0]))
    if op == "sin":
        return sin(f(args[0]))
    if op == "cos":
        return cos(f(args[0]))
    if op == "abs":
        return abs_(f(args[0]))
    if op == "sign":
        return sign_(f(args[0]))
    if op == "P":
        p = f(args[0])
        return p
    if op == "ind":
        return ind(f(args[0]))
    if op == "fdiv":
        return fdiv(f(args[0]), f(args[1]))
    if op in ("max", "min"):
        return _maxmin(op, f(args[0]), f(args[1]))
    if op == "fn1":
        return fn1(args[0], f(args[1]))
    if op == "ipow":
        return power(f(args[0]), f(args[1]))
    if op in ("pi", "undef_inv0"):
        return num(a)
    raise VerifierLimit(f"rebuild {op}")


def _subst_atom(a: A, m, memo) -> N:
    if a.op == "var":
        return m.get(a, None) if a in m else num(a)
    if a.op == "sum":
        bvs, body = open_sum(a)
        body2 = subst(body, m)
        return sum_([(v, subst(r, m)) for v, r in bvs], body2)
    return rebuild_atom(a, lambda z: _subst(z, m, memo))


def _subst_b(x: B, m, memo) -> B:
    op, args = x.op, x.args
    if op == "ge0":
        return ge0(_subst(args[0], m, memo))
    if op == "gt0":
        return gt0(_subst(args[0], m, memo))
    if op == "eq0":
        return eq0(_subst(args[0], m, memo))
    if op == "not":
        return bnot(_subst(args[0], m, memo))
    if op == "and":
        return band(*[_subst(z, m, memo) for z in args])
    if op == "or":
        return bor(*[_subst(z, m, memo) for z in args])
    if op == "pred":
        return pred(args[0], *[_subst(z, m, memo) for z in args[1]])
    if op in ("forall", "exists"):
        vs = args[0]
        ren = {}
        new = []
        for v in vs:
            i = VAR_INFO[v]
            lo = subst(i["lo"], m) if i["lo"] is not None else None
            hi = subst(i["hi"], m) if i["hi"] is not None else None
            nv = fresh(v.args[0].split("!")[0], i["sort"], lo, hi, i["sign"])
            ren[v] = nv
            new.append(the_var(nv))
        body = subst(subst(args[1], ren), {k: v for k, v in m.items() if k not in vs})
        if body.op in ("true", "false"):
            return body
        return _b(op, tuple(new), body)
    raise VerifierLimit(f"subst in {op}")


def replace_atom(x, atom, val):
    """Replace an atom by a numeric term everywhere outside binders that capture it."""
    memo = {}

    def go(y):
        if isinstance(y, A):
            if y is atom:
                return val
            r = memo.get(y)
            if r is None:
                if y.op == "var":
                    r = num(y)
                elif not _contains(y, atom):
                    r = num(y)
                elif y.op == "sum":
                    bvs, body = open_sum(y)
                    r = sum_(bvs, go(body))
                else:
                    r = rebuild_atom(y, go)
                memo[y] = r
            return r
        if isinstance(y, N):
            if not _contains(y, atom):
                return y
            r = ZERO
            for mono, c in y.terms:
                t = num(c)
                for a, e in mono:
                    e2 = go(e) if isinstance(e, N) else e
                    if _contains(a, atom):
                        t = t * power(go(a), e2)
                    else:
                        t = t * _nfrom(((a, e2),))
                r = r + t
            return r
        if isinstance(y, B):
            if not _contains(y, atom):
                return y
            op, args = y.op, y.args
            if op == "ge0":
                return ge0(go(args[0]))
            if op == "gt0":
                return gt0(go(args[0]))
            if op == "eq0":
                return eq0(go(args[0]))
            if op == "not":
                return bnot(go(args[0]))
            if op == "and":
                return band(*[go(z) for z in args])
            if op == "or":
                return bor(*[go(z) for z in args])
            if op in ("forall", "exists"):
                return _b(op, args[0], go(args[1]))
            if op == "pred":
                return pred(args[0], *[go(z) for z in args[1]])
            raise VerifierLimit("replace in " + op)
        if isinstance(y, L):
            if not _contains(y, atom):
                return y
            h = y.body.height + 1
            vs = [index_var(rg, "l") for rg in y.ranges]
            body = subst(y.body, {the_var(bv(h, j)): v for j, v in enumerate(vs)})
            return lam(vs, y.ranges, go(body))
        if isinstance(y, X):
            return mkx(go(y.v), go(y.pinf), go(y.ninf), go(y.nan))
        return y

    return go(x)


def rebuild(x, fname):
    """Rebuild x so that the current hook of application ``fname`` is applied."""
    memo = {}
    hit = {}

    def has(y):
        r = hit.get(y)
        if r is None:
            r = _mentions(y, fname)
            hit[y] = r
        return r

    def go(y):
        if isinstance(y, X):
            return mkx(go(y.v), go(y.pinf), go(y.ninf), go(y.nan))
        if isinstance(y, (int, str)) or y is None:
            return y
        r = memo.get(y)
        if r is not None:
            return r
        if isinstance(y, N):
            if not has(y):
                return y
            r = ZERO
            for mono, c in y.terms:
                t = num(c)
                for a, e in mono:
                    e2 = go(e) if isinstance(e, N) else e
                    if has(num(a)):
                        t = t * power(go(a), e2)
                    else:
                        t = t * _nfrom(((a, e2),))
                r = r + t
        elif isinstance(y, A):
            if y.op == "var" or not has(num(y)):
                r = num(y)
            elif y.op == "sum":
                bvs, body = open_sum(y)
                r = sum_(bvs, go(body))
            elif y.op == "P":
                r = go(y.args[0])
            else:
                r = rebuild_atom(y, go)
        elif isinstance(y, L):
            h = y.body.height + 1
            rs = [go(rg) for rg in y.ranges]
            vs = [index_var(rg, "l") for rg in rs]
            body = subst(y.body, {the_var(bv(h, j)): v for j, v in enumerate(vs)})
            r = lam(vs, rs, go(body))
        elif isinstance(y, B):
            op, args = y.op, y.args
            if op in ("true", "false"):
                r = y
            elif op == "ge0":
                r = ge0(go(args[0]))
            elif op == "gt0":
                r = gt0(go(args[0]))
            elif op == "eq0":
                r = eq0(go(args[0]))
            elif op == "not":
                r = bnot(go(args[0]))
            elif op == "and":
                r = band(*[go(z) for z in args])
            elif op == "or":
                r = bor(*[go(z) for z in args])
            elif op == "pred":
                r = pred(args[0], *[go(z) for z in args[1]])
            elif op in ("forall", "exists"):
                b = go(args[1])
                r = b if b.op in ("true", "false") else _b(op, args[0], b)
            else:
                raise VerifierLimit("rebuild " + op)
        else:
            raise TypeError(type(y))
        memo[y] = r
        return r

    return go(x)


_contains_cache: dict = {}


def _contains(x, atom):
    if x is atom:
        return True
    if x.id < atom.id and not isinstance(x, A):
        pass
    key = (x, atom)
    r = _contains_cache.get(key)
    if r is not None:
        return r
    r = False
    if isinstance(x, N):
        for mono, _ in x.terms:
            for a, e in mono:
                if _contains(a, atom) or (isinstance(e, N) and _contains(e, atom)):
                    r = True
                    break
            if r:
                break
    elif isinstance(x, L):
        r = _contains(x.body, atom)
    else:
        for c in _children(x.args):
            if _contains(c, atom):
                r = True
                break
    if len(_contains_cache) > 200000:
        _contains_cache.clear()
    _contains_cache[key] = r
    return r


def atoms_in(x, pred_, deep=True, out=None):
    """Collect atoms satisfying pred_."""
    if out is None:
        out = []
    seen = set()

    def go(y):
        if y in seen:
            return
        seen.add(y)
        if isinstance(y, N):
            for mono, _ in y.terms:
                for a, e in mono:
                    go(a)
                    if isinstance(e, N):
                        go(e)
        elif isinstance(y, A):
            if pred_(y):
                out.append(y)
            if deep:
                for c in _children(y.args):
                    go(c)
        elif isinstance(y, L):
            if deep:
                go(y.body)
        elif isinstance(y, B):
            for c in _children(y.args):
                if not isinstance(c, A):
                    go(c)
        elif isinstance(y, X):
            for z in (y.v, y.pinf, y.ninf, y.nan):
                go(z)

    go(x)
    return out


# ----------------------------------------------------------------------------- sums


def open_sum(a: A):
    """Return ([(var, range)], body) with fresh bound variables."""
    ranges, body = a.args
    h = a.height
    m = {}
    out = []
    for j, r in enumerate(ranges):
        r2 = subst(r, m)
        v = index_var(r2, "s")
        m[the_var(bv(h, j))] = v
        out.append((the_var(v), r2))
    return out, subst(body, m)


def rename_bvs(bvs):
    return bvs


def sum_(bvs, body) -> N:
    """Sum of body over bound variables [(var, range)]."""
    body = num(body)
    bvs = [((the_var(v) if isinstance(v, N) else v), num(r)) for v, r in bvs]
    if not bvs:
        return body
    for _, r in bvs:
        if r.const() is not None and r.const() <= 0:
            return ZERO
    body = _decide_inds(body, [v for v, _ in bvs])
    res = ZERO
    for mono, c in body.terms:
        res = res + _sum_mono(list(bvs), mono).scale(c)
    return res


def _decide_inds(body: N, vs):
    vs = set(vs)
    inds = atoms_in(body, lambda a: a.op == "ind" and bool(a.fv & vs))
    for a in inds:
        if any(v.args[0].startswith("#") for v in a.fv):
            continue
        if not _contains(body, a):
            continue
        c = a.args[0]
        if c.op == "eq0":
            # only try to refute equality of index terms
            r = _decide(c)
        else:
            r = _decide(c)
        if r is True:
            body = replace_atom(body, a, ONE)
        elif r is False:
            body = replace_atom(body, a, ZERO)
    return body


def linear_in(p: N, v: A):
    """Return (coef, rest) if p = coef*v + rest with coef constant, else None."""
    coef = Fr(0)
    rest = {}
    for mono, c in p.terms:
        if not any(v in a.fv or (isinstance(e, N) and v in e.fv) for a, e in mono):
            rest[mono] = c
        elif len(mono) == 1 and mono[0][0] is v and mono[0][1] == 1:
            coef += c
        else:
            return None
    return coef, _from_dict(rest)


def _sum_mono(bvs, mono) -> N:
    vs = {v for v, _ in bvs}
    outer, inner = [], []
    for a, e in mono:
        dep = bool(a.fv & vs) or (isinstance(e, N) and bool(e.fv & vs))
        (inner if dep else outer).append((a, e))
    outer_n = _nfrom(_mono_sort(outer)) if outer else ONE
    # literal ranges
    for k, (v, r) in enumerate(bvs):
        c = r.const()
        if c is not None and c.denominator == 1 and c <= 6:
            rest = bvs[:k] + bvs[k + 1 :]
            body = _nfrom(_mono_sort(inner)) if inner else ONE
            acc = ZERO
            for t in range(int(c)):
                m = {v: num(t)}
                acc = acc + sum_([(w, subst(rr, m)) for w, rr in rest], subst(body, m))
            return outer_n * acc
    # peel constant offsets of symbolic ranges:  sum_{t<r+c} = sum_{t<r} + ...
    for k, (v, r) in enumerate(bvs):
        c0 = dict(r.terms).get((), Fr(0))
        if len(r.terms) > 1 and c0 and c0.denominator == 1 and abs(c0) <= 4:
            if any(v in rr.fv for w, rr in bvs if w is not v):
                continue
            base = r - num(c0)
            if _decide(ge0(base + num(min(c0, 0)))) is not True:
                continue
            rest = bvs[:k] + bvs[k + 1 :]
            body = _nfrom(_mono_sort(inner)) if inner else ONE
            nv = index_var(base, "p")
            acc = sum_(rest[:k] + [(the_var(nv), base)] + rest[k:], subst(body, {v: nv}))
            if c0 > 0:
                for t in range(int(c0)):
                    acc = acc + sum_(rest, subst(body, {v: base + num(t)}))
            else:
                for t in range(int(-c0)):
                    acc = acc - sum_(rest, subst(body, {v: base - num(t + 1)}))
            return outer_n * acc
    # flatten inner sums
    for k, (a, e) in enumerate(inner):
        if a.op == "sum" and isinstance(e, Fr) and e.denominator == 1 and e >= 1:
            nb, body = open_sum(a)
            rest = inner[:k] + inner[k + 1 :]
            if e > 1:
                rest = rest + [(a, e - 1)]
            n = _nfrom(_mono_sort(rest)) if rest else ONE
            return outer_n * sum_(bvs + nb, n * body)
    # delta elimination and range restriction
    for k, (a, e) in enumerate(inner):
        if a.op != "ind":
            continue
        c = a.args[0]
        rest = inner[:k] + inner[k + 1 :]
        rest_n = _nfrom(_mono_sort(rest)) if rest else ONE
        if c.op == "eq0":
            for j, (v, r) in enumerate(bvs):
                lin = linear_in(c.args[0], v)
                if lin is None or lin[0] not in (1, -1):
                    continue
                t = lin[1].scale(-1 / lin[0])
                if any(v in rr.fv for w, rr in bvs if w is not v):
                    continue
                if t.sort != "I":
                    continue
                m = {v: t}
                guard = ind(band(ge0(t), ge0(r - t - ONE)))
                g2 = guard
                body = subst(rest_n, m) * g2
                nb = [(w, rr) for w, rr in bvs if w is not v]
                return outer_n * sum_(nb, body) if nb else outer_n * _decide_inds(body, body.fv)
        if c.op == "ge0" and c.args[0].sort == "I":
            p = c.args[0]
            for j, (v, r) in enumerate(bvs):
                lin = linear_in(p, v)
                if lin is None or lin[0] not in (1, -1):
                    continue
                if any(v in rr.fv for w, rr in bvs if w is not v):
                    continue
                t = lin[1]
                if lin[0] == -1:
                    hi = t + ONE  # v < hi
                    if _decide(ge0(r - hi)) is True and _decide(ge0(hi)) is True:
                        nv = index_var(hi, "s")
                        m = {v: nv}
                        nb = [
                            (the_var(nv), hi) if w is v else (w, rr) for w, rr in bvs
                        ]
                        # order: ranges may depend on other bound vars
                        nb.sort(key=lambda wr: len(wr[1].fv & {w for w, _ in bvs}))
                        return outer_n * sum_(nb, subst(rest_n, m))
                else:
                    # v >= -t : complement
                    lo = -t
                    if _decide(ge0(lo)) is True and _decide(ge0(r - lo)) is True:
                        full = sum_(bvs, rest_n)
                        nv = index_var(lo, "s")
                        m = {v: nv}
                        nb = [
                            (the_var(nv), lo) if w is v else (w, rr) for w, rr in bvs
                        ]
                        nb.sort(key=lambda wr: len(wr[1].fv & {w for w, _ in bvs}))
                        part = sum_(nb, subst(rest_n, m))
                        return outer_n * (full - part)
    # block re-indexing  sum_b sum_s f(b*S+s) = sum_k f(k)
    if len(bvs) >= 2:
        for (b, rb), (s, rs) in itertools.permutations(bvs, 2):
            if b in rs.fv or s in rb.fv or rs.const() == 1:
                continue
            if any(b in rr.fv or s in rr.fv for w, rr in bvs if w not in (b, s)):
                continue
            dep = [
                (a, e)
                for a, e in inner
                if (b in a.fv or s in a.fv)
            ]
            if not dep or not any(b in a.fv for a, _ in dep) or not any(
                s in a.fv for a, _ in dep
            ):
                continue
            # quick screen: the product b*S must occur somewhere
            body = _nfrom(_mono_sort(inner))
            if not _has_block_index(body, b, s, rs):
                continue
            total = rb * rs
            kv = index_var(total, "k")
            sub = subst(body, {s: kv - num(b) * rs})
            if b in sub.fv:
                continue
            nb = [(w, rr) for w, rr in bvs if w not in (b, s)] + [(the_var(kv), total)]
            return outer_n * sum_(nb, sub)
    # connected components
    comps = []
    remaining = list(bvs)
    groups = []
    for a, e in inner:
        dep = {v for v in vs if v in a.fv or (isinstance(e, N) and v in e.fv)}
        groups.append((dep, [(a, e)]))
    for v, r in bvs:
        dep = {v} | {w for w in vs if w in r.fv}
        groups.append((dep, []))
    merged = []
    for dep, fs in groups:
        hit = [g for g in merged if g[0] & dep]
        nd, nf = set(dep), list(fs)
        for g in hit:
            nd |= g[0]
            nf = g[1] + nf
            merged.remove(g)
        merged.append((nd, nf))
    res = outer_n
    for dep, fs in merged:
        cb = [(v, r) for v, r in bvs if v in dep]
        if not fs and len(cb) == 1:
            res = res * cb[0][1]
            continue
        res = res * _canon_sum(cb, _nfrom(_mono_sort(fs)) if fs else ONE)
    return res


def _has_block_index(body, b, s, rs):
    nb, ns = num(b), num(s)
    prod = nb * rs

    found = []

    def go(y):
        if found:
            return
        if isinstance(y, N):
            if b in y.fv and s in y.fv and y.sort == "I":
                # does y contain c*(b*rs + s)?
                d = dict(y.terms)
                pm = prod.terms
                cs = d.get(((s, Fr(1)),))
                if cs is not None and all(d.get(m) is not None for m, _ in pm):
                    found.append(1)
                    return
            for mono, _ in y.terms:
                for a, e in mono:
                    go(a)
        elif isinstance(y, A):
            for c in _children(y.args):
                go(c)
        elif isinstance(y, B):
            for c in _children(y.args):
                go(c)
        elif isinstance(y, L):
            go(y.body)

    go(body)
    return bool(found)


def _canon_sum(bvs, body: N) -> N:
    h = 1 + max([body.height] + [r.height for _, r in bvs])
    best = None
    k = len(bvs)
    perms = itertools.permutations(range(k)) if k <= 4 else [tuple(range(k))]
    for perm in perms:
        order = [bvs[i] for i in perm]
        # ranges may only depend on earlier variables
        seen = set()
        ok = True
        allv = {v for v, _ in bvs}
        for v, r in order:
            if (r.fv & allv) - seen:
                ok = False
                break
            seen.add(v)
        if not ok:
            continue
        m = {v: bv(h, j) for j, (v, _) in enumerate(order)}
        b2 = subst(body, m)
        rs = tuple(subst(r, m) for _, r in order)
        if max([b2.height] + [r.height for r in rs]) + 1 != h or len(b2.terms) != 1:
            # normalisation after renaming changed the shape: do it again from scratch
            if len(b2.terms) != 1:
                raise VerifierLimit("sum body not a monomial after renaming")
            h2 = max([b2.height] + [r.height for r in rs]) + 1
            m = {v: bv(h2, j) for j, (v, _) in enumerate(order)}
            b2 = subst(body, m)
            rs = tuple(subst(r, m) for _, r in order)
        if b2.terms[0][1] != 1:
            raise VerifierLimit("sum body coefficient")
        key = (tuple(r.id for r in rs), b2.id)
        if best is None or key < best[0]:
            best = (key, rs, b2)
    return num(_atom("sum", best[1], best[2]))


# ---------------------------------------------------------------- differentiation


def diff(p: N, fname: str, idx: tuple) -> N:
    """Partial derivative of p w.r.t. array element fname(idx)."""
    res = ZERO
    for mono, c in p.terms:
        for k, (a, e) in enumerate(mono):
            da = _diff_atom(a, fname, idx)
            if isinstance(e, N) and _mentions(e, fname):
                raise VerifierLimit("derivative of exponent")
            if not da.terms:
                continue
            rest = _nfrom(_mono_sort(mono[:k] + mono[k + 1 :])) if len(mono) > 1 else ONE
            if e == 1:
                t = da
            else:
                base = a.args[0] if a.op == "P" else num(a)
                t = num(e) * _raise(a, _eadd(e, Fr(-1))) * da
            res = res + (rest * t).scale(c)
    return res


def _raise(a: A, e) -> N:
    if e == 0:
        return ONE
    r = _norm_mono({a: e})
    return _nfrom(r) if isinstance(r, tuple) else r


def _mentions(x, fname):
    return bool(atoms_in(x, lambda a: a.op == "app" and a.args[0] == fname))


def _diff_atom(a: A, fname, idx) -> N:
    op, args = a.op, a.args
    if op in ("var", "pi", "ind", "fdiv", "undef_inv0", "sign"):
        # indicator / sign: derivative zero almost everywhere
        return ZERO
    if not _mentions(a, fname):
        return ZERO
    if op == "app":
        if args[0] == fname:
            conds = [eq(u, v) for u, v in zip(args[1], idx)]
            return ind(band(*conds))
        info = FN_INFO[args[0]]
        d = info.get("diff")
        if d is not None:
            return d(args[1], fname, idx)
        raise VerifierLimit(f"derivative of abstract function {args[0]}")
    if op == "P":
        return diff(args[0], fname, idx)
    if op == "exp":
        return num(a) * diff(args[0], fname, idx)
    if op == "log":
        return inv(args[0]) * diff(args[0], fname, idx)
    if op == "sin":
        return cos(args[0]) * diff(args[0], fname, idx)
    if op == "cos":
        return -sin(args[0]) * diff(args[0], fname, idx)
    if op == "abs":
        return sign_(args[0]) * diff(args[0], fname, idx)
    if op == "sum":
        bvs, body = open_sum(a)
        return sum_(bvs, diff(body, fname, idx))
    raise VerifierLimit(f"derivative of {op}")


# ----------------------------------------------------------------- zero recognition


def clear_powers(p: N) -> N:
    """Eliminate P(p) powers that differ by integers, and sin^2."""
    for _ in range(40):
        changed = False
        # P atoms
        classes: dict = {}
        for mono, _ in p.terms:
            for a, e in mono:
                if a.op == "P":
                    classes.setdefault(a, set()).add(e)
        for a in classes:
            es = set()
            for mono, _ in p.terms:
                d = dict(mono)
                es.add(d.get(a, Fr(0)))
            if len(es) <= 1:
                continue
            groups = []
            for e in es:
                for g in groups:
                    df = _eadd(e, _emul(Fr(-1), g[0]))
                    if isinstance(df, Fr) and df.denominator == 1:
                        g.append(e)
                        break
                else:
                    groups.append([e])
            if all(len(g) == 1 for g in groups):
                continue
            base = {}
            for g in groups:
                lo = g[0]
                for e in g[1:]:
                    if _eadd(e, _emul(Fr(-1), lo)) < 0:
                        lo = e
                for e in g:
                    base[e] = lo
            marks = {}
            acc = ZERO
            newp: dict = {}
            for mono, c in p.terms:
                d = dict(mono)
                e = d.pop(a, Fr(0))
                lo = base[e]
                k = _eadd(e, _emul(Fr(-1), lo))
                t = _nfrom(_mono_sort(d.items()), c) if d else num(c)
                t = t * _ipow(a.args[0], int(k))
                newp[lo] = newp.get(lo, ZERO) + t
            # after grouping: sum over classes of a^lo * q_lo; all classes must vanish
            tot = ZERO
            if len(newp) == 1:
                tot = next(iter(newp.values()))
            else:
                for lo, q in newp.items():
                    tot = tot + q * _nfrom(((a, lo),)) if lo != 0 else tot + q
            p = tot
            changed = True
            break
        if changed:
            continue
        # sin^2 -> 1 - cos^2
        for mono, _ in p.terms:
            for a, e in mono:
                if a.op == "sin" and isinstance(e, Fr) and e.denominator == 1 and e >= 2:
                    acc = ZERO
                    ca = cos(a.args[0])
                    for m2, c2 in p.terms:
                        d = dict(m2)
                        e2 = d.get(a)
                        if e2 is not None and isinstance(e2, Fr) and e2 >= 2:
                            k = int(e2) // 2
                            r = e2 - 2 * k
                            d.pop(a)
                            if r:
                                d[a] = r
                            t = _nfrom(_mono_sort(d.items()), c2) if d else num(c2)
                            acc = acc + t * _ipow(ONE - ca * ca, k)
                        else:
                            acc = acc + _nfrom(m2, c2)
                    p = acc
                    changed = True
                    break
            if changed:
                break
        if not changed:
            return p
    return p


_setup_consts()
