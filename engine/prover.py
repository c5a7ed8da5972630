"""Proof context and SMT back end.

``CTX`` holds the facts in force (preconditions, path conditions, loop invariants and
assumed contracts of dependencies).  ``decide`` is the cheap oracle used while terms
are normalised; ``prove`` discharges an obligation.  Only an ``unsat`` answer for the
negated goal (or a normal form that is literally true / zero) counts as proved.
"""
from __future__ import annotations

import sys
import time
from fractions import Fraction as Fr

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import terms as T  # noqa: E402
from .terms import A, B, L, N, X, VerifierLimit  # noqa: E402

QUICK_MS = 60
PROVE_MS = 8000


class Stat:
    z3_calls = 0
    z3_time = 0.0
    normal = 0
    decide_calls = 0


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.facts = []  # list of (B, label)
        self.version = 0
        self.cache = {}
        self.tr = Translator()
        self.assumed = {}  # label -> count (dependency contracts used)
        self.solver = None
        self.solver_n = 0
        self.quick_ok = set()

    def assume(self, b, label="assumption"):
        if b is T.TRUE:
            return
        for x, _ in self.facts:
            if x is b:
                return
        self.facts.append((b, label))
        self.version += 1
        self.cache = {k: v for k, v in self.cache.items() if v is not None}

    def mark(self):
        return len(self.facts)

    def rewind(self, mark):
        if len(self.facts) != mark:
            del self.facts[mark:]
            self.version += 1
            self.cache = {}
            self.solver = None

    def uses(self, label):
        self.assumed[label] = self.assumed.get(label, 0) + 1


class Translator:
    """Terms to z3.  Opaque subterms become uninterpreted functions of their
    closed index parameters, so congruence still applies under instantiation."""

    def __init__(self):
        self.row = z3.DeclareSort("Row")
        self.fns = {}
        self.memo = {}
        self.axioms = []  # z3 axioms from interpreted atoms
        self.seen_atoms = set()
        self.linear = True
        self.monos = {}
        self.bound = []

    def fn(self, name, *sorts):
        key = (name, tuple(s.sexpr() for s in sorts))
        f = self.fns.get(key)
        if f is None:
            f = z3.Function(f"{name}@{len(self.fns)}", *sorts)
            self.fns[key] = f
        return f

    def zsort(self, s):
        return z3.IntSort() if s == "I" else z3.RealSort()

    # -- numbers
    def n(self, p: N, ax):
        key = (p, self.linear)
        tot = None
        is_int = p.sort == "I"
        parts = []
        for mono, c in p.terms:
            parts.append(self.mono(mono, c, is_int, ax))
        if not parts:
            return z3.IntVal(0) if is_int else z3.RealVal(0)
        tot = parts[0]
        for q in parts[1:]:
            tot = tot + q
        return tot

    def coef(self, c, is_int):
        if is_int:
            return z3.IntVal(c.numerator)
        return z3.RealVal(str(c.numerator)) / z3.RealVal(str(c.denominator)) if c.denominator != 1 else z3.RealVal(str(c.numerator))

    def mono(self, mono, c, is_int, ax):
        if not mono:
            return self.coef(c, is_int)
        fs = []
        for a, e in mono:
            fs.append((self.apow(a, e, ax), a, e))
        if len(fs) == 1:
            z = fs[0][0]
        elif self.linear and len(fs) > 1:
            z = self.opaque_product(fs, ax)
        else:
            z = fs[0][0]
            for q, _, _ in fs[1:]:
                z = self._mul(z, q)
        if not is_int and z.sort() == z3.IntSort():
            z = z3.ToReal(z)
        if c == 1:
            return z
        return self.coef(c, is_int) * z

    def _mul(self, a, b):
        if a.sort() != b.sort():
            if a.sort() == z3.IntSort():
                a = z3.ToReal(a)
            else:
                b = z3.ToReal(b)
        return a * b

    def opaque_product(self, fs, ax):
        """Indicators stay interpreted; the remaining product is opaque."""
        inds = [f for f in fs if f[1].op == "ind"]
        rest = [f for f in fs if f[1].op != "ind"]
        if not rest:
            z = z3.And(*[self.b(f[1].args[0], ax) for f in inds])
            return z3.If(z, z3.IntVal(1), z3.IntVal(0))
        if len(rest) == 1:
            z = rest[0][0]
        else:
            rest = sorted(rest, key=lambda f: f[0].sexpr())
            all_int = all(f[0].sort() == z3.IntSort() for f in rest)
            so = z3.IntSort() if all_int else z3.RealSort()
            zs = [f[0] if f[0].sort() == so else z3.ToReal(f[0]) for f in rest]
            g = self.fn(f"mul{len(zs)}", *([so] * (len(zs) + 1)))
            z = g(*zs)
            pos = [T.mono_sign(((f[1], f[2]),)) for f in rest]
            if all(pos):
                ax.append(z > 0 if all(q == "+" for q in pos) else z >= 0)
            else:
                # sign rule for products
                if len(zs) == 2:
                    p, q = zs
                    ax.append(z3.Implies(z3.And(p > 0, q > 0), z > 0))
                    ax.append(z3.Implies(z3.And(p >= 0, q >= 0), z >= 0))
        if inds:
            c = z3.And(*[self.b(f[1].args[0], ax) for f in inds])
            zero = z3.IntVal(0) if z.sort() == z3.IntSort() else z3.RealVal(0)
            z = z3.If(c, z, zero)
        return z

    def apow(self, a: A, e, ax):
        if e == 1:
            return self.atom(a, ax)
        if isinstance(e, Fr) and e.denominator == 1 and e > 0 and not self.linear:
            z = self.atom(a, ax)
            r = z
            for _ in range(int(e) - 1):
                r = r * z
            return r
        base = self.atom(a, ax)
        if isinstance(e, Fr) and e == -1 and not self.linear:
            b = z3.ToReal(base) if base.sort() == z3.IntSort() else base
            r = self.fn("recip", z3.RealSort(), z3.RealSort())(b)
            ax.append(z3.Implies(b != 0, r * b == 1))
            ax.append(z3.Implies(b > 0, r > 0))
            return r
        b = z3.ToReal(base) if base.sort() == z3.IntSort() else base
        so = z3.RealSort()
        intres = base.sort() == z3.IntSort() and isinstance(e, Fr) and e.denominator == 1 and e > 0
        if isinstance(e, N):
            ez = self.n(e, ax)
            ez = z3.ToReal(ez) if ez.sort() == z3.IntSort() else ez
            r = self.fn("spow", so, so, so)(b, ez)
        elif intres:
            r = self.fn(f"powi_{e}", z3.IntSort(), z3.IntSort())(base)
            if e.numerator % 2 == 0:
                ax.append(r >= 0)
            return r
        else:
            r = self.fn(f"pow_{e}", so, so)(b)
        ax.append(z3.Implies(b > 0, r > 0))
        if isinstance(e, Fr):
            if e.denominator == 1 and e.numerator % 2 == 0:
                ax.append(r >= 0)
                ax.append(z3.Implies(b != 0, r > 0))
            elif e > 0:
                ax.append(z3.Implies(b >= 0, r >= 0))
            if e > 0:
                ax.append(z3.Implies(b == 0, r == 0))
            if e == Fr(1, 2) and not self.linear:
                ax.append(z3.Implies(b >= 0, r * r == b))
            if e == -1:
                ax.append(z3.Implies(b < 0, r < 0))
        return r

    def atom(self, a: A, ax):
        op = a.op
        if op == "var":
            z = z3.Const(a.args[0], self.zsort(a.sort))
            if a not in self.bound and ("v", a) not in self.local:
                self.local.add(("v", a))
                ax.extend(self.range_of(a, z, ax))
            return z
        if op == "app":
            name, args = a.args
            zs = [self.any(x, ax) for x in args]
            f = self.fn("f_" + name, *[z.sort() for z in zs], self.zsort(a.sort))
            z = f(*zs) if zs else z3.Const("f_" + name, self.zsort(a.sort))
            s = T.atom_sign(a)
            if s:
                ax.append(z > 0 if s == "+" else z >= 0)
            info = T.FN_INFO[name]
            return z
        if op == "P":
            return self.n(a.args[0], ax)
        if op == "ind":
            return z3.If(self.b(a.args[0], ax), z3.IntVal(1), z3.IntVal(0))
        if op == "fdiv":
            x, y = (self.n(t, ax) for t in a.args)
            if self.linear or True:
                if z3.is_int(x) and z3.is_int(y):
                    q = self.fn("fdiv", z3.IntSort(), z3.IntSort(), z3.IntSort())(x, y)
                else:
                    x, y = (z3.ToReal(z) if z3.is_int(z) else z for z in (x, y))
                    q = self.fn("fdivr", z3.RealSort(), z3.RealSort(), z3.IntSort())(x, y)
                # x - y*q in [0, y) for y > 0, with y*q in normal form
                prod = self.n(a.args[1] * T.num(a), self._guard(ax, a)) if self._enter(a) else None
                if prod is not None:
                    ax.append(z3.Implies(y > 0, z3.And(x - prod >= 0, x - prod < y)))
                    ax.append(z3.Implies(z3.And(y >= 1, x >= 0), z3.And(q >= 0, q <= x)))
                    ax.append(z3.Implies(z3.And(y >= 1, x < 0), z3.And(q < 0, q >= x if z3.is_int(x) else q > x - 1)))
                    ax.append(z3.Implies(z3.And(y > 0, x >= y), q >= 1))
                    ax.append(z3.Implies(z3.And(y > 0, x <= -y), q <= -1))
                    ax.append(z3.Implies(z3.And(y > 1, x > 0), q < x))
                    self._leave(a)
                return q
        if op in ("max", "min"):
            x, y = (self.n(t, ax) for t in a.args)
            if x.sort() != y.sort():
                x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
            return z3.If(x >= y, x, y) if op == "max" else z3.If(x <= y, x, y)
        if op == "abs":
            x = self.n(a.args[0], ax)
            return z3.If(x >= 0, x, -x)
        if op == "sign":
            x = self.n(a.args[0], ax)
            return z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))
        if op in ("exp", "log", "sin", "cos"):
            x = self.n(a.args[0], ax)
            x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
            z = self.fn(op, z3.RealSort(), z3.RealSort())(x)
            if op == "exp":
                ax.append(z > 0)
                ax.append(z3.Implies(x == 0, z == 1))
            if op in ("sin", "cos"):
                ax.append(z3.And(z <= 1, z >= -1))
                ax.append(z3.Implies(x == 0, z == (0 if op == "sin" else 1)))
            return z
        if op == "fn1":
            x = self.n(a.args[1], ax)
            x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
            z = self.fn("fn1_" + a.args[0], z3.RealSort(), z3.RealSort())(x)
            if T.atom_sign(a) == "+":
                ax.append(z > 0)
            return z
        if op == "pi":
            z = z3.Real("pi")
            ax.append(z3.And(z > 3, z < 4))
            return z
        if op == "ipow":
            x, y = (self.n(t, ax) for t in a.args)
            x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
            y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
            z = self.fn("ipow", z3.RealSort(), z3.RealSort(), z3.RealSort())(x, y)
            if a.sort == "I":
                zi = self.fn("ipow_i", z3.RealSort(), z3.RealSort(), z3.IntSort())(x, y)
                ax.append(z3.Implies(z3.And(x >= 1, y >= 0), zi >= 1))
                return zi
            ax.append(z3.Implies(x > 0, z > 0))
            return z
        if op == "undef_inv0":
            return z3.Real("undef_inv0")
        # opaque: sum and friends
        return self.opaque(a, self.zsort(a.sort), ax)

    def range_of(self, a, z, ax):
        out = []
        info = T.VAR_INFO.get(a, {})
        if info.get("lo") is not None:
            out.append(z >= self.n(info["lo"], ax))
        if info.get("hi") is not None:
            out.append(z < self.n(info["hi"], ax))
        if info.get("sign") == "+":
            out.append(z > 0)
        elif info.get("sign") == "0+":
            out.append(z >= 0)
        return out

    def _enter(self, a):
        if a in self.busy:
            return False
        if ("fd", a) in self.local:
            return False
        self.local.add(("fd", a))
        self.busy.add(a)
        return True

    def _leave(self, a):
        self.busy.discard(a)

    def _guard(self, ax, a):
        return ax

    def opaque(self, x, sort, ax):
        try:
            sk, params = skeleton(x)
            name = f"op{sk.id}"
        except VerifierLimit:  # some function of its free variables
            params = [T.num(v) for v in sorted(x.fv, key=lambda a: a.id)]
            name = f"opx{x.id}"
        zs = [self.n(p, ax) for p in params]
        if not zs:
            z = z3.Const(f"{name}", sort)
        else:
            z = self.fn(name, *[q.sort() for q in zs], sort)(*zs)
        if isinstance(x, A) and x.op == "sum":
            s = T.atom_sign(x)
            if s:
                ax.append(z > 0 if s == "+" else z >= 0)
        return z

    def any(self, x, ax):
        if isinstance(x, N):
            return self.n(x, ax)
        if isinstance(x, L):
            return self.opaque(x, self.row, ax)
        if isinstance(x, A):
            return self.atom(x, ax)
        if isinstance(x, B):
            return self.b(x, ax)
        if isinstance(x, str):
            return z3.Const("str_" + x, self.row)
        raise VerifierLimit(f"smt: argument {type(x)}")

    # -- booleans
    def b(self, x: B, ax):
        op = x.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op in ("ge0", "gt0", "eq0"):
            z = self.n(x.args[0], ax)
            return z >= 0 if op == "ge0" else (z > 0 if op == "gt0" else z == 0)
        if op == "not":
            return z3.Not(self.b(x.args[0], ax))
        if op == "and":
            return z3.And(*[self.b(y, ax) for y in x.args])
        if op == "or":
            return z3.Or(*[self.b(y, ax) for y in x.args])
        if op == "pred":
            name, args = x.args
            zs = [self.any(y, ax) for y in args]
            f = self.fn("p_" + name, *[z.sort() for z in zs], z3.BoolSort())
            return f(*zs) if zs else z3.Const("p_" + name, z3.BoolSort())
        if op in ("forall", "exists"):
            vs = x.args[0]
            zv = [z3.Const(v.args[0], self.zsort(v.sort)) for v in vs]
            inner = []
            self.bound.extend(vs)
            saved = self.local
            self.local = set(saved)
            rng = []
            for v, z in zip(vs, zv):
                rng += self.range_of(v, z, inner)
            body = self.b(x.args[1], inner)
            self.local = saved
            del self.bound[-len(vs) :]
            # atoms' axioms inside the quantifier hold for all values: as hypotheses
            guard = z3.And(*rng) if rng else z3.BoolVal(True)
            names = {str(z) for z in zv}
            free_ax = []
            for q in inner:
                if _uses(q, names):
                    free_ax.append(q)
                else:
                    ax.append(q)
            if free_ax:
                ax.append(z3.ForAll(zv, z3.Implies(guard, z3.And(*free_ax))))
            if op == "forall":
                return z3.ForAll(zv, z3.Implies(guard, body))
            return z3.Exists(zv, z3.And(guard, body))
        raise VerifierLimit(f"smt: {op}")

    def start(self, linear):
        self.linear = linear
        self.local = set()
        self.busy = set()
        self.bound = []


def _uses(e, names, memo=None):
    if memo is None:
        memo = {}
    k = e.get_id()
    if k in memo:
        return memo[k]
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(e) in names:
        memo[k] = True
        return True
    r = any(_uses(c, names, memo) for c in e.children())
    memo[k] = r
    return r


# ----------------------------------------------------------------------- skeletons

_skel_cache: dict = {}


def _map_closed(x, f, bound):
    """Rebuild x, applying f to maximal closed numeric arguments of applications and
    to free variables elsewhere."""

    def go(y):
        if isinstance(y, N):
            if not y.fv:
                return y
            r = T.ZERO
            for mono, c in y.terms:
                t = T.num(c)
                for a, e in mono:
                    e2 = go(e) if isinstance(e, N) else e
                    t = t * T.power(goa(a), e2)
                r = r + t
            return r
        if isinstance(y, A):
            return goa(y)
        if isinstance(y, B):
            op, args = y.op, y.args
            if op in ("ge0", "gt0", "eq0"):
                return getattr(T, op)(go(args[0]))
            if op == "not":
                return T.bnot(go(args[0]))
            if op == "and":
                return T.band(*[go(z) for z in args])
            if op == "or":
                return T.bor(*[go(z) for z in args])
            if op == "pred":
                return T.pred(args[0], *[arg(z) for z in args[1]])
            if op in ("true", "false"):
                return y
            raise VerifierLimit("skeleton of quantifier")
        if isinstance(y, L):
            h = y.body.height + 1
            rs = [go(r) for r in y.ranges]
            vs = [T.index_var(r, "l") for r in rs]
            body = T.subst(y.body, {T.the_var(T.bv(h, j)): v for j, v in enumerate(vs)})
            bound.extend(T.the_var(v) for v in vs)
            body2 = go(body)
            del bound[-len(vs) :]
            return T.lam(vs, rs, body2)
        return y

    def arg(z):
        if isinstance(z, N) and z.fv and not (z.fv & set(bound)):
            return f(z)
        return go(z)

    def goa(a):
        if not a.fv:
            return T.num(a)
        if a.op == "var":
            if a in bound:
                return T.num(a)
            return f(T.num(a))
        if a.op == "app":
            return T.app(a.args[0], *[arg(z) for z in a.args[1]])
        if a.op == "sum":
            bvs, body = T.open_sum(a)
            nb = [(v, go(r)) for v, r in bvs]
            bound.extend(v for v, _ in bvs)
            body2 = go(body)
            del bound[-len(bvs) :]
            return T.sum_(nb, body2)
        if a.op == "P":
            return go(a.args[0])
        return T.rebuild_atom(a, go)

    return go(x)


def skeleton(x):
    r = _skel_cache.get(x)
    if r is not None:
        return r
    params = []
    ph = {}

    def f(t):
        if t not in ph:
            v = T.var(f"%{len(ph)}{'i' if t.sort == 'I' else 'r'}", t.sort)
            ph[t] = v
            params.append(t)
        return ph[t]

    saved = T.DECIDE
    T.DECIDE = None
    try:
        sk = _map_closed(x, f, [])
        sk = _as_node(sk)
        if 1 < len(params) <= 3:
            import itertools

            best = None
            for perm in itertools.permutations(range(len(params))):
                m = {}
                ok = True
                for new, old in enumerate(perm):
                    t = params[old]
                    m[T.the_var(ph[t])] = T.var(f"%{new}{'i' if t.sort == 'I' else 'r'}", t.sort)
                s2 = _as_node(T.subst(sk, m)) if sk.fv else sk
                if best is None or s2.id < best[0].id:
                    best = (s2, [params[o] for o in perm])
            sk, params = best
    finally:
        T.DECIDE = saved
    _skel_cache[x] = (sk, params)
    return sk, params


def _as_node(x):
    return x


# --------------------------------------------------------------------- entry points

CTX = Ctx()
SCALE = [1.0]  # solver time limits are multiplied by this when a group is tried again


def _z3_check(goal_neg, facts, linear, ms, quantified=True):
    tr = CTX.tr
    tr.start(linear)
    ax = []
    zs = []
    for f in facts:
        if not quantified and _has_quant(f):
            continue
        zs.append(tr.b(f, ax))
    g = tr.b(goal_neg, ax)
    s = z3.Solver()
    s.set("timeout", int(ms * SCALE[0]))
    s.set("random_seed", 1)
    for z in zs:
        s.add(z)
    for z in ax:
        s.add(z)
    s.add(g)
    t0 = time.time()
    r = s.check()
    Stat.z3_calls += 1
    Stat.z3_time += time.time() - t0
    return r, s


_quant_cache = {}


def _has_quant(b):
    r = _quant_cache.get(b)
    if r is None:
        r = b.op in ("forall", "exists") or any(
            isinstance(c, B) and _has_quant(c) for c in b.args
        )
        _quant_cache[b] = r
    return r


def _vars_closure(b):
    seen = set()
    todo = list(b.fv)
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        info = T.VAR_INFO.get(v, {})
        for k in ("lo", "hi"):
            if info.get(k) is not None:
                todo.extend(info[k].fv)
    return seen


def _relevant(b):
    """Quantifier-free facts connected to b through shared variables."""
    vs = _vars_closure(b)
    pool = [f for f, _ in CTX.facts if not _has_quant(f)]
    out = []
    changed = True
    while changed:
        changed = False
        for f in pool:
            if f in out:
                continue
            if not f.fv or (f.fv & vs):
                out.append(f)
                vs |= _vars_closure(f)
                changed = True
    return out


_patterns_cache = {}


def _patterns(f):
    """Trigger atoms of a universally quantified fact: single applications with all bound variables as plain arguments."""
    if f in _patterns_cache:
        return _patterns_cache[f]
    vs, body = f.args
    pats = []
    for a in T.atoms_in(body, lambda a: a.op == "app"):
        got = set()
        for z in a.args[1]:
            if isinstance(z, N) and len(z.terms) == 1 and z.terms[0][1] == 1 and len(z.terms[0][0]) == 1:
                v, e = z.terms[0][0][0]
                if e == 1 and v in vs:
                    got.add(v)
        if got == set(vs):
            pats.append(a)
    _patterns_cache[f] = pats
    return pats


def _foralls():
    out = []
    for f, _ in CTX.facts:
        stack = [f]
        while stack:
            g = stack.pop()
            if g.op == "and":
                stack.extend(g.args)
            elif g.op == "forall":
                out.append(g)
    return out


def instances(bs, limit=24):
    """Ground instances of the quantified facts suggested by the applications in bs."""
    out = []
    done = set()
    apps = {}
    for b in bs:
        for a in T.atoms_in(b, lambda a: a.op == "app" and not any(v.args[0][0] in "#%" for v in a.fv)):
            apps.setdefault(a.args[0], set()).add(a)
    if not apps:
        return out
    for f in _foralls():
        vs, body = f.args
        for pat in _patterns(f):
            for a in sorted(apps.get(pat.args[0], ()), key=lambda t: t.id):
                if len(a.args[1]) != len(pat.args[1]):
                    continue
                m = {}
                ok = True
                for zp, za in zip(pat.args[1], a.args[1]):
                    if isinstance(zp, N) and len(zp.terms) == 1 and len(zp.terms[0][0]) == 1 and zp.terms[0][1] == 1 and zp.terms[0][0][0][0] in vs and zp.terms[0][0][0][1] == 1:
                        v = zp.terms[0][0][0][0]
                        if v in m and m[v] is not za:
                            ok = False
                            break
                        m[v] = za
                    elif zp is not za:
                        ok = False
                        break
                if not ok or any(not isinstance(z, N) for z in m.values()):
                    continue
                key = (f, tuple(sorted((v.id, z.id) for v, z in m.items())))
                if key in done:
                    continue
                done.add(key)
                g = []
                for v, z in m.items():
                    i = T.VAR_INFO[v]
                    if i["lo"] is not None:
                        g.append(T.ge0(z - T.subst(T.num(i["lo"]), m)))
                    if i["hi"] is not None:
                        g.append(T.ge0(T.subst(T.num(i["hi"]), m) - z))
                out.append(T.implies(T.band(*g), T.subst(body, m)))
                if len(out) >= limit:
                    return out
    return out


_in_decide = [0]


def decide(b: B):
    """True / False / None (unknown), quantifier-free and fast."""
    if b.op == "true":
        return True
    if b.op == "false":
        return False
    if any(v.args[0].startswith("#") or v.args[0].startswith("%") for v in b.fv):
        return None
    key = b
    if key in CTX.cache:
        return CTX.cache[key]
    for f, _ in CTX.facts:
        if f is b:
            CTX.cache[key] = True
            return True
    nb = T.bnot(b)
    for f, _ in CTX.facts:
        if f is nb:
            CTX.cache[key] = False
            return False
    if _in_decide[0] > 2 or _has_quant(b):
        return None
    Stat.decide_calls += 1
    _in_decide[0] += 1
    try:
        facts = _relevant(b)
        inst = instances([b])
        if inst:
            facts = facts + inst + [g for x in inst for g in _relevant(x) if g not in facts]
        res = None
        try:
            for lin in (True, False):
                r, _ = _z3_check(nb, facts, lin, QUICK_MS)
                if r == z3.unsat:
                    res = True
                    break
                r, _ = _z3_check(b, facts, lin, QUICK_MS)
                if r == z3.unsat:
                    res = False
                    break
        except VerifierLimit:
            res = None
    finally:
        _in_decide[0] -= 1
    CTX.cache[key] = res
    return res


T.DECIDE = decide


class Outcome:
    def __init__(self, ok, how, detail=""):
        self.ok, self.how, self.detail = ok, how, detail

    def __bool__(self):
        return self.ok


def prove(goal: B, ms=PROVE_MS, depth=0, extra=()) -> Outcome:
    mark = CTX.mark()
    try:
        for f in extra:
            CTX.assume(f, "hint")
        return _prove(goal, ms, depth)
    finally:
        CTX.rewind(mark)


def _prove(goal, ms, depth):
    if goal.op == "true":
        Stat.normal += 1
        return Outcome(True, "normal-form")
    for f, _ in CTX.facts:
        if f is goal:
            return Outcome(True, "hypothesis")
    if goal.op == "false":
        return _by_z3(goal, min(ms, 4000))
    if goal.op == "and":
        how = set()
        for g in goal.args:
            o = prove(g, ms, depth)
            if not o:
                return o
            how.add(o.how)
        return Outcome(True, "+".join(sorted(how)))
    if goal.op == "forall":
        # skolemise
        ren = {}
        for v in goal.args[0]:
            i = T.VAR_INFO[v]
            ren[v] = T.fresh("sk", i["sort"], i["lo"], i["hi"], i["sign"])
        return prove(T.subst(goal.args[1], ren), ms, depth)
    if goal.op == "or":
        # P -> Q: assume negations of the atomic disjuncts, prove a quantified one
        qs = [g for g in goal.args if g.op == "forall"]
        if qs:
            mark = CTX.mark()
            for g in goal.args:
                if g is not qs[0]:
                    CTX.assume(T.bnot(g), "case")
            try:
                return prove(qs[0], ms, depth)
            finally:
                CTX.rewind(mark)
    if goal.op == "eq0":
        o = prove_zero(goal.args[0], ms, depth)
        if o:
            return o
    return _by_z3(goal, ms)


LINEAR_FIRST = ((True, False, 0.25), (True, True, 1), (False, True, 1))
NONLINEAR_FIRST = ((True, False, 0.05), (False, True, 1), (True, True, 1))
PHASES = [LINEAR_FIRST]


def _by_z3(goal, ms):
    ng = T.bnot(goal)
    facts = [f for f, _ in CTX.facts]
    last = None
    for lin, quant, t in [(lin, quant, int(ms * f)) for lin, quant, f in PHASES[0]]:
        try:
            r, s = _z3_check(ng, facts, lin, max(200, t), quant)
        except z3.Z3Exception as e:  # pragma: no cover
            raise VerifierLimit(f"z3: {e}")
        if r == z3.unsat:
            return Outcome(True, "z3" + ("" if lin else "-nonlinear") + ("+quantifiers" if quant else ""))
        last = (r, s)
    d = ""
    if last and last[0] == z3.sat:
        try:
            d = str(last[1].model())[:1500]
        except z3.Z3Exception:
            d = ""
    return Outcome(False, f"z3 answered {last[0]}", d)


def simplify_inds(p: N) -> N:
    """Decide surface indicators under the current facts."""
    inds = T.atoms_in(p, lambda a: a.op == "ind" and not any(v.args[0].startswith("#") for v in a.fv))
    for a in inds:
        if not T._contains(p, a):
            continue
        r = decide(a.args[0])
        if r is True:
            p = T.replace_atom(p, a, T.ONE)
        elif r is False:
            p = T.replace_atom(p, a, T.ZERO)
    return p


def renormal(p: N) -> N:
    """Re-run normalisation of sums under the current facts."""
    return T.subst(p, {})


def prove_zero(p: N, ms=PROVE_MS, depth=0) -> Outcome:
    p = simplify_inds(p)
    if not p.terms:
        return Outcome(True, "normal-form")
    q = T.clear_powers(p)
    if not q.terms:
        return Outcome(True, "normal-form")
    # case split on a surface indicator
    inds = T.atoms_in(
        q, lambda a: a.op == "ind" and not any(v.args[0].startswith("#") for v in a.fv)
    )
    inds = [a for a in inds if T._contains(q, a)]
    if inds and depth < 14:
        a = min(inds, key=lambda t: (t.height, t.id))
        for cond, val in ((a.args[0], T.ONE), (T.bnot(a.args[0]), T.ZERO)):
            mark = CTX.mark()
            try:
                r = decide(cond)
                if r is False:
                    continue
                CTX.assume(cond, "case")
                sub = T.replace_atom(q, a, val)
                if cond.op == "eq0":
                    sub = use_equality(sub, cond.args[0])
                o = prove_zero(sub, ms, depth + 1)
                if not o:
                    return o
            finally:
                CTX.rewind(mark)
        return Outcome(True, "normal-form+cases")
    # use equational facts to eliminate variables
    if depth < 14:
        return _by_z3_eq(q, ms)
    return Outcome(False, "case-split limit", repr(q)[:400])


def use_equality(p: N, e: N) -> N:
    """Substitute a variable using e == 0 when e is linear in one with unit coefficient."""
    cands = []
    for mono, c in e.terms:
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "var" and abs(c) == 1:
            v = mono[0][0]
            if v.args[0].startswith("#"):
                continue
            lin = T.linear_in(e, v)
            if lin is not None:
                cands.append((v, lin[1].scale(-1 / lin[0])))
    if cands:
        v, t = max(cands, key=lambda vt: vt[0].id)
        return T.subst(p, {v: t})
    # single application atom
    for mono, c in e.terms:
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "app" and abs(c) == 1:
            a = mono[0][0]
            rest = (e - T._nfrom(mono, c)).scale(-1 / c)
            if not T._contains(rest, a):
                return T.replace_atom(p, a, rest)
    return p


def _by_z3_eq(p, ms):
    o = _by_z3(T.eq0(p), ms)
    if not o:
        o.detail = "residual: " + repr(p)[:600] + ("\n" + o.detail if o.detail else "")
    return o
