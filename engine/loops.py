"""Loops: jax.lax.scan / fori_loop / while_loop / map on symbolic states.

The carry of a loop is described by *trace functions*: for every leaf a function of the
iteration t (and the element index) giving its value before iteration t.  The body is
executed once, for a universally quantified t.  From that single execution each leaf is
given the strongest form the engine can justify by induction:

const     post == pre                                       state(t) = init
fresh     post does not depend on the carry                 state(t) = t == 0 ? init : post(t - 1)
acc       post - pre does not depend on the carry           state(t) = init + sum_{s<t} delta(s)
flag      flag' == flag or e, e independent of the carry    flag(t)  = flag0 or exists s<t. e(s)
hist      post == pre except at position t of one axis      state(t)(j) = j < t ? V(j) : init(j)
mark      post == pre except a constant where h(t, j)       state(t)(j) = (exists s<t. h(s, j)) ? c : init(j)
trace     anything else: state(0) = init, state(t+1) = post(state(t)) are recorded as facts

V(t) (the value written in iteration t) is a new function whose definition V(t) = W(t) is
recorded as a fact for every t.  Independence "of the carry" means: of the trace
functions of leaves that are still in trace form.  The other forms are re-checked with
the next execution until nothing changes.
"""
from __future__ import annotations

import itertools

import jax.tree_util as real_jtu

from . import terms as T, tensor as Z, prover as P
from .prover import CTX, decide
from .tensor import BOOL, F32, I32, KEY, ST, SV, as_st, to_b, to_num
from .terms import A, B, N, X, VerifierLimit

UNROLL = 4
_cnt = itertools.count(1)
LOOPS: list = []  # records, for the specifications
INVARIANTS: list = []  # callables(record) -> [(name, fn(state_leaves, t) -> B)]


class Leaf:
    def __init__(self, init: ST, tag):
        self.init = init
        self.dims = init.dims
        self.dtype = init.dtype
        self.name = f"c{tag}"
        self.kind = "trace"
        self.ext = isinstance(init.body, X)
        self.flags = {"pinf": "trace", "ninf": "trace", "nan": "trace"}
        self.data = {}
        self.flagdata = {}
        self._declare()

    def _declare(self):
        s = "I" if self.dtype.kind == "i" else "R"
        T.declare_fn(self.name, s)

    def trace_names(self):
        out = []
        if self.dtype.kind == "b" or self.kind == "trace":
            out.append(self.name)
        if self.ext:
            for f in ("pinf", "ninf", "nan"):
                if self.flags[f] == "trace":
                    out.append(self.name + "_" + f)
        return out

    def value(self, t, idx):
        """State before iteration t at element idx."""
        t = T.num(t)
        init = self.init.get(*idx)
        if self.dtype.kind == "b":
            return self._bool(self.kind, self.data, self.name, t, idx, to_b(init))
        iv = T.asx(init).v if self.ext else init
        v = self._num(t, idx, iv)
        if not self.ext:
            return v
        ix = T.asx(init)
        fl = []
        for f in ("pinf", "ninf", "nan"):
            fl.append(self._bool(self.flags[f], self.flagdata.get(f), self.name + "_" + f, t, idx, getattr(ix, f)))
        return T.mkx(v, *fl)

    def _bool(self, kind, data, name, t, idx, init):
        if kind == "const":
            return init
        if kind == "trace":
            return T.pred(name, t, *idx)
        if kind == "fresh":
            return T.bite(T.eq0(t), init, data["f"](t - 1, idx))
        if kind == "or":
            s = T.index_var(t, "s")
            return T.bor(init, T.exists([s], data["f"](s, idx)))
        raise AssertionError(kind)

    def _num(self, t, idx, init):
        k, d = self.kind, self.data
        if k == "const":
            return init
        if k == "trace":
            return T.app(self.name, t, *idx)
        if k == "fresh":
            return T.ite(T.eq0(t), init, d["f"](t - 1, idx))
        if k == "acc":
            s = T.index_var(t, "s")
            return init + T.sum_([(s, t)], d["f"](s, idx))
        if k == "hist":
            j = T.num(idx[d["axis"]])
            o = d.get("off", 0)
            if o:  # o == 1: element 0 is never written
                keep = self.init.get(*[T.ZERO if k == d["axis"] else x for k, x in enumerate(idx)])
                return T.ite(T.eq(j, T.ZERO), T.asx(keep).v if self.ext else keep, T.ite(T.lt(j, t + o), d["f"](j - o, idx), init))
            return T.ite(T.lt(j, t), d["f"](j, idx), init)
        if k == "hist2":
            j = T.num(idx[d["axis"]])
            return T.ite(T.lt(j, t), d["f"](j, idx), T.ite(T.eq(j, t), d["g"](j, idx), init))
        if k == "mark":
            return T.ite(d["h"](t, idx), d["c"], init)
        raise AssertionError(k)

    def state(self, t):
        vs = [T.index_var(x, "t") for x in self.dims]
        return ST(self.dims, vs, self.value(t, vs), self.dtype)


def _mentions_any(x, names):
    if not names:
        return False
    return bool(_fn_names(x) & names)


_fn_cache: dict = {}


def _fn_names(x):
    """Names of functions / predicates occurring in a term (memoised)."""
    if isinstance(x, X):
        return _fn_names(x.v) | _fn_names(x.pinf) | _fn_names(x.ninf) | _fn_names(x.nan)
    k = x
    if k in _fn_cache:
        return _fn_cache[k]
    out = set()
    if isinstance(x, N):
        for m, _ in x.terms:
            for a, e in m:
                out |= _fn_names(a)
                if isinstance(e, N):
                    out |= _fn_names(e)
    elif isinstance(x, A):
        if x.op == "app":
            out.add(x.args[0])
        for c in T._children(x.args):
            out |= _fn_names(c)
    elif isinstance(x, T.L):
        out |= _fn_names(x.body)
    elif isinstance(x, B):
        if x.op == "pred":
            out.add(x.args[0])
        for c in T._children(x.args):
            out |= _fn_names(c)
    r = frozenset(out)
    _fn_cache[k] = r
    return r


class Record:
    def __init__(self, kind, n, t):
        self.kind, self.n, self.t = kind, n, t
        self.leaves = []
        self.pre = []
        self.post = []
        self.hist = []  # (leaf, V name, W term)
        self.facts = []

    def state(self, k, t):
        return self.leaves[k].state(t)


def _fun_of(term, t, vs):
    """term(t, idx) as a function."""
    tv = T.the_var(t)
    vv = [T.the_var(v) for v in vs]

    def f(s, idx):
        return T.subst(term, {tv: T.num(s), **{v: T.num(i) for v, i in zip(vv, idx)}})

    return f


class LoopContract:
    """A loop invariant stated by the specification.

    bind(kind, n, init) -> a description of the state the invariant needs, or None when the loop is not the one meant;
    inv(bound, t, state) -> [(label, B)]; before(bound, t, pre) / after(bound, t, pre, post) may apply lemmas and state
    goals about one iteration.  The state is havocked, constrained by the invariant only, and the real body
    is executed once from it; the loop's result is again an arbitrary state satisfying the invariant."""

    def __init__(self, E, bind, inv, before=None, after=None, define=None, finite=None, abbr=(14, 24, 24), simp=True, given=None):
        self.simp = simp
        self.abbr = abbr  # sizes above which conditions / values / values of extended reals get a name
        # finite(bound) -> {position: flags that are never raised}, proved like the rest of the invariant
        self.finite = finite or (lambda bound: {})
        self.E, self.bind, self.inv, self.before, self.after = E, bind, inv, before, after
        self.define = define or (lambda bound, t: {})  # leaves with a closed form: {position: array before iteration t}
        # given(bound): as finite, but a hypothesis on the iteration considered (the step assertions are conditional on it)
        self.given = given or (lambda bound: {})
        self.used = 0


class SameLoop:
    """Relational contract: every execution of the loop matched starts from the same state and one iteration from a common
    arbitrary state gives the same state, so all executions end in the same state (induction over the iterations)."""

    count = 0

    def __init__(self, E, match, abbr=(6, 8, 8), simp=False):
        self.E, self.match = E, match
        self.abbr, self.simp = abbr, simp
        self.reset()

    def reset(self):
        SameLoop.count += 1
        self.name = f"same{SameLoop.count}"
        self.runs, self.t, self.n, self.ext, self.memo = [], None, None, None, {}

    def bind(self, kind, n, init):
        return self if self.match(kind, n, init) else None


def _run_same(c, kind, n, init, step):
    E = c.E
    init = [as_st(x) for x in init]
    if c.n is None:
        c.n, c.t = n, T.index_var(n, "lp")
    elif not Z.same_dim(n, c.n):
        E.fail("the executions have the same number of iterations", f"{n!r} and {c.n!r}"[:200])
    t = c.t
    ext = c.ext or [isinstance(x.body, X) for x in init]
    mark = CTX.mark()
    from .tensor import Paths

    for rnd in range(3):
        CTX.rewind(mark)
        pre = [_Havoc(x, f"{c.name}_{k}{'x' if e else ''}", e).state() for k, (x, e) in enumerate(zip(init, ext))]
        npos = Paths.pos
        Z.CTX_ID[0] += 1
        Z.NAMED[0], Z.MEMO[0] = True, c.memo
        Z.ABBR[:] = c.abbr
        Z.SIMP[0] = c.simp
        try:
            post, ys = step(t, pre)
        finally:
            Z.NAMED[0], Z.MEMO[0] = False, None
        if Paths.pos != npos or ys:
            raise VerifierLimit("undetermined condition or stacked output in a loop body")
        post = [as_st(p) for p in post]
        e2 = [e or (isinstance(q.body, X) and q.dtype.kind == "f") for e, q in zip(ext, post)]
        if e2 == ext:
            break
        ext = e2
    if c.ext is not None and c.ext != ext:
        raise VerifierLimit("the executions differ in where non-finite values can arise")
    c.ext = ext
    if c.runs:
        i0, p0 = c.runs[0]
        if len(i0) != len(init):
            E.fail("the executions have the same state", f"{len(init)} and {len(i0)} components")
        for k, (a, b) in enumerate(zip(init, i0)):
            E.same(f"both executions start from the same state ({k})", a, b)
        for k, (a, b) in enumerate(zip(post, p0)):
            E.same(f"an iteration from a common state gives the same state ({k})", a, b)
    CTX.rewind(mark)
    c.runs.append((init, post))
    final = [_Havoc(x, f"{c.name}_end_{k}{'x' if e else ''}", e).state() for k, (x, e) in enumerate(zip(init, ext))]
    return final, [], t, Record(kind, n, t)


LOOP_CONTRACTS: list = []


class _Havoc:
    def __init__(self, like: ST, name, ext, off=()):
        self.dims, self.dtype, self.name, self.ext, self.off = like.dims, like.dtype, name, ext, off
        if self.dtype.kind != "b":
            T.declare_fn(name, "I" if self.dtype.kind == "i" else "R")

    def state(self):
        vs = [T.index_var(d, "h") for d in self.dims]
        if self.dtype.kind == "b":
            b = T.pred(self.name, *vs)
        else:
            b = T.app(self.name, *vs) if vs else T.app(self.name, T.ZERO)
            if self.ext:
                b = T.mkx(b, *[T.FALSE if f in self.off else T.pred(self.name + "_" + f, *(vs or [T.ZERO])) for f in ("pinf", "ninf", "nan")])
        return ST(self.dims, vs, b, self.dtype)


def _run_contract(c, bound, kind, n, init, step):
    E = c.E
    c.used += 1
    init = [as_st(x) for x in init]
    tag = next(_cnt)
    def defined(t, state, hyp):
        d = c.define(bound, t)
        if hyp:
            return [d.get(k, x) for k, x in enumerate(state)]
        for k, off in c.finite(bound).items():
            vs = [T.index_var(e, "e") for e in state[k].dims]
            x = T.asx(to_num(state[k].get(*vs)))
            E.prove(f"loop invariant {hyp_label[0]}: state {k} has no {'/'.join(off)}", T.band(*[T.bnot(getattr(x, f)) for f in off]))
        for k, x in d.items():
            E.same(f"loop invariant {hyp_label[0]}: closed form of state {k}", state[k], x)
        return state

    off = c.finite(bound)
    given = {**off, **c.given(bound)}
    hyp_label = ["holds initially"]
    defined(T.ZERO, init, False)
    for lab, g in c.inv(bound, T.ZERO, init):
        E.prove(f"loop invariant holds initially: {lab}", g)
    hyp_label[0] = "is preserved"
    t = T.index_var(n, "lp")
    ext = [isinstance(x.body, X) for x in init]
    mark = CTX.mark()
    from .tensor import Paths

    for rnd in range(3):
        CTX.rewind(mark)
        pre = [_Havoc(x, f"h{tag}_{rnd}_{k}", e, given.get(k, ())).state() for k, (x, e) in enumerate(zip(init, ext))]
        pre = defined(t, pre, True)
        for lab, g in c.inv(bound, t, pre):
            CTX.assume(g, f"loop invariant: {lab}")
        if c.before:
            c.before(bound, t, pre)
        npos = Paths.pos
        Z.NAMED[0] = True
        Z.CTX_ID[0] += 1
        Z.ABBR[:] = c.abbr
        Z.SIMP[0] = c.simp
        try:
            post, ys = step(t, pre)
        finally:
            Z.NAMED[0] = False
        if Paths.pos != npos:
            raise VerifierLimit("undetermined condition inside a loop body")
        post, ys = [as_st(p) for p in post], [as_st(y) for y in ys]
        e2 = [e or (isinstance(q.body, X) and q.dtype.kind == "f") for e, q in zip(ext, post)]
        if e2 == ext:
            break
        ext = e2
    if ys:
        raise VerifierLimit("stacked outputs of a loop under contract")
    if len(post) != len(pre):
        raise TypeError("loop body returned a different carry structure")
    for a, b in zip(pre, post):
        if len(a.dims) != len(b.dims) or not all(Z.same_dim(p, q) for p, q in zip(a.dims, b.dims)):
            raise TypeError("loop carry changed its shape")
    if P.prove(T.FALSE, ms=400):
        E.vacuous.append("the invariant of a loop and the contracts used in its body")
    if c.after:
        c.after(bound, t, pre, post)
    defined(t + 1, post, False)
    for lab, g in c.inv(bound, t + 1, post):
        E.prove(f"loop invariant is preserved: {lab}", g)
    CTX.rewind(mark)
    final = [_Havoc(x, f"f{tag}_{k}", e, off.get(k, ())).state() for k, (x, e) in enumerate(zip(init, ext))]
    final = defined(n, final, True)
    for lab, g in c.inv(bound, n, final):
        CTX.assume(g, f"loop invariant: {lab}")
    rec = Record(kind, n, t)
    rec.pre, rec.post = pre, post
    return final, [], t, rec


def run(kind, n, init_leaves, step, cond=None):
    """step(t, carry leaves) -> (new carry leaves, y leaves).  Returns (final leaves, ys at t, t)."""
    for c in LOOP_CONTRACTS:
        bound = c.bind(kind, n, [as_st(x) for x in init_leaves])
        if isinstance(bound, SameLoop):
            return _run_same(c, kind, n, init_leaves, step)
        if bound is not None:
            return _run_contract(c, bound, kind, n, init_leaves, step)
    tag = next(_cnt)
    rec = Record(kind, n, None)
    rec.leaves = [Leaf(as_st(x), f"{tag}_{k}") for k, x in enumerate(init_leaves)]
    t = T.index_var(n, "lp")
    rec.t = t
    mark = CTX.mark()
    for rnd in range(9):
        CTX.rewind(mark)
        pre = [l.state(t) for l in rec.leaves]
        from .tensor import Paths

        npos = Paths.pos
        post, ys = step(t, pre)
        if Paths.pos != npos:
            raise VerifierLimit("undetermined condition inside a loop body")
        post = [as_st(p) for p in post]
        ys = [as_st(y) for y in ys]
        if len(post) != len(pre):
            raise TypeError("loop body returned a different carry structure")
        for a, b in zip(pre, post):
            if len(a.dims) != len(b.dims):
                raise TypeError("loop carry changed its shape")
            for p, q in zip(a.dims, b.dims):
                if not Z.same_dim(p, q):
                    raise TypeError("loop carry changed its shape")
        changed = _infer(rec, t, pre, post, ys)
        if not changed:
            break
    else:
        raise VerifierLimit("loop forms do not settle")
    rec.pre, rec.post = pre, post
    # definitions of what is left
    for l, q in zip(rec.leaves, post):
        _define(rec, l, t, q)
    rec.facts = [f for f, _ in CTX.facts[mark:]]
    _houdini(rec, t, n)
    LOOPS.append(rec)
    final = [l.state(n) for l in rec.leaves]
    return final, ys, t, rec


def _same_x(a, b):
    if isinstance(a, X) or isinstance(b, X):
        a, b = T.asx(a), T.asx(b)
        return a.v is b.v and a.pinf is b.pinf and a.ninf is b.ninf and a.nan is b.nan
    return a is b


def _all_traces(rec):
    s = set()
    for l in rec.leaves:
        s.update(l.trace_names())
    return frozenset(s)


def _infer(rec, t, pre, post, ys):
    changed = False
    tv = T.the_var(t)
    # 1. extended values
    for l, q in zip(rec.leaves, post):
        if isinstance(q.body, X) and not l.ext and l.dtype.kind == "f":
            l.ext = True
            l.kind = "trace"
            changed = True
    if changed:
        return True
    # 2. history leaves first: their written value names the selected index
    for l, q in zip(rec.leaves, post):
        if l.kind == "trace" and l.dtype.kind in "if" and not l.ext and l.dims:
            if _infer_hist(rec, l, t, q):
                changed = True
    if changed:
        return True
    # replace the definition of V(t) by V(t) where it is a single atom
    for h in rec.hist:
        l = h["leaf"]
        w = h["current"](rec, post[rec.leaves.index(l)], t)
        h["W"] = w
        if w is not None and isinstance(w, N) and len(w.terms) == 1 and w.terms[0][1] == 1 and len(w.terms[0][0]) == 1 and w.terms[0][0][0][1] == 1:
            a = w.terms[0][0][0][0]
            if a.op == "app" and a.args[0] != h["V"] and tv in a.fv and not (a.fv & h["bound"]):
                v = T.app(h["V"], t)
                if not h["extra"]:
                    _replace_everywhere(a, v, post, ys)
    _name_selected(rec, t, post, ys)
    names = _all_traces(rec)
    for l, q in zip(rec.leaves, post):
        vs = [T.index_var(d, "t") for d in l.dims]
        pb = l.value(t, vs)
        qb = q.get(*vs)
        if l.dtype.kind == "b":
            if l.kind == "trace":
                changed |= _infer_flag(l, None, t, vs, pb, to_b(qb), names)
            continue
        if l.kind == "trace":
            pv = T.asx(pb).v if l.ext else pb
            qv = T.asx(qb).v if l.ext else to_num(qb)
            if isinstance(qv, X):
                raise VerifierLimit("non-finite loop state")
            changed |= _infer_num(rec, l, t, vs, pv, qv, names)
        if l.ext:
            px, qx = T.asx(pb), T.asx(qb)
            for f in ("pinf", "ninf", "nan"):
                if l.flags[f] == "trace":
                    changed |= _infer_flag(l, f, t, vs, getattr(px, f), getattr(qx, f), names)
    return changed


def _replace_everywhere(a, v, post, ys):
    for arr in (post, ys):
        for k, q in enumerate(arr):
            arr[k] = ST(q.dims, q.vars, _rep(q.body, a, v), q.dtype)
    CTX.facts[:] = [(_rep(f, a, v), lab) for f, lab in CTX.facts]
    CTX.version += 1
    CTX.cache = {}


def _rep(x, a, v):
    if isinstance(x, X):
        return T.mkx(*[_rep(z, a, v) for z in (x.v, x.pinf, x.ninf, x.nan)])
    return T.replace_atom(x, a, v)


def _infer_flag(l, f, t, vs, p, q, names):
    def put(kind, data=None):
        if f is None:
            l.kind, l.data = kind, data or {}
        else:
            l.flags[f], l.flagdata[f] = kind, data
        return True

    if p is q:
        return put("const")
    if not _mentions_any(q, names):
        return put("fresh", dict(f=_fun_of(q, t, vs)))
    if q.op == "or" and any(x is p for x in q.args):
        e = T.bor(*[x for x in q.args if x is not p])
        if not _mentions_any(e, names):
            return put("or", dict(f=_fun_of(e, t, vs)))
    return False


def _infer_num(rec, l, t, vs, p, q, names):
    if p is q:
        l.kind, l.data = "const", {}
        return True
    own = names
    if not _mentions_any(q, own):
        l.kind, l.data = "fresh", dict(f=_fun_of(q, t, vs))
        return True
    d = q - p
    if not _mentions_any(d, own):
        l.kind, l.data = "acc", dict(f=_fun_of(d, t, vs))
        return True
    # q = a * p + c * (1 - a)
    pa = p.terms[0][0][0][0] if len(p.terms) == 1 and len(p.terms[0][0]) == 1 else None
    if pa is not None:
        q0 = T.replace_atom(q, pa, T.ZERO)
        q1 = T.replace_atom(q, pa, T.ONE)
        a = q1 - q0
        if not _mentions_any(a, own) and not _mentions_any(q0, own):
            c = _const_ratio(q0, T.ONE - a)
            if c is not None and (q - a * p - q0) is T.ZERO:
                h = T.eq0(a)
                r = _prefix_mark(h, t, vs)
                if r is not None:
                    l.kind, l.data = "mark", dict(h=r, c=c)
                else:
                    hf = _fun_of(h, t, vs)

                    def ex(tt, idx, hf=hf):
                        s = T.index_var(tt, "s")
                        return T.exists([s], hf(s, idx))

                    l.kind, l.data = "mark", dict(h=ex, c=c)
                return True
    return False


def _const_ratio(x, y):
    """c with x == c*y, constant."""
    if not y.terms:
        return None
    if not x.terms:
        return T.ZERO
    my, cy = y.terms[0]
    for m, c in x.terms:
        if m == my:
            r = c / cy
            if (x - y.scale(r)) is T.ZERO:
                return T.num(r)
    return None


def _prefix_mark(h, t, vs):
    """h(t, j) == (j in {a t, ..., a t + a - 1})  ->  prefix j < a t."""
    if len(vs) != 1:
        return None
    j = vs[0]
    alts = h.args if h.op == "or" else [h]
    offs = set()
    a = None
    for x in alts:
        if x.op != "eq0":
            return None
        lin = T.linear_in(x.args[0], T.the_var(j))
        if lin is None:
            return None
        co, rest = lin
        lt = T.linear_in((-rest).scale(1 / co), T.the_var(t))
        if lt is None:
            return None
        k, b = lt
        if b.const() is None or (a is not None and a != k):
            return None
        a = k
        offs.add(b.const())
    if a is None or a <= 0 or offs != {T.Fr(i) for i in range(int(a))}:
        return None
    return lambda tt, idx: T.lt(T.num(idx[0]), T.num(tt).scale(a))


def _infer_hist(rec, l, t, q):
    vs = [T.index_var(d, "t") for d in l.dims]
    p = l.value(t, vs)
    qb = to_num(q.get(*vs))
    if isinstance(qb, X) or qb is p:
        return False
    for ax, j, off in [(ax, j, o) for o in (0, 1) for ax, j in enumerate(vs)]:
        ia = T.ind(T.eq(j, t + off))
        if len(ia.terms) != 1 or len(ia.terms[0][0]) != 1:
            continue
        a = ia.terms[0][0][0][0]
        if not T._contains(qb, a):
            continue
        q0 = T.replace_atom(qb, a, T.ZERO)
        q1 = T.replace_atom(qb, a, T.ONE)
        nx = T.ind(T.eq(j, t + 1))
        na = nx.terms[0][0][0][0]
        tv = T.the_var(t)
        two = None
        if off == 0 and q0 is not p and T._contains(q0, na):
            q00 = T.replace_atom(q0, na, T.ZERO)
            q01 = T.replace_atom(q0, na, T.ONE)
            if q00 is p:
                # value prepared for the next iteration
                u = T.subst(q01, {T.the_var(j): t + 1})
                if not _mentions_any(u, _all_traces(rec)):
                    g = _fun_of(T.subst(u, {tv: t - 1}), t, [v for k, v in enumerate(vs) if k != ax])
                    two = lambda jj, idx, g=g, ax=ax: g(jj, [x for k, x in enumerate(idx) if k != ax])  # noqa: E731
                    i0 = [T.ZERO if k == ax else v for k, v in enumerate(vs)]
                    if not P.prove(T.eq(two(T.ZERO, i0), l.init.get(*i0)), ms=2000):
                        two = None
                    q1 = T.replace_atom(q1, na, T.ZERO)
        if q0 is not p and two is None:
            continue
        w = T.subst(q1, {T.the_var(j): t + off})
        rest = [v for k, v in enumerate(vs) if k != ax]
        names = _all_traces(rec)
        if not _mentions_any(w, names):
            f0 = _fun_of(w, t, rest)
            f = lambda jj, idx, f0=f0, ax=ax: f0(jj, [x for k, x in enumerate(idx) if k != ax])  # noqa: E731
        else:
            sel = _selected(w, t, rest, names)
            if sel is not None:
                # the value written is a function of an index selected in this iteration: name the index
                nm = f"A{l.name[1:]}_{ax}"
                T.declare_fn(nm, "I")
                f0 = _fun_of(T.replace_atom(w, sel, T.app(nm, t)), t, rest)
                f = lambda jj, idx, f0=f0, ax=ax: f0(jj, [x for k, x in enumerate(idx) if k != ax])  # noqa: E731
                l.kind, l.data = "hist", dict(axis=ax, f=f, off=off, sel=nm)
                return True
            # otherwise the written value becomes a named function of the iteration
            # does the written value depend on the other axes?
            dep = [v for v in rest if T.the_var(v) in w.fv]
            same = [h for h in rec.hist if not h["extra"] and not dep and h["W0"] is w]
            if same:
                vname = same[0]["V"]
            else:
                vname = f"V{l.name[1:]}_{ax}"
                T.declare_fn(vname, "I" if l.dtype.kind == "i" else "R")
            kdep = [k for k, v in enumerate(vs) if k != ax and T.the_var(v) in w.fv]
            f = lambda jj, idx, vname=vname, kdep=kdep: T.app(vname, T.num(jj), *[T.num(idx[k]) for k in kdep])  # noqa: E731

            def current(rec_, post, tt, l=l, ax=ax, kdep=kdep, off=off):
                vv = [T.index_var(d, "t") for d in l.dims]
                vv[ax] = tt + off
                return to_num(post.get(*vv)) if not kdep else None

            if not same:
                rec.hist.append(
                    dict(leaf=l, V=vname, axis=ax, extra=bool(dep), current=current, W=None, W0=w, kdep=kdep, bound=frozenset())
                )
        if two is not None:
            l.kind, l.data = "hist2", dict(axis=ax, f=f, g=two)
        else:
            l.kind, l.data = "hist", dict(axis=ax, f=f, off=off)
        return True
    return False


def _selected(w, t, rest, names):
    """The one index-valued atom through which w depends on the loop state, if there is one."""
    rv = {T.the_var(v) for v in rest}
    tv = T.the_var(t)
    c = T.atoms_in(w, lambda a: a.op == "app" and T.FN_INFO[a.args[0]]["sort"] == "I" and tv in a.fv and not (a.fv & rv) and not any(v.args[0].startswith(("#", "%")) for v in a.fv) and _mentions_any(T.num(a), names))
    c = sorted(c, key=lambda a: -a.height)
    for a in c[:3]:
        if not _mentions_any(T.replace_atom(w, a, T.ZERO), names):
            return a
    return None


def _name_selected(rec, t, post, ys):
    for k, l in enumerate(rec.leaves):
        if l.kind == "hist" and l.data.get("sel"):
            ax = l.data["axis"]
            at = [T.index_var(d, "t") for d in l.dims]
            at[ax] = t + l.data.get("off", 0)
            w = to_num(post[k].get(*at))
            want = l.data["f"](t, at)
            if w is want:
                continue
            rv = {T.the_var(v) for i, v in enumerate(at) if i != ax}
            tv = T.the_var(t)
            for a in sorted(T.atoms_in(w, lambda a: a.op == "app" and T.FN_INFO[a.args[0]]["sort"] == "I" and tv in a.fv and not (a.fv & rv)), key=lambda a: -a.height):
                v = T.app(l.data["sel"], t)
                if T.replace_atom(w, a, v) is want:
                    _replace_everywhere(a, v, post, ys)
                    break


def _define(rec, l, t, q):
    """Facts defining trace functions and written values; re-check of the forms."""
    vs = [T.index_var(d, "t") for d in l.dims]
    qb = q.get(*vs)
    if l.kind == "hist" or l.kind == "hist2":
        ax = l.data["axis"]
        at = list(vs)
        at[ax] = t + l.data.get("off", 0)
        w = to_num(q.get(*at))
        f = l.data["f"](t, at)
        if w is not f:
            CTX.assume(T.forall([t] + [v for k, v in enumerate(vs) if k != ax], T.eq(f, w)), "loop definition")
        return
    if l.dtype.kind == "b":
        if l.kind == "trace":
            CTX.assume(T.forall([t] + vs, T.iff(T.pred(l.name, t + 1, *vs), to_b(qb))), "loop definition")
            CTX.assume(T.forall(vs, T.iff(T.pred(l.name, T.ZERO, *vs), to_b(l.init.get(*vs)))), "loop definition")
        return
    if l.kind == "trace" and l.dtype is not KEY:
        qv = T.asx(qb).v if l.ext else to_num(qb)
        iv = T.asx(l.init.get(*vs)).v if l.ext else to_num(l.init.get(*vs))
        CTX.assume(T.forall([t] + vs, T.eq(T.app(l.name, t + 1, *vs), qv)), "loop definition")
        CTX.assume(T.forall(vs, T.eq(T.app(l.name, T.ZERO, *vs), iv)), "loop definition")
    if l.ext:
        qx, ix = T.asx(qb), T.asx(l.init.get(*vs))
        for f in ("pinf", "ninf", "nan"):
            if l.flags[f] == "trace":
                nm = l.name + "_" + f
                CTX.assume(T.forall([t] + vs, T.iff(T.pred(nm, t + 1, *vs), getattr(qx, f))), "loop definition")
                CTX.assume(T.forall(vs, T.iff(T.pred(nm, T.ZERO, *vs), getattr(ix, f))), "loop definition")


def _houdini(rec, t, n):
    """Spec-supplied candidate invariants: keep those that are inductive, assume them for all t <= n."""
    cands = []
    for gen in INVARIANTS:
        cands += list(gen(rec))
    if not cands:
        return
    keep = [c for c in cands if P.prove(c[1](rec, T.ZERO), ms=3000)]
    while True:
        mark = CTX.mark()
        for _, c in keep:
            CTX.assume(c(rec, t), "induction hypothesis")
        bad = [c for c in keep if not P.prove(c[1](rec, t + 1), ms=5000)]
        CTX.rewind(mark)
        if not bad:
            break
        keep = [c for c in keep if c not in bad]
    u = T.index_var(n + 1, "u")
    for nm, c in keep:
        CTX.assume(T.forall([u], c(rec, u)), f"invariant {nm} (proved by induction)")
    rec.invariants = [nm for nm, _ in keep]


# --------------------------------------------------------------------------- the API


def _trip(lower, upper):
    lo, hi = Z.dim(lower if not isinstance(lower, ST) else to_num(lower.body)), Z.dim(upper if not isinstance(upper, ST) else to_num(upper.body))
    n = hi - lo
    return lo, n


def fori_loop(lower, upper, body_fun, init_val, **kw):
    lo, n = _trip(lower, upper)
    leaves, td = real_jtu.tree_flatten(init_val)
    c = n.const()
    if c is not None and c <= UNROLL and not LOOP_CONTRACTS:
        val = init_val
        for k in range(int(c)):
            val = body_fun(Z.scalar(lo + k, I32), val)
        return val
    if c is None and decide(T.ge0(n)) is not True:
        n = T.max_(n, T.ZERO)

    def step(t, pre):
        r = body_fun(Z.scalar(lo + t, I32), real_jtu.tree_unflatten(td, pre))
        out, td2 = real_jtu.tree_flatten(r)
        _check_td(td, td2)
        return [as_st(x) for x in out], []

    final, _, _, rec = run("fori", n, leaves, step)
    rec.td = td
    rec.lo = lo
    return real_jtu.tree_unflatten(td, final)


def _check_td(a, b):
    if a != b:
        # static fields holding symbolic values may compare unequal; structure has to agree
        if a.num_leaves != b.num_leaves:
            raise TypeError("loop body returned a different carry structure")


def scan(f, init, xs=None, length=None, reverse=False, unroll=1, **kw):
    from .model import _slice_at

    xl, xtd = real_jtu.tree_flatten(xs)
    xl = [as_st(x) for x in xl]
    if xl:
        n = xl[0].dims[0]
        for x in xl[1:]:
            Z.require_dim(n, x.dims[0], "scan got values with different leading axis sizes")
    else:
        n = Z.dim(length)
    if reverse:
        raise VerifierLimit("reverse scan")
    leaves, td = real_jtu.tree_flatten(init)
    c = n.const()

    def at(t):
        return real_jtu.tree_unflatten(xtd, [_slice_at(x, 0, t) for x in xl])

    if c is not None and c <= UNROLL:
        carry, ys = init, []
        for k in range(int(c)):
            carry, y = f(carry, at(T.num(k)))
            ys.append(y)
        if not ys:
            raise VerifierLimit("empty scan")
        outs = [real_jtu.tree_flatten(y) for y in ys]
        st = [Z.stack([as_st(o[0][j]) for o in outs], 0) for j in range(len(outs[0][0]))]
        return carry, real_jtu.tree_unflatten(outs[0][1], st)
    box = {}

    def step(t, pre):
        carry, y = f(real_jtu.tree_unflatten(td, pre), at(t))
        out, td2 = real_jtu.tree_flatten(carry)
        _check_td(td, td2)
        yl, ytd = real_jtu.tree_flatten(y)
        box["ytd"] = ytd
        return [as_st(x) for x in out], [as_st(v) for v in yl]

    final, ys, t, rec = run("scan", n, leaves, step)
    rec.td = td
    out = []
    for y in ys:
        for d in y.dims:
            if T.the_var(t) in d.fv:
                raise VerifierLimit("scan with varying shapes")
        out.append(ST((n,) + tuple(y.dims), (T.the_var(t),) + tuple(y.vars), y.body, y.dtype))
    return real_jtu.tree_unflatten(td, final), real_jtu.tree_unflatten(box["ytd"], out)


def lax_map(f, xs, **kw):
    from .model import vmap

    return vmap(f)(xs)


def while_loop(cond_fun, body_fun, init_val):
    from .model import contract

    contract("jax.lax.while_loop: terminates (partial correctness)")
    leaves, td = real_jtu.tree_flatten(init_val)
    n = T.fresh("iters", "I", lo=T.ZERO, sign="0+")

    def step(t, pre):
        c = as_st(cond_fun(real_jtu.tree_unflatten(td, pre)))
        CTX.assume(T.forall([t], to_b(c.body)), "loop condition")
        out, td2 = real_jtu.tree_flatten(body_fun(real_jtu.tree_unflatten(td, pre)))
        _check_td(td, td2)
        return [as_st(x) for x in out], []

    final, _, _, rec = run("while", n, leaves, step)
    rec.td = td
    res = real_jtu.tree_unflatten(td, final)
    c = as_st(cond_fun(res))
    CTX.assume(T.bnot(to_b(c.body)), "loop exit")
    return res
