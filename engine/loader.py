"""Loads the real source of /repo/coreax for symbolic execution.

Every run reads the files of the working tree and executes them with the dependency
modules (JAX, NumPy, sklearn, jaxopt ...) replaced by their assumed contracts
(model.py, loops.py).  The extraction drops only

* annotations of function arguments / results and of class fields (the names stay),
* ``typing.overload`` stubs and docstrings (no run-time effect).

Calls of a function to itself go through ``__recursive__`` so that a recursive function
can be checked against its own contract.  Everything else runs as written.
"""
from __future__ import annotations

import ast
import builtins
import importlib
import os
import sys
import types

import equinox as real_eqx
import jax.tree_util as real_jtu

from . import loops, model as M, prover as P, terms as T, tensor as Z
from .tensor import ST, SV, SymBool, as_st, pydim
from .terms import N, VerifierLimit

REPO = os.environ.get("VERIF_REPO", "/repo")

# --------------------------------------------------------------------- source transform


class Strip(ast.NodeTransformer):
    def __init__(self, modname):
        self.stack = [modname]
        self.functions = []

    def _is_overload(self, node):
        return any(
            (isinstance(d, ast.Name) and d.id == "overload")
            or (isinstance(d, ast.Attribute) and d.attr == "overload")
            for d in node.decorator_list
        )

    def visit_FunctionDef(self, node):
        if self._is_overload(node):
            return None
        self.stack.append(node.name)
        self.functions.append(".".join(self.stack[0:]))
        for a in [*node.args.posonlyargs, *node.args.args, *node.args.kwonlyargs, node.args.vararg, node.args.kwarg]:
            if a is not None:
                a.annotation = None
        node.returns = None
        rec = _self_calls(node)
        qual = ".".join(self.stack)
        self.generic_visit(node)
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str):
            node.body = node.body[1:] or [ast.Pass()]
        if rec:
            node.decorator_list.append(
                ast.Call(ast.Name("__recursive__", ast.Load()), [ast.Constant(qual)], [])
            )
        self.stack.pop()
        if not node.body:
            node.body = [ast.Pass()]
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [self._field(s) for s in node.body]
        self.generic_visit(node)
        self.stack.pop()
        if not node.body:
            node.body = [ast.Pass()]
        return node

    def _field(self, s):
        if isinstance(s, ast.AnnAssign) and "ClassVar" not in ast.unparse(s.annotation):
            s.annotation = ast.Name("object", ast.Load())
        return s

    def visit_AnnAssign(self, node):
        # local / module-level annotations have no effect
        if isinstance(node.annotation, ast.Name) and node.annotation.id == "object":
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        if node.value is None:
            return ast.Pass()
        return ast.Assign([node.target], node.value, type_comment=None)


def _self_calls(node):
    for n in ast.walk(node):
        if n is node or not isinstance(n, ast.Call):
            continue
        f = n.func
        if isinstance(f, ast.Name) and f.id == node.name:
            return True
        if isinstance(f, ast.Attribute) and f.attr == node.name and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls"):
            return True
        if any(isinstance(a, ast.Name) and a.id == node.name for a in n.args):
            return True  # e.g. vmap(_compress)
    return False


# ------------------------------------------------------------------------ recursion

CONTRACTS: dict = {}  # last name component -> callable(fn, args, kwargs)
_depth: dict = {}


def _recursive(qual):
    def deco(fn):
        name = qual.split(".")[-1]

        def wrapper(*a, **k):
            c = CONTRACTS.get(name) or CONTRACTS.get("*")
            if c is None:
                d = _depth.get(qual, 0)
                if d > 6:
                    raise VerifierLimit(f"unbounded recursion of {qual}")
                _depth[qual] = d + 1
                try:
                    return fn(*a, **k)
                finally:
                    _depth[qual] = d
            if _depth.get(qual, 0) == 0:
                _depth[qual] = 1
                try:
                    if hasattr(c, "start"):  # an arbitrary call satisfying the precondition
                        a, k = c.start(a, k)
                    r = fn(*a, **k)
                finally:
                    _depth[qual] = 0
                if hasattr(c, "post"):
                    c.post(a, k, r)  # the contract is checked for the body and assumed for the recursive calls
                return r
            return c(fn, a, k)

        wrapper.__name__ = getattr(fn, "__name__", name)
        wrapper.__wrapped_fn__ = fn
        return wrapper

    return deco


# ------------------------------------------------------------------------- builtins


class _NumMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, cls._real):
            return True
        return isinstance(x, SV) and x.kind == cls._kind

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __call__(cls, x=0, *a):
        return cls._conv(x, *a)

    def __or__(cls, o):
        return object

    __ror__ = __or__

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


def _to_float(x=0.0, *a):
    if isinstance(x, SV):
        return SV(x.n, "f")
    if isinstance(x, ST):
        s = M.st_to_sv(x)
        return SV(T.num(s.n if isinstance(s, SV) else s), "f")
    if isinstance(x, (ST, SymBool)):
        raise VerifierLimit("float()")
    return builtins.float(x)


def _to_int(x=0, *a):
    if isinstance(x, ST):
        x = M.st_to_sv(x)
    if isinstance(x, SV):
        if x.n.sort == "I":
            return Z.mk_sv(x.n, "i")
        if P.decide(T.ge0(x.n)) is True:
            return M.m_floor(x)
        if P.decide(T.ge0(-x.n)) is True:
            return M.m_ceil(x)
        raise VerifierLimit("int() of a symbolic real")
    return builtins.int(x, *a)


class FakeFloat(metaclass=_NumMeta):
    _real, _kind = builtins.float, "f"
    _conv = staticmethod(_to_float)
    __name__ = "float"


class FakeInt(metaclass=_NumMeta):
    _real, _kind = builtins.int, "i"
    _conv = staticmethod(_to_int)


FakeFloat.__name__ = "float"
FakeInt.__name__ = "int"


def _len(x):
    f = getattr(type(x), "__len__", None)
    if f is None or isinstance(x, (list, tuple, dict, str, set)):
        return builtins.len(x)
    return f(x)


def _mm(op, real):
    def f(*a, **k):
        if len(a) == 1 and not isinstance(a[0], ST):
            a = tuple(a[0])
        if k or not any(isinstance(x, (SV, ST)) for x in a):
            return real(*a, **k)
        if any(isinstance(x, ST) for x in a):
            if len(a) == 1:
                return (M.max_ if op is T.max_ else M.min_)(a[0])
            a = [M.st_to_sv(x) if isinstance(x, ST) else x for x in a]
        kinds = ["f" if isinstance(x, builtins.float) or (isinstance(x, SV) and x.kind == "f") else "i" for x in a]
        r = None
        for x in a:
            if isinstance(x, builtins.float) and (x != x or abs(x) == builtins.float("inf")):
                if (x > 0) == (op is T.min_):
                    continue  # neutral
                return x
            t = x.n if isinstance(x, SV) else T.num(x)
            r = t if r is None else op(r, t)
        return Z.mk_sv(r, "i" if all(q == "i" for q in kinds) else "f")

    return f


def _sum(x, start=0):
    if isinstance(x, ST):
        r = Z.sum_axis(x, 0)
        return r if isinstance(start, int) and start == 0 else r + start
    return builtins.sum(x, start)


def _range(*a):
    b = []
    for x in a:
        if isinstance(x, ST):
            x = M.st_to_sv(x)
        if isinstance(x, SV):
            c = x.n.const()
            if c is None:
                raise VerifierLimit("range over a symbolic bound")
            x = int(c)
        b.append(x)
    return builtins.range(*b)


def _round(x, n=None):
    if isinstance(x, (SV, ST)):
        raise VerifierLimit("round")
    return builtins.round(x, n) if n is not None else builtins.round(x)


def _bool(x=False):
    if isinstance(x, (SV, ST, SymBool)):
        return bool(x)
    return builtins.bool(x)


# -------------------------------------------------------------------------- modules


def _ident_deco(f=None, *a, **k):
    if f is None or not callable(f):
        return lambda g: g
    return f


def make_eqx():
    m = M.Module(_name="equinox")
    for k in dir(real_eqx):
        if not k.startswith("_"):
            setattr(m, k, getattr(real_eqx, k))

    def is_array(x):
        return isinstance(x, ST)

    m.is_array = is_array
    m.is_array_like = lambda x: isinstance(x, (ST, SV, int, builtins.float, bool))
    m.is_inexact_array = lambda x: isinstance(x, ST) and x.dtype.kind == "f"
    m.filter = lambda tree, spec, **k: real_eqx.filter(tree, spec, **k)
    m.filter_jit = _ident_deco
    m.filter_vmap = lambda f=None, **k: (lambda g: M.vmap(g)) if f is None else M.vmap(f)
    m.filter_grad = lambda f, **k: M.grad(f)
    m.filter_value_and_grad = lambda f, **k: M.value_and_grad(f)
    m.error_if = lambda x, pred, msg, **k: x
    return m


class Loader:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.functions = []
        self.fakes = {}
        self._build_fakes()

    def _build_fakes(self):
        jnp = M.make_jnp()
        lax = M.Module(
            _name="jax.lax", scan=loops.scan, fori_loop=loops.fori_loop, while_loop=loops.while_loop,
            cond=M.cond, select=M.select, stop_gradient=M.stop_gradient, map=loops.lax_map,
        )
        rnd = M.Module(
            _name="jax.random", key=M.key_, PRNGKey=M.key_, split=M.split_, fold_in=M.fold_in, choice=M.choice,
            permutation=M.permutation, normal=M.normal, uniform=M.uniform, randint=M.randint,
        )
        special = M.Module(_name="jax.scipy.special", factorial=M.factorial)
        stats = M.Module(_name="jax.scipy.stats", gaussian_kde=M.GaussianKDE)
        slinalg = M.Module(_name="jax.scipy.linalg", svd=M.svd, solve=M.solve, eigh=M.eigh, qr=M.qr)
        scipy = M.Module(_name="jax.scipy", special=special, stats=stats, linalg=slinalg)
        nn = M.Module(_name="jax.nn", softmax=M.softmax)
        errors = types.SimpleNamespace(ConcretizationTypeError=type("ConcretizationTypeError", (TypeError,), {}))
        tree = M.Module(_name="jax.tree", map=real_jtu.tree_map, leaves=real_jtu.tree_leaves, flatten=real_jtu.tree_flatten, unflatten=real_jtu.tree_unflatten, structure=real_jtu.tree_structure)
        jax = M.Module(
            _name="jax", numpy=jnp, lax=lax, random=rnd, scipy=scipy, nn=nn, errors=errors, tree_util=real_jtu, tree=tree,
            vmap=_vmap_deco, jit=_ident_deco, grad=M.grad, value_and_grad=M.value_and_grad, jacfwd=M.jacobian, jacrev=M.jacobian,
            jacobian=M.jacobian, hessian=M.hessian, jvp=M.jvp, pure_callback=M.pure_callback,
            ShapeDtypeStruct=M.ShapeDtypeStruct, Array=ST, block_until_ready=lambda x: x,
            named_scope=lambda *a, **k: _NullCtx(), ensure_compile_time_eval=lambda: _NullCtx(),
        )
        M.math.pi = SV(T.pi(), "f")
        f = self.fakes
        f["jax"] = jax
        f["jax.numpy"] = jnp
        f["jax.numpy.linalg"] = jnp.linalg
        f["jax.lax"] = lax
        f["jax.random"] = rnd
        f["jax.scipy"] = scipy
        f["jax.scipy.special"] = special
        f["jax.scipy.stats"] = stats
        f["jax.scipy.linalg"] = slinalg
        f["jax.nn"] = nn
        f["jax.errors"] = errors
        f["jax.tree_util"] = real_jtu
        f["jax.tree"] = tree
        f["jax.typing"] = _AnyAnno()
        f["numpy"] = M.make_jnp("numpy")
        f["math"] = M.math
        f["equinox"] = make_eqx()
        jt = _AnyAnno()
        jt.Array = ST
        f["jaxtyping"] = jt
        f["jaxopt"] = M.Module(_name="jaxopt", OSQP=M.OSQP)
        f["sklearn.neighbors"] = M.Module(_name="sklearn.neighbors", KDTree=M.KDTree, BallTree=M.BallTree)
        f["sklearn"] = M.Module(_name="sklearn", neighbors=f["sklearn.neighbors"])
        f["tqdm"] = M.Module(_name="tqdm", tqdm=lambda x, **k: x)
        for nm in ("optax", "flax", "flax.linen", "flax.training", "flax.training.train_state"):
            f[nm] = M.Module(_name=nm)
        f["flax"].training = f["flax.training"]
        f["flax"].linen = f["flax.linen"]
        f["coreax.networks"] = M.Module(_name="coreax.networks")
        f["coreax.benchmark_util"] = M.Module(_name="coreax.benchmark_util")

    # -- import machinery
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            base = ".".join(parts[: len(parts) - level + 1])
            name = f"{base}.{name}" if name else base
        if name == "coreax" or name.startswith("coreax."):
            mod = self.load(name)
            if fromlist:
                for x in fromlist:
                    if x != "*" and not hasattr(mod, x):
                        try:
                            setattr(mod, x, self.load(f"{name}.{x}"))
                        except FileNotFoundError:
                            raise ImportError(f"cannot import name {x!r} from {name!r}")
                return mod
            return self.load("coreax")
        if name in self.fakes:
            if fromlist:
                mod = self.fakes[name]
                return mod
            return self.fakes[name.split(".")[0]]
        top = name.split(".")[0]
        if top in self.fakes and top not in ("jax",) or top == "jax":
            return M.Module(_name=name)
        r = importlib.import_module(name)
        return r if fromlist else sys.modules[top]

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        if name in self.fakes:
            return self.fakes[name]
        if name in self.mods:
            return self.mods[name]
        path, is_pkg = self.path(name)
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
            if name in self.mods:
                return self.mods[name]
        mod = types.ModuleType(name)
        mod.__file__ = path
        mod.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            mod.__path__ = [os.path.dirname(path)]
        self.mods[name] = mod
        if "." in name:
            setattr(parent, name.rpartition(".")[2], mod)
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        st = Strip(name)
        tree = ast.fix_missing_locations(st.visit(tree))
        self.functions += st.functions
        mod.__dict__["__builtins__"] = self.builtins()
        exec(compile(tree, path, "exec", dont_inherit=True), mod.__dict__)
        return mod

    def builtins(self):
        if not hasattr(self, "_b"):
            b = dict(vars(builtins))
            b.update(
                __import__=self.imp, __recursive__=_recursive, float=FakeFloat, int=FakeInt, len=_len, min=_mm(T.min_, builtins.min),
                max=_mm(T.max_, builtins.max), sum=_sum, range=_range, round=_round, bool=_BoolFake,
            )
            self._b = b
        return self._b


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool, SymBool))

    def __call__(cls, x=False):
        return _bool(x)


class _BoolFake(metaclass=_BoolMeta):
    pass


_BoolFake.__name__ = "bool"


class _NullCtx:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _AnyAnno:
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return M._Anno()


def _vmap_deco(f=None, *a, **k):
    if f is None:
        return lambda g: M.vmap(g, *a, **k)
    return M.vmap(f, *a, **k)
