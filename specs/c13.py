"""C13: regularised least-squares solvers solve the stated regularised system."""
from engine import model as M, sym as S, tensor as Z, terms as T
from engine.prover import CTX
from engine.tensor import SV

from .base import ob, same_value

LS = "coreax.least_squares"
ASSUMPTIONS = [
    "jnp.linalg.lstsq returns the minimal-norm least-squares solution for its rcond (assumed dependency contract); jnp.linalg.eigh and qr are deterministic functions of their argument",
    "power iterations: proved for 0, 1, 2 and 3 iterations",
]


def system(n, vec):
    A, I = S.array("A", n, n), S.array("I", n, n)
    b = S.array("b1", n) if vec else S.array("b2", n, S.nat("t"))
    return A, I, b


def reg(A, r, I):
    n = A.dims[0]
    return Z.build((n, n), lambda i, j: A.get(i, j) + T.abs_(r.n) * I.get(i, j), Z.F32)


def _min(vec, rc):
    @ob("C13", f"minimal norm[{'vector' if vec else 'matrix'} target, rcond {rc}]", [f"{LS}.MinimalEuclideanNormSolver.solve"])
    def _(E):
        lm = E.load(LS)
        n, r = S.nat("n"), S.real("r")
        A, I, b = system(n, vec)
        rcond = None if rc == "none" else S.real("rcond", "0+")

        def go():
            x = lm.MinimalEuclideanNormSolver(rcond).solve(A, r, b, I)
            want = M.lstsq(reg(A, r, I), b, rcond)[0]
            E.same("least-squares solution of (A + |r| I') x = b", x, want)

        E.paths(go)
        E.check_vacuity()


for _v in (True, False):
    for _r in ("none", "given"):
        _min(_v, _r)


def eigen_solution(E, lam, V, b, rc, i, l=None):
    """sum_j V_ij inv_j (V^T b)_j"""
    n, p = V.dims
    big = Z.to_num(M.max_(lam).body)

    def inv(j):
        ok = Z.xle(Z.xmul(rc, big), lam.get(j))
        return Z.xite(ok, Z.xdiv(T.ONE, Z.xite(ok, lam.get(j), T.ONE)), T.ZERO)

    j, k = T.index_var(p, "j"), T.index_var(n, "k")
    body = Z.xmul(Z.xmul(V.get(i, j), V.get(k, j)), Z.xmul(inv(j), b.get(k) if l is None else b.get(k, l)))
    return Z.tsum([j, k], body)


def rcond_of(case, n):
    eps = M._Finfo(Z.F32).eps.n
    if case == "none":
        return None, eps * n.n
    if case == "-1":
        return -1, eps
    if case == "0":
        return 0.0, T.ZERO
    v = S.real("rcond", "+")
    return v, v.n


def _rand(vec, case):
    @ob("C13", f"randomised[{'vector' if vec else 'matrix'} target, rcond {case}]", [f"{LS}.RandomisedEigendecompositionSolver.solve", f"{LS}._eigendecomposition_invert"])
    def _(E):
        lm = E.load(LS)
        n, r, os = S.nat("n"), S.real("r"), S.nat("os")
        A, I, b = system(n, vec)
        given, rc = rcond_of(case, n)
        s = lm.RandomisedEigendecompositionSolver(S.key(), os, 1, given)
        probe = {}
        orig = type(s).randomised_eigendecomposition

        def go():
            # the approximate eigenpairs are arbitrary: callee by contract
            p = S.nat("p")
            lam, V = S.array("lam", p), S.array("V", n, p)
            # some eigenvalue is not zero where the threshold allows it to be inverted
            j = T.index_var(p.n, "j")
            E.assume(T.gt0(Z.to_num(M.max_(lam).body)), "the regularised array has a positive approximate eigenvalue")
            E.assume(T.forall([j], T.bor(T.lt(lam.get(j), rc * Z.to_num(M.max_(lam).body)), T.bnot(T.eq(lam.get(j), T.ZERO)))), "no inverted eigenvalue is zero")

            def contract(self, array):
                probe["a"] = array
                return lam, V

            type(s).randomised_eigendecomposition = contract
            try:
                x = s.solve(A, r, b, I)
            finally:
                type(s).randomised_eigendecomposition = orig
            E.same("the eigenpairs are those of A + |r| I'", probe["a"], reg(A, r, I))
            i = T.index_var(n.n, "i")
            if vec:
                E.hold("shape", x.ndim == 1 and Z.same_dim(x.dims[0], n.n))
                E.prove("thresholded inverse applied to b", same_value(x.get(i), eigen_solution(E, lam, V, b, rc, i)))
            else:
                l = T.index_var(b.dims[1], "l")
                E.hold("shape", x.ndim == 2 and Z.same_dim(x.dims[0], n.n) and Z.same_dim(x.dims[1], b.dims[1]))
                E.prove("thresholded inverse applied to b", same_value(x.get(i, l), eigen_solution(E, lam, V, b, rc, i, l)))

        E.paths(go)
        E.check_vacuity()


for _v in (True, False):
    for _r in ("none", "-1", "0", "given"):
        _rand(_v, _r)


def _eig(q):
    @ob("C13", f"approximate eigenpairs[{q} power iterations]", [f"{LS}.RandomisedEigendecompositionSolver.randomised_eigendecomposition", f"{LS}._gaussian_range_finder"])
    def _(E):
        lm = E.load(LS)
        n, os = S.nat("n"), S.nat("os")
        A = S.array("A", n, n)
        key = S.key()
        s = lm.RandomisedEigendecompositionSolver(key, os, q, None)

        def go():
            lam, V = s.randomised_eigendecomposition(A)
            g = M.normal(key, (n, os))
            Q = M.qr(Z.matmul(A, g))[0]
            for _ in range(q):
                Qt = M.qr(Z.matmul(Z.transpose(A), Q))[0]
                Q = M.qr(Z.matmul(A, Qt))[0]
            w, U = M.eigh(Z.matmul(Z.matmul(Z.transpose(Q), A), Q))
            E.same("eigenvalues of Q^T A Q", lam, w)
            E.same("eigenvectors Q U", V, Z.matmul(Q, U))

        E.paths(go)


for _q in (0, 1, 2, 3):
    _eig(_q)


def _stack(kind, axes):
    @ob("C13", f"stack[{kind}, in_axes {axes}]", [f"{LS}.RegularisedLeastSquaresSolver.solve_stack"])
    def _(E):
        import inspect

        lm = E.load(LS)
        n, r, m = S.nat("n"), S.real("r"), S.nat("m")
        ax = axes or (0, None, 0, None)
        As = S.array("As", m, n, n) if ax[0] == 0 else S.array("A", n, n)
        bs = S.array("bs", m, n, S.nat("t")) if ax[2] == 0 else S.array("b2", n, S.nat("t"))
        Is = S.array("Is", m, n, n) if ax[3] == 0 else S.array("I", n, n)
        base = lm.RegularisedLeastSquaresSolver

        class AnySolver(base):
            """A solver known by its contract: a function of A, |r|, b and I'."""

            def solve(self, array, regularisation_parameter, target, identity):
                return M.opaque_op("any_solver", [array, abs(Z.as_st(regularisation_parameter)), target, identity], Z.as_st(target).dims)[0]

        def go():
            s = lm.MinimalEuclideanNormSolver(None) if kind == "minimal norm" else AnySolver()
            x = s.solve_stack(As, r, bs, Is, in_axes=axes) if axes else s.solve_stack(As, r, bs, Is)
            e = SV(T.index_var(m.n, "e"), "i")
            y = s.solve(As[e] if ax[0] == 0 else As, r, bs[e] if ax[2] == 0 else bs, Is[e] if ax[3] == 0 else Is)
            E.hold("one solution per element", x.ndim == 3 and Z.same_dim(x.dims[0], m.n))
            E.same("element e of the stack", x[e], y)

        E.paths(go)
        if kind != "minimal norm":
            for c in (lm.MinimalEuclideanNormSolver, lm.RandomisedEigendecompositionSolver):
                E.hold(f"{c.__name__} inherits this contract", inspect.getattr_static(c, "solve_stack") is inspect.getattr_static(base, "solve_stack"))
        E.check_vacuity()


for _k in ("minimal norm", "any solver"):
    _stack(_k, None)
    _stack(_k, (0, None, None, None))
    _stack(_k, (0, None, 0, 0))
    _stack(_k, (None, None, 0, None))


@ob("C13", "validation", [f"{LS}.RandomisedEigendecompositionSolver.__check_init__", f"{LS}._gaussian_range_finder"])
def _(E):
    lm = E.load(LS)
    R = lm.RandomisedEigendecompositionSolver
    key = S.key()
    v = S.integer("vi")
    f = S.real("vf")
    mk = CTX.mark()
    E.assume(T.lt(v.n, T.ONE))
    E.raises("oversampling below one", ValueError, lambda: R(key, v, 1, None))
    CTX.rewind(mk)
    E.assume(T.le(T.ONE, v.n))
    R(key, v, 1, None)
    CTX.rewind(mk)
    E.assume(T.lt(v.n, T.ZERO))
    E.raises("negative power iterations", ValueError, lambda: R(key, 3, v, None))
    CTX.rewind(mk)
    E.assume(T.ge0(v.n))
    R(key, 3, v, None)
    E.hold("valid integers accepted", True)
    CTX.rewind(mk)
    E.raises("oversampling not an integer", ValueError, lambda: R(key, 2.5, 1, None))
    E.raises("power iterations not an integer", ValueError, lambda: R(key, 2, 1.5, None))
    E.assume(T.band(T.lt(f.n, T.ZERO), T.bnot(T.eq(f.n, T.num(-1)))))
    E.raises("negative rcond other than -1", ValueError, lambda: R(key, 2, 1, f))
    CTX.rewind(mk)
    E.assume(T.ge0(f.n))
    R(key, 2, 1, f)
    R(key, 2, 1, -1)
    E.hold("valid rcond accepted", True)
    CTX.rewind(mk)
    n, m = S.nat("n"), S.nat("m")
    s = R(key, 2, 1, None)
    E.raises("vector", ValueError, lambda: s.randomised_eigendecomposition(S.array("v1", n)))
    E.assume(T.lt(n.n, m.n))
    E.raises("not square", ValueError, lambda: s.randomised_eigendecomposition(S.array("v2", n, m)))
