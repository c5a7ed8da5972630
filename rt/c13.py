"""C13 on the real code: regularised least squares."""
import jax
import jax.numpy as jnp
import numpy as np

from .common import *  # noqa: F403
from .common import Skip, close, kind, need, pick, raises, rint, x64
from .solvers import key


def mats(p):
    """A well separated spectrum, so that thresholding is not decided by rounding."""
    rng = np.random.default_rng([p["s"], 31])
    n = p["n"]
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    lam = 10.0 ** rng.uniform(-1.2, 1, size=n)
    z = rng.permutation(n)[: p.get("rank0", 0)]
    lam[z] = 0
    A = (q * lam) @ q.T
    if p.get("nonsym"):
        A = A + 0.3 * rng.normal(size=(n, n))
    b = rng.normal(size=(n, p["t"])) if p["t"] else rng.normal(size=n)
    if p["ident"] == "eye":
        I = np.eye(n)
    elif p["ident"] == "block":
        k = int(rng.integers(0, n + 1))
        I = np.diag((np.arange(n) < k).astype(float))
        M = np.outer(np.arange(n) < k, np.arange(n) < k).astype(float)
        A = A * M
    else:
        I = np.diag(rng.uniform(0.5, 2, size=n))
    return A, b, I


def tl():
    return dict(rtol=1e-6, atol=1e-7) if x64() else dict(rtol=2e-2, atol=3e-3)


def pinv_apply(M, b, rc):
    u, s, vt = np.linalg.svd(M)
    if len(s) == 0 or s[0] == 0:
        return np.zeros_like(b)
    keep = s >= rc * s[0]
    margin = np.abs(s / s[0] - rc) / max(rc, 1e-300)
    if np.any((margin < 0.05) & (s > 0)):
        raise Skip
    si = np.where(keep, 1 / np.where(keep, s, 1), 0)
    if keep.any() and s[0] / s[keep].min() > (1e6 if x64() else 200):
        raise Skip
    junk = s[~keep]
    if len(junk) and rc < (1e-10 if x64() else 1e-4) and junk.max() > 0 and junk.max() / s[0] > rc * 0.01:
        raise Skip  # eigenvalue zero up to rounding: the decision is rounding's
    return vt.T @ (si[:, None] * (u.T @ b.reshape(len(b), -1))).reshape((-1,) + b.shape[1:]) if b.ndim > 1 else vt.T @ (si * (u.T @ b))


def eps():
    return np.finfo(np.float64 if x64() else np.float32).eps


def mk(p):
    from coreax.least_squares import MinimalEuclideanNormSolver, RandomisedEigendecompositionSolver

    if p["solver"] == "min":
        return MinimalEuclideanNormSolver(rcond=p["rcond"])
    return RandomisedEigendecompositionSolver(random_key=key(p["key"]), oversampling_parameter=p["os"], power_iterations=p["pi"], rcond=p["rcond"])


def gen0(rng):
    n = rint(rng, 1, 8)
    return dict(n=n, s=rint(rng, 0, 10**6), t=pick(rng, 0, 1, 3), ident=pick(rng, "eye", "eye", "block", "diag"), r=pick(rng, 0.0, 0.01, 0.5, -0.5, 2.0, -0.01), key=rint(rng, 0, 10**6), os=rint(rng, n, n + 20), pi=rint(rng, 0, 2))


@kind("C13", "minimal norm", weight=3)
class _:
    @staticmethod
    def gen(rng):
        p = gen0(rng)
        p.update(solver="min", rcond=pick(rng, None, None, 0.1, 0.01), nonsym=bool(rng.random() < 0.4), rank0=rint(rng, 0, 2) if p["r"] != 0 else 0)
        return p

    @staticmethod
    def check(p):
        A, b, I = mats(p)
        got = mk(p).solve(jnp.asarray(A), p["r"], jnp.asarray(b), jnp.asarray(I))
        rc = eps() * max(A.shape) if p["rcond"] is None else p["rcond"]
        close(got, pinv_apply(A + abs(p["r"]) * I, b, rc), "least-squares solution of (A + |r| I) x = b", **tl())


@kind("C13", "randomised, complete range", weight=3)
class _:
    """With at least n test vectors the range is complete, so the eigenpairs are those of A + |r| I."""

    @staticmethod
    def gen(rng):
        p = gen0(rng)
        p.update(solver="ran", rcond=pick(rng, None, -1, 0.0, 0.05, 0.3), rank0=0)
        if p["ident"] == "block":
            p["ident"] = "eye"
        return p

    @staticmethod
    def check(p):
        A, b, I = mats(p)
        M = A + abs(p["r"]) * I
        lam, V = np.linalg.eigh(M)
        rc = {None: eps() * len(A), -1: eps()}.get(p["rcond"], p["rcond"])
        lm = lam.max()
        if np.any(np.abs(lam - rc * lm) < 0.02 * lm * max(rc, 1e-3)) or lam.min() <= 1e-2 * lm * 0.2:
            raise Skip
        inv = np.where(lam >= rc * lm, 1 / lam, 0)
        want = V @ (inv[:, None] * (V.T @ b.reshape(len(b), -1)))
        got = mk(p).solve(jnp.asarray(A), p["r"], jnp.asarray(b), jnp.asarray(I))
        close(got, want.reshape(b.shape), "thresholded inverse applied to b", **tl())


@kind("C13", "randomised, own eigenpairs", weight=4)
class _:
    @staticmethod
    def gen(rng):
        p = gen0(rng)
        p["n"] = rint(rng, 2, 9)
        p.update(solver="ran", rcond=pick(rng, None, -1, 0.0, 0.05, 0.3, 0.7), rank0=0, os=rint(rng, 1, p["n"]), ident=pick(rng, "eye", "diag"))
        p["neg"] = bool(rng.random() < 0.3)
        return p

    @staticmethod
    def check(p):
        A, b, I = mats(p)
        if p["neg"]:
            A = A - np.diag(np.linspace(0, 1.5, len(A)))
        S = mk(p)
        lam, V = S.randomised_eigendecomposition(jnp.asarray(A + abs(p["r"]) * I))
        lam, V = np.asarray(lam, float), np.asarray(V, float)
        rc = {None: eps() * len(A), -1: eps()}.get(p["rcond"], p["rcond"])
        lm = lam.max()
        if lm < 1e-2 or np.any(np.abs(lam - rc * lm) < 0.02 * lm * max(rc, 1e-3)) or np.any((lam >= rc * lm) & (np.abs(lam) < 1e-2 * lm)):
            raise Skip
        keep = lam >= rc * lm
        inv = np.where(keep, 1 / np.where(keep, lam, 1), 0)
        want = V @ (inv[:, None] * (V.T @ b.reshape(len(b), -1)))
        close(S.solve(jnp.asarray(A), p["r"], jnp.asarray(b), jnp.asarray(I)), want.reshape(b.shape), "inverse assembled from the approximate eigenpairs", **tl())
        need(V.shape == (len(A), min(p["os"], len(A))), "number of eigenpairs", V.shape)
        close(V.T @ V, np.eye(V.shape[1]), "orthonormal approximate eigenvectors", rtol=0, atol=1e-8 if x64() else 1e-3)
        close(V.T @ (A + abs(p["r"]) * I) @ V, np.diag(lam), "Rayleigh quotients are the eigenvalues", rtol=0, atol=(1e-8 if x64() else 2e-3) * max(1, np.abs(A).max() * 4))


@kind("C13", "threshold", weight=3)
class _:
    """Eigenvalues below the threshold are dropped, those at the threshold are kept (exact values)."""

    corners = [
        dict(lam=[4.0, 2.0, 1.0], rcond=0.5, r=0.0), dict(lam=[4.0, 2.0, 1.0], rcond=0.25, r=0.0), dict(lam=[4.0, 0.0, 1.0], rcond=0.1, r=0.0),
        dict(lam=[4.0, -2.0, 1.0], rcond=0.1, r=0.0), dict(lam=[1.0], rcond=1.0, r=0.0), dict(lam=[1.0, 1.0], rcond=1.0, r=1.0),
    ]

    @staticmethod
    def gen(rng):
        return dict(lam=[float(v) for v in rng.choice([8, 4, 2, 1, 0.5, 0.25, -1, -4], size=rint(rng, 1, 5))], rcond=pick(rng, 0.5, 0.25, 0.125, 1.0, 0.3, -1, None, 0.0), r=0.0)

    @staticmethod
    def check(p):
        from coreax.least_squares import _eigendecomposition_invert

        lam = np.array(p["lam"])
        rc = {None: eps() * len(lam), -1: eps()}.get(p["rcond"], p["rcond"])
        keep = lam >= rc * lam.max()
        if rc == 0 and np.any(lam == 0):
            raise Skip
        want = np.diag(np.where(keep, 1 / np.where(keep, lam, 1), 0))
        with np.errstate(divide="ignore"):
            close(_eigendecomposition_invert(jnp.asarray(lam), jnp.eye(len(lam)), rc), want, "thresholded inverse")


@kind("C13", "stack", weight=3)
class _:
    @staticmethod
    def gen(rng):
        p = gen0(rng)
        p.update(solver=pick(rng, "min", "ran"), stack=rint(rng, 1, 4), axes=pick(rng, "default", "shared", "idents"), rank0=0, ident=pick(rng, "eye", "diag"))
        p["rcond"] = pick(rng, None, 0.05)
        return p

    @staticmethod
    def check(p):
        S = mk(p)
        ms = [mats(dict(p, s=p["s"] + i)) for i in range(p["stack"])]
        A, b, I = (np.stack([m[i] for m in ms]) for i in range(3))
        J = jnp.asarray
        if p["axes"] == "default":
            got = S.solve_stack(J(A), p["r"], J(b), J(I[0]))
            one = [S.solve(J(A[i]), p["r"], J(b[i]), J(I[0])) for i in range(len(A))]
        elif p["axes"] == "shared":
            got = S.solve_stack(J(A), p["r"], J(b[0]), J(I[0]), in_axes=(0, None, None, None))
            one = [S.solve(J(A[i]), p["r"], J(b[0]), J(I[0])) for i in range(len(A))]
        else:
            got = S.solve_stack(J(A[0]), p["r"], J(b), J(I), in_axes=(None, None, 0, 0))
            one = [S.solve(J(A[0]), p["r"], J(b[i]), J(I[i])) for i in range(len(A))]
        close(got, np.stack([np.asarray(o) for o in one]), "stack element", **tl())


@kind("C13", "parameters", weight=1)
class _:
    corners = [dict(os=0, pi=1, rcond=None, bad=True), dict(os=-1, pi=1, rcond=None, bad=True), dict(os=2.5, pi=1, rcond=None, bad=True), dict(os=1, pi=-1, rcond=None, bad=True), dict(os=1, pi=0.5, rcond=None, bad=True), dict(os=1, pi=0, rcond=-0.5, bad=True), dict(os=1, pi=0, rcond=-2, bad=True), dict(os=1, pi=0, rcond=-1, bad=False), dict(os=1, pi=0, rcond=0, bad=False), dict(os=1, pi=0, rcond=None, bad=False), dict(os=1, pi=0, rcond=0.2, bad=False)]

    @staticmethod
    def gen(rng):
        return dict(os=1, pi=0, rcond=-round(float(rng.uniform(0.001, 5)), 3), bad=True)

    @staticmethod
    def check(p):
        f = lambda: mk(dict(solver="ran", key=0, **{k: p[k] for k in ("os", "pi", "rcond")}))  # noqa: E731
        if p["bad"] and p["rcond"] != -1:
            raises(ValueError, f, "parameters outside the documented range")
        elif not p["bad"]:
            f()
