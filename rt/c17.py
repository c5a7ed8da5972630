"""C17 on the real code: greedy optimality at every step."""
import jax
import jax.numpy as jnp
import numpy as np

from .common import *  # noqa: F403
from .common import KS, Skip, kind, need, pick, points, rint, se, x64
from . import solvers as SV


def eps(scale):
    return (1e-8 if x64() else 3e-4) * max(1.0, scale)


def stein_gram(k, x):
    """Stein kernel matrix of the linear score s(z) = -z, from finite-precision-free formulas (jax autodiff of the oracle)."""
    kv = lambda a, b: KS.value(k, a, b, jnp)  # noqa: E731

    def sk(a, b):
        gx, gy = jax.grad(kv, 0)(a, b), jax.grad(kv, 1)(a, b)
        div = jnp.trace(jax.jacfwd(jax.grad(kv, 1), 0)(a, b))
        return div - jnp.dot(gx, b) - jnp.dot(gy, a) + kv(a, b) * jnp.dot(a, b)

    return np.asarray(jax.jit(jax.vmap(jax.vmap(sk, (None, 0)), (0, None)))(jnp.asarray(x), jnp.asarray(x)), float)


def walk(idx, w, unique, crit, G, start=(), who=""):
    """Replays the choices: crit(pen, size, t) -> criterion to maximise."""
    n = len(w)
    cur = list(start)
    for t, j in enumerate(idx):
        if t < len(start):
            others = [c for q, c in enumerate(cur) if q != t]
            size = len(start)
        else:
            others = list(cur)
            size = len(cur) + 1
        pen = G[:, others].sum(1) if others else np.zeros(n)
        v = crit(pen, size, t)
        ok = [q for q in range(n) if w[q] > 0 and not (unique and q in others)]
        need(j in ok, f"{who} step {t}: choice not available", idx, others)
        best = max(v[q] for q in ok)
        need(v[j] >= best - eps(np.abs(v).max()), f"{who} step {t}: chose {j} with criterion {v[j]!r} while {best!r} was available", idx)
        if t < len(cur):
            cur[t] = int(j)
        else:
            cur.append(int(j))


@kind("C17", "herding", weight=4)
class _:
    @staticmethod
    def gen(rng):
        p = SV.gen(rng, "herding")
        p["style"] = pick(rng, "normal", "normal", "far", "sorted", "dups")
        return p

    @staticmethod
    def check(p):
        D, x, y, w = SV.dataset(p)
        if not SV.selectable(p, w):
            raise Skip
        G = KS.gram(p["k"], x, x)
        if np.abs(G).max() > 1e4:
            raise Skip
        mu = G @ w / w.sum()
        c, _ = SV.run_jit(p, D)
        walk(SV.indices(c), w, p["unique"], lambda pen, size, t: mu - pen / size, G, who="kernel herding")


@kind("C17", "herding refine", weight=3)
class _:
    @staticmethod
    def gen(rng):
        p = SV.gen(rng, "herding")
        p["style"] = pick(rng, "normal", "far")
        p["size"] = pick(rng, p["m"], p["m"], rint(rng, 1, p["m"]))
        return p

    @staticmethod
    def check(p):
        import equinox as eqx

        D, x, y, w = SV.dataset(p)
        G = KS.gram(p["k"], x, x)
        if not SV.selectable(p, w) or np.abs(G).max() > 1e4 or (w > 0).sum() <= p["m"]:
            raise Skip
        mu = G @ w / w.sum()
        c0, i0 = SV.start_coreset(p, D, x, w, p["size"])
        S = SV.make(p)
        c, _ = eqx.filter_jit(lambda c: S.refine(c))(c0)
        walk(SV.indices(c), w, p["unique"], lambda pen, size, t: mu - pen / size, G, start=i0.tolist(), who="kernel herding refine")


@kind("C17", "stein", weight=3)
class _:
    @staticmethod
    def gen(rng):
        p = SV.gen(rng, "stein")
        p["reg"] = False
        p["style"] = pick(rng, "normal", "sorted")
        return p

    @staticmethod
    def check(p):
        D, x, y, w = SV.dataset(p)
        if not SV.selectable(p, w):
            raise Skip
        G = stein_gram(p["k"], x)
        if not np.isfinite(G).all() or np.abs(G).max() > 1e4:
            raise Skip
        c, _ = SV.run_jit(p, D)
        walk(SV.indices(c), w, p["unique"], lambda pen, size, t: -(np.diag(G) + 2 * pen), G, who="Stein thinning")


def gkp_loss(K, y, S, rp):
    A = K[np.ix_(S, S)] + rp * np.eye(len(S))
    co = np.linalg.solve(A, y[S])
    pr = K[:, S] @ co
    return float(((pr - y) ** 2).sum())


@kind("C17", "greedy kernel points", weight=3)
class _:
    @staticmethod
    def gen(rng):
        p = SV.gen(rng, "gkp")
        p.update(rp=pick(rng, 0.05, 0.3), lb=None, style="normal", n=min(p["n"], 12))
        p["m"] = min(p["m"], p["n"], 6)
        p["cb"] = pick(rng, None, p["n"])
        p["size"] = pick(rng, 0, 0, p["m"], rint(rng, 1, p["m"]))
        p["k"] = se(rng)
        return p

    @staticmethod
    def check(p):
        D, x, y, w = SV.dataset(p)
        K = KS.gram(p["k"], x, x)
        yv = y[:, 0]
        S = SV.make(p)
        import equinox as eqx

        if p["size"]:
            c0, i0 = SV.start_coreset(p, D, x, w, p["size"])
            c, _ = eqx.filter_jit(lambda c: S.refine(c))(c0)
            cur = i0.tolist()
        else:
            c, _ = SV.run_jit(p, D)
            cur = []
        idx = SV.indices(c)
        for t, j in enumerate(idx):
            others = [c for q, c in enumerate(cur) if q != t]
            ok = [q for q in range(p["n"]) if not (p["unique"] and q in others)]
            need(j in ok, f"greedy kernel points step {t}: not available", idx, others)
            ls = {q: gkp_loss(K, yv, others + [q], p["rp"]) for q in ok if q not in others or True}
            best = min(ls.values())
            need(ls[int(j)] <= best + eps(float((yv**2).sum())) * 20, f"greedy kernel points step {t}: chose {j} with loss {ls[int(j)]!r} while {best!r} was available", idx)
            if t < len(cur):
                cur[t] = int(j)
            else:
                cur.append(int(j))


@kind("C17", "pivot probabilities", weight=1)
class _:
    """Distribution of the pivot sequences of randomly pivoted Cholesky over many keys."""

    @staticmethod
    def gen(rng):
        return dict(s=rint(rng, 0, 10**6), n=rint(rng, 2, 4), d=pick(rng, 1, 2), m=rint(rng, 1, 2), k=KS.rand(rng, 1, d=2, bounded=False) if rng.random() < 0.5 else se(rng), key=rint(rng, 0, 10**6), unique=bool(rng.random() < 0.6), style="normal")

    @staticmethod
    def check(p):
        from coreax.data import Data
        from coreax.solvers import RPCholesky

        x = points(p["s"], p["n"], p["d"])
        if p["k"].get("t") == "Poisson" or "Poisson" in str(p["k"]):
            raise Skip
        K = KS.gram(p["k"], x, x)
        if np.linalg.eigvalsh(K).min() < 1e-3 * np.abs(K).max() or np.abs(K).max() > 1e4:
            raise Skip
        N = 20000
        keys = jax.random.split(jax.random.key(p["key"]), N)
        D = Data(jnp.asarray(x))
        ker = KS.make(p["k"])
        got = np.asarray(jax.jit(jax.vmap(lambda k: RPCholesky(coreset_size=p["m"], random_key=k, kernel=ker, unique=p["unique"]).reduce(D)[0].unweighted_indices))(keys)).reshape(N, p["m"])
        want = {}

        def rec(seq, pr, F, res):
            if len(seq) == p["m"]:
                want[tuple(seq)] = want.get(tuple(seq), 0) + pr
                return
            tot = res.sum()
            for j in range(p["n"]):
                q = res[j] / tot
                if q <= 1e-12:
                    continue
                g = K[:, j] - F @ F[j]
                col = g / np.sqrt(g[j])
                F2 = np.hstack([F, col[:, None]])
                r2 = np.maximum(res - col**2, 0)
                r2[j] = 0.0
                rec(seq + [j], pr * q, F2, r2)

        rec([], 1.0, np.zeros((p["n"], 0)), np.diag(K).copy())
        for seq, pr in want.items():
            f = np.all(got == np.array(seq), axis=1).mean()
            tolr = 6.5 * np.sqrt(max(pr * (1 - pr), 1e-4) / N) + 1e-3
            need(abs(f - pr) <= tolr, f"pivot sequence {seq} drawn with frequency {f} instead of {pr}")
        need(abs(sum(want.values()) - 1) < 1e-6, "oracle")


@kind("C17", "known:K3", weight=0)
class _:
    @staticmethod
    def gen(rng):
        return None

    @staticmethod
    def check(p):
        """A plain kernel is converted to a Stein kernel; the selection must use the converted one."""
        from coreax.kernels import SteinKernel
        from coreax.solvers import SteinThinning

        D, x, y, w = SV.dataset(p)
        k = KS.make(p["k"])

        class Score:
            def match(self, data):
                return SV.lin_score

        a = SteinThinning(coreset_size=p["m"], kernel=k, score_matching=Score(), regularise=False).reduce(D)[0]
        b = SteinThinning(coreset_size=p["m"], kernel=SteinKernel(k, SV.lin_score), regularise=False).reduce(D)[0]
        need(np.array_equal(SV.indices(a), SV.indices(b)), "Stein thinning with a plain kernel does not select with the Stein kernel", SV.indices(a), SV.indices(b))
