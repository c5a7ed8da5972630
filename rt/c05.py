"""C05 on the real code: data containers."""
import jax.numpy as jnp
import numpy as np

from .common import *  # noqa: F403
from .common import close, kind, need, pick, points, raises, rint, weights


def mk(p):
    from coreax.data import Data, SupervisedData

    x = points(p["s"], p["n"], p["d"])
    y = points(p["s"] + 5, p["n"], p["q"]) if p["q"] else None
    w = weights(p["s"], p["n"], p["w"])
    D = Data(jnp.asarray(x), w) if y is None else SupervisedData(jnp.asarray(x), jnp.asarray(y), w)
    return D, x, y, np.ones(p["n"]) if w is None else w


def gen0(rng):
    return dict(n=rint(rng, 1, 9), d=rint(rng, 1, 4), q=pick(rng, 0, 1, 2, 3), s=rint(rng, 0, 10**6), w=pick(rng, "none", "mixed", "zeros", "big"))


def same(D, x, y, w, msg):
    close(D.data, x, msg + ": data", atol=1e-6)
    close(D.weights, w, msg + ": weights", atol=1e-6)
    if y is not None:
        close(D.supervision, y, msg + ": supervision", atol=1e-6)


@kind("C05", "construct", weight=2)
class _:
    @staticmethod
    def gen(rng):
        return gen0(rng)

    @staticmethod
    def check(p):
        from coreax.data import Data, SupervisedData, as_data, as_supervised_data

        D, x, y, w = mk(p)
        same(D, x, y, w, "constructed")
        need(len(D) == p["n"], "len")
        need(D.shape == x.shape, "shape")
        sc = Data(jnp.asarray(x), 2.5)
        close(sc.weights, np.full(p["n"], 2.5), "scalar weight")
        one = Data(jnp.asarray(x[:, 0]))
        close(one.data, x[:, :1], "one-dimensional data")
        need(as_data(D) is D, "as_data keeps containers")
        close(as_data(jnp.asarray(x)).data, x, "as_data of an array", atol=1e-6)
        close(jnp.asarray(D), x if y is None else np.hstack([x, y]), "as array", atol=1e-6)
        if y is not None:
            need(as_supervised_data(D) is D, "as_supervised_data keeps containers")
            s = as_supervised_data((jnp.asarray(x), jnp.asarray(y)))
            same(s, x, y, np.ones(p["n"]), "as_supervised_data of a pair")
            close(SupervisedData(jnp.asarray(x), jnp.asarray(y[:, 0])).supervision, y[:, :1], "one-dimensional supervision", atol=1e-6)
            for extra in (1, 3):
                raises(ValueError, lambda: SupervisedData(jnp.asarray(x), jnp.zeros((p["n"] + extra, p["q"]))), "supervision too long")
            if p["n"] > 1:
                raises(ValueError, lambda: SupervisedData(jnp.asarray(x), jnp.zeros((p["n"] - 1, p["q"]))), "supervision too short")
                raises(ValueError, lambda: SupervisedData(jnp.asarray(x), jnp.zeros((1, p["q"]))), "single supervision")


@kind("C05", "index", weight=3)
class _:
    @staticmethod
    def gen(rng):
        p = gen0(rng)
        n = p["n"]
        p["key"] = pick(rng, ["s", rint(rng, -n, n), pick(rng, None, rint(rng, 0, n)), pick(rng, None, 1, 2, -1)], ["a", [rint(rng, 0, n - 1) for _ in range(rint(rng, 1, 6))]], ["a", [rint(rng, -n, n - 1)]], ["b", rint(rng, 0, 2**n - 1)], ["m", [[rint(rng, 0, n - 1) for _ in range(2)] for _ in range(3)]])
        return p

    @staticmethod
    def check(p):
        D, x, y, w = mk(p)
        t, *a = p["key"]
        if t == "s":
            key = slice(*a)
        elif t in ("a", "m"):
            key = jnp.asarray(a[0])
        else:
            key = np.array([bool(a[0] >> i & 1) for i in range(p["n"])])
            if p["s"] % 2:
                key = jnp.asarray(key)
        R = D[key]
        nk = np.asarray(key) if t != "s" else key
        same(R, x[nk], None if y is None else y[nk], w[nk], "indexed")
        need(type(R) is type(D), "type kept")
        # whatever the key, every leaf is indexed as an array would be
        n, r = p["n"], np.random.default_rng(p["s"])
        i = int(r.integers(-n, n))
        mask = r.random(n) < 0.5
        for nm, k in {
            "integer": i, "array scalar": jnp.asarray(i), "numpy integer": np.int32(i), "ellipsis": ..., "one-tuple": (i,), "nested indices": jnp.asarray([[0, n - 1], [i, 0]]),
            "negative indices": jnp.asarray([i, -1, 0]), "out-of-range indices": jnp.asarray([0, n + 3, n]), "numpy indices": np.array([i, 0]), "boolean array": jnp.asarray(mask), "empty": jnp.zeros(0, jnp.int32),
        }.items():
            R = D[k]
            leaf = lambda a: jnp.asarray(a)[k]  # noqa: E731
            same(R, leaf(x), None if y is None else leaf(y), leaf(w), f"indexed by {nm}")
            need(type(R) is type(D), "type kept")


@kind("C05", "normalize", weight=2)
class _:
    corners = [dict(n=4, d=2, q=0, s=1, w="none", zero=True, pz=True), dict(n=4, d=2, q=1, s=1, w="none", zero=True, pz=True), dict(n=3, d=1, q=0, s=1, w="zeros", pz=True), dict(n=3, d=1, q=0, s=1, w="zeros", pz=False)]

    @staticmethod
    def gen(rng):
        p = gen0(rng)
        p["pz"] = bool(rng.random() < 0.5)
        p["zero"] = bool(rng.random() < 0.2) and p["pz"]
        return p

    @staticmethod
    def check(p):
        from coreax.data import Data, SupervisedData

        D, x, y, w = mk(p)
        if p.get("zero"):
            w = np.zeros(p["n"])
            D = Data(jnp.asarray(x), jnp.asarray(w)) if y is None else SupervisedData(jnp.asarray(x), jnp.asarray(y), jnp.asarray(w))
        R = D.normalize(preserve_zeros=p["pz"])
        want = np.zeros(p["n"]) if p.get("zero") else w / w.sum()
        same(R, x, y, want, "normalised")
        same(D, x, y, w, "input unchanged")


@kind("C05", "zero pad", weight=2)
class _:
    @staticmethod
    def gen(rng):
        return dict(gen0(rng), pad=rint(rng, 0, 5))

    @staticmethod
    def check(p):
        from coreax.util import tree_zero_pad_leading_axis

        D, x, y, w = mk(p)
        R = tree_zero_pad_leading_axis(D, p["pad"])
        z = lambda a: None if a is None else np.concatenate([a, np.zeros((p["pad"], *a.shape[1:]))])  # noqa: E731
        same(R, z(x), z(y), z(w), "padded")
        need(type(R) is type(D), "type kept")
        raises(ValueError, lambda: tree_zero_pad_leading_axis(D, -1 - p["pad"]), "negative padding")
