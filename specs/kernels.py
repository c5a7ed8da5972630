"""Closed forms of the kernels (specification side), for symbolic parameters and dimension."""
from __future__ import annotations

import math

from engine import model as M, sym as S, tensor as Z, terms as T
from engine.tensor import SV

SVMOD = "coreax.kernels.scalar_valued"


def d2(x, y):
    e = x - y
    return Z.dot(e, e).body


def dist(x, y):
    return T.sqrt(d2(x, y))


def l1(x, y):
    v = T.index_var(x.dims[0], "k")
    return T.sum_([(v, x.dims[0])], T.abs_(x.get(v) - y.get(v)))


def dot(x, y):
    return Z.dot(x, y).body


def params():
    return dict(
        ls=S.real("ls", "+"), os=S.real("os", "+"), c=S.real("cst", "0+"), rw=S.real("rw", "+"), per=S.real("per", "+"),
        ls2=S.real("ls2", "+"), os2=S.real("os2", "+"),
    )


def _matern(p, q):
    def f(x, y):
        b = T.sqrt(T.num(2 * q + 1)) * dist(x, y) * T.inv(p["ls"].n)
        s = T.ZERO
        for i in range(q + 1):
            co = T.Fr(math.factorial(q + i), math.factorial(i) * math.factorial(q - i))
            s = s + T.num(co) * T.power(b.scale(2), q - i)
        return T.power(p["os"].n, 2) * T.exp(-b) * T.num(T.Fr(math.factorial(q), math.factorial(2 * q))) * s

    return f


def periodic(p):
    return lambda x, y: p["os"].n * T.exp(
        (T.power(T.sin(T.pi() * dist(x, y) * T.inv(p["per"].n)), 2)).scale(-2) * T.inv(T.power(p["ls"].n, 2))
    )


def se(ls, os):
    return lambda x, y: os.n * T.exp(-d2(x, y) * T.inv(T.power(ls.n, 2).scale(2)))


def kernels(E):
    """name -> dict(make, spec, dim (None = any), smooth, cls)."""
    km = E.load("coreax.kernels")
    p = params()
    ls, os, c, rw, per = p["ls"], p["os"], p["c"], p["rw"], p["per"]
    two_ls2 = lambda: T.inv(T.power(ls.n, 2).scale(2))  # noqa: E731
    out = {}

    def add(name, cls, make, spec, dim=None, apart=False):
        out[name] = dict(cls=cls, make=make, spec=spec, dim=dim, apart=apart)

    add("Linear", "LinearKernel", lambda: km.LinearKernel(os, c), lambda x, y: os.n * dot(x, y) + c.n)
    for q in (2, 3, 4):
        add(f"Polynomial[{q}]", "PolynomialKernel", lambda q=q: km.PolynomialKernel(os, c, q), lambda x, y, q=q: os.n * T.power(dot(x, y) + c.n, q))
    add("Exponential", "ExponentialKernel", lambda: km.ExponentialKernel(ls, os), lambda x, y: os.n * T.exp(-dist(x, y) * two_ls2()), apart=True)
    add("Laplacian", "LaplacianKernel", lambda: km.LaplacianKernel(ls, os), lambda x, y: os.n * T.exp(-l1(x, y) * two_ls2()), apart="all")
    add("SquaredExponential", "SquaredExponentialKernel", lambda: km.SquaredExponentialKernel(ls, os), se(ls, os))
    add("PCIMQ", "PCIMQKernel", lambda: km.PCIMQKernel(ls, os), lambda x, y: os.n * T.inv(T.sqrt(T.ONE + d2(x, y) * two_ls2())))
    add(
        "RationalQuadratic", "RationalQuadraticKernel", lambda: km.RationalQuadraticKernel(ls, os, rw),
        lambda x, y: os.n * T.power(T.ONE + d2(x, y) * T.inv((rw.n * T.power(ls.n, 2)).scale(2)), -rw.n),
    )
    for q in (0, 1, 2, 3):
        add(f"Matern[{q}]", "MaternKernel", lambda q=q: km.MaternKernel(ls, os, q), _matern(p, q), apart=True)
    add("Periodic", "PeriodicKernel", lambda: km.PeriodicKernel(ls, os, per), periodic(p), apart=True)
    add(
        "LocallyPeriodic", "LocallyPeriodicKernel", lambda: km.LocallyPeriodicKernel(ls, os, per, p["ls2"], p["os2"]),
        lambda x, y: periodic(p)(x, y) * se(p["ls2"], p["os2"])(x, y), apart=True,
    )

    def poisson():
        r = T.var("idx", "R", sign="+")
        E.assume(T.lt(r, T.ONE))
        return km.PoissonKernel(SV(r, "f"), os)

    def poisson_spec(x, y):
        r = T.var("idx", "R", sign="+")
        return os.n * T.inv(T.ONE - (r * T.cos(x.get(T.ZERO) - y.get(T.ZERO))).scale(2) + r * r)

    add("Poisson", "PoissonKernel", poisson, poisson_spec, dim=1)
    return out


NAMES = [
    "Linear", "Polynomial[2]", "Polynomial[3]", "Polynomial[4]", "Exponential", "Laplacian", "SquaredExponential", "PCIMQ", "RationalQuadratic",
    "Matern[0]", "Matern[1]", "Matern[2]", "Matern[3]", "Periodic", "LocallyPeriodic", "Poisson",
]


def cls_of(name):
    return name.split("[")[0] + "Kernel"


def point(name, k):
    d = S.nat("d") if k["dim"] is None else k["dim"]
    return S.array(name, d)
