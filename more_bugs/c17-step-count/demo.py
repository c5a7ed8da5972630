import jax.numpy as jnp, jax.random as jr, numpy as np
from coreax import Data
from coreax.coreset import Coresubset
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelHerding
k = SquaredExponentialKernel(length_scale=0.7)
bad = 0
for s in range(6):
    x = jr.normal(jr.key(s), (30, 2))
    K = np.asarray(k.compute(x, x), dtype=float)
    m = 8
    start = np.arange(m)
    c, _ = KernelHerding(m, kernel=k, unique=False).refine(Coresubset(Data(jnp.asarray(start)), Data(x)))
    cur = list(start)
    got = np.asarray(c.unweighted_indices)
    for t in range(m):
        rest = cur[:t] + cur[t + 1:]
        crit = K.mean(axis=0) - K[:, rest].sum(axis=1) / m
        assert crit[got[t]] >= crit.max() - 1e-4, (s, t, got[t], crit.argmax())
        cur[t] = int(got[t])
