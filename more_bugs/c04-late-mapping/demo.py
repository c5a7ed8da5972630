import jax.numpy as jnp, jax.random as jr, numpy as np
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelHerding, MapReduce
for n, leaf, m in ((64, 8, 4), (200, 10, 4), (500, 12, 3)):
    x = jr.normal(jr.key(n), (n, 2))
    c, _ = MapReduce(KernelHerding(m, kernel=SquaredExponentialKernel()), leaf_size=leaf).reduce(Data(x))
    i = np.asarray(c.unweighted_indices)
    one, _ = MapReduce(KernelHerding(m, kernel=SquaredExponentialKernel()), leaf_size=leaf).reduce(Data(x + 100.0))
    assert len(set(i.tolist())) == m, i
    assert i.max() >= m * 4 or n < 100, i
