import jax.numpy as jnp, jax.random as jr, numpy as np
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import RPCholesky
for s in range(12):
    x = jr.normal(jr.key(s), (10, 2)) * 0.3
    c, _ = RPCholesky(coreset_size=10, random_key=jr.key(s), kernel=SquaredExponentialKernel(length_scale=3.0)).reduce(Data(x))
    i = np.asarray(c.unweighted_indices)
    assert len(set(i.tolist())) == 10, i
