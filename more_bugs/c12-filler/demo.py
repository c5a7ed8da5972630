import jax.numpy as jnp, jax.random as jr, numpy as np
from coreax import Data
from coreax.solvers import CaratheodoryRecombination
for s in range(20):
    z = jr.normal(jr.key(s), (5, 1))
    x = jnp.hstack([z, 2 * z, -z])
    c, _ = CaratheodoryRecombination(test_functions=None).reduce(Data(x))
    w = np.asarray(c.points.weights)
    assert abs(w.sum() - 1) < 1e-3, w
