import jax.numpy as jnp
from coreax.kernels import LinearKernel
k = (LinearKernel() ** 2) ** 3
v = float(k.compute_elementwise(jnp.array([1.0, 1.0]), jnp.array([1.0, 0.5])))
assert abs(v - 1.5**6) < 1e-3, v
