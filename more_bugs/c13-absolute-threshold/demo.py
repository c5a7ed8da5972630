import jax.numpy as jnp, jax.random as jr, numpy as np
from coreax.least_squares import RandomisedEigendecompositionSolver
r = np.random.default_rng(0)
q, _ = np.linalg.qr(r.normal(size=(6, 6)))
ev = np.array([3.0, 2.0, 1.0, 0.5, -0.4, -0.8])
A = (q * ev) @ q.T
b = r.normal(size=6)
x = RandomisedEigendecompositionSolver(random_key=jr.key(0), oversampling_parameter=6, rcond=0.01).solve(jnp.asarray(A), 0.0, jnp.asarray(b), jnp.eye(6))
inv = np.where(ev >= 0.01 * ev.max(), 1 / ev, 0)
want = (q * inv) @ q.T @ b
assert np.allclose(x, want, atol=1e-2), (x, want)
