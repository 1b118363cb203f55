BUGS = [
    dict(id='c12-lti-transpose', prop='C12',
         edits=[('fbs/utils.py', "    cov = AB[0:d, :] @ F.T\n", "    cov = AB[0:d, :] @ F\n")],
         needs='a drift matrix that is not symmetric (the tests and the experiments use multiples of the identity)',
         breaks='the covariance of the exact discretisation of a linear time-invariant SDE is wrong',
         demo=r'''
import sys, os
sys.path.insert(0, os.getcwd())
import numpy as np, jax.numpy as jnp
from fbs.utils import discretise_lti_sde
A, G, dt = np.array([[0., 1.], [0., 0.]]), np.diag([0., 1.]), .7
F, Q = discretise_lti_sde(jnp.asarray(A), jnp.asarray(G), dt)
want = np.array([[dt ** 3 / 3, dt ** 2 / 2], [dt ** 2 / 2, dt]])
print(np.asarray(Q), want)
sys.exit(0 if np.abs(np.asarray(Q) - want).max() < 1e-3 else 1)
'''),
]
