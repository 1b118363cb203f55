BUGS = [
    dict(id='c02-marg-reversed', prop='C02',
         edits=[('fbs/samplers/gibbs.py', """    us = path_x[::-1]
    vs = bridge_sampler(key_bridge, path_y[0], path_y[-1], ts, sde)[::-1] if marg_y else path_y[::-1]
""", """    us = path_x[::-1]
    vs = bridge_sampler(key_bridge, path_y[-1], path_y[0], ts, sde) if marg_y else path_y[::-1]
""")],
         needs='marg_y, and an SDE whose coefficients change with time (the bridge of a stationary SDE is reversible)',
         breaks='the path of the observation is a bridge of the SDE run in the wrong direction of time, so the kernel leaves another law invariant',
         demo=r'''
import sys
import jax, jax.numpy as jnp, numpy as np
jax.config.update('jax_enable_x64', True)
from fbs.samplers.gibbs import gibbs_kernel
from fbs.sdes import StationaryLinLinearSDE, make_linear_sde
sde = StationaryLinLinearSDE(beta_min=.02, beta_max=8., t0=0., T=1.)
disc, _, fwd = make_linear_sde(sde)
K = 4
ts = jnp.linspace(0, 1, K + 1)
N = 30
def fwd_sampler(key, x0, y0):
    return fwd(key, jnp.concatenate([x0, y0]), ts)
def unpack(xy):
    return xy[..., :1], xy[..., 1:]
def trans(us, v, t, key):      # the particles repeat the path of the observation
    return v * jnp.ones_like(us)
def lp(u, us, v, t):
    return jnp.zeros(us.shape[0])
def ll(v, us, v_prev, t):
    return jnp.zeros(us.shape[0])
def lane(key):
    _, u, _, _ = gibbs_kernel(key, jnp.ones(1), 3 * jnp.ones(1), jnp.zeros((K + 1, 1)), jnp.zeros(K + 1, int), ts, fwd_sampler, sde, unpack, N,
                              trans, lp, ll, marg_y=True, explicit_backward=False)
    return u[1:, 0]        # v_0 .. v_{K-1}: the observation at times T, 3T/4, T/2, T/4
u = np.asarray(jax.jit(jax.vmap(lane))(jax.random.split(jax.random.PRNGKey(0), 4000)))
want = [3 * float(disc(ts[k], ts[0])[0]) for k in (4, 3, 2, 1)]
got = np.median(u, axis=0)
print(got, want)
sys.exit(0 if np.abs(got - want).max() < .25 else 1)
'''),
    dict(id='c08-marg-terminal', prop='C08',
         edits=[('fbs/samplers/gibbs.py', """    _, path_y = unpack(path_xy, **kwargs)

    vs = bridge_sampler(key_bridge, path_y[0], path_y[-1], ts, sde)[::-1] if marg_y else path_y[::-1]
""", """    _, path_y = unpack(path_xy, **kwargs)
    y_end, y_start = path_y[-1], path_y[min(1, len(ts) - 2)]

    vs = bridge_sampler(key_bridge, y_start, y_end, ts, sde)[::-1] if marg_y else path_y[::-1]
""")],
         needs='gibbs_init with marg_y', breaks='the initial path is conditioned on a noised observation instead of the observation',
         demo=r'''
import sys
import jax, jax.numpy as jnp, numpy as np
jax.config.update('jax_enable_x64', True)
from fbs.samplers.gibbs import gibbs_init
from fbs.sdes import StationaryConstLinearSDE, make_linear_sde
sde = StationaryConstLinearSDE(a=-.5, b=1.)
_, _, fwd = make_linear_sde(sde)
K = 4
ts = jnp.linspace(0, 2, K + 1)
seen = []
def ll(v, us, v_prev, t):
    jax.debug.callback(lambda v, t: seen.append((float(t), float(v[0]))), v, t)
    return jnp.zeros(us.shape[0])
gibbs_init(jax.random.PRNGKey(0), 3 * jnp.ones(1), (1,), ts, lambda key, x0, y0: fwd(key, jnp.concatenate([x0, y0]), ts), sde,
           lambda xy: (xy[..., :1], xy[..., 1:]), lambda us, v, t, key: us + jax.random.normal(key, us.shape),
           lambda u, us, v, t: jnp.zeros(us.shape[0]), ll, 10, method='filter', marg_y=True)
jax.effects_barrier()
last = max(seen)
print(last)
sys.exit(0 if abs(last[1] - 3) < 1e-9 else 1)
'''),
    dict(id='c12-exp-drift', prop='C12',
         edits=[('fbs/sdes/linear.py', 'return self.a * jnp.exp(self.c * (t - self.z)) * x', 'return self.a * jnp.exp(self.c * t - self.z) * x')],
         needs='a StationaryExpLinearSDE with c different from one and z different from zero',
         breaks='the drift is not the one of the SDE whose transitions the noising uses',
         demo=r'''
import sys
import jax.numpy as jnp, numpy as np
from fbs.sdes import StationaryExpLinearSDE
s = StationaryExpLinearSDE(a=-.5, b=1., c=2., z=.5)
got, want = float(s.drift(jnp.asarray(1.), 1.)), -.5 * np.exp(2 * .5)
print(got, want)
sys.exit(0 if abs(got - want) < 1e-5 else 1)
'''),
]
