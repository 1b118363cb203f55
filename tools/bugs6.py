PRE = r'''
import contextlib, io, os, runpy, shutil, sys, tempfile
import numpy as np
repo = os.getcwd()
sys.path.insert(0, repo)
import jax, jax.numpy as jnp
tmp = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, tmp, True)
os.makedirs(tmp + '/e/toy/results')
os.chdir(tmp + '/e')
import fbs.samplers, fbs.samplers.smc, fbs.sdes, fbs.sdes.simulators
def run(script, *argv):
    old, sys.argv = sys.argv, [script, *map(str, argv)]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return runpy.run_path(f'{repo}/experiments/{script}', run_name='__main__')
    finally:
        sys.argv = old
'''
BUGS = [
    dict(id='c20-untwisted', prop='C20',
         edits=[('experiments/toy/gp_twisted.py', """            score(u, T - t) + jax.grad(twisting_logpdf, argnums=1)(y, u, t))
""", """            score(u, T - t) + jax.grad(twisting_logpdf, argnums=0)(y, u, t))
""")],
         needs='the gradient taken with respect to the observation instead of the state: the proposal is pushed away from the '
               'observation; its density is consistent, so that the weights still correct for it',
         breaks='the proposal of the twisted sampler is not the reverse drift tilted by the gradient of the twisting function',
         demo=PRE + r'''
seen = []
def spy(key, y, ts, init, tr, tw, ps, pl, *a, **kw):
    seen.append((y, tw, ps))
    n = kw['nparticles'] if 'nparticles' in kw else a[-1]
    return jnp.zeros((n, y.shape[0])), jnp.full(n, -jnp.log(n))
for m in (fbs.samplers, fbs.samplers.smc):
    m.twisted_smc = spy
N = 4000
run('toy/gp_twisted.py', '--d', 1, '--nparticles', N, '--nsamples', 1, '--id', 3, '--sde', 'const')
y, tw, ps = seen[0]
t = .5
y = 50 * jnp.ones(1)      # far away: the tilt is large
us = jnp.zeros((N, 1))
a = np.asarray(ps(jax.random.PRNGKey(0), us, t, y)).mean()
dt = 1 / 200
print('mean of the proposal', a, 'should be about', dt * 50)
sys.exit(abs(a - dt * 50) > .02)
'''),
    dict(id='c20-csgm-mean', prop='C20',
         edits=[('experiments/toy/gp_csgm.py', """cond_m_ref = F_ref * joint_mean[:d] + F_ref * cov_mat @ jax.scipy.linalg.cho_solve(chol_gp, y0 - joint_mean[:d])
""", """cond_m_ref = F_ref * (joint_mean[:d] + F_ref * cov_mat @ jax.scipy.linalg.cho_solve(chol_gp, y0 - joint_mean[:d]))
""")],
         needs='a measurement away from zero: the reference of the conditional sampler has a mean too close to zero',
         breaks='the reference of the conditional sampler is not the conditional law of the terminal state given the measurement',
         demo=PRE + r'''
seen = []
real = fbs.sdes.euler_maruyama
def spy(key, x0, ts, drift, dispersion, *a, **kw):
    jax.debug.callback(lambda v: seen.append(np.array(v)), x0)
    return x0
fbs.sdes.euler_maruyama = fbs.sdes.simulators.euler_maruyama = spy
bad = []
for i in (1, 2, 3):
    del seen[:]
    run('toy/gp_csgm.py', '--d', 1, '--nsamples', 3000, '--id', i, '--sde', 'const')
    jax.effects_barrier()
    z = np.load(f'toy/results/csgm-const-{i}.npz')
    got, want = np.concatenate(seen).mean(), np.exp(-.5) * float(z['gp_mean'][0])
    print('mean of the reference', got, 'should be', want)
    bad.append(abs(got - want) > .1)
sys.exit(any(bad))
'''),
]
