PRE = r'''
import contextlib, io, os, runpy, shutil, sys, tempfile
import numpy as np
repo = os.getcwd()
sys.path.insert(0, repo)
import jax, jax.numpy as jnp
import matplotlib
matplotlib.use('Agg')
tmp = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, tmp, True)
for q in ('experiments/checkpoints', 'experiments/datasets', 'datasets', 'experiments/sb_imgs/results',
          *(f'experiments/imgs/results_{k}/{a}' for k in ('supr', 'inpainting') for a in ('imgs', 'arrs'))):
    os.makedirs(f'{tmp}/{q}')
os.chdir(tmp + '/experiments')
np.save('datasets/celeba_hq4.npy', np.random.default_rng(0).normal(size=(1004, 4, 4, 3)).astype(np.float32))
g = np.random.default_rng(1)
np.savez('../datasets/mnist.npz', X=np.zeros((60000, 1, 1), np.uint8), X_test=g.integers(0, 255, size=(10000, 28, 28)).astype(np.uint8))
for sde in ('lin', 'const'):
    np.savez(f'checkpoints/celeba-4_{sde}_2999.npz', param=np.ones(1), ema_param=np.ones(1))
    np.savez(f'checkpoints/sb_mnist_{sde}_9.npz', param_fwd=np.ones(1), param_bwd=2 * np.ones(1))
import fbs.nn.unet, fbs.nn.models, fbs.samplers, fbs.samplers.smc, fbs.samplers.gibbs
net = [lambda x, t, p: -x]
fbs.nn.unet.UNet = lambda *a, **kw: None
fbs.nn.models.make_st_nn = lambda *a, **kw: (jnp.ones(1), None, lambda x, t, p: net[0](x, t, p))
import matplotlib.pyplot as plt
plt.imsave = lambda *a, **kw: None
def run(script, *argv):
    old, sys.argv = sys.argv, [script, *map(str, argv)]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return runpy.run_path(f'{repo}/experiments/{script}', run_name='__main__')
    finally:
        sys.argv = old
def b2(t, T=2.):
    return .02 + (5 - .02) * t / T
def gauss(x, m, sd):
    return float((-.5 * ((x - m) / sd) ** 2 - np.log(sd) - .5 * np.log(2 * np.pi)).sum())
'''
BUGS = [
    dict(id='c27-csgm-clock', prop='C27',
         edits=[('experiments/imgs/inpainting_csgm.py', """    F, Q = discretise_linear_sde(T - t, ts[0])
    v_hat = F * y0""", """    F, Q = discretise_linear_sde(t, ts[0])
    v_hat = F * y0""")],
         needs='a network that looks at the observed pixels: they are noised with the forward time where the reverse time is meant, so '
               'that the network sees clean observed pixels at the start and pure noise at the end',
         breaks='restorations of the conditional score program do not follow its process: the observation is noised at the wrong time',
         demo=PRE + r'''
net[0] = lambda x, t, p: -x + 1.2 * (x ** 2).mean()      # a level that depends on the power of the observed pixels
np.save('datasets/celeba_hq4.npy', np.zeros((1004, 4, 4, 3), np.float32))
K, n = 4, 400
run('imgs/inpainting_csgm.py', '--rect_size', 1, '--test_nsteps', K, '--nsamples', n, '--ny0s', 1, '--dataset', 'celeba-4', '--sde', 'lin')
got = np.load('imgs/results_inpainting/arrs/celeba-4-1-lin-0-csgm.npy')
z = np.load('imgs/results_inpainting/arrs/celeba-4-1-lin-0-true.npz')
un = z['arr_%d' % (len(z.files) - 3)].ravel()
got = got.reshape(n, 16, 3)[:, un]
r = np.random.default_rng(0)
m = 20000
u = r.normal(size=(m, 3))
for k in range(K):
    t = 2 - k * .5
    i = .02 * t + 4.98 * t * t / 4
    v = np.sqrt(1 - np.exp(-i)) * r.normal(size=(m, 45))
    p = ((u ** 2).sum(1) + (v ** 2).sum(1)) / 48
    u = u + .5 * b2(t) * (.5 * u - u + 1.2 * p[:, None]) + np.sqrt(.5 * b2(t)) * r.normal(size=(m, 3))
print('mean of the restorations', got.mean(), 'should be', u.mean())
sys.exit(bool(abs(got.mean() - u.mean()) > .3))
'''),
    dict(id='c27-likelihood-clock', prop='C27',
         edits=[('experiments/imgs/inpainting.py', """        return jnp.sum(jax.scipy.stats.norm.logpdf(v, cond_m, math.sqrt(dt) * reverse_dispersion(t_prev)))
""", """        return jnp.sum(jax.scipy.stats.norm.logpdf(v, cond_m, math.sqrt(dt) * reverse_dispersion(t_prev + dt)))
""")],
         needs='the process whose dispersion changes with time (--sde=lin): the likelihood has the scale of the next step',
         breaks='the likelihood of the observed pixels is not that of the reversed process: its scale belongs to the next time',
         demo=PRE + r'''
seen = []
def spy(key, y0, **kw):
    seen.append(kw)
    return jnp.zeros(kw['x0_shape']), None
fbs.samplers.gibbs_init = fbs.samplers.gibbs.gibbs_init = lambda key, y0, **kw: spy(key, y0, **kw)
run('imgs/inpainting.py', '--rect_size', 2, '--test_nsteps', 4, '--nsamples', 1, '--ny0s', 1, '--dataset', 'celeba-4', '--sde', 'lin', '--nparticles', 3)
kw = seen[0]
from fbs.data.images import InpaintingMask
import inspect
z = np.load('imgs/results_inpainting/arrs/celeba-4-2-lin-3-0-true.npz')
mask = InpaintingMask(*[z[f'arr_{i}'] for i in range(len(z.files) - 1)])
r = np.random.default_rng(0)
us, v, v1 = r.normal(size=(3, 4, 3)), r.normal(size=(12, 3)), r.normal(size=(12, 3))
bad = 0
for t in (0., 1.):
    got = np.asarray(kw['likelihood_logpdf'](jnp.asarray(v1), jnp.asarray(us), jnp.asarray(v), t, mask_=mask))
    m = v + .5 * b2(2 - t) * (.5 * v - v)
    want = gauss(v1, m, np.sqrt(.5 * b2(2 - t)))
    print('likelihood', got[0], 'should be', want)
    bad |= abs(got[0] - want) > .02 * abs(want)
sys.exit(int(bad))
'''),
    dict(id='c27-bridge-networks', prop='C27',
         edits=[('experiments/sb_imgs/supr.py', """    def fwd_drift(x, t):
        return nn_drift(x, t, param_fwd)
""", """    def fwd_drift(x, t):
        return reverse_drift(x, T - t)
""")],
         needs='networks of the two directions that differ (after training they do)',
         breaks='the forward paths of the bridge are drawn with the backward network',
         demo=PRE + r'''
net[0] = lambda x, t, p: 0 * x + p[0] * (1 + t)
seen = []
def spy(key, y0, shape, ts, fwd, *a, mask_=None, x0=None, **kw):
    P = fwd(key, x0, y0, mask_)
    jax.debug.callback(lambda v: seen.append(np.array(v)), P)
    return x0, None
fbs.samplers.gibbs_init = fbs.samplers.gibbs.gibbs_init = spy
run('sb_imgs/supr.py', '--rate', 4, '--test_nsteps', 4, '--nsamples', 2, '--sde', 'const', '--y0_id', 0, '--nparticles', 2)
jax.effects_barrier()
d = np.mean([p[1:] - p[:-1] for p in seen], axis=(0, 2, 3, 4)) / .125
want = 1 + np.arange(4) * .125
print('drift of the forward paths', d, 'should be', want)
sys.exit(bool(np.abs(d - want).max() > .4))
'''),
    dict(id='c27-twisting-clock', prop='C27',
         edits=[('experiments/imgs/supr_twisted.py', """    F, Q = discretise_linear_sde(T - t, ts[0])
    return jnp.sum(""", """    F, Q = discretise_linear_sde(t, ts[0])
    return jnp.sum(""")],
         needs='a comparison of the twisting function at early and late times: its variance grows where it should shrink',
         breaks='the twisting function has the noise level of the wrong time, so that the last steps no longer follow the measurement',
         demo=PRE + r'''
seen = []
def spy(key, y, ts, init, tr, tw, ps, pl, *a, **kw):
    seen.append(tw)
    n = kw.get('nparticles', 3)
    return init(key, n), jnp.zeros(n)
fbs.samplers.twisted_smc = fbs.samplers.smc.twisted_smc = spy
run('imgs/supr_twisted.py', '--rate', 2, '--test_nsteps', 4, '--nsamples', 1, '--ny0s', 1, '--dataset', 'celeba-4', '--sde', 'const', '--nparticles', 3)
from fbs.data.images import *
import fbs.data.images as I
z = np.load('imgs/results_supr/arrs/celeba-4-2-const-3-0-true.npz')
mask = [getattr(I, n) for n in dir(I) if n.endswith('Mask')]
arrs = [z[f'arr_{i}'] for i in range(len(z.files) - 1)]
mask = [m for m in mask if len(m._fields) == len(arrs)][-1](*arrs)
y = jnp.zeros((4, 3))
us = jnp.ones((1, 4, 4, 3))
bad = 0
for t in (.5, 1.5, 2.):
    got = float(seen[0](y, us, t, mask)[0])
    m = 1 + .5 * (.5 - 1)
    F2 = np.exp(-(2 - t))
    want = gauss(np.zeros(12), m, np.sqrt(F2 * .06 + 1 - F2))
    print('twisting function', got, 'should be', want)
    bad |= abs(got - want) > .02 * abs(want) + .02
sys.exit(int(bad))
'''),
]
