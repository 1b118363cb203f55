"""Planted bugs: keys of whole programs."""
SPY = r'''
import contextlib, io, os, runpy, shutil, sys, tempfile, atexit
import numpy as np
repo = os.getcwd()
sys.path.insert(0, repo)
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
plt.imshow = lambda *a, **k: None
import jax, jax.numpy as jnp
tmp = tempfile.mkdtemp()
atexit.register(shutil.rmtree, tmp, True)
for x in ('checkpoints', 'imgs/results_inpainting/imgs', 'imgs/results_inpainting/arrs'):
    os.makedirs(f'{tmp}/e/{x}')
os.chdir(tmp + '/e')
import fbs.data, fbs.nn.models, fbs.nn.utils
from fbs.data.images import ImageRestore
xs_all = jax.random.uniform(jax.random.PRNGKey(5), (7, 28, 28, 1))
class Fake(ImageRestore):
    def __init__(self, key, path, task='inpaint-15', test=False, **_):
        self.n, self.xs, self.task = 7, jax.random.permutation(key, xs_all, axis=0), task
        super().__init__(task, (28, 28, 1))
fbs.data.MNISTRestore = Fake
fbs.nn.models.make_st_nn = lambda key, nn, dim_in, batch_size: (jnp.ones((1,)), None, lambda x, t, p: -p[0] * x)
def run(script, *argv):
    old, sys.argv = sys.argv, [script, *map(str, argv)]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return runpy.run_path(f'{repo}/experiments/{script}', run_name='__main__')
    finally:
        sys.argv = old
def name(key):
    return tuple(np.asarray(key).tolist())
'''
BUGS = [
    dict(id='c11-train-loss-key', prop='C11',
         edits=[('experiments/imgs/train.py', 'optax_kernel(param, opt_state, subkey2, x0s)', 'optax_kernel(param, opt_state, subkey, x0s)')],
         needs='the training program, with more than one batch in an epoch',
         breaks='the key that draws the times and the noises of a batch is also the parent of the keys of all later batches of the epoch',
         demo=SPY + r'''
used, parents = [], []
def make(optimiser, loss_fn, jit=True):
    def kernel(param, state, key, xs):
        used.append(name(key))
        return param, state, 0.
    return kernel, lambda ema, param, *a: ema
fbs.nn.utils.make_optax_kernel = make
split = jax.random.split
def spy(key, num=2):
    if not isinstance(key, jax.core.Tracer):
        parents.append(name(key))
    return split(key, num)
jax.random.split = spy
class Done(Exception):
    pass
import fbs.sdes
def stop(*a, **k):
    raise Done
fbs.sdes.reverse_simulator = stop
class Small(Fake):
    def __init__(self, key, path, **kw):
        super().__init__(key, path, **kw)
fbs.data.MNISTRestore = Small
try:
    run('imgs/train.py', '--dataset=mnist', '--batch_size=2', '--nepochs=1', '--nsteps=2', '--schedule=const')
except BaseException as e:
    if not used:
        raise
both = set(used) & set(parents)
print(len(used), 'batches;', len(both), 'of their keys were also split')
sys.exit(1 if both else 0)
'''),
    dict(id='c11-csgm-split', prop='C11',
         edits=[('experiments/imgs/inpainting_csgm.py', 'key_ests = jax.random.split(key_est, num=nsteps)',
                 'key_ests = jax.random.split(key_scan, num=nsteps)')],
         needs='the CSGM restoration program',
         breaks='the key that draws the Wiener increments is the parent of the keys that noise the observation',
         demo=SPY + r'''
drawn, parents = [], []
split, normal = jax.random.split, jax.random.normal
def splitting(key, num=2):
    parents.append(id(key) if isinstance(key, jax.core.Tracer) else name(key))
    keep.append(key)
    return split(key, num)
def drawing(key, *a, **k):
    drawn.append(id(key) if isinstance(key, jax.core.Tracer) else name(key))
    keep.append(key)
    return normal(key, *a, **k)
keep = []
jit, scan = jax.jit, jax.lax.scan
np.savez('checkpoints/mnist_lin_9.npz', param=np.ones(1), ema_param=np.ones(1))
jax.random.split, jax.random.normal = splitting, drawing
with jax.disable_jit():
    run('imgs/inpainting_csgm.py', '--test_nsteps', 2, '--test_epoch', 9, '--nsamples', 1, '--ny0s', 1)
both = set(drawn) & set(parents)
print(len(drawn), 'draws;', len(both), 'of their keys were also split')
sys.exit(1 if both else 0)
'''),
    dict(id='c11-init-path-key', prop='C11',
         edits=[('fbs/samplers/gibbs.py', 'unpack(fwd_sampler(key_fwd2, approx_x0, y0, **kwargs), **kwargs)[0][::-1]',
                 'unpack(fwd_sampler(key_fwd, approx_x0, y0, **kwargs), **kwargs)[0][::-1]')],
         needs="gibbs_init with method 'filter'",
         breaks='the path started from the filter\'s draw repeats the noise of the path it was filtered along',
         demo='''
import sys, os
sys.path.insert(0, os.getcwd())
import jax, jax.numpy as jnp, numpy as np
from fbs.samplers import gibbs_init
seen = []
def fwd(key, x0, y0, **_):
    seen.append(tuple(np.asarray(key).tolist()))
    xs = jnp.concatenate([x0[None], jax.random.normal(key, (2, 1))])
    return jnp.concatenate([xs, jnp.zeros((3, 1))], -1)
unpack = lambda xy, **_: (xy[..., :1], xy[..., 1:])
gibbs_init(jax.random.PRNGKey(0), jnp.zeros(1), (1,), jnp.array([0., 1., 2.]), fwd, None, unpack,
           lambda u, v, t, k, **_: jax.random.normal(k, u.shape), None, lambda v, u, vp, t, **_: jnp.zeros(u.shape[0]), 3,
           method='filter', marg_y=False)
print(len(seen), 'noisings with', len(set(seen)), 'distinct keys')
sys.exit(len(set(seen)) < len(seen))
'''),
    dict(id='c23-lpips-sample', prop='C23',
         edits=[('experiments/tabulators/tabulate_imgs.py', 'tensor1 = to_torch_tensor(restored_imgs[k])',
                 'tensor1 = to_torch_tensor(restored_imgs[0])')],
         needs='the table of a colour data set (LPIPS is not computed for MNIST)',
         breaks='the LPIPS columns are those of the first sample of each run, not of all samples',
         demo=r"""
import sys, os, io, re, types, tempfile, shutil, atexit, contextlib
repo = os.getcwd()
sys.path.insert(0, repo)
import numpy as np
tmp = tempfile.mkdtemp()
atexit.register(shutil.rmtree, tmp, True)
src = open('experiments/tabulators/tabulate_imgs.py').read()
for name, value in (('dataset', "'celeba-64'"), ('ny0s', '1'), ('nsamples', '3')):
    src = re.sub(rf'(?m)^{name} = .*$', f'{name} = {value}', src)
seen = []
class L:
    def __init__(self, net='alex', **kw):
        pass
    def forward(self, a, b):
        seen.append(np.asarray(b).tobytes())
        return 0.
fake = types.ModuleType('lpips')
fake.LPIPS = L
sys.modules['lpips'] = fake
os.chdir(tmp)
os.makedirs('imgs/results_supr/arrs')
g = np.random.default_rng(0)
np.savez('imgs/results_supr/arrs/celeba-64-4-lin-0-true.npz', test_img=g.uniform(size=(8, 8, 3)))
for m in ('100-0-filter', '100-0-gibbs-eb-ef', '100-0-pmcmc-0.005', '100-0-twisted', '0-csgm'):
    np.save(f'imgs/results_supr/arrs/celeba-64-4-lin-{m}.npy', g.uniform(size=(3, 8, 8, 3)))
with contextlib.redirect_stdout(io.StringIO()):
    exec(compile(src, 'tabulate_imgs', 'exec'), {'__name__': '__main__'})
print(len(seen), 'pairs,', len(set(seen)), 'distinct samples; 15 of 15 expected')
sys.exit(0 if len(set(seen)) == len(seen) == 15 else 1)
"""),
]
