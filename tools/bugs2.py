SMC = 'fbs/samplers/smc.py'
BASE = 'fbs/data/base.py'
IMG = 'fbs/data/images.py'
LIN = 'fbs/sdes/linear.py'
BAY = 'fbs/data/bayesian.py'
UTIL = 'fbs/utils.py'
UNET = 'fbs/nn/unet.py'
NNU = 'fbs/nn/utils.py'
GIMG = 'experiments/imgs/'
TOY = 'experiments/toy/'
TAB = 'experiments/tabulators/'

# runs a program of the repository in a scratch directory
RUN = '''
import contextlib, io, os, runpy, shutil, sys, tempfile
import numpy as np
repo = os.getcwd()
sys.path.insert(0, repo)
import matplotlib
matplotlib.use('Agg')
import jax, jax.numpy as jnp
tmp = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, tmp, True)
os.makedirs(tmp + '/e')
os.chdir(tmp + '/e')
def run(script, *argv):
    old, sys.argv = sys.argv, [script, *map(str, argv)]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            g = runpy.run_path(f'{repo}/experiments/{script}', run_name='__main__')
    finally:
        sys.argv = old
    return g, out.getvalue()
def mk(*ds):
    for d in ds:
        os.makedirs(d, exist_ok=True)
'''
# small pictures and a network which is a function of one parameter
PICS = RUN + '''
import fbs.data, fbs.nn.models
from fbs.data.images import ImageRestore
xs_all = jax.random.uniform(jax.random.PRNGKey(5), (7, 28, 28, 1))
class Fake(ImageRestore):
    def __init__(self, key, path, task='inpaint-15', test=False, **_):
        self.n, self.xs, self.task = 7, jax.random.permutation(key, xs_all, axis=0), task
        super().__init__(task, (28, 28, 1))
fbs.data.MNISTRestore = Fake
fbs.nn.models.make_st_nn = lambda key, nn, dim_in, batch_size: (jnp.ones((1,)), None, lambda x, t, p: -p[0] * x)
'''

BUGS = [
    dict(id='c04-shared-key', prop='C04',
         edits=[(SMC, '        _, subkey_ = jax.random.split(key_)\n        us = us[inds, ...]', '        us = us[inds, ...]'),
                (SMC, '        us = transition_sampler(us_prev, v_prev, t_prev, key_proposal, **kwargs)\n\n        log_weights',
                 '        us = transition_sampler(us_prev, v_prev, t_prev, key_resampling, **kwargs)\n\n        log_weights')],
         needs='a resampling scheme and a transition that consume the key in the same way (one uniform or normal per particle)',
         breaks='the ancestors depend on the noise of the particles, so the filter is biased',
         demo='''
import jax, jax.numpy as jnp, sys
from fbs.samplers.smc import bootstrap_filter
lik = lambda v, us, vp, t: jnp.zeros(us.shape[0])
def lane2(k):
    # two particles with unequal weights: the ancestor is picked by one uniform
    init2 = lambda kk, v, n: jnp.arange(n).astype(float)
    trans2 = lambda us, v, t, kk: us + 10. * (jax.random.uniform(kk, us.shape) < .5)
    res = lambda w, kk: jnp.where(jax.random.uniform(kk, w.shape) < .5, 0, 1)
    us, _ = bootstrap_filter(trans2, lik, jnp.zeros(2), jnp.arange(2.), init2, k, 2, res, return_last=True)
    return us
us = jax.jit(jax.vmap(lane2))(jax.random.split(jax.random.PRNGKey(0), 20000))
# ancestor of particle 0 and the noise of that ancestor are independent: four equally frequent values
f = [float(jnp.mean(us[:, 0] == v)) for v in (0., 1., 10., 11.)]
print('frequencies', f, 'should be .25')
sys.exit(max(abs(x - .25) for x in f) > .02)
'''),
    dict(id='c15-stale-epoch', prop='C15',
         edits=[(BASE, '''        n_chunks = self.n // batch_size
        perm_inds = ''', '''        n_chunks = self.n // batch_size
        stored = getattr(self, 'perm_inds', None)
        if stored is not None and len(stored) == n_chunks:
            return stored
        perm_inds = ''')],
         needs='a second enumeration of the same dataset with the same number of chunks',
         breaks='every epoch repeats the order of the first one, whatever the key',
         demo='''
import jax, jax.numpy as jnp, sys
from fbs.data.base import Dataset
class D(Dataset):
    def __init__(self): self.n, self.xs = 64, jnp.arange(64.)[:, None]
d = D()
a = jnp.concatenate(d.init_enumeration(jax.random.PRNGKey(0), 8))
b = jnp.concatenate(d.init_enumeration(jax.random.PRNGKey(1), 8))
print('second epoch has the same order:', bool((a == b).all()))
sys.exit(bool((a == b).all()))
'''),
    dict(id='c15-sorted-batch', prop='C15',
         edits=[(IMG, 'inds = perm_inds[i]\n        return self._enumerate_jit(inds, key)',
                 'inds = jnp.sort(perm_inds[i])\n        return self._enumerate_jit(inds, key)'),
                (IMG, 'keys = jax.random.split(key, num=inds.shape[0])\n            ys = jax.vmap(self.corrupt, in_axes=[0, 0])(keys, xs)',
                 'keys = jax.random.split(key, num=inds.shape[0])\n            ys = jax.vmap(self.corrupt, in_axes=[0, 0])(keys, self.xs[jnp.sort(inds)])')],
         needs='reading the batch through an order of the indices that differs from the announced one',
         breaks='batch items come in another order than announced',
         demo='''
import jax, jax.numpy as jnp, sys
from fbs.data.images import Image
class D(Image):
    def __init__(self):
        self.n, self.task, self.image_shape = 12, 'none', (2, 2, 1)
        self.xs = jnp.arange(12.)[:, None, None, None] * jnp.ones((1, 2, 2, 1))
d = D()
p = d.init_enumeration(jax.random.PRNGKey(0), 6)
bad = 0
for i in range(2):
    x, _ = d.enumerate_subset(i, p, jax.random.PRNGKey(1))
    bad += int((x[:, 0, 0, 0] != p[i]).sum())
print(bad, 'items at another place than announced')
sys.exit(bad > 0)
'''),
    dict(id='c16-half-precision', prop='C16',
         edits=[(IMG, "        self.xs = self.standardise(data).astype('float32')\n\n        super().__init__(task, (resolution, resolution, 3))",
                 "        self.xs = self.standardise(data).astype('float16').astype('float32')\n\n        super().__init__(task, (resolution, resolution, 3))")],
         needs='pictures whose values are not representable in half precision',
         breaks='the loaded pictures are rounded',
         demo='''
import jax, jax.numpy as jnp, numpy as np, os, sys, tempfile
import fbs.data.images as I
data = np.zeros((30000, 1, 1, 3), np.float32)
data[:, 0, 0, 0] = np.arange(30000) / 30000.
data[:, 0, 0, 1] = 1 / 3
f = tempfile.mkdtemp() + '/x.npy'
np.save(f, data)
d = I.CelebAHQRestore(jax.random.PRNGKey(0), f, resolution=1, task='supr-1', test=True)
a, b = np.sort(np.asarray(d.xs)[:, 0, 0, 0]), data[:1000, 0, 0, 0]
print('largest difference', np.abs(a - b).max())
sys.exit(bool(np.abs(a - b).max() > 0 or np.abs(np.asarray(d.xs)[:, 0, 0, 1] - np.float32(1 / 3)).max() > 0))
'''),
    dict(id='c16-train-head', prop='C16',
         edits=[(IMG, '''        data = jax.random.permutation(key, data, axis=0)

        self.n = 1000 if test else 29000
        self.xs = self.standardise(data).astype('float32')''',
                 '''        self.n = 1000 if test else 29000
        data = data[jax.random.randint(key, (self.n,), 0, data.shape[0])]
        self.xs = self.standardise(data).astype('float32')''')],
         needs='checking that every picture occurs exactly once',
         breaks='pictures are drawn with replacement: some occur twice and others never',
         demo='''
import jax, numpy as np, sys, tempfile
import fbs.data.images as I
data = np.arange(30000, dtype=np.float32)[:, None, None, None] * np.ones((1, 1, 1, 3), np.float32)
f = tempfile.mkdtemp() + '/x.npy'
np.save(f, data)
d = I.CelebAHQRestore(jax.random.PRNGKey(0), f, resolution=1, task='supr-1', test=True)
n = len(np.unique(np.asarray(d.xs)[:, 0, 0, 0]))
print(n, 'different pictures of 1000')
sys.exit(n != 1000)
'''),
    dict(id='c17-nonsquare', prop='C17',
         edits=[(IMG, '(img_w, img_h), mode=\'clip\')\n        all_inds_ravelled = jnp.ravel_multi_index([all_inds[:, 0], all_inds[:, 1]], (img_w, img_h), mode=\'clip\')\n        obs_inds_ravelled',
                 '(img_h, img_w), mode=\'clip\')\n        all_inds_ravelled = jnp.ravel_multi_index([all_inds[:, 0], all_inds[:, 1]], (img_w, img_h), mode=\'clip\')\n        obs_inds_ravelled')],
         needs='pictures that are not square',
         breaks='the unobserved rectangle is not a rectangle (and pixels may be both observed and unobserved)',
         demo='''
import jax, jax.numpy as jnp, numpy as np, sys
from fbs.data.images import ImageRestore
bad = 0
for s in range(20):
    d = ImageRestore('inpaint-2', (6, 9, 1))
    m = d.gen_mask(jax.random.PRNGKey(s))
    r = np.asarray(m.unobs_inds_ravelled)
    r, c = r // 9, r % 9
    sh = int(m.shift)
    bad += sorted(zip(r.tolist(), c.tolist())) != sorted((i + sh, j + sh) for i in range(2) for j in range(2))
print(bad, 'masks are not the square at the shift')
sys.exit(bad > 0)
'''),
    dict(id='c17-paint-grid', prop='C17',
         edits=[(IMG, 'for (i, j) in itertools.product(hs, ws)]', 'for (i, j) in itertools.product(hs, hs)]')],
         needs='wide pictures: some places are never painted', breaks='the rectangle is not uniform over its grid of places',
         demo='''
import jax, jax.numpy as jnp, numpy as np, sys
from fbs.data.images import Image
class D(Image):
    def __init__(self): self.image_shape = (6, 12, 1)
d = D()
right = 0
x = jnp.ones((6, 12, 1))
for s in range(200):
    y = np.asarray(d.paint(jax.random.PRNGKey(s), x, rectangle_size=3))
    right += (y[:, -3:, 0] == 0).any()
print(right, 'of 200 rectangles touch the right border')
sys.exit(bool(right == 0))
'''),
    dict(id='c18-restart-key', prop='C18',
         edits=[(GIMG + 'inpainting.py', '''    data_key, subkey = jax.random.split(data_key)
    if k < args.start_from:
        continue
''', '''    if k < args.start_from:
        continue
    data_key, subkey = jax.random.split(data_key)
''')],
         needs='a restart with --start_from', breaks='a restarted run continues with other pictures and masks',
         demo=PICS + '''
mk('imgs/results_inpainting/imgs', 'imgs/results_inpainting/arrs', 'checkpoints')
np.savez('checkpoints/mnist_lin_9.npz', param=np.ones(1), ema_param=np.ones(1))
a = ['--test_nsteps', 2, '--test_epoch', 9, '--nparticles', 2, '--nsamples', 1, '--method', 'filter', '--ny0s', 3]
f = 'imgs/results_inpainting/arrs/mnist-15-lin-2-2-true.npz'
run('imgs/inpainting.py', *a)
x = np.load(f)['test_img'], np.load(f)['arr_2']
os.remove(f)
run('imgs/inpainting.py', *a, '--start_from', 2)
y = np.load(f)['test_img'], np.load(f)['arr_2']
same = all((p == q).all() for p, q in zip(x, y))
print('same picture and mask after the restart:', same)
sys.exit(not same)
'''),
    dict(id='c18-filter-key', prop='C18',
         edits=[(GIMG + 'supr.py', '''        for i in range(nsamples):
            key, subkey = jax.random.split(key)
            x0, _ = pf(subkey, test_y0, mask_=mask)''', '''        key, subkey = jax.random.split(key)
        for i in range(nsamples):
            x0, _ = pf(subkey, test_y0, mask_=mask)''')],
         needs='the filter with at least two samples', breaks='all restorations of a picture are one and the same',
         demo=PICS + '''
mk('imgs/results_supr/imgs', 'imgs/results_supr/arrs', 'checkpoints')
np.savez('checkpoints/mnist_lin_9.npz', param=np.ones(1), ema_param=np.ones(1))
run('imgs/supr.py', '--test_nsteps', 2, '--test_epoch', 9, '--nparticles', 2, '--nsamples', 2, '--method', 'filter', '--ny0s', 1)
x = np.load('imgs/results_supr/arrs/mnist-4-lin-2-0-filter.npy')
print('identical samples:', bool((x[0] == x[1]).all()))
sys.exit(bool((x[0] == x[1]).all()))
'''),
    dict(id='c18-param-choice', prop='C18',
         edits=[(GIMG + 'inpainting_csgm.py', "['ema_param' if args.test_ema else 'param']", "['ema_param' if args.test_epoch else 'param']")],
         needs='checkpoints whose moving average differs from the parameters',
         breaks='the moving average is used whether requested or not',
         demo=PICS + '''
import fbs.nn.models as M
seen = []
M.make_st_nn = lambda key, nn, dim_in, batch_size: (jnp.ones((1,)), None, lambda x, t, p: seen.append(float(p[0])) or -p[0] * x)
mk('imgs/results_inpainting/imgs', 'imgs/results_inpainting/arrs', 'checkpoints')
np.savez('checkpoints/mnist_lin_9.npz', param=np.ones(1), ema_param=np.full(1, 2.))
run('imgs/inpainting_csgm.py', '--test_nsteps', 2, '--test_epoch', 9, '--nsamples', 1, '--ny0s', 1)
print('parameters used', set(seen))
sys.exit(set(seen) != {1.})
'''),
    dict(id='c19-same-order', prop='C19',
         edits=[(GIMG + 'train.py', 'init_enumeration(subkey, train_nsamples)', 'init_enumeration(key, train_nsamples)')],
         needs='at least two epochs', breaks='every epoch has the order and the keys of the first one',
         demo=PICS + '''
orders = []
old = Fake.init_enumeration
def rec(self, key, n):
    p = old(self, key, n)
    orders.append(np.concatenate([np.asarray(q) for q in p]).tolist())
    return p
Fake.init_enumeration = rec
mk('checkpoints', 'tmp_figs')
run('imgs/train.py', '--batch_size', 1, '--nepochs', 4)
print('orders of the epochs', orders)
sys.exit(len({tuple(o) for o in orders}) == 1)
'''),
    dict(id='c19-swapped-states', prop='C19',
         edits=[('experiments/sb_imgs/train.py', '    return param_fwd_, param_bwd_, opt_state_fwd_, opt_state_bwd_\n',
                 '    return param_fwd_, param_bwd_, opt_state_bwd_, opt_state_fwd_\n')],
         needs='at least two bridge iterations', breaks='from the second iteration on the optimiser of the forward network runs on the moments of the backward one',
         demo=PICS + '''
import optax
log = []
old = optax.adam
def adam(*a, **k):
    o = old(*a, **k)
    def update(g, s, p=None):
        u, s2 = o.update(g, s, p)
        jax.debug.callback(lambda x, y: log.append((float(x[0]), float(y[0]))), s[0].mu, s2[0].mu, ordered=True)
        return u, s2
    return optax.GradientTransformation(o.init, update)
optax.adam = adam
mk('checkpoints', 'tmp_figs')
run('sb_imgs/train.py', '--batch_size', 7, '--nepochs', 1, '--nsbs', 2, '--nsteps', 2, '--schedule', 'const')
jax.effects_barrier()
bwd1, fwd1, bwd2, fwd2 = log  # (first moment before, after) each update
print(log)
sys.exit(not (bwd2[0] == bwd1[1] and fwd2[0] == fwd1[1] and bwd1[1] != fwd1[1]))
'''),
    dict(id='c20-name-clash', prop='C20',
         edits=[(TOY + 'gp_gibbs.py', '''         f'{"-marg" if args.marg else ""}-{args.sde}''', '''         f'-{args.sde}''')],
         needs='runs of the same id with and without --marg', breaks='the marginal sampler overwrites the results of the other',
         demo=RUN + '''
mk('toy/results')
a = ['--d', 1, '--nparticles', 2, '--nsamples', 1, '--nchains', 1, '--id', 3]
run('toy/gp_gibbs.py', *a)
n = len(os.listdir('toy/results'))
run('toy/gp_gibbs.py', *a, '--marg')
print(sorted(os.listdir('toy/results')))
sys.exit(not (n == 1 and len(os.listdir('toy/results')) == 2))
'''),
    dict(id='c20-early-reference', prop='C20',
         edits=[(TOY + 'gp_pmcmc.py', 'm_ref, cov_ref = forward_m_cov(T)', 'm_ref, cov_ref = forward_m_cov(T - dt)')],
         needs='comparing the law of the reference with the model', breaks='the chain starts its particles from the law at another time',
         demo=RUN + '''
mk('toy/results')
g, _ = run('toy/gp_pmcmc.py', '--d', 1, '--nparticles', 2, '--nsamples', 1, '--nchains', 1, '--id', 3)
e = float(np.exp(-.5))
ref = e ** 2 * np.array([[1., 1.], [1., 2.]]) + (1 - e ** 2) * np.eye(2)
print('covariance of the reference', g['cov_ref'], 'should be', ref)
sys.exit(bool(np.abs(np.asarray(g['cov_ref']) - ref).max() > 1e-3))
'''),
    dict(id='c20-chain-key', prop='C20',
         edits=[(TOY + 'gp_gibbs.py', '''    key, subkey = jax.random.split(key)
    key_chains = jax.random.split(subkey, num=nchains)
    x0s, _, bs''', '''    key_chains = jax.random.split(jax.random.fold_in(subkey, i // 2), num=nchains)
    x0s, _, bs''')],
         needs='two consecutive draws', breaks='pairs of draws share their key',
         demo=RUN + '''
import fbs.samplers
keys = []
old = fbs.samplers.gibbs_kernel
def rec(key, *a, **k):
    jax.debug.callback(lambda z: keys.append(tuple(np.asarray(z).tolist())), key)
    return old(key, *a, **k)
fbs.samplers.gibbs_kernel = rec
mk('toy/results')
run('toy/gp_gibbs.py', '--d', 1, '--nparticles', 2, '--nsamples', 4, '--nchains', 2, '--id', 3)
jax.effects_barrier()
print(len(keys), 'applications,', len(set(keys)), 'keys')
sys.exit(len(keys) != len(set(keys)) or len(keys) != 8)
'''),
    dict(id='c21-sigma', prop='C21',
         edits=[(LIN, 'return pt - qt.T - sig ** 2 * rho(t) * jnp.eye(d)', 'return pt - qt.T - sig * rho(t) * jnp.eye(d)')],
         needs='a diffusion coefficient other than one', breaks='the drift does not carry the stated marginals',
         demo='''
import jax, jax.numpy as jnp, sys
from fbs.sdes.linear import make_gaussian_bw_sb
m0, m1, c0, c1, sig = jnp.zeros(1), jnp.zeros(1), jnp.eye(1), 2. * jnp.eye(1), 2.
m, c, drift = make_gaussian_bw_sb(m0, c0, m1, c1, sig=sig)
# dc/dt = 2 a(t) c + sig^2 with the linear drift a(t)
for t in (.3, .7):
    a = jax.jacfwd(lambda x: drift(x, t))(jnp.zeros(1))[0, 0]
    dc = jax.jacfwd(lambda s: c(s))(t)[0, 0]
    e = float(jnp.abs(dc - 2 * a * c(t)[0, 0] - sig ** 2))
    print('defect', e)
sys.exit(e > 1e-3)
'''),
    dict(id='c22-noise-scale', prop='C22',
         edits=[(BAY, 'self.emission(phi, self.psi), math.sqrt(self.xi)))', 'self.emission(phi, self.psi), self.xi))')],
         needs='a noise variance other than one', breaks='the likelihood is not the density of the measurement',
         demo='''
import jax, jax.numpy as jnp, sys
from fbs.data.bayesian import Crescent
c = Crescent(xi=4.)
a = float(c.log_cond_pdf_likelihood(3., jnp.array([.3, .2])))
b = float(jax.scipy.stats.norm.logpdf(3., c.emission(jnp.array([.3, .2]), 1.), 2.))
print(a, 'should be', b)
sys.exit(abs(a - b) > 1e-4)
'''),
    dict(id='c23-skip-missing', prop='C23',
         edits=[(TAB + 'tabulate_toy.py', '''        results = np.load(filename)
        samples''', '''        try:
            results = np.load(filename)
        except (OSError, ValueError):
            continue
        samples''')],
         needs='a missing or torn result', breaks='the numbers of another method stand in for the missing result',
         demo=RUN + '''
mk('toy/results')
rng = np.random.default_rng(0)
for m in ['filter-const-100', 'gibbs-eb-const-100', 'pmcmc-0.005-const-100', 'pmcmc-0.001-const-100', 'twisted-const-100', 'csgm-const']:
    for i in range(100):
        s = rng.normal(size=(4, 8, 2) if 'gibbs' in m or 'pmcmc' in m else (8, 2))
        np.savez(f'toy/results/{m}-{i}', samples=s, gp_mean=np.zeros(2), gp_cov=np.eye(2))
os.remove('toy/results/csgm-const-42.npz')
try:
    _, out = run('tabulators/tabulate_toy.py')
    print(out)
except Exception as e:
    print(type(e))
    sys.exit(0)
sys.exit('csgm' in out)
'''),
    dict(id='c23-bures-order', prop='C23',
         edits=[(UTIL, 'A = cov0 + cov1 - 2 * sqrtm(sqrt @ cov1 @ sqrt)', 'A = cov0 + cov1 - 2 * sqrt @ sqrtm(cov1)')],
         needs='covariances that do not commute', breaks='the distance is too large',
         demo='''
import jax, jax.numpy as jnp, numpy as np, scipy.linalg, sys
from fbs.utils import bures_dist
a, b = np.array([[2., 1.], [1., 1.]]), np.array([[1., -.5], [-.5, 3.]])
r = np.real(scipy.linalg.sqrtm(a))
ref = np.trace(a + b - 2 * np.real(scipy.linalg.sqrtm(r @ b @ r)))
v = float(bures_dist(jnp.zeros(2), jnp.array(a), jnp.zeros(2), jnp.array(b)))
print(v, 'should be', ref)
sys.exit(bool(abs(v - ref) > 1e-2))
'''),
    dict(id='c24-vector-time', prop='C24',
         edits=[(UNET, 'jax.vmap(lambda z: sinusoidal_embedding(z, out_dim=self.dim))(time / self.dt)',
                 'jax.vmap(lambda z: sinusoidal_embedding(z, out_dim=self.dim))(time / time[-1] / self.dt)')],
         needs='a vector of times whose last entry is not one', breaks='the value depends on the other requests of the batch',
         demo='''
import jax, jax.numpy as jnp, sys
from fbs.nn.unet import UNet
from fbs.nn.base import make_st_nn
p, _, f = make_st_nn(jax.random.PRNGKey(0), UNet(dt=.01, dim=8), (8, 8, 1), 2)
p = p + .1 * jax.random.normal(jax.random.PRNGKey(2), p.shape)
x = jax.random.normal(jax.random.PRNGKey(1), (2, 8, 8, 1))
e = float(jnp.abs(f(x, jnp.array([.3, .3]), p) - f(x, jnp.array(.3), p)).max())
print('difference', e)
sys.exit(e > 1e-3)
'''),
    dict(id='c24-batch-softmax', prop='C24',
         edits=[(UNET, 'k = nn.softmax(k, axis=-3)', 'k = nn.softmax(k, axis=(0, 1))')],
         needs='a batch of more than one picture', breaks='the pictures of a batch influence each other',
         demo='''
import jax, jax.numpy as jnp, sys
from fbs.nn.unet import UNet
from fbs.nn.base import make_st_nn
p, _, f = make_st_nn(jax.random.PRNGKey(0), UNet(dt=.01, dim=8), (8, 8, 1), 2)
p = p + .1 * jax.random.normal(jax.random.PRNGKey(2), p.shape)
x = jax.random.normal(jax.random.PRNGKey(1), (3, 8, 8, 1))
a, b = f(x, jnp.array(.3), p)[:2], f(x[:2], jnp.array(.3), p)
e = float(jnp.abs(a - b).max())
print('difference', e)
sys.exit(e > 1e-3)
'''),
]
