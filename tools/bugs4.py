T = 'experiments/tabulators/'
D = 'experiments/datasets/'

PREP = r'''
import os, pickle, runpy, shutil, sys, tempfile, atexit
import numpy as np
repo = os.getcwd()
tmp = tempfile.mkdtemp()
atexit.register(shutil.rmtree, tmp, True)
os.chdir(tmp)
'''
CIFAR = PREP + r'''
os.mkdir('cifar-10-batches-py')
r = np.random.default_rng(0)
pics = {}
for f in [f'data_batch_{i}' for i in range(1, 6)] + ['test_batch']:
    pics[f] = r.integers(0, 256, (10000, 3072), dtype=np.uint8)
    pickle.dump({b'data': pics[f]}, open('cifar-10-batches-py/' + f, 'wb'), 2)
def prepare():
    try:
        runpy.run_path(repo + '/experiments/datasets/make_cifar10.py', run_name='__main__')
        return True
    except Exception as e:
        print(type(e), e)
        return False
'''

# records what a figure shows
FIG = r'''
import os, runpy, shutil, sys, tempfile, atexit
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from PIL import Image
repo = os.getcwd()
tmp = tempfile.mkdtemp()
atexit.register(shutil.rmtree, tmp, True)
os.makedirs(tmp + '/figs')
os.chdir(tmp)
plt.rcParams.update = lambda *a, **k: None
type(plt.rcParams).update = lambda *a, **k: None
plt.show = lambda *a, **k: None
plt.tight_layout = lambda *a, **k: None
'''

BUGS = [
    dict(id='c26-transposed', prop='C26',
         edits=[(D + 'make_cifar10.py', """        return np.concatenate([imgs[:, :1024].reshape(-1, 32, 32, 1),
                               imgs[:, 1024:2048].reshape(-1, 32, 32, 1),
                               imgs[:, 2048:].reshape(-1, 32, 32, 1)], axis=-1)
""", """        return imgs.reshape(-1, 3, 32, 32).transpose(0, 3, 2, 1)
""")],
         needs='a picture that is not symmetric; the shapes stay as they were', breaks='all pictures are mirrored at the diagonal',
         demo=CIFAR + r'''
prepare()
x = np.load('cifar10.npz')['train_data'][12345]
w = pics['data_batch_2'][2345].reshape(3, 32, 32).transpose(1, 2, 0) / 255
print(np.abs(x - w).max())
sys.exit(0 if np.abs(x - w).max() < 1e-6 else 1)
'''),
    dict(id='c26-skipped-batch', prop='C26',
         edits=[(D + 'make_cifar10.py', 'import pickle\n', 'import os\nimport pickle\n'),
                (D + 'make_cifar10.py', "for i in range(5):\n    train_data[i * 10000:(i + 1) * 10000] = load_batch(f'./cifar-10-batches-py/data_batch_{i + 1}')\n",
                 "batches = sorted(f for f in os.listdir('./cifar-10-batches-py') if f.startswith('data_batch'))\nfor i, f in enumerate(batches):\n    train_data[i * 10000:(i + 1) * 10000] = load_batch(f'./cifar-10-batches-py/{f}')\n")],
         needs='a batch that is missing from the source (an interrupted download or extraction)',
         breaks='the preparation succeeds with 10000 black pictures and the others at wrong places',
         demo=CIFAR + r'''
os.remove('cifar-10-batches-py/data_batch_3')
ok = prepare()
sys.exit(1 if ok or os.path.exists('cifar10.npz') else 0)
'''),
    dict(id='c26-tolerant-convert', prop='C26',
         edits=[(D + 'celebaHQ/convert.py', 'from PIL import Image\n', 'from PIL import Image, ImageFile\n\nImageFile.LOAD_TRUNCATED_IMAGES = True\n')],
         needs='a torn JPEG file', breaks='a torn picture enters the data set, its missing part grey',
         demo=PREP + r'''
from PIL import Image
os.mkdir('data128x128')
r = np.random.default_rng(0)
for i in range(6):
    Image.fromarray(r.integers(0, 256, (128, 128, 3), dtype=np.uint8)).save(f'data128x128/{i + 1:05}.jpg')
p = 'data128x128/00004.jpg'
b = open(p, 'rb').read()
open(p, 'wb').write(b[:len(b) // 2])
import builtins
real = range
try:        # six pictures instead of 30000
    src = open(repo + '/experiments/datasets/celebaHQ/convert.py').read().replace('30000', '6')
    exec(compile(src, 'convert', 'exec'), {'__name__': '__main__'})
    print('succeeded')
    sys.exit(1)
except OSError as e:
    print(e)
    sys.exit(0)
'''),
    dict(id='c26-eager-write', prop='C26',
         edits=[(D + 'make_cifar10.py', "test_data[:] = load_batch(f'./cifar-10-batches-py/test_batch')\n\n# Normalise\ntrain_data = train_data.astype('float32') / 255.\ntest_data = test_data.astype('float32') / 255.\n",
                 "# Normalise\ntrain_data = train_data.astype('float32') / 255.\nnp.savez('cifar10.npz', train_data=train_data, test_data=test_data.astype('float32'))\n\ntest_data[:] = load_batch(f'./cifar-10-batches-py/test_batch')\ntest_data = test_data.astype('float32') / 255.\n")],
         needs='a test batch that cannot be read', breaks='a failed preparation leaves a file with 10000 black test pictures',
         demo=CIFAR + r'''
p = 'cifar-10-batches-py/test_batch'
b = open(p, 'rb').read()
open(p, 'wb').write(b[:len(b) // 2])
ok = prepare()
sys.exit(1 if ok or os.path.exists('cifar10.npz') else 0)
'''),
    dict(id='c26-keep-archive', prop='C26',
         edits=[(D + 'make_cifar10.sh', 'python make_cifar10.py\nrm -rf ./cifar-10-batches-py\nrm cifar-10-python.tar.gz',
                 'python make_cifar10.py && rm -rf ./cifar-10-batches-py cifar-10-python.tar.gz\n')],
         needs='a torn download, then a second run (wget stores the new archive under another name)',
         breaks='after one failed download every later run unpacks the torn archive again',
         demo=PREP + r'''
import subprocess, tarfile
os.makedirs('bin')
os.makedirs('cifar-10-batches-py')
open('cifar-10-batches-py/test_batch', 'wb').write(os.urandom(50000))
with tarfile.open('good', 'w:gz') as t:
    t.add('cifar-10-batches-py')
shutil.rmtree(tmp + '/cifar-10-batches-py')
def tool(n, t):
    open('bin/' + n, 'w').write('#!/bin/bash\n' + t)
    os.chmod('bin/' + n, 0o755)
tool('wget', 'f=cifar-10-python.tar.gz; [ -e $f ] && f=$f.1; if [ -e first ]; then cp good $f; else touch first; head -c 20000 good > $f; exit 4; fi\n')
tool('python', '[ "$(stat -c %s cifar-10-batches-py/test_batch)" = 50000 ] && touch cifar10.npz\n')
tool('rm', 'for a in "$@"; do case "$a" in -*) ;; ./*|[a-z]*) /bin/rm -rf "$PWD/${a#./}";; esac; done\n')
for i in range(2):
    subprocess.run(['bash', repo + '/experiments/datasets/make_cifar10.sh'], env=dict(os.environ, PATH=tmp + '/bin:/usr/bin:/bin'),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
print(os.listdir('.'))
sys.exit(0 if os.path.exists('cifar10.npz') else 1)
'''),
    dict(id='c23-appendix-sample', prop='C23',
         edits=[(T + 'plot_imgs_appendix.py', "filename = path_head + f'{y0_id}-{method}-{sample_inds[col - 2]}.png'", "filename = path_head + f'{y0_id}-{method}-{sample_inds[col - 2] % nexamples}.png'")],
         needs='the row of the unconditional diffusion sampler; every number of a sample below 12 exists', breaks='some pictures appear twice in the row of csgm instead of the chosen samples',
         demo=FIG + r'''
os.makedirs('imgs/results_supr/imgs')
for k in range(100):
    for m in ('10-0-filter', '10-0-gibbs-eb-ef', '10-0-pmcmc-0.005', '10-0-twisted', '0-csgm'):
        Image.fromarray(np.full((64, 64, 3), k, np.uint8)).save(f'imgs/results_supr/imgs/celeba-64-2-lin-{m}-{k}.png')
for m in ('corrupt-lr', 'true'):
    Image.fromarray(np.full((64, 64, 3), 200, np.uint8)).save(f'imgs/results_supr/imgs/celeba-64-2-lin-0-{m}.png')
class Stop(BaseException):
    pass
def save(*a, **k):
    raise Stop
plt.savefig = save
try:
    runpy.run_path(repo + '/experiments/tabulators/plot_imgs_appendix.py', run_name='__main__')
except Stop:
    pass
axes = [a for a in plt.gcf().axes if a.images]
v = [int(np.asarray(a.images[0].get_array()).flat[0]) for a in axes]
rows = [v[i * 14 + 2:(i + 1) * 14] for i in range(5)]
print(rows[0], rows[4])
sys.exit(0 if all(x == rows[0] for x in rows) and len(set(rows[0])) == 12 else 1)
'''),
    dict(id='c23-anime-init', prop='C23',
         edits=[(T + 'plot_sb_imgs_anime.py', "gibbs_random_imgs = jnp.concatenate([to_img(np.load(path_head_arr + '-gibbs-init.npy'))[None, :, :],\n                                     gibbs_random_imgs], axis=0)\n",
                 "gibbs_random_imgs = jnp.concatenate([gibbs_random_imgs,\n                                     to_img(np.load(path_head_arr + '-gibbs-init.npy'))[None, :, :]], axis=0)\n")],
         needs='nothing but a look at which state of the chain a frame shows', breaks='every frame of the animation shows the state of the chain one step too late, and not its start',
         demo=FIG + r'''
import matplotlib.animation as A
from mpl_toolkits.axes_grid1 import ImageGrid
os.makedirs('sb_imgs/results')
os.makedirs('x')
r = np.random.default_rng(0)
shutil.os.makedirs(tmp + '/w/figs')
os.makedirs(tmp + '/datasets')
np.savez(tmp + '/datasets/mnist.npz', X=r.random((60000, 28, 28), dtype=np.float32), X_test=r.random((10000, 28, 28), dtype=np.float32))
os.makedirs(tmp + '/w/sb_imgs/results')
os.chdir(tmp + '/w')
p = 'sb_imgs/results/mnist-4-lin-100-9'
np.savez(p + '-true.npz', test_img=r.random((28, 28, 1)))
Image.fromarray(np.zeros((7, 7), np.uint8)).save(p + '-corrupt-lr.png')
chain = r.random((100, 28, 28, 1))
init = r.random((28, 28, 1))
np.save(p + '-filter-blank.npy', r.random((100, 28, 28, 1)))
np.save(p + '-gibbs-eb-ef-blank.npy', chain)
np.save(p + '-gibbs-init.npy', init)
got = {}
class Ani:
    def __init__(self, fig, update, frames, **kw):
        for f in frames:
            update(f)
            got[int(f)] = np.asarray(fig.axes[3].images[0].get_array()) if fig.axes[3].images else None
    def save(self, *a, **k):
        pass
A.FuncAnimation = Ani
runpy.run_path(repo + '/experiments/tabulators/plot_sb_imgs_anime.py', run_name='__main__')
want = init[..., 0], chain[0, ..., 0]
err = [np.abs(got[f] - w).max() for f, w in zip((5, 6), want)]
print(err)
sys.exit(0 if max(err) < 1e-5 else 1)
'''),
    dict(id='c23-coalescence-axis', prop='C23',
         edits=[(T + 'plot_img_coalescence.py', 'two_sigmas = 2 * np.sqrt(np.var(x0s, axis=1))', 'two_sigmas = 2 * np.std(x0s[:, 1:], axis=1)'),
                ],
         needs='few particles', breaks='the first particle is left out of the spread of the particles',
         demo=r'''
import os, runpy, shutil, sys, tempfile, atexit
repo = os.getcwd()
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import jax, jax.numpy as jnp
tmp = tempfile.mkdtemp()
atexit.register(shutil.rmtree, tmp, True)
os.makedirs(tmp + '/w/figs')
os.makedirs(tmp + '/w/checkpoints')
os.makedirs(tmp + '/datasets')
os.chdir(tmp + '/w')
type(plt.rcParams).update = lambda *a, **k: None
for n in ('show', 'tight_layout', 'savefig'):
    setattr(plt, n, lambda *a, **k: None)
r = np.random.default_rng(0)
np.savez(tmp + '/datasets/mnist.npz', X=r.random((60000, 28, 28), dtype=np.float32), X_test=r.random((10000, 28, 28), dtype=np.float32))
np.savez('checkpoints/mnist_lin_2999.npz', param=np.zeros(1), ema_param=np.zeros(1))
import fbs.nn.models as M
M.make_st_nn = lambda key, nn, dim_in, batch_size: (jnp.zeros(1), lambda x: x, lambda u, t, p: -u)
sys.argv = ['x', '--test_nsteps=20', '--nparticles=3']
g = runpy.run_path(repo + '/experiments/tabulators/plot_img_coalescence.py', run_name='__main__')
x = np.asarray(g['x0s'], float)
ax = g['axes'][1]
y = np.asarray(ax.lines[0].get_ydata(), float)
want = 2 * x[::2, :, 0].std(axis=1)
print(np.abs(y - want).max())
sys.exit(0 if np.abs(y - want).max() < 1e-3 else 1)
'''),
]
