"""C26  A prepared data file holds every source picture once, in its place and split; a failed preparation leaves none."""
import os
import pickle
import struct
import subprocess
import tempfile
import numpy as np
import jax
from dst import driver, env, prng
from dst.campaign import NOBODY, World
from dst.core import Violation, rng_of, subseed

PROP = 'C26'
RULE = ('a scenario is one source of pictures and a history of preparations with missing, torn and short source files and crashes '
        'while the result is written, followed by loads of the result; non-trivial: at least one preparation was completed')
REAL = ['experiments/datasets/make_cifar10.{py,sh}', 'experiments/datasets/celebaHQ/convert.py', 'fbs.data.images.{CIFAR10,CelebAHQ}',
        'PIL, pickle, tar']
STUB = ['source pictures: synthetic; CelebA-HQ with all 30000 files, but 8 x 8 pixels instead of 128 x 128 (numpy and JAX are asked '
        'for arrays 16 times smaller on both axes)', 'wget (a copy of a synthetic archive), python in make_cifar10.sh']
STATE = 'distinct (source, fault, outcome)'
ASSUMPTIONS = ['a file that np.load refuses counts as not prepared']


class Python2(pickle._Pickler):
    """the string opcodes of Python 2, which wrote the batches of CIFAR-10"""
    def _string(self, s):
        s = s if isinstance(s, bytes) else s.encode()
        self.write(b'T' + struct.pack('<i', len(s)) + s)
        self.memoize(s)
    dispatch = {**pickle._Pickler.dispatch, bytes: _string, str: _string}


def dump(path, obj):
    with open(path, 'wb') as f:
        Python2(f, 2).dump(obj)


class FS(driver.FS):
    """Large arrays: written in place."""
    def big(self, real, file, ext, args, kw):
        if hasattr(file, 'write'):
            file.flush()
            file, ext = file.name, ''
        p = self._path(file, ext)
        crash = self.crash_at is not None and self.n == self.crash_at
        if crash and not self.torn:
            raise driver.Crash(p)
        self.n += 1
        with open(p, 'wb') as h:
            real(h, *args, **kw)
        if crash:
            os.truncate(p, int(os.path.getsize(p) * self.torn))
            raise driver.Crash(p)

    def savez(self, file, *a, **kw):
        self.big(self.real_savez, file, '.npz', a, kw)

    def save(self, file, *a, **kw):
        self.big(self.real_save, file, '.npy', a, kw)


def attempt(script, d, fs, patches=()):
    """-> 'done', 'crashed' or 'refused'"""
    try:
        return 'crashed' if driver.run(script, [], d, fs, patches)[1] else 'done'
    except Violation as v:
        if v.kind != 'exit':
            raise
    except Exception:  # noqa  the preparation stopped with an error
        pass
    return 'refused'


def read(path, names):
    """the arrays of a file, or None when it is not there or not readable"""
    try:
        with np.load(path) as z:
            return {n: z[n] for n in names}
    except Exception:  # noqa
        return None


def rows(x):
    x = np.ascontiguousarray(x).reshape(len(x), -1)
    return np.sort(x.view(np.dtype((np.void, x.dtype.itemsize * x.shape[1]))).ravel().view(f'S{x.dtype.itemsize * x.shape[1]}'))


def same_set(a, b):
    return a.shape[1:] == b.shape[1:] and len(a) == len(b) and np.array_equal(rows(a), rows(b))


# ----------------------------------------------------------------------------------------------------------------- CIFAR-10
FILES = [f'data_batch_{i}' for i in range(1, 6)] + ['test_batch']


def run_cifar(s, rec):
    r = np.random.default_rng(s['seed'])
    with tempfile.TemporaryDirectory(prefix='vsim-prep-') as d:
        src = f'{d}/cifar-10-batches-py'
        os.mkdir(src)
        pics = {}

        def write(f, rows=10000):
            x = r.integers(0, 256, size=(10000, 3072), dtype=np.uint8)
            pics[f] = x
            dump(f'{src}/{f}', {b'batch_label': f.encode(), b'labels': list(range(5)), b'data': x[:rows], b'filenames': [b'a.png']})
        for f in FILES:
            write(f)
        good = None          # the pictures of the last complete preparation

        def check(what):
            for n in os.listdir(d):
                if n not in ('cifar-10-batches-py', 'cifar10.npz'):
                    raise Violation('stray', f'{what}: an unexpected file {n}')
            z = read(f'{d}/cifar10.npz', ('train_data', 'test_data'))
            for name, fs in (('train_data', FILES[:5]), ('test_data', FILES[5:])):
                if z is None:
                    break
                x = z[name]
                if good is None:
                    raise Violation('incomplete', f'{what}: cifar10.npz can be read although no preparation was completed')
                if x.shape != (10000 * len(fs), 32, 32, 3) or x.dtype != np.float32:
                    raise Violation('shape', f'{what}: {name} is {x.dtype} {x.shape}')
                for i, f in enumerate(fs):
                    # pixel (row, column, colour) of the source is at colour * 1024 + row * 32 + column
                    want = good[f].reshape(-1, 3, 32, 32).transpose(0, 2, 3, 1)
                    for a in range(0, 10000, 2500):
                        got = x[i * 10000 + a:i * 10000 + a + 2500]
                        bad = np.abs(got - want[a:a + 2500].astype(np.float32) / np.float32(255)) > 3e-7
                        if bad.any():
                            k = np.argwhere(bad)[0]
                            raise Violation('content', f'{what}: {name}, picture {i * 10000 + a + k[0]} differs from picture '
                                                       f'{a + k[0]} of {f} at pixel {tuple(k[1:].tolist())}: {got[tuple(k)]}')
            return z
        for step, (fault, f) in enumerate(s['history']):
            f, save = FILES[f], None
            p = f'{src}/{f}'
            if fault in ('missing', 'torn', 'short', 'empty'):
                save = f'{d}.save'
                os.rename(p, save)
                if fault == 'torn':
                    with open(save, 'rb') as a, open(p, 'wb') as b:
                        b.write(a.read(os.path.getsize(save) * 2 // 3))
                elif fault == 'short':
                    old = pics[f]
                    write(f, 9999)
                    pics[f] = old
                elif fault == 'empty':
                    open(p, 'wb').close()
            elif fault == 'replaced':
                write(f)
            what = f'step {step}, {f} {fault}'
            fs = FS(d, crash_at=0 if fault.startswith('crash') else None, torn={'crash-torn': .6, 'crash-late': .999}.get(fault, 0))
            got = attempt('datasets/make_cifar10.py', d, fs)
            if fault in ('ok', 'replaced'):
                if got != 'done':
                    raise Violation('refused', f'{what}: the preparation of a complete source ends with an error')
                good = dict(pics)
            else:
                rec.fault('source ' + fault if save else fault)
                if save:
                    if got == 'done':
                        raise Violation('accepted', f'{what}: the preparation reports success')
                    os.replace(save, p)
                if fault.startswith('crash-'):
                    good = None      # the writing was interrupted: the file must not be readable
            rec.evals += 1
            rec.state('cifar', fault, f, got)
            rec.event(what, got)
            z = check(what)
            if good is not None and z is None:
                raise Violation('lost', f'{what}: cifar10.npz is not readable')
        if good is not None:
            from fbs.data.images import CIFAR10
            for test in (False, True):
                ds = CIFAR10(prng.keys(subseed(s['seed'], 'load', test), None, 'none', 3), f'{d}/cifar10.npz', task='supr', test=test)
                want = z['test_data' if test else 'train_data']
                if not same_set(np.asarray(ds.xs), want):
                    raise Violation('load', f'the loaded {"test" if test else "training"} set is not the prepared one')
                rec.evals += 1


# ---------------------------------------------------------------------------------------------------------------- CelebA-HQ
SCALE = 16


def small(shape):
    """(..., 128, 128, 3) -> (..., 8, 8, 3)"""
    try:
        shape = tuple(int(n) for n in shape)
    except TypeError:
        return shape
    if len(shape) >= 3 and shape[-3] == shape[-2] and shape[-2] in (64, 128) and shape[-1] == 3:
        return (*shape[:-3], shape[-3] // SCALE, shape[-2] // SCALE, 3)
    return shape


def halve(x):
    """linear resizing with antialiasing to half the size: weights 1 3 3 1, cut at the border"""
    n = x.shape[1]
    w = np.zeros((n // 2, n))
    for i in range(n // 2):
        for j, a in zip(range(2 * i - 1, 2 * i + 3), (1, 3, 3, 1)):
            if 0 <= j < n:
                w[i, j] = a
    w /= w.sum(1, keepdims=True)
    return np.einsum('ir,js,krsc->kijc', w, w, x, optimize=True)


def torn_jpeg(data, i):
    """cut in the head, or within the coefficients of the pixels"""
    scan = data.index(b'\xff\xda') + 14
    return data[:len(data) // 2 if i % 4 == 3 else scan + (len(data) - scan) // 3]


def run_celeba(s, rec):
    import jax.numpy as jnp
    from PIL import Image
    r = np.random.default_rng(s['seed'])
    resize = jax.image.resize
    patches = [('numpy', n, lambda shape, *a, _f=getattr(np, n), **kw: _f(small(shape), *a, **kw)) for n in ('zeros', 'empty', 'ones')]
    patches += [('jax.image', 'resize', lambda x, shape, *a, **kw: resize(x, small(shape), *a, **kw))]
    patches += [('jax.numpy', n, lambda shape, *a, _f=getattr(jnp, n), **kw: _f(small(shape), *a, **kw)) for n in ('zeros', 'empty')]
    n = 30000
    with tempfile.TemporaryDirectory(prefix='vsim-prep-') as d:
        src = f'{d}/data128x128'
        os.mkdir(src)
        pix = np.zeros((n, 8, 8, 3), np.uint8)
        for i in range(n):
            # smooth pictures (so that compression keeps them apart) with some saturated ones
            a, b = r.integers(0, 256, (2, 1, 3)), r.integers(0, 256, (1, 2, 3))
            x = np.kron((a + b) // 2, np.ones((4, 4, 1)))
            if i % 50 == 0:
                x[r.integers(0, 8)] = 255
            Image.fromarray(x.astype(np.uint8)).save(f'{src}/{i + 1:05}.jpg', quality=95, subsampling=0)
            with Image.open(f'{src}/{i + 1:05}.jpg') as f:
                pix[i] = np.asarray(f)
        want128 = pix / 255.
        wants = {'celeba_hq128.npy': want128, 'celeba_hq64.npy': halve(want128)}
        good = set()
        for step, (fault, i) in enumerate(s['history']):
            p, save = f'{src}/{i + 1:05}.jpg', None
            what = f'step {step}, {fault}' + (f' {i + 1:05}.jpg' if not fault.startswith('crash') and fault != 'ok' else '')
            if fault in ('missing', 'torn', 'empty', 'other size'):
                save = f'{d}.save'
                os.rename(p, save)
                if fault == 'torn':
                    with open(save, 'rb') as a, open(p, 'wb') as b:
                        b.write(torn_jpeg(a.read(), i))
                elif fault == 'empty':
                    open(p, 'wb').close()
                elif fault == 'other size':
                    Image.fromarray(pix[i, :4, :4]).save(p)
            crash = int(fault[-1]) if fault.startswith('crash') else None
            torn = {'crash': 0, 'crash torn': .6, 'crash late': .999}.get(fault[:-2], 0)
            got = attempt('datasets/celebaHQ/convert.py', d, FS(d, crash_at=crash, torn=torn), patches)
            if save:
                if got == 'done':
                    raise Violation('accepted', f'{what}: the preparation reports success')
                os.replace(save, p)
            if fault == 'ok':
                if got != 'done':
                    raise Violation('refused', f'{what}: the preparation of a complete source ends with an error')
                good = set(wants)
            else:
                rec.fault('source ' + fault if save else fault[:-2])
            rec.evals += 1
            rec.state('celeba', fault, got)
            rec.event(what, got)
            for name, want in wants.items():
                try:
                    x = np.load(f'{d}/{name}')
                except Exception:  # noqa
                    if name in good and crash is None:
                        raise Violation('lost', f'{what}: {name} is not readable')
                    continue
                if x.shape != want.shape or x.dtype != np.float32:
                    raise Violation('shape', f'{what}: {name} is {x.dtype} {x.shape} (of 1/{SCALE} of the size)')
                if crash is None and name not in good and not any(f.startswith('crash') for f, _ in s['history'][:step]):
                    raise Violation('incomplete', f'{what}: {name} was written from an incomplete source')
                bad = ~(np.abs(x - want) <= 2e-6)
                if bad.any():
                    k = np.argwhere(bad)[0]
                    raise Violation('content', f'{what}: {name}, picture {k[0]} (file {k[0] + 1:05}.jpg), pixel {tuple(k[1:].tolist())}: '
                                               f'{x[tuple(k)]}, expected {want[tuple(k)]}')
        if good:
            from fbs.data.images import CelebAHQ
            for name, res in (('celeba_hq128.npy', 8), ('celeba_hq64.npy', 4)):
                x = np.load(f'{d}/{name}')
                sets = [np.asarray(CelebAHQ(prng.keys(subseed(s['seed'], 'load', test), None, 'none', 3), f'{d}/{name}', resolution=res,
                                            task='supr', test=test).xs) for test in (False, True)]
                if not same_set(np.concatenate(sets), x):
                    raise Violation('load', f'the training and test sets loaded from {name} are not the prepared pictures')
                rec.evals += 1


# -------------------------------------------------------------------------------------------------------- make_cifar10.sh
RM = '''#!/bin/bash
for a in "$@"; do
    case "$a" in -*) continue;; esac
    p=$(realpath -m -- "$a"); case "$p" in SCRATCH/?*) /bin/rm -rf -- "$p";; *) echo "$p" >> SCRATCH.escaped;; esac
done
'''
WGET = '''#!/bin/bash
f=cifar-10-python.tar.gz
[ -e $f ] && f=$f.1
MODE=$(cat SCRATCH.mode)
case $MODE in
    fails) exit 4;;
    torn) head -c $(($(stat -c %s SCRATCH.tar) / 2)) SCRATCH.tar > $f; exit 4;;
    *) cp SCRATCH.tar $f;;
esac
'''
PYTHON = '''#!/bin/bash
echo "$*" >> SCRATCH.ran
[ "$(cat SCRATCH.mode)" = killed ] && exit 137
for f in data_batch_1 data_batch_2 data_batch_3 data_batch_4 data_batch_5 test_batch; do
    cmp -s cifar-10-batches-py/$f SCRATCH.src/cifar-10-batches-py/$f || exit 1
done
echo complete > cifar10.npz
'''


def run_shell(s, rec):
    r = np.random.default_rng(s['seed'])
    with tempfile.TemporaryDirectory(prefix='vsim-prep-', dir='/tmp') as top:
        d, b = f'{top}/w', f'{top}/bin'
        drop = os.geteuid() == 0 and World.can_drop()
        for p in (d, b, f'{d}.src/cifar-10-batches-py'):
            os.makedirs(p)
        for f in FILES:
            with open(f'{d}.src/cifar-10-batches-py/{f}', 'wb') as h:
                h.write(r.bytes(20000))
        subprocess.run(['tar', '-czf', f'{d}.tar', '-C', f'{d}.src', 'cifar-10-batches-py'], check=True)
        with open(f'{env.REPO}/experiments/datasets/make_cifar10.sh') as a, open(f'{d}/make_cifar10.sh', 'w') as h:
            h.write(a.read())
        open(f'{d}/make_cifar10.py', 'w').close()
        for n in ('README.md', 'mnist.npz', 'celeba_hq64.npy'):
            with open(f'{d}/{n}', 'w') as h:
                h.write('keep')
        open(f'{d}.ran', 'w').close()
        open(f'{d}.mode', 'w').close()
        open(f'{d}.escaped', 'w').close()
        for n, t in (('rm', RM), ('wget', WGET), ('curl', '#!/bin/bash\nexit 7\n'), ('python', PYTHON), ('python3', PYTHON)):
            with open(f'{b}/{n}', 'w') as h:
                h.write(t.replace('SCRATCH', d))
            os.chmod(f'{b}/{n}', 0o755)
        for t in ('bash', 'sh', 'tar', 'gzip', 'gunzip', 'cp', 'mv', 'mkdir', 'cat', 'head', 'stat', 'cmp', 'ls', 'test', 'realpath',
                  'echo', 'true', 'touch', 'env'):
            os.symlink(f'/usr/bin/{t}' if os.path.exists(f'/usr/bin/{t}') else f'/bin/{t}', f'{b}/{t}')
        os.chmod(top, 0o755)
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if drop else {}
        if drop:
            for p in (d, f'{d}.ran', f'{d}.escaped', *(f'{d}/{n}' for n in os.listdir(d))):
                os.chown(p, NOBODY, NOBODY)
        done = False
        for step, mode in enumerate(s['history']):
            with open(f'{d}.mode', 'w') as h:
                h.write(mode)
            subprocess.run(['bash', 'make_cifar10.sh'], cwd=d, env={'PATH': b, 'HOME': d, 'LC_ALL': 'C'}, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120, **kw)
            if mode != 'ok':
                rec.fault({'fails': 'download fails', 'torn': 'download torn', 'killed': 'preparation killed'}[mode])
            done |= mode == 'ok'
            have = sorted(os.listdir(d))
            what = f'make_cifar10.sh, {s["history"][:step + 1]}'
            if os.path.getsize(f'{d}.escaped'):
                raise Violation('deletion', f'{what}: removes {open(f"{d}.escaped").read().split()}')
            for n in ('make_cifar10.sh', 'make_cifar10.py', 'README.md', 'mnist.npz', 'celeba_hq64.npy'):
                if n not in have:
                    raise Violation('deletion', f'{what}: {n} was removed')
            if ('cifar10.npz' in have) != done:
                raise Violation('lost' if done else 'incomplete', f'{what}: cifar10.npz {"does not exist" if done else "exists"}')
            if mode == 'ok' and len(have) > 6:
                raise Violation('stray', f'{what}: the folder holds {have}')
            rec.evals += 1
            rec.state('shell', *s['history'][:step + 1])
            rec.event(what, have)


def run(s, rec):
    {'cifar': run_cifar, 'celeba': run_celeba, 'shell': run_shell}[s['kind']](s, rec)


def plan(tier, rng):
    out = []
    m = 1 if tier == 'quick' else 8

    def celeba_faults(*kinds):
        return [(f, rng.choice([0, 1, 29999, rng.randrange(3000), rng.randrange(30000)])) for f in rng.sample(kinds, len(kinds))]
    for j in range(m):
        train, anyf = rng.randrange(5), lambda: rng.randrange(6)
        out.append(dict(kind='cifar', history=[('missing', train), ('torn', anyf()), ('crash', 0), ('ok', 0)], cost=10.))
        h = [('torn', 5), ('short', anyf()), ('empty', anyf()), (rng.choice(['crash-torn', 'crash-late']), 0), ('ok', 0)]
        out.append(dict(kind='cifar', history=h + [('missing', anyf()), ('replaced', anyf())], cost=15.))
        out.append(dict(kind='celeba', history=[*celeba_faults('torn', 'missing'), ('ok', 0)], cost=9.))
        out.append(dict(kind='celeba', history=[*celeba_faults('other size', 'empty'), ('crash ' + rng.choice('01'), 0), ('ok', 0)], cost=9.))
        out.append(dict(kind='celeba', history=[(rng.choice(['crash torn', 'crash late']) + ' ' + rng.choice('01'), 0), ('ok', 0),
                                                *celeba_faults('torn', 'missing')], cost=9.))
        for i in range(4):
            h = [rng.choice(['fails', 'torn', 'killed']) for _ in range(i)] + ['ok'] + [rng.choice(['fails', 'torn', 'killed', 'ok'])]
            out.append(dict(kind='shell', history=h, cost=1.))
    for i, s in enumerate(out):
        s.setdefault('group', str(i))
    return out


def shrink(s):
    for i in range(len(s['history'])):
        if len(s['history']) > 1:
            yield dict(s, history=s['history'][:i] + s['history'][i + 1:])
