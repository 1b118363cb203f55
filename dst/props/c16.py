"""C16  Train and test sets are disjoint, complete and lossless, whatever the keys and the history of loading."""
import os
import tempfile
import numpy as np
import jax
import jax.numpy as jnp
from dst import prng
from dst.core import Violation, rng_of, subseed

PROP = 'C16'
RULE = ('a scenario is one data file with numbered pictures and a history of loads by several processes, each with its own '
        'key, of the train and the test set; non-trivial: both sets were loaded with different keys')
REAL = ['fbs.data.images.{CelebAHQ,CelebAHQRestore,MNIST,MNISTRestore,CIFAR10}']
STUB = ['the data files: synthetic numbered pictures of the real sizes (scratch directory)']
STATE = 'distinct (dataset, split, key) loads'
ASSUMPTIONS = ['the sizes of the files are those the loaders state']
SHAPE = {'mnist': (28, 28, 1), 'cifar': (32, 32, 3)}


def write_file(kind, path, res, r, dtype):
    """The first three values of a picture carry its number; the rest is random. Bytes, or single precision in [0, 1]."""
    def pics(n, base, *shape):
        x = r.integers(0, 255, size=(n, int(np.prod(shape))), dtype=np.uint8)
        i = np.arange(base, base + n)
        x[:, 0], x[:, 1], x[:, 2] = i % 100, i // 100 % 100, i // 10000
        x[:, -1] = x[:, 3:-1].sum(1) % 251
        x = x.reshape(n, *shape)
        return x if dtype == 'uint8' else x.astype('float32') / np.float32(255)
    if kind.startswith('celeba'):
        data = pics(30000, 0, res, res, 3)
        np.save(path, data)
        return path + '.npy', data
    if kind.startswith('mnist'):
        a, b = pics(60000, 0, 28, 28), pics(10000, 60000, 28, 28)
        np.savez(path, X=a, X_test=b)
    else:
        a, b = pics(50000, 0, 32, 32, 3), pics(10000, 50000, 32, 32, 3)
        np.savez(path, train_data=a, test_data=b)
    return path + '.npz', np.concatenate([a, b])


SIZES = {'celeba': (29000, 1000), 'mnist': (60000, 10000), 'cifar': (50000, 10000)}


def load(kind, key, path, res, test):
    from fbs.data import images as I
    if kind == 'celeba':
        return I.CelebAHQ(key, path, resolution=res, task='supr', test=test)
    if kind == 'celeba-restore':
        return I.CelebAHQRestore(key, path, resolution=res, task='supr-2', test=test)
    if kind == 'mnist':
        return I.MNIST(key, path, task='deconv-5', test=test)
    if kind == 'mnist-restore':
        return I.MNISTRestore(key, path, task='inpaint-15', test=test)
    return I.CIFAR10(key, path, task='supr', test=test)


def numbers(xs, data, what):
    x = np.asarray(xs)
    if x.ndim != 4:
        raise Violation('shape', f'{what}: pictures of shape {x.shape}')
    v = x.reshape(len(x), -1)[:, :3].astype(float) * (1 if data.dtype == np.uint8 else 255)
    ids = np.round(v).astype(int) @ np.array([1, 100, 10000])
    if ids.min() < 0 or ids.max() >= len(data):
        raise Violation('content', f'{what}: pictures were altered')
    for i in range(0, len(x), 8192):
        if not np.array_equal(x[i:i + 8192], data[ids[i:i + 8192]].reshape(x[i:i + 8192].shape)):
            raise Violation('content', f'{what}: pictures were altered or mixed')
    return ids


def run(scn, rec):
    kind, res = scn['kind'], scn['res']
    r = rng_of(scn['seed'], 'history')
    base = kind.split('-')[0]
    ntrain, ntest = SIZES[base]
    with tempfile.TemporaryDirectory(prefix='vsim-data-') as d:
        path, data = write_file(kind, os.path.join(d, 'data'), res, np.random.default_rng(scn['seed']), scn['dtype'])
        members, orders = {}, {}
        for step, (test, k, other) in enumerate(scn['loads']):
            kd = kind if not other or base == 'cifar' else (base if kind != base else base + '-restore')
            what = f'{kd} {"test" if test else "train"} key {k}'
            key = prng.keys(subseed(scn['seed'], 'key', k), None, scn['mode'], 3)
            ds = load(kd, key, path, res, bool(test))
            shape = SHAPE.get(base, (res, res, 3))
            want = ntest if test else ntrain
            if tuple(ds.image_shape) != shape or ds.xs.shape != (want, *shape) or ds.n != want:
                raise Violation('size', f'{what}: n={ds.n}, pictures {ds.xs.shape}, image_shape {ds.image_shape}, '
                                        f'expected {want} of {shape}')
            ids = numbers(ds.xs, data, what)
            rec.evals += 1
            rec.log(ids)
            rec.event(what, ids[:4].tolist())
            rec.state(kd, test, k)
            s = set(ids.tolist())
            if len(s) != want:
                raise Violation('lossless', f'{what}: {len(s)} distinct pictures of {want}')
            for (t2, k2), s2 in members.items():
                if t2 == test and s2 != s:
                    raise Violation('split', f'{what}: the split differs from the one of key {k2}')
                if t2 != test and s2 & s:
                    raise Violation('overlap', f'{what}: {len(s2 & s)} pictures are in both the train and the test set (keys '
                                               f'{k} and {k2})')
            members[test, k] = s
            o = orders.setdefault((kd, test, k), ids)
            if not np.array_equal(o, ids):
                raise Violation('restart', f'{what}: loading again with the same key gives another order')
            for (kd2, t2, k2), o2 in orders.items():
                if (kd2, t2) == (kd, test) and k2 != k and np.array_equal(o2, ids) and scn['mode'] == 'none':
                    raise Violation('shuffle', f'{what}: the order does not depend on the key')
            if scn['mode'] == 'none' and (np.diff(ids) == 1).mean() > .1:
                raise Violation('shuffle', f'{what}: the pictures are not shuffled')
            rec.fault('process_restart', step > 0)
            del ds
        if scn['mode'] != 'none':
            rec.fault('generator_' + scn['mode'], len(scn['loads']))
        tr = [s for (t, _), s in members.items() if not t]
        te = [s for (t, _), s in members.items() if t]
        if tr and te and len(tr[0] | te[0]) != ntrain + ntest:
            raise Violation('complete', f'{kind}: train and test sets do not cover the file')


def plan(tier, rng):
    out = []

    def add(kind, nloads, res=4, **kw):
        loads = [[0, 0, 0], [1, 1, 0]]
        while len(loads) < nloads:
            loads.append([rng.randrange(2), rng.randrange(3), rng.randrange(2)])
        rng.shuffle(loads)
        s = dict(kind=kind, res=res, loads=loads, mode='none', dtype=rng.choice(['uint8', 'float32', 'float32']))
        s.update(kw)
        out.append(s)
    m = 1 if tier == 'quick' else 10
    for _ in range(3 * m):
        for kind in ('celeba', 'celeba-restore'):
            add(kind, rng.choice([4, 6]), rng.choice([2, 4]), mode=rng.choice(['none', 'none', 'mix']))
    for _ in range(m):
        add('mnist', 3)
        add('mnist-restore', 3)
        add('cifar', 3)
    for i, s in enumerate(out):
        s['group'] = str(i)
        s['cost'] = 3. if not s['kind'].startswith('celeba') else 1.
    return out


def shrink(scn):
    for i in range(len(scn['loads'])):
        if len(scn['loads']) > 1:
            yield dict(scn, loads=scn['loads'][:i] + scn['loads'][i + 1:])
    if scn['mode'] != 'none':
        yield dict(scn, mode='none')
