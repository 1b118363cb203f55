"""C17  Masks split every picture into exactly its observed and unobserved pixels, and corruption touches nothing else."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W, prng
from dst.core import Violation, rng_of, subseed
from dst.stats import two_stage

PROP = 'C17'
RULE = ('a scenario is one restoration task on one picture size: masks are drawn from many keys (ordinary and extreme random '
        'words, compiled and eager), and the algebra of unpack and concat, the shapes and the law of the masks are checked; or '
        'one corruption of pictures; non-trivial: both parts are non-empty')
REAL = ['fbs.data.images.ImageRestore.{gen_mask,unpack,concat,sampler}', 'fbs.data.images.Image.{paint,downsample,conv,corrupt,'
        'sampler,concat,unpack}', 'fbs.data.images.normalise']
STUB = ['the pictures: random, with all pixels distinct', 'the random words (simulated generator) in the fault scenarios']
STATE = 'distinct masks'
ASSUMPTIONS = ['the super-resolution rate divides the sides of the picture, the rectangle fits into it',
               'jax.random.randint and choice are trusted']


def run(scn, rec):
    {'mask': run_mask, 'image': run_image}[scn['kind']](scn, rec)


def mask_keys(scn, n, salt):
    return prng.keys(subseed(scn['seed'], salt), n, scn['mode'], scn['rate'])


def run_mask(scn, rec):
    from fbs.data.images import ImageRestore
    w, h, c = scn['shape']
    task = scn['task']
    s = int(task.split('-')[-1])
    sr = 'supr' in task
    d = ImageRestore(task, (w, h, c), sr_random=bool(scn['rnd']))
    P = w * h
    p = P - P // (s * s) if sr else s * s
    what = f'{task} {w}x{h}x{c}'
    if tuple(d.unobs_shape) != (p, c):
        raise Violation('shape', f'{what}: unobs_shape {d.unobs_shape}, expected {(p, c)}')
    r = np.random.default_rng(subseed(scn['seed'], 'pictures'))
    batch = tuple(scn['batch'])
    img = r.permutation(int(np.prod(batch)) * P * c).reshape(*batch, w, h, c).astype(np.float32) + 1
    n = scn['nmasks']
    gen = d.gen_mask
    keys = mask_keys(scn, n, 'masks')
    # every mask, through one compiled program (as the drivers do), some of them eagerly as well
    ms = jax.jit(jax.vmap(lambda k: tuple(gen(k))))(keys)
    for i in range(2):
        one = gen(keys[i])
        if not all(np.array_equal(np.asarray(a), np.asarray(b)[i]) for a, b in zip(one, ms)):
            raise Violation('compiled', f'{what}: the mask of one key differs between eager and compiled code')
    mask_t = type(one)
    f = one._fields
    un, ob = np.asarray(ms[f.index('unobs_inds_ravelled')]), np.asarray(ms[f.index('obs_inds_ravelled')])
    rec.evals += n
    rec.log(un, ob)
    if un.shape != (n, p) or ob.shape != (n, P - p):
        raise Violation('shape', f'{what}: masks of {un.shape[1:]} unobserved and {ob.shape[1:]} observed pixels, expected '
                                 f'{p} and {P - p}')
    both = np.sort(np.concatenate([un, ob], 1), axis=1)
    if not np.array_equal(both, np.broadcast_to(np.arange(P), both.shape)):
        i = int(np.argmax((both != np.arange(P)).any(1)))
        raise Violation('partition', f'{what}: mask {i} is not a partition of the pixels: {len(set(both[i].tolist()))} of {P} '
                                     f'pixels covered')
    for u in un[:200]:
        rec.state(task, w, h, u.tobytes())
    # geometry
    uw, uh = un // h, un % h
    ow, oh = ob // h, ob % h
    if sr:
        blk = (ow // s) * (h // s) + oh // s
        if not np.array_equal(blk, np.broadcast_to(np.arange(P // (s * s)), blk.shape)):
            raise Violation('blocks', f'{what}: the observed pixels are not one per block, in the order of the blocks')
        pos = (ow % s) * s + oh % s
        if not scn['rnd'] and (pos != (s // 2) * s + s // 2).any():
            raise Violation('middle', f'{what}: a non-random mask does not observe the middle of each block')
    else:
        if ((uw.max(1) - uw.min(1) != s - 1) | (uh.max(1) - uh.min(1) != s - 1)).any():
            raise Violation('rectangle', f'{what}: the unobserved pixels are not a rectangle of {s} x {s}')
        shift = uw.min(1)
        if not np.array_equal(shift, uh.min(1)) or not np.array_equal(shift, np.asarray(ms[f.index('shift')]).ravel()):
            raise Violation('shift', f'{what}: the stated shift is not the position of the rectangle')
    if scn['mode'] != 'none':
        rec.fault('generator_' + scn['mode'], n)

    # unpack and concat are inverse, for any leading dimensions, in compiled and eager code, in any interleaving of masks
    def rebuild(m, z):
        m = mask_t(*m)
        x, y = d.unpack(z, m)
        return x, y, d.concat(x, y, m)
    frebuild = jax.jit(rebuild)
    order = rng_of(scn['seed'], 'order')
    for _ in range(12):
        i = order.randrange(n)
        m = tuple(a[i] for a in ms)
        x, y, z = (rebuild if order.random() < .3 else frebuild)(m, jnp.asarray(img))
        rec.evals += 1
        flat = img.reshape(*batch, P, c)
        if x.shape != (*batch, p, c) or y.shape != (*batch, P - p, c):
            raise Violation('shape', f'{what}: unpack of {img.shape} gives {x.shape} and {y.shape}')
        if not np.array_equal(np.asarray(x), flat[..., un[i], :]) or not np.array_equal(np.asarray(y), flat[..., ob[i], :]):
            raise Violation('unpack', f'{what}: unpack returns other pixels than those of the mask')
        if not np.array_equal(np.asarray(z), img):
            raise Violation('inverse', f'{what}: concat(unpack(x)) is not x, leading dimensions {batch}')
        a, b = r.normal(size=x.shape).astype(np.float32), r.normal(size=y.shape).astype(np.float32)
        xy = d.concat(jnp.asarray(a), jnp.asarray(b), mask_t(*m))
        if xy.shape != img.shape:
            raise Violation('shape', f'{what}: concat gives {xy.shape}, expected {img.shape}')
        a2, b2 = d.unpack(xy, mask_t(*m))
        if not np.array_equal(np.asarray(a2), a) or not np.array_equal(np.asarray(b2), b):
            raise Violation('inverse', f'{what}: unpack(concat(x, y)) is not (x, y), leading dimensions {batch}')
    rec.event(what, scn['mode'], un[0][:6].tolist(), ob[0][:6].tolist())

    # the sampler: the measurement is the observed part of the very picture it returns
    d.n = 5
    d.xs = jnp.asarray(r.permutation(5 * P * c).reshape(5, w, h, c).astype(np.float32))
    fs = jax.jit(jax.vmap(lambda k: (lambda t: (t[0], t[1], tuple(t[2])))(d.sampler(k))))
    X, Y, M = fs(mask_keys(scn, 50, 'sampler'))
    X, Y, O = np.asarray(X), np.asarray(Y), np.asarray(M[f.index('obs_inds_ravelled')])
    rec.evals += 50
    for i in range(50):
        if not (X[i] == np.asarray(d.xs)).all((1, 2, 3)).any():
            raise Violation('sampler', f'{what}: the sampler returns a picture that is not in the dataset')
        if not np.array_equal(Y[i], X[i].reshape(P, c)[O[i]]):
            raise Violation('sampler', f'{what}: the measurement is not the observed part of the picture')
    if scn['mode'] != 'none':
        return

    # law of the mask
    fm = jax.jit(jax.vmap(lambda k: tuple(gen(k))))

    def sim(bt, seed):
        out = fm(jax.random.split(jax.random.PRNGKey(seed), scn['L']))
        rec.evals += scn['L']
        o, u = np.asarray(out[f.index('obs_inds_ravelled')]), np.asarray(out[f.index('unobs_inds_ravelled')])
        if sr:
            if not scn['rnd']:
                return
            pos = ((o // h) % s) * s + (o % h) % s
            nb = pos.shape[1]
            for k in range(min(nb, 4)):
                bt.counts(f'pixel of block {k}', np.bincount(pos[:, k], minlength=s * s), np.full(s * s, 1 / s ** 2))
            if nb > 1:
                bt.counts('pixels of two blocks', np.bincount(pos[:, 0] * s * s + pos[:, -1], minlength=s ** 4),
                          np.full(s ** 4, 1 / s ** 4))
        else:
            m = max(min(w, h) - s, 1)
            bt.counts('shift', np.bincount((u // h).min(1), minlength=m), [1 / m] * m + [0] * (len(np.bincount(
                (u // h).min(1), minlength=m)) - m))
    two_stage(rec, sim, scn['seed'], kind='mask-law')


def run_image(scn, rec):
    from fbs.data.images import Image, normalise
    w, h, c = scn['shape']
    task = scn['task']
    what = f'{task} {w}x{h}x{c}'
    d = Image()
    d.task, d.image_shape = task, (w, h, c)
    r = np.random.default_rng(subseed(scn['seed'], 'pictures'))
    n = 4
    xs = r.uniform(.05, .95, size=(n, w, h, c)).astype(np.float32)
    d.n, d.xs = n, jnp.asarray(xs)
    L = scn['nmasks']
    X, Y = jax.jit(jax.vmap(d.sampler))(mask_keys(scn, L, 'sampler'))
    X, Y = np.asarray(X), np.asarray(Y)
    rec.evals += L
    rec.log(Y)
    rec.event(what, scn['mode'])
    if scn['mode'] != 'none':
        rec.fault('generator_' + scn['mode'], L)
    if X.shape != (L, w, h, c) or Y.shape != X.shape:
        raise Violation('shape', f'{what}: pairs of shapes {X.shape[1:]} and {Y.shape[1:]}')
    if not (X[:, None] == xs[None]).all((2, 3, 4)).any(1).all():
        raise Violation('sampler', f'{what}: the sampler returns a picture that is not in the dataset')
    for i in range(L):
        x, y = X[i], Y[i]
        if 'inpaint' in task:
            s = int(task.split('-')[-1])
            hole = (y != x)
            if not (y[hole] == 0).all():
                raise Violation('inpaint', f'{what}: pixels outside the hole were changed')
            a, b = np.nonzero(hole.any(-1))
            if len(a) != s * s or a.max() - a.min() != s - 1 or b.max() - b.min() != s - 1 or not hole.all(-1)[a, b].all():
                raise Violation('inpaint', f'{what}: the hole is not a rectangle of {s} x {s} in all channels')
            rec.state(what, int(a.min()), int(b.min()))
        elif 'supr' in task:
            ok = False
            for ratio in (4, 8):
                if w // ratio and h // ratio:
                    B = y[:w // ratio * ratio, :h // ratio * ratio].reshape(w // ratio, ratio, h // ratio, ratio, c)
                    XB = x[:w // ratio * ratio, :h // ratio * ratio].reshape(w // ratio, ratio, h // ratio, ratio, c)
                    blocks = B[:, :1, :, :1]
                    ok = ok or ((B == blocks).all() and ((XB == blocks).all(-1).any((1, 3))).all())
            if not ok:
                raise Violation('supr', f'{what}: the low-resolution picture is not one pixel of each block of the clean one')
            rec.state(what, len(np.unique(y)))
        else:
            if not np.isfinite(y).all() or abs(y.min((0, 1))).max() > 1e-5 or abs(y.max((0, 1)) - 1).max() > 1e-5:
                raise Violation('deconv', f'{what}: the blurred picture is not normalised to [0, 1] in each channel')
            rec.state(what, round(float(y.mean()), 3))
    # concat and unpack of pairs
    xy = d.concat(jnp.asarray(X), jnp.asarray(Y))
    a, b = d.unpack(xy)
    if not np.array_equal(np.asarray(a), X) or not np.array_equal(np.asarray(b), Y):
        raise Violation('inverse', f'{what}: unpack(concat(x, y)) is not (x, y)')
    z = r.normal(size=(3, w, h, c)).astype(np.float32)
    q = np.asarray(normalise(jnp.asarray(z)))
    if not np.array_equal(q, np.clip(z, 0, 1)):
        raise Violation('clip', 'normalise(clip) is not the projection to [0, 1]')
    if scn['mode'] != 'none' or 'deconv' in task:
        return
    K = {'inpaint': 16, 'supr': 2}[task.split('-')[0]]
    d.xs = d.xs[:1]
    d.n = 1

    def feature(k):
        y = d.corrupt(k, d.xs[0])
        hole = (y[..., 0] == 0)
        return jnp.stack([jnp.argmax(hole.any(1)), jnp.argmax(hole.any(0))]) if K == 16 else \
            jnp.stack([(y[0, 4, 0] == y[0, 0, 0]).astype(int)])
    ff = jax.jit(jax.vmap(feature))

    def sim(bt, seed):
        out = np.asarray(ff(jax.random.split(jax.random.PRNGKey(seed), scn['L'])))
        rec.evals += scn['L']
        if K == 16:
            s = int(task.split('-')[-1])
            for ax, size in ((0, w), (1, h)):
                size = (w, h)[ax]
                vals = [int((size - s) / 3 * k) for k in range(4)]
                p = np.bincount(vals, minlength=size) / 4
                bt.counts(f'position {ax}', np.bincount(out[:, ax], minlength=size), p)
        else:
            bt.counts('ratio', np.bincount(out[:, 0], minlength=2), [.5, .5])
    two_stage(rec, sim, scn['seed'], kind='mask-law')


MODES = ['zero', 'one', 'mix', 'near-zero']


def plan(tier, rng):
    m = 1 if tier == 'quick' else 12
    out = []

    def add(kind, task, shape, **kw):
        s = dict(kind=kind, task=task, shape=shape, rnd=1, batch=rng.choice([[], [2], [2, 3]]), nmasks=120, L=20000,
                 mode='none', rate=2)
        s.update(kw)
        s['group'] = f'{kind}{task}{shape}'
        out.append(s)
    for _ in range(m):
        for c in (1, 3):
            for s in (2, 4):
                for sh in ([4, 8], [8, 8], [12, 8], [16, 4]):
                    add('mask', f'supr-{s}', [*sh, c], rnd=int(rng.random() < .75),
                        mode=rng.choice(['none', rng.choice(MODES)]))
        for sh, ss in (([8, 8], (3, 7, 8)), ([6, 10], (2, 5)), ([9, 5], (4, 5)), ([7, 7], (1,))):
            for s in ss:
                for mode in ('none', rng.choice(MODES)):
                    add('mask', f'inpaint-{s}', [*sh, rng.choice([1, 3])], mode=mode)
        add('mask', 'supr-4', [28, 28, 1], L=3000, nmasks=40)
        add('mask', 'inpaint-15', [28, 28, 1], L=3000, nmasks=40)
        for task in ('inpaint-3', 'inpaint-6', 'supr', 'deconv-5', 'deconv-3'):
            for sh in ([16, 16], [16, 8], [8, 16]):
                add('image', task, [*sh, rng.choice([1, 3])], nmasks=60, mode=rng.choice(['none', 'none', rng.choice(MODES)]))
    return out


def shrink(scn):
    return W.shrink_by(scn, [('batch', []), ('mode', 'none'), ('nmasks', 2), ('L', 2000)])
