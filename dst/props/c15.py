"""C15  Enumerating a dataset visits every item once per epoch, whatever the history of the enumeration."""
import gc
import itertools
import math
import numpy as np
import jax
import jax.numpy as jnp
from dst import prng
from dst.core import Violation, rng_of, subseed
from dst.stats import two_stage

PROP = 'C15'
RULE = ('a scenario is one history of dataset consumers (epochs of several datasets interleaved batch by batch, out of order '
        'and repeated accesses, stale and explicit permutations, crashes and restarts, datasets dropped and re-created), or '
        'the law of one random operation on a tiny dataset; non-trivial: at least two batches were read')
REAL = ['fbs.data.base.Dataset', 'fbs.data.images.{Image,ImageRestore}.{enumerate_subset,sampler,draw_subset}']
STUB = ['the pictures: synthetic items that carry their own number', 'the random words (simulated generator) in the fault '
        'scenarios']
STATE = 'distinct (dataset kind, size, batch size, operation)'
ASSUMPTIONS = ['an incomplete last batch is dropped, as documented', 'jax.random.choice and permutation are trusted']


def make(kind, n, tag):
    """A dataset whose item i is constant-free and identifies (tag, i)."""
    from fbs.data.base import Dataset
    from fbs.data.images import Image, ImageRestore

    def items(shape):
        size = int(np.prod(shape))
        x = (np.arange(size) % 7)[None] * .01 + .003 + (tag * 1000 + np.arange(n))[:, None]
        return jnp.asarray(x.reshape(n, *shape), jnp.float32)
    if kind in ('base', 'base-1d'):
        class D(Dataset):
            pass
        d = D()
        d.xs = items((3,) if kind == 'base' else ())
    elif kind.startswith('image'):
        d = Image()
        d.image_shape = (8, 8, 1)
        d.task = {'image': 'none', 'image-inpaint': 'inpaint-3', 'image-supr': 'supr', 'image-deconv': 'deconv-5'}[kind]
        d.xs = items((8, 8, 1))
    else:
        d = ImageRestore(kind.split('/')[1], (8, 8, 2))
        d.xs = items((8, 8, 2))
    d.n = n
    return d


def ident(x, tag):
    """-> item numbers of a batch, or raises"""
    x = np.asarray(x)
    v = x.reshape(len(x), -1)
    i = np.rint(v[:, 0]).astype(int) - tag * 1000
    return i, v


def check_items(x, d, tag, what):
    i, v = ident(x, tag)
    if (i < 0).any() or (i >= d.n).any():
        raise Violation('foreign', f'{what}: a batch contains items of another dataset or made-up items ({i.tolist()[:6]})')
    if not np.array_equal(v, np.asarray(d.xs)[i].reshape(len(i), -1)):
        raise Violation('content', f'{what}: the content of an item changed')
    return i


class Consumer:
    """One training process: reads whole epochs, in its own order."""

    def __init__(self, cid, kind, n, b, explicit, seed, mode):
        self.cid, self.kind, self.n, self.b, self.explicit, self.seed, self.mode = cid, kind, n, b, explicit, seed, mode
        self.epoch, self.history = 0, {}
        self.boot()

    def boot(self):
        self.d = make(self.kind, self.n, self.cid)
        self.perm, self.left, self.read = None, None, None

    def begin(self, r):
        key = prng.keys(subseed(self.seed, 'epoch', self.epoch), None, self.mode, 1)
        self.perm = self.d.init_enumeration(key, self.b)
        p = [np.asarray(q).tolist() for q in self.perm]
        nb = self.n // self.b
        if len(p) != nb or any(len(q) != self.b for q in p):
            raise Violation('sizes', f'{self.kind} n={self.n} b={self.b}: {len(p)} batches of sizes {[len(q) for q in p][:8]}')
        flat = [i for q in p for i in q]
        if len(set(flat)) != len(flat) or not all(0 <= i < self.n for i in flat):
            raise Violation('epoch', f'{self.kind} n={self.n} b={self.b}: an epoch repeats items or leaves the range: {flat[:12]}')
        if self.epoch in self.history and self.history[self.epoch] != p:
            raise Violation('restart', f'{self.kind}: the epoch of one key differs after a restart')
        self.history[self.epoch] = p
        self.left = list(range(nb))
        if r.random() < .5:
            r.shuffle(self.left)
        self.read = []

    def batch(self, r, rec):
        i = self.left.pop(0)
        stale = r.random() < .25 and self.epoch > 0 and self.explicit
        perm = self.history[self.epoch]
        arg = None
        if self.explicit:
            arg = self.perm
            if stale:   # an older permutation passed explicitly wins over the newer one the object holds
                e = r.choice(sorted(self.history))
                perm = self.history[e]
                arg = [jnp.asarray(q) for q in perm]
        key = prng.keys(subseed(self.seed, 'batch', self.epoch, i), None, self.mode, 2)
        out = self.d.enumerate_subset(i, arg, key)
        rec.evals += 1
        if self.kind.startswith('image'):
            x, y = out
            self.pair(x, y, key)
        else:
            x = out
        what = f'{self.kind} n={self.n} b={self.b} epoch {self.epoch} batch {i}'
        idx = check_items(x, self.d, self.cid, what)
        if idx.tolist() != perm[i]:
            raise Violation('batch', f'{what}: read items {idx.tolist()}, announced {perm[i]}')
        if not stale:
            self.read += idx.tolist()
        else:
            self.left.insert(0, i)
        rec.state(self.kind, self.n, self.b, stale, self.explicit)
        if not self.left:
            if len(set(self.read)) != len(self.read) or len(self.read) != self.n // self.b * self.b:
                raise Violation('epoch', f'{what}: the epoch read {len(self.read)} items, {len(set(self.read))} distinct')
            self.epoch += 1
            self.perm = None
            rec.probe('whole_epochs')
        return x

    def pair(self, x, y, key):
        x = np.asarray(x)
        if self.kind == 'image':
            if y is not None:
                raise Violation('pair', "task 'none' returns a corrupted picture")
            return
        y = np.asarray(y)
        if y.shape != x.shape:
            raise Violation('pair', f'{self.kind}: corrupted batch has shape {y.shape}, clean {x.shape}')
        if self.kind == 'image-inpaint':
            bad = [k for k in range(len(x)) if not (((y[k] == x[k]) | (y[k] == 0)).all() and (y[k] == 0).sum() == 9)]
        elif self.kind == 'image-supr':
            bad = [k for k in range(len(x)) if not np.isin(y[k], x[k]).all()]
        else:
            bad = [k for k in range(len(x)) if not (np.isfinite(y[k]).all() and abs(y[k].min()) < 1e-5
                                                    and abs(y[k].max() - 1) < 1e-5)]
        if bad:
            raise Violation('pair', f'{self.kind}: the corrupted picture {bad[0]} of a batch is not a corruption of the clean one')


def run_history(scn, rec):
    r = rng_of(scn['seed'], 'schedule')
    cs = [Consumer(c, k, n, b, e, subseed(scn['seed'], c), scn['mode'])
          for c, (k, n, b, e) in enumerate(scn['consumers'])]
    for _ in range(scn['nops']):
        c = r.choice(cs)
        op = r.random()
        if op < scn['crash']:
            # the process dies: the object and its permutation are gone; it restarts at the beginning of its epoch
            c.boot()
            if r.random() < .5:
                gc.collect()
            rec.fault('crash_restart')
            rec.event('crash', c.cid, c.epoch)
            continue
        if op < scn['crash'] + .05:
            d = make(c.kind, c.n, c.cid)       # an unrelated object is created, used once and dropped
            d.init_enumeration(prng.keys(r.randrange(10 ** 6)), c.b)
            d.enumerate_subset(0, None, prng.keys(r.randrange(10 ** 6)))
            del d
            continue
        if op < scn['crash'] + .1:
            m = r.randrange(1, c.n + 1)
            x = np.asarray(c.d.draw_subset(prng.keys(r.randrange(10 ** 6), None, scn['mode'], 2), m)) \
                if c.kind == 'base' else None
            if x is not None:
                i = check_items(x, c.d, c.cid, 'draw_subset')
                if len(i) != m or len(set(i.tolist())) != m:
                    raise Violation('subset', f'draw_subset({m}) returned {len(i)} items, {len(set(i.tolist()))} distinct')
                rec.evals += 1
            continue
        if c.perm is None:
            c.begin(r)
            rec.event('epoch', c.cid, c.epoch, c.history[c.epoch][:2])
        else:
            c.batch(r, rec)
            rec.event('batch', c.cid, len(c.left or ()))
        rec.simtime += 1
    if scn['mode'] != 'none':
        rec.fault('generator_' + scn['mode'], scn['nops'])


def run_law(scn, rec):
    n, b, L, what = scn['n'], scn['b'], scn['L'], scn['what']
    d = make(scn['kind_'], n, 1)
    nb = n // b
    rec.state(what, scn['kind_'], n, b)
    rec.event(what, scn['kind_'], n, b)

    def code(ix, base):
        return sum(ix[:, k] * base ** k for k in range(ix.shape[1]))
    if what == 'epoch':
        m = nb * b
        f = jax.jit(jax.vmap(lambda k: jnp.concatenate(d.init_enumeration(k, b))))
        perms = list(itertools.permutations(range(m)))
        # which items take part when the last batch is dropped is not prescribed; the order within them is uniform
        def sim(bt, seed):
            out = np.asarray(f(jax.random.split(jax.random.PRNGKey(seed), L)))
            rec.evals += L
            rec.log(out)
            rank = np.argsort(np.argsort(out, axis=1), axis=1)
            c = np.bincount(code(rank, m), minlength=m ** m)
            ids = [sum(v * m ** k for k, v in enumerate(p)) for p in perms]
            bt.counts('order of the epoch', c[ids], np.full(len(ids), 1 / len(ids)))
    elif what == 'subset':
        f = jax.jit(jax.vmap(lambda k: d.draw_subset(k, b)))
        perms = list(itertools.permutations(range(n), b))

        def sim(bt, seed):
            out = np.asarray(f(jax.random.split(jax.random.PRNGKey(seed), L))).reshape(L, b, -1)[..., 0]
            rec.evals += L
            rec.log(out)
            ix = np.rint(out).astype(int) - 1000
            c = np.bincount(code(ix, n), minlength=n ** b)
            ids = [sum(v * n ** k for k, v in enumerate(p)) for p in perms]
            if c.sum() != c[ids].sum():
                raise Violation('subset', 'draw_subset repeats an item')
            bt.counts('ordered subset', c[ids], np.full(len(ids), 1 / len(ids)))
    else:
        f = jax.jit(jax.vmap(lambda k: d.sampler(k)[0].ravel()[0]))

        def sim(bt, seed):
            out = np.asarray(f(jax.random.split(jax.random.PRNGKey(seed), L)))
            rec.evals += L
            rec.log(out)
            ix = np.rint(out).astype(int) - 1000
            bt.counts('sampled item', np.bincount(ix, minlength=n), np.full(n, 1 / n))
    two_stage(rec, sim, scn['seed'], kind='uniformity')


def run(scn, rec):
    (run_history if scn['kind'] == 'history' else run_law)(scn, rec)


KINDS = ['base', 'base', 'base-1d', 'image', 'image-inpaint', 'image-supr', 'image-deconv', 'restore/inpaint-3',
         'restore/supr-2']


def plan(tier, rng):
    m = 1 if tier == 'quick' else 15
    out = []
    for i in range(24 * m):
        cs = []
        for _ in range(rng.choice([1, 2, 3])):
            n = rng.choice([1, 2, 5, 7, 12, 30])
            cs.append([rng.choice(KINDS), n, rng.choice([k for k in (1, 2, 3, 4, 5, 8, n) if k <= n]), int(rng.random() < .6)])
        out.append(dict(kind='history', consumers=cs, nops=rng.choice([40, 90]), crash=rng.choice([0., .03, .1]),
                        mode=rng.choice(['none', 'none', 'none', 'zero', 'one', 'mix']), cost=1.))
    for _ in range(2 * m):
        for n, b in ((3, 1), (4, 2), (5, 2), (5, 5), (4, 3)):
            out.append(dict(kind='law', what='epoch', kind_=rng.choice(['base', 'restore/supr-2', 'image']), n=n, b=b, L=40000,
                            group=f'e{n}{b}'))
        for n, b in ((4, 2), (5, 3), (4, 4), (6, 1)):
            out.append(dict(kind='law', what='subset', kind_='base', n=n, b=b, L=40000, group=f's{n}{b}'))
        for kind in ('image', 'restore/inpaint-3', 'restore/supr-2'):
            if kind != 'image':
                out.append(dict(kind='law', what='sampler', kind_=kind, n=rng.choice([3, 7]), b=1, L=40000, group='l' + kind))
    return out


def shrink(scn):
    if scn['kind'] != 'history':
        return
    if len(scn['consumers']) > 1:
        for i in range(len(scn['consumers'])):
            yield dict(scn, consumers=scn['consumers'][:i] + scn['consumers'][i + 1:])
    for k in (scn['nops'] // 2, scn['nops'] - 5, scn['nops'] - 1):
        if 0 < k < scn['nops']:
            yield dict(scn, nops=k)
    if scn['crash']:
        yield dict(scn, crash=0.)
    if scn['mode'] != 'none':
        yield dict(scn, mode='none')
