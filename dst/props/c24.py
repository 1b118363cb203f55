"""C24  A network is one function of a picture, a time and the parameters, however requests are grouped."""
import io
import numpy as np
import jax
import jax.numpy as jnp
from dst.core import Violation, rng_of, subseed

PROP = 'C24'
RULE = ('a scenario is one network, trained parameters (random, some saved by one process and loaded by another that made the '
        'network with another batch size) and a seeded history of requests, each served in another grouping: alone, in batches of '
        'any composition and order, at one common time or at a vector of times, compiled or mapped; non-trivial: at least two '
        'groupings were compared')
REAL = ['fbs.nn.unet.UNet', 'fbs.nn.models.CrescentMLP, GMSBMLP', 'fbs.nn.make_st_nn, sinusoidal_embedding', 'fbs.nn.utils.PixelShuffle, '
        'make_nn_with_time']
STUB = ['nothing']
STATE = 'distinct (network, shape, grouping)'
ASSUMPTIONS = ['agreement up to single precision', 'flax and XLA on CPU are trusted']


class Compiled:
    """the network, its initialisation compiled as a whole (faster)"""

    def __init__(self, nn):
        self.nn, self.init = nn, jax.jit(nn.init)

    def __getattr__(self, k):
        return getattr(self.nn, k)


def make(s):
    nn, dims = module(s)
    return Compiled(nn), dims


def module(s):
    from fbs.nn.unet import UNet
    from fbs.nn.models import CrescentMLP, GMSBMLP
    if s['net'] == 'unet':
        return UNet(dt=s['dt'], dim=s['dim'], upsampling=s['up'], dim_mults=tuple(s['mults'])), (s['h'], s['w'], s['c'])
    if s['net'] == 'crescent':
        return CrescentMLP(dt=s['dt'], dim=s['c'] + 1), (s['c'] + 1,)
    return GMSBMLP(dim=s['c'] + 1, dt=s['dt']), (s['c'] + 1,)


def near(a, b, what, kind='grouping'):
    a, b = np.asarray(a, float), np.asarray(b, float)
    scale = 1e-6 + np.abs(b).mean() if b.size else 1.
    if a.shape != b.shape or not (np.abs(a - b) <= 2e-3 * (scale + np.abs(b))).all():
        e = np.abs(a - b).max() / scale if a.shape == b.shape else f'shapes {a.shape} and {b.shape}'
        raise Violation(kind, f'{what}: differ by {e} relative to the size of the values')


def run(s, rec):
    rec.event(*[f'{k}={s[k]}' for k in ('kind', 'net', 'dt', 'n', 'h', 'w', 'c', 'up')])
    {'requests': run_requests, 'shuffle': run_shuffle, 'embedding': run_embedding, 'baby': run_baby}[s['kind']](s, rec)


def run_requests(s, rec):
    from fbs.nn import make_st_nn
    g = np.random.default_rng(s['seed'])
    r = rng_of(subseed(s['seed'], 'requests'))
    nn, dims = make(s)
    n = s['n']
    init, to_dict, f = make_st_nn(jax.random.PRNGKey(s['seed'] % 1000), nn=nn, dim_in=dims, batch_size=s['b1'])
    again, to_dict2, f2 = make_st_nn(jax.random.PRNGKey(7), nn=make(s)[0], dim_in=dims, batch_size=s['b2'])
    if init.shape != again.shape or init.ndim != 1:
        raise Violation('checkpoint', f'{s["net"]}: {init.shape} parameters with batches of {s["b1"]}, {again.shape} with {s["b2"]}')
    if not np.isfinite(np.asarray(init)).all() or np.array_equal(init, again):
        raise Violation('init', f'{s["net"]}: the initial parameters are not finite or do not depend on the key')
    params = []
    for q in range(2):      # two sets of parameters, as after training; the requests use them in turn
        p = np.asarray(init) * (1 + .1 * g.normal(size=init.shape)) + .05 * g.normal(size=init.shape)
        h = io.BytesIO()
        np.savez(h, param=p.astype(np.float32), ema_param=p * 0)
        h.seek(0)
        rec.fault('restart_from_checkpoint')
        params.append(jnp.asarray(np.load(h)['param']))
    d1, d2 = to_dict(params[0]), to_dict2(params[0])
    for k, v in jax.tree_util.tree_flatten_with_path(d1)[0]:
        o = dict((str(a), b) for a, b in jax.tree_util.tree_flatten_with_path(d2)[0]).get(str(k))
        if o is None or not np.array_equal(o, v):
            raise Violation('checkpoint', f'{s["net"]}: the checkpoint means another parameter {k} in a network made for batches of '
                                          f'{s["b2"]}')
    X = g.normal(size=(n, *dims)).astype(np.float32)
    T = (s['dt'] * g.choice(200, size=n, replace=False)).astype(np.float32)
    T[1] = T[0]
    one_ = jax.jit(f)
    fs = {'jit': one_, 'other process': jax.jit(f2)}

    def alone(i, p):
        """picture i at its time: a batch of one"""
        return np.asarray(one_(jnp.asarray(X[i:i + 1]), jnp.asarray(T[i]), params[p])).reshape(dims)
    want = np.stack([[alone(i, p) for i in range(n)] for p in range(2)])
    if not np.isfinite(want).all() or np.abs(want).max() < 1e-6:
        raise Violation('finite', f'{s["net"]}: evaluates to {np.abs(want).max()}')
    # it is a function of all three arguments
    x, t, p = X[:1], T[0], params[0]
    for what, others in (('picture', [(c * x[:, ::-1], t, p) for c in (.5, -1., 3.)]), ('time', [(x, T[2], p), (x, 3 * T[2] + s['dt'], p)]),
                         ('parameters', [(x, t, params[1])])):
        if all(np.array_equal(np.asarray(one_(jnp.asarray(a), jnp.asarray(b), c)).reshape(dims), want[0, 0]) for a, b, c in others):
            raise Violation('constant', f'{s["net"]}: the value does not depend on the {what}')
    shapes = ['vector'] + s['groupings']
    for q, gr in enumerate(shapes):
        p = r.randrange(2)
        k = r.randrange(2, n + 1) if s['net'] != 'unet' else s['batch']
        ids = [r.randrange(n) for _ in range(k)] if r.random() < .3 else r.sample(range(n), min(k, n))
        what = f"{s['net']} {dims}: {gr} request for {ids}, parameters {p}"
        rec.evals += len(ids)
        rec.state(s['net'], dims, gr, len(ids))
        x, t, w = jnp.asarray(X[ids]), jnp.asarray(T[ids]), want[p][ids]
        if gr == 'single':      # without a batch dimension
            if s['net'] != 'unet':
                continue
            got = np.stack([np.asarray(one_(x[i], t[i], params[p])).reshape(dims) for i in range(len(ids))])
        elif gr == 'vector':
            got = fs['jit'](x, t, params[p])
        elif gr == 'other':
            got = fs['other process'](x, t, params[p])
        elif gr == 'common':    # all pictures at one time
            i = r.randrange(n)
            ids = [i] * len(ids)
            x = jnp.asarray(np.stack([X[j] for j in range(len(ids))]))
            got = fs['jit'](x, jnp.asarray(T[i]), params[p])
            w = fs['jit'](x, jnp.full((len(ids),), T[i]), params[p])
        elif gr == 'vmap':
            got = jax.jit(jax.vmap(lambda a, b: f(a[None], b, params[p]).reshape(dims)))(x, t)
        elif gr == 'eager':
            got = f(x, t, params[p])
        near(got, w, what)
        rec.log(np.asarray(got))


def run_shuffle(s, rec):
    """up-sampling moves every value to its own place, within its own picture"""
    from fbs.nn.utils import PixelShuffle
    g = np.random.default_rng(s['seed'])
    for _ in range(20):
        b, h, w, c, k = (int(v) for v in (g.integers(1, 4), g.integers(1, 5), g.integers(1, 5), g.integers(1, 4), g.integers(1, 4)))
        x = np.arange(b * h * w * k * k * c, dtype=np.float32).reshape(b, h, w, k * k * c)
        y = np.asarray(PixelShuffle(scale=k)(jnp.asarray(x)))
        what = f'PixelShuffle(scale={k}) of {x.shape}'
        if y.shape != (b, h * k, w * k, c):
            raise Violation('shuffle', f'{what}: {y.shape}')
        for i in range(b):
            for p in range(h):
                for q in range(w):
                    if set(y[i, p * k:p * k + k, q * k:q * k + k].ravel()) != set(x[i, p, q]):
                        raise Violation('shuffle', f'{what}: the block at {(i, p, q)} does not hold the channels of that pixel')
        # the channel of a value, and its place in the block, do not depend on the pixel
        z = np.asarray(PixelShuffle(scale=k)(jnp.asarray(x % (k * k * c))))
        if not np.array_equal(z, np.tile(z[:1, :k, :k], (b, h, w, 1))):
            raise Violation('shuffle', f'{what}: the order of the channels depends on the pixel')
        rec.evals += 1
        rec.state('shuffle', b, h, w, c, k)


def run_embedding(s, rec):
    from fbs.nn import sinusoidal_embedding
    g = np.random.default_rng(s['seed'])
    for dim in (4, 16, 32, 64, 128):
        for per in (10000, int(g.integers(20, 50000))):
            half = dim // 2
            w = np.exp(-np.log(per) * np.arange(half) / (half - 1))
            for t in (0., 1., float(g.uniform(0, 200)), float(g.uniform(0, 1))):
                got = np.asarray(sinusoidal_embedding(jnp.asarray(t), out_dim=dim, max_period=per))
                want = np.concatenate([np.sin(t * w), np.cos(t * w)])
                if got.shape != want.shape or np.abs(got - want).max() > 2e-4:
                    raise Violation('embedding', f'sinusoidal_embedding({t}, {dim}, {per}) is off by {np.abs(got - want).max()}')
                rec.evals += 1
            rec.state('embedding', dim, per)
    for dim in (3, 33):
        try:
            sinusoidal_embedding(jnp.asarray(1.), out_dim=dim)
        except NotImplementedError:
            continue
        raise Violation('embedding', f'sinusoidal_embedding accepts the odd dimension {dim}')


def run_baby(s, rec):
    """make_nn_with_time"""
    import flax.linen as linen
    from fbs.nn.utils import make_nn_with_time
    g = np.random.default_rng(s['seed'])
    d, sc = 3, 2.5

    class Net(linen.Module):
        @linen.compact
        def __call__(self, z):
            z = linen.tanh(linen.Dense(8)(z))
            return linen.Dense(d)(z)
    init, to_dict, f = make_nn_with_time(Net(), d, 5, sc, jax.random.PRNGKey(s['seed'] % 1000))
    for _ in range(10):
        p = jnp.asarray(np.asarray(init) + .3 * g.normal(size=init.shape), jnp.float32)
        x, t = g.normal(size=(4, d)).astype(np.float32), g.uniform(0, 3, size=4).astype(np.float32)
        q = to_dict(p)['params']
        z = np.concatenate([x, sc * t[:, None]], 1)
        k = [np.asarray(q[n]['kernel']) for n in ('Dense_0', 'Dense_1')]
        if [a.shape for a in k] != [(d + 1, 8), (8, d)]:
            raise Violation('shape', f'make_nn_with_time initialises kernels of shapes {[a.shape for a in k]}')
        b = [np.asarray(q[n]['bias']) for n in ('Dense_0', 'Dense_1')]
        want = np.tanh(z @ k[0] + b[0]) @ k[1] + b[1]
        near(np.stack([f(x[i], t[i], p) for i in range(4)]), want, 'make_nn_with_time, one by one')
        near(jax.vmap(f, [0, 0, None])(x, t, p), want, 'make_nn_with_time, mapped')
        rec.evals += 8
    rec.state('baby')


def plan(tier, rng):
    m = 1 if tier == 'quick' else 12
    out = []

    def add(kind, cost, **kw):
        s = dict(kind=kind, net='unet', dt=rng.choice([.01, .0025, 1.]), dim=8, up=rng.choice(['resize', 'pixel_shuffle']),
                 mults=[1, 2], h=8, w=8, c=rng.choice([1, 3]), n=6, b1=rng.choice([1, 2, 5]), b2=rng.choice([3, 4]), batch=3,
                 groupings=[], seed=rng.randrange(2 ** 31), cost=cost)
        s.update(kw)
        s['group'] = str(len(out))
        out.append(s)
    for _ in range(m):
        for up in ('resize', 'pixel_shuffle'):
            for gr in (['vector', 'common', 'vector'], ['single', 'other', 'vmap'], ['other', 'common', 'single']):
                add('requests', 30., up=up, groupings=gr, batch=rng.choice([2, 3, 5]), h=rng.choice([4, 8]), w=rng.choice([4, 8]))
        add('requests', 40., mults=[1, 2, 4], dim=16, batch=2, groupings=['common', 'vector'], n=4)
        for net in ('crescent', 'gmsb'):
            for _ in range(3):
                add('requests', 5., net=net, n=7, groupings=[rng.choice(['vector', 'common', 'other', 'vmap', 'eager']) for _ in range(6)])
        for k in ('shuffle', 'embedding', 'baby'):
            add(k, 2.)
    return out


def shrink(s):
    if len(s['groupings']) > 1:
        for i in range(len(s['groupings'])):
            yield dict(s, groupings=s['groupings'][:i] + s['groupings'][i + 1:])
    for k, v in (('n', 3), ('batch', 2), ('h', 4), ('w', 4), ('c', 1)):
        if s[k] > v and not (k == 'n' and s['batch'] > v):
            yield dict(s, **{k: v})
