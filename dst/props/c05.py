"""C05  Resampling is unbiased, stays in range and never revives a particle of weight zero."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W, prng
from dst.core import Violation, subseed
from dst.props.c03 import resampler
from dst.stats import two_stage

PROP = 'C05'
RULE = ('a scenario is one resampling scheme on one family of weight vectors, simulated on many lanes, either with the '
        'ordinary generator (law scenarios) or with a generator that emits extreme words (fault scenarios); non-trivial: '
        'the weights are not all equal')
REAL = ['fbs.samplers.resampling.{systematic,stratified,multinomial,killing}',
        'fbs.samplers.csmc.resamplings.{multinomial,killing,systematic} (unconditional)']
STUB = ['the random words (simulated generator) in the fault scenarios']
STATE = 'distinct ancestor vectors'
ASSUMPTIONS = ['jax.random.choice is trusted when weights are not exactly representable']
RES = ['systematic', 'stratified', 'multinomial', 'killing', 'csmc-multinomial', 'csmc-killing', 'csmc-systematic']


@functools.lru_cache(maxsize=None)
def sim(res, x64):
    return jax.jit(jax.vmap(resampler(res)))


def weights(kind, N, r):
    """A normalised weight vector in float64."""
    if kind == 'uniform':
        w = np.ones(N)
    elif kind == 'onehot':
        w = np.zeros(N)
        w[r.integers(N)] = 1.
    elif kind == 'zeros':
        w = r.gamma(1., size=N) + 1e-3
        w[r.random(N) < 0.5] = 0.
        if w.sum() == 0:
            w[r.integers(N)] = 1.
    elif kind == 'lead':      # zero weights at both ends
        w = r.gamma(1., size=N) + 1e-3
        k = N // 3
        w[:k] = 0.
        if k:
            w[-k:] = 0.
    elif kind == 'peaked':
        w = np.exp(-r.gamma(1., size=N) * 20)
    elif kind == 'grid':      # multiples of 1/N: systematic resampling is deterministic in counts
        w = r.multinomial(N, np.ones(N) / N).astype(float)
    elif kind == 'dyadic':    # multiples of 2^-10, sums are exact in float32
        w = r.multinomial(1024, r.dirichlet(np.ones(N) * 0.3)).astype(float)
    else:
        w = r.gamma(1., size=N) + 1e-3
    return w / w.sum()


def count_law(res, w):
    """Exact law of the ancestor vector for small N: dict code -> probability (killing) or of the counts."""
    N = len(w)
    C = np.cumsum(w)
    C[-1] = 1.
    out = {}

    def add(vec, p):
        out[vec] = out.get(vec, 0.) + p
    if res.endswith('systematic'):
        br = np.unique(np.concatenate([[0., 1.], [c for c in (N * C[:, None] - np.arange(N)).ravel() if 0 < c < 1]]))
        for a, b in zip(br[:-1], br[1:]):
            A = np.searchsorted(C, (np.arange(N) + (a + b) / 2) / N)
            add(tuple(A), b - a)
        return out
    if res == 'stratified':
        lo = np.concatenate([[0.], C[:-1]])
        M = np.array([[max(0., min(C[a], (n + 1) / N) - max(lo[a], n / N)) * N for a in range(N)] for n in range(N)])
    elif res.endswith('killing'):
        k = w / w.max()
        M = np.diag(k) + (1 - k)[:, None] * w[None]
    else:
        M = np.tile(w, (N, 1))
    for A in itertools.product(range(N), repeat=N):
        p = np.prod([M[n, A[n]] for n in range(N)])
        if p > 0:
            add(A, p)
    return out


def basic(A, w, N, L, res):
    if not np.issubdtype(A.dtype, np.integer):
        raise Violation('dtype', f'{res} returned {A.dtype}')
    if A.shape != (L, N):
        raise Violation('shape', f'{res} returned {A.shape} for {L} clouds of {N}')
    if A.min() < 0 or A.max() >= N:
        raise Violation('range', f'{res} returned an index outside [0, {N}): {A.min()}, {A.max()}')
    z = np.take_along_axis(w, A, 1) <= 0
    if z.any():
        i, j = np.argwhere(z)[0]
        raise Violation('zero-weight', f'{res} selected index {A[i, j]} of weight zero (position {j} of {N})')


def counts(A, N):
    return np.stack([np.bincount(a, minlength=N) for a in A])


def law(scn, rec):
    N, L, res = scn['N'], scn['L'], scn['res']
    r = np.random.default_rng(subseed(scn['seed'], 'w'))
    w64 = weights(scn['w'], N, r)
    dt = np.float64 if scn['x64'] else np.float32
    w = w64.astype(dt) * dt(scn['sum'])
    f = sim(res, scn['x64'])
    exact = count_law(res, w64) if N <= 4 else None
    rec.event(res, 'N', N, 'weights', np.round(w64, 4).tolist() if N < 9 else scn['w'])

    def one(b, seed):
        A = np.asarray(f(jnp.broadcast_to(jnp.asarray(w), (L, N)), jax.random.split(jax.random.PRNGKey(seed), L)))
        rec.evals += L
        rec.log(A)
        rec.simtime += L
        basic(A, np.broadcast_to(w, (L, N)), N, L, res)
        n = counts(A, N)
        for q in range(min(L, 200)):
            rec.state(A[q].tolist())
        b.mean('offspring', n, N * w64, tol=1e-4 * max(1., N * w64.max()))
        if exact is None:
            if N <= 40:
                v = w64 * (1 - w64)
                if res.endswith('multinomial'):
                    b.mean('offspring square', (n - N * w64) ** 2, N * v, tol=1e-4)
            return
        # the joint law of the offspring counts; for killing the law of the ancestor vector itself
        perm = not res.endswith('killing')
        law_, codes = {}, None
        for A_, p in exact.items():
            key = tuple(np.bincount(A_, minlength=N)) if perm else A_
            law_[key] = law_.get(key, 0.) + p
        names = sorted(law_)
        ix = {k: i for i, k in enumerate(names)}
        rows, cnt = np.unique(n if perm else A, axis=0, return_counts=True)
        obs = np.zeros(len(names) + 1)
        for row, c in zip(rows, cnt):
            obs[ix.get(tuple(row), len(names))] += c
        # an outcome outside the support is impossible up to rounding at the edges of the strata
        if obs[-1] <= 20 + 1e-4 * L:
            obs, extra = obs[:-1], []
        else:
            extra = [0.]
        b.counts('offspring law', obs, np.array([law_[k] for k in names] + extra))
    two_stage(rec, one, scn['seed'], kind='offspring-law')


def extreme(scn, rec):
    N, L, res = scn['N'], scn['L'], scn['res']
    r = np.random.default_rng(subseed(scn['seed'], 'w'))
    w64 = np.stack([weights(scn['w'], N, r) for _ in range(L)])
    dt = np.float64 if scn['x64'] else np.float32
    w = (w64.astype(dt) * np.asarray(scn['sum'], dt)).astype(dt)
    key = prng.keys(subseed(scn['seed'], 'key'), L, scn['mode'], scn['rate'])
    A = np.asarray(sim(res, scn['x64'])(jnp.asarray(w), key))
    rec.evals += L
    rec.simtime += L
    rec.log(A)
    rec.fault('generator_' + scn['mode'], L)
    rec.event(res, 'N', N, scn['w'], 'generator', scn['mode'], 'rate', scn['rate'])
    basic(A, w, N, L, res)
    n = counts(A, N)
    for q in range(min(L, 50)):
        rec.state(res, n[q].tolist() if N < 50 else q)
    tol = 1e-5 * N + 1e-4
    if res.endswith('systematic'):
        d = np.abs(n - N * w64).max()
        if d > 1 + tol:
            raise Violation('offspring-bound', f'systematic offspring differs from N w by {d}')
    if res == 'stratified':
        d = np.abs(n - N * w64).max()
        if d > 2 + tol:
            raise Violation('offspring-bound', f'stratified offspring differs from N w by {d}')
    if res.endswith('killing') and scn['w'] == 'uniform' and (A != np.arange(N)).any():
        raise Violation('killing-moved', 'killing moved particles of uniform weight')


def run(scn, rec):
    with W.x64(scn['x64']):
        (law if scn['kind'] == 'law' else extreme)(scn, rec)


KINDS = ['generic', 'zeros', 'lead', 'peaked', 'onehot', 'uniform', 'grid']


def plan(tier, rng):
    m = 1 if tier == 'quick' else 12
    out = []
    for res in RES:
        for i in range(5 * m):
            N = [1, 3, 4, 7, 64][i % 5] if m == 1 else rng.choice([1, 2, 3, 4, 7, 20, 64, 300])
            kind = KINDS[(i + len(out)) % len(KINDS)] if N != 4 else 'generic'
            if ('killing' in res or res == 'csmc-multinomial') and kind in ('zeros', 'lead', 'peaked', 'grid'):
                kind = 'dyadic'  # jax.random.choice is trusted only up to the rounding of its cumulative sum
            out.append(dict(kind='law', res=res, N=N, w=kind,
                            L=200000 if N < 10 else 20000,
                            sum=rng.choice([1., 1., 1 - 1e-5, 1 + 1e-5]) if kind != 'dyadic' else 1.,
                            x64=int(rng.random() < .3), cost=1.5))
        for i in range(12 * m):
            mode = ['zero', 'one', 'mix', 'first-zero', 'first-one', 'near-zero', 'none'][i % 7]
            N = rng.choice([1, 2, 5, 10, 33, 100, 333, 1000])
            choice = 'killing' in res or res == 'csmc-multinomial'
            w = rng.choice(['dyadic', 'dyadic', 'uniform', 'onehot'] if choice else KINDS)
            if choice and w == 'uniform' and res.endswith('multinomial'):
                w = 'dyadic'
            # a generator that emits nothing but zeros gives sorted uniforms 0/0: outside any real generator's support
            rate = 1 if res != 'multinomial' and rng.random() < .5 else rng.choice([4, 50])
            if res == 'multinomial' and mode in ('zero', 'mix'):
                N = max(N, 100)
            out.append(dict(kind='fault', res=res, N=N, w=w, mode=mode, rate=rate, L=2000 if N < 200 else 500,
                            sum=1. if choice else rng.choice([1., 1., 1 - 1e-5, 1 + 1e-5]), x64=int(rng.random() < .3),
                            cost=.5))
    for i, s in enumerate(out):
        s['group'] = s['res'] + str(i % 3)
    return out


def shrink(scn):
    return W.shrink_by(scn, [('x64', 0), ('L', 20), ('L', 200), ('N', 1), ('N', 2), ('N', 3), ('N', 5), ('N', 33),
                             ('rate', 1), ('w', 'onehot'), ('sum', 1.)],
                       lambda s: s['kind'] == 'fault' or s['L'] >= 20000)
