"""C07  The forced move is a valid selection of the final particle and reports its probability of moving."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W, prng
from dst.core import Violation, subseed
from dst.props.c05 import weights
from dst.stats import two_stage

PROP = 'C07'
RULE = ('a scenario is one weight vector; the full transition matrix of the move is estimated from many lanes started at '
        'every index, or extreme weights and random words are injected; non-trivial: the weights are not one-hot')
REAL = ['fbs.samplers.gibbs.force_move']
STUB = ['the random words (simulated generator) in the fault scenarios']
STATE = 'distinct (number of particles, from, to) moves'
ASSUMPTIONS = ['jax.random.choice is trusted up to rounding of its cumulative sum']


@functools.lru_cache(maxsize=None)
def sim(x64):
    from fbs.samplers.gibbs import force_move
    return jax.jit(jax.vmap(force_move))


def matrix(w):
    """P(i | k) = w_i / (1 - w_k) min(1, (1 - w_k) / (1 - w_i)) for i != k."""
    N = len(w)
    P = np.zeros((N, N))
    for k in range(N):
        if w[k] >= 1:
            P[k, k] = 1.
            continue
        for i in range(N):
            if i != k and w[i] > 0:
                P[k, i] = w[i] / (1 - w[k]) * min(1., (1 - w[k]) / (1 - w[i])) if w[i] < 1 else 1.
        P[k, k] = 1 - P[k].sum()
    return P


def basic(i, al, w, k, N, L):
    if i.shape != (L,) or al.shape != (L,) or not np.issubdtype(i.dtype, np.integer):
        raise Violation('shape', f'index {i.dtype}{i.shape}, probability {al.shape}')
    if i.min() < 0 or i.max() >= N:
        raise Violation('range', f'index outside [0, {N})')
    if np.isnan(al).any() or al.min() < 0 or al.max() > 1:
        raise Violation('probability', f'reported moving probability {al.min()}..{al.max()}')


def law(scn, rec):
    N, L = scn['N'], scn['L']
    r = np.random.default_rng(subseed(scn['seed'], 'w'))
    w64 = weights(scn['w'], N, r)
    w = w64.astype(np.float64 if scn['x64'] else np.float32)
    P = matrix(w64)
    # every start of positive weight, and the degenerate start (weight 0) as well
    pi = w64
    if np.abs(pi @ P - pi).max() > 1e-9:
        raise AssertionError('the reference matrix is not invariant')
    f = sim(scn['x64'])
    rec.event('N', N, scn['w'], np.round(w64, 4).tolist() if N < 9 else '')

    def one(b, seed):
        rr = np.random.default_rng(seed)
        k = rr.choice(N, size=L, p=pi) if scn['start'] == 'stationary' else rr.integers(N, size=L)
        i, al = map(np.asarray, f(jax.random.split(jax.random.PRNGKey(seed), L),
                                  jnp.broadcast_to(jnp.asarray(w), (L, N)), jnp.asarray(k)))
        rec.evals += L
        rec.simtime += L
        rec.log(i, al)
        basic(i, al, w, k, N, L)
        for q in range(min(L, 300)):
            rec.state(N, int(k[q]), int(i[q]))
        mv = 1 - np.diag(P)[k]
        if np.abs(al - mv).max() > 2e-3:
            q = int(np.argmax(np.abs(al - mv)))
            raise Violation('probability', f'reported probability of moving {al[q]}, true {mv[q]}')
        if scn['start'] == 'stationary':
            b.counts('invariant', W.bincount(i, N), W.with_invalid(pi))
            b.counts('pair', W.bincount(k * N + i, N * N), W.with_invalid((pi[:, None] * P).ravel()))
        else:
            b.counts('transition', W.bincount(k * N + i, N * N), W.with_invalid(P.ravel() / N))
        b.mean('moved - reported', ((i != k) - al)[:, None], 0., tol=2e-4)
    two_stage(rec, one, scn['seed'], kind='move-law')


def extreme(scn, rec):
    N, L = scn['N'], scn['L']
    r = np.random.default_rng(subseed(scn['seed'], 'w'))
    dt = np.float64 if scn['x64'] else np.float32
    k = r.integers(N, size=L)
    w = np.stack([weights(scn['w'] if scn['w'] != 'onehot-ref' else 'onehot', N, r) for _ in range(L)])
    if scn['w'] == 'onehot-ref':
        k = w.argmax(1)
    if scn['eps']:  # nearly degenerate: everything but a few ulp on one particle
        j = np.where(r.random(L) < .5, k, r.integers(N, size=L))
        w = w * scn['eps']
        w[np.arange(L), j] += 1 - w.sum(1)
    w = w.astype(dt)
    key = prng.keys(subseed(scn['seed'], 'key'), L, scn['mode'], scn['rate'])
    i, al = map(np.asarray, sim(scn['x64'])(key, jnp.asarray(w), jnp.asarray(k)))
    rec.evals += L
    rec.simtime += L
    rec.log(i, al)
    rec.fault('generator_' + scn['mode'], L)
    rec.fault('degenerate_weights', L)
    rec.event('N', N, scn['w'], 'eps', scn['eps'], 'generator', scn['mode'], scn['rate'])
    for q in range(min(L, 50)):
        rec.state(N, int(k[q]), int(i[q]))
    basic(i, al, w, k, N, L)
    z = (w[np.arange(L), i] <= 0) & (i != k)
    # beyond three particles the renormalised weights are exact only when they are trivial: there jax.random.choice can
    # select a zero weight by the rounding of its own cumulative sum
    if z.any() and (N <= 3 or scn['w'] in ('onehot', 'onehot-ref', 'uniform')) and not scn['eps']:
        q = int(np.argmax(z))
        raise Violation('zero-weight', f'moved from {k[q]} (weight {w[q, k[q]]}) to {i[q]} of weight zero')
    if scn['eps']:
        return
    full = w[np.arange(L), k] >= 1
    if (i[full] != k[full]).any() or (al[full] > 1e-6).any():
        raise Violation('left-certain', 'left a particle that carries all the weight')
    other = (w.max(1) >= 1) & ~full
    if (i[other] != w[other].argmax(1)).any():
        raise Violation('missed-certain', 'did not move to the particle that carries all the weight')


def run(scn, rec):
    with W.x64(scn['x64']):
        (law if scn['kind'] == 'law' else extreme)(scn, rec)


def plan(tier, rng):
    m = 1 if tier == 'quick' else 15
    out = []
    for i in range(16 * m):
        N = [2, 3, 5, 12, 2, 3, 5, 40][i % 8]
        out.append(dict(kind='law', N=N, start=['stationary', 'uniform'][(i // 4) % 2],
                        w=rng.choice(['generic', 'generic', 'zeros', 'peaked', 'uniform', 'dyadic']) if N < 12 else
                        rng.choice(['generic', 'uniform', 'dyadic']), L=600000 if N < 12 else 200000,
                        x64=int(rng.random() < .3), cost=3.))
    for i in range(24 * m):
        mode = ['zero', 'one', 'mix', 'first-zero', 'first-one', 'near-zero', 'none'][i % 7]
        eps = rng.choice([0, 0, 1e-3, 1e-6, 1e-7])
        out.append(dict(kind='fault', N=rng.choice([1, 2, 3, 10, 40, 100]), eps=eps,
                        w='dyadic' if eps else rng.choice(['onehot', 'onehot-ref', 'dyadic', 'uniform']), mode=mode,
                        rate=rng.choice([1, 1, 4]), L=2000, x64=int(rng.random() < .3), cost=.5))
    for i, s in enumerate(out):
        s['group'] = str(i % 8)
    return out


def shrink(scn):
    return W.shrink_by(scn, [('x64', 0), ('L', 20), ('L', 200), ('N', 2), ('N', 3), ('N', 5), ('rate', 1)],
                       lambda s: s['kind'] == 'fault' or s['L'] >= 20000)
