"""C06  Conditional resampling keeps the reference particle and follows the conditional law of the scheme."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W, prng
from dst.core import Violation, subseed
from dst.props.c05 import weights
from dst.stats import two_stage

PROP = 'C06'
RULE = ('a scenario is one conditional resampling scheme with one weight vector, simulated on many lanes over all the '
        'pairs of reference index and position; non-trivial: the weights are not all equal')
REAL = ['fbs.samplers.csmc.resamplings.{killing,multinomial}']
STUB = ['the random words (simulated generator) in the fault scenarios']
STATE = 'distinct (ancestor vector, i, j)'
ASSUMPTIONS = ['jax.random.choice is trusted when weights are not exactly representable']


@functools.lru_cache(maxsize=None)
def sim(res, x64, static):
    from fbs.samplers.csmc import resamplings
    f = getattr(resamplings, res)
    if static is None:
        return jax.jit(jax.vmap(lambda k, w, i, j: f(k, w, i, j, True)))
    i, j = static
    return jax.jit(jax.vmap(lambda k, w: f(k, w, i, j)))  # conditional is the default


def joint(res, w):
    """Exact law of (A, j) | A_j = i is computed from the unconditional scheme (cyclically shifted by a uniform offset
    in the case of killing, so that its positions are exchangeable)."""
    N = len(w)
    if res == 'multinomial':
        M = np.tile(w, (N, 1))
        shifts = [0]
    else:
        k = w / w.max()
        M = np.diag(k) + (1 - k)[:, None] * w[None]
        shifts = range(N)
    law = {}
    for A in itertools.product(range(N), repeat=N):
        p = np.prod([M[n, A[n]] for n in range(N)])
        if p <= 0:
            continue
        for s in shifts:
            B = A[s:] + A[:s]
            law[B] = law.get(B, 0.) + p / len(shifts)
    return law


def marginal(res, w, i):
    """E[number of offspring of a | A_j = i] for any N."""
    N = len(w)
    if res == 'multinomial':
        e = (N - 1) * w
    else:
        k = w / w.max()
        M = np.diag(k) + (1 - k)[:, None] * w[None]
        J = M[:, i] / (N * w[i])
        e = M.sum(0) - J @ M
    e = e.copy()
    e[i] += 1.
    return e


def basic(A, w, i, j, N, L):
    if not np.issubdtype(A.dtype, np.integer) or A.shape != (L, N):
        raise Violation('shape', f'returned {A.dtype} {A.shape}')
    if A.min() < 0 or A.max() >= N:
        raise Violation('range', f'an index outside [0, {N}): {A.min()}, {A.max()}')
    bad = A[np.arange(L), j] != i
    if bad.any():
        q = int(np.argmax(bad))
        raise Violation('reference-lost', f'ancestor at position {np.broadcast_to(j, L)[q]} is {A[q][np.broadcast_to(j, L)[q]]}, '
                                          f'not the reference {np.broadcast_to(i, L)[q]}')
    own = A == np.broadcast_to(i, L)[:, None]
    z = (np.take_along_axis(w, A, 1) <= 0) & ~own
    if z.any():
        q, n = np.argwhere(z)[0]
        raise Violation('zero-weight', f'index {A[q, n]} of weight zero was selected at position {n}')


def law(scn, rec):
    N, L, res = scn['N'], scn['L'], scn['res']
    r = np.random.default_rng(subseed(scn['seed'], 'w'))
    w64 = weights(scn['w'], N, r)
    dt = np.float64 if scn['x64'] else np.float32
    w = w64.astype(dt)
    pos = np.flatnonzero(w64 > 0)
    exact = joint(res, w64) if N <= 4 else None
    static = None
    if scn['static']:
        static = (int(r.choice(pos)), int(r.integers(N)))
    f = sim(res, scn['x64'], static)
    rec.event(res, 'N', N, np.round(w64, 4).tolist() if N < 9 else scn['w'], 'static', static)

    def one(b, seed):
        rr = np.random.default_rng(seed)
        ks = jax.random.split(jax.random.PRNGKey(seed), L)
        wb = jnp.broadcast_to(jnp.asarray(w), (L, N))
        if static:
            i, j = np.full(L, static[0]), np.full(L, static[1])
            A = np.asarray(f(ks, wb))
        else:
            i, j = rr.choice(pos, size=L), rr.integers(N, size=L)
            if N > 4:  # fewer pairs, more lanes for each
                i = rr.choice(pos[[0, len(pos) // 2, -1]], size=L)
            A = np.asarray(f(ks, wb, jnp.asarray(i), jnp.asarray(j)))
        rec.evals += L
        rec.simtime += L
        rec.log(A)
        basic(A, np.broadcast_to(w, (L, N)), i, j, N, L)
        for q in range(min(L, 200)):
            rec.state(A[q].tolist(), int(i[q]), int(j[q]))
        for i_ in np.unique(i):
            if exact is not None:
                for j_ in np.unique(j):
                    sel = (i == i_) & (j == j_)
                    names = sorted(B for B in exact if B[j_] == i_)
                    p = np.array([exact[B] for B in names])
                    ix = {B: n for n, B in enumerate(names)}
                    obs = np.zeros(len(names) + 1)
                    rows, cnt = np.unique(A[sel], axis=0, return_counts=True)
                    for row, c in zip(rows, cnt):
                        obs[ix.get(tuple(row), len(names))] += c
                    b.counts(f'law i={i_} j={j_}', obs, W.with_invalid(p / p.sum()))
            else:
                n = np.stack([np.bincount(a, minlength=N) for a in A[i == i_]])
                b.mean(f'offspring i={i_}', n, marginal(res, w64, i_), tol=1e-4)
    two_stage(rec, one, scn['seed'], kind='conditional-law')


def extreme(scn, rec):
    N, L, res = scn['N'], scn['L'], scn['res']
    r = np.random.default_rng(subseed(scn['seed'], 'w'))
    w64 = np.stack([weights(scn['w'], N, r) for _ in range(L)])
    w = w64.astype(np.float64 if scn['x64'] else np.float32)
    i = np.array([r.choice(np.flatnonzero(q > 0)) if r.random() < 0.8 else r.integers(N) for q in w])
    j = r.integers(N, size=L)
    key = prng.keys(subseed(scn['seed'], 'key'), L, scn['mode'], scn['rate'])
    A = np.asarray(sim(res, scn['x64'], None)(key, jnp.asarray(w), jnp.asarray(i), jnp.asarray(j)))
    rec.evals += L
    rec.simtime += L
    rec.log(A)
    rec.fault('generator_' + scn['mode'], L)
    rec.fault('reference_of_weight_zero', int((w[np.arange(L), i] == 0).sum()))
    rec.event(res, 'N', N, scn['w'], 'generator', scn['mode'], 'rate', scn['rate'])
    basic(A, w, i, j, N, L)
    for q in range(min(L, 50)):
        rec.state(res, A[q].tolist() if N < 50 else q)
    if res == 'killing' and scn['w'] == 'uniform':
        # nobody is killed: the vector is a cyclic shift that takes the reference to its position
        exp = (np.arange(N)[None] - j[:, None] + i[:, None]) % N
        if (A != exp).any():
            raise Violation('killing-moved', 'killing changed the population of uniform weights')


def run(scn, rec):
    with W.x64(scn['x64']):
        (law if scn['kind'] == 'law' else extreme)(scn, rec)


def plan(tier, rng):
    m = 1 if tier == 'quick' else 12
    out = []
    for res in ('killing', 'multinomial'):
        for i in range(10 * m):
            N = [2, 3, 4, 3, 12, 2, 3, 4, 3, 60][i % 10]
            w = rng.choice(['generic', 'generic', 'zeros', 'peaked', 'uniform', 'dyadic']) if N < 5 else \
                rng.choice(['generic', 'uniform', 'dyadic'])
            out.append(dict(kind='law', res=res, N=N, w=w, static=int(rng.random() < .3), L=400000 if N < 5 else 100000,
                            x64=int(rng.random() < .3), cost=2.))
        for i in range(14 * m):
            mode = ['zero', 'one', 'mix', 'first-zero', 'first-one', 'near-zero', 'none'][i % 7]
            out.append(dict(kind='fault', res=res, N=rng.choice([1, 2, 5, 10, 33, 100, 300]),
                            w=rng.choice(['dyadic', 'dyadic', 'uniform', 'onehot']), mode=mode,
                            rate=rng.choice([1, 4, 50]), L=1000, x64=int(rng.random() < .3), cost=.5))
    for i, s in enumerate(out):
        s['group'] = s['res'] + str(i % 4)
    return out


def shrink(scn):
    return W.shrink_by(scn, [('x64', 0), ('L', 20), ('L', 200), ('N', 2), ('N', 3), ('N', 5), ('N', 33), ('static', 0),
                             ('rate', 1), ('w', 'onehot')], lambda s: s['kind'] == 'fault' or s['L'] >= 20000)
