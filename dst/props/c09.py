"""C09  The twisted particle sampler weights its particles correctly."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W
from dst.core import Violation, subseed
from dst.props.c03 import resampler
from dst.props.c05 import count_law
from dst.stats import two_stage

PROP = 'C09'
RULE = ('a scenario is one finite twisted model (transition, twisting and proposal tables) with one resampling scheme: few '
        'particles, whose whole law is enumerated exactly; optimal twisting, under which all weights are equal; or many '
        'particles; non-trivial: the twisting is not constant')
REAL = ['fbs.samplers.smc.twisted_smc', 'fbs.samplers.resampling.*']
STUB = ['model and twisting callbacks: finite-state worlds']
STATE = 'distinct final particle clouds'
ASSUMPTIONS = ['the time handed to the callbacks at step k is t_k (so the code does)', 'jax.random and XLA CPU are trusted']
RES = ['multinomial', 'killing', 'stratified', 'systematic', 'csmc-multinomial']


class Twisted:
    def __init__(self, seed, S, K, optimal, tz, off):
        r = np.random.default_rng(seed)
        self.S, self.K = S, K
        self.ts = W.rand_times(r, K)
        self.p0 = W.rand_probs(r, (S,), 1.)
        self.T = W.rand_probs(r, (K, S, S), 1., tz)           # T[k] is the step into time k + 1
        self.psi = np.exp(r.normal(size=(2, K + 1, S)))        # variants through the keyword argument
        self.Q = W.rand_probs(r, (2, K, S, S), 1.)
        self.Q = np.where(self.T[None] > 0, self.Q, 0.)
        self.Q /= self.Q.sum(-1, keepdims=True)
        if optimal:
            self.p0 = np.eye(S)[r.integers(S)]
            for e in range(2):
                for k in reversed(range(K)):
                    self.psi[e, k] = self.T[k] @ self.psi[e, k + 1]
                    self.Q[e, k] = self.T[k] * self.psi[e, k + 1][None] / self.psi[e, k][:, None]
        self.off = r.uniform(-off, off, size=K + 1) if off else np.zeros(K + 1)

    def posterior(self, e):
        p = self.p0
        for k in range(self.K):
            p = p @ self.T[k]
        p = p * self.psi[e, -1]
        return p / p.sum()

    def tables(self):
        f = jnp.asarray
        with np.errstate(divide='ignore'):
            return dict(ts=f(self.ts), p0=f(self.p0), lT=f(np.log(self.T)), Q=f(self.Q), lQ=f(np.log(self.Q)),
                        lpsi=f(np.log(self.psi) + self.off[None, :, None]))


@functools.lru_cache(maxsize=None)
def sim(S, K, N, us, kw, res, x64):
    from fbs.samplers.smc import twisted_smc

    def lane(key, tab, y, variant):
        extra = dict(variant=variant) if kw else {}
        m = W.Model(tab, S, 1, K, us, (), kw)
        kof = m.k_of

        def chk(y_, x):  # the observation must arrive unchanged
            return jnp.where(jnp.all(y_ == y), x, jnp.nan)

        def init(key_, n):
            return W.enc(m.cat(key_, jnp.broadcast_to(tab['p0'], (n, S))), us)

        def tlog(u, up, t):
            return tab['lT'][kof(t) - 1, W.dec(up, us), W.dec(u, us)]

        def twist(y_, u, t, **k):
            return chk(y_, tab['lpsi'][m._e(k), kof(t), W.dec(u, us)])

        def prop(key_, u, t, y_, **k):
            return W.enc(m.cat(key_, chk(y_, tab['Q'][m._e(k), kof(t) - 1, W.dec(u, us)])), us)

        def plog(u, up, t, y_, **k):
            return chk(y_, tab['lQ'][m._e(k), kof(t) - 1, W.dec(up, us), W.dec(u, us)])
        x, lw = twisted_smc(key, y, tab['ts'], init, tlog, twist, prop, plog, resampler(res), N, **extra)
        return W.dec(x, us), lw
    return jax.jit(jax.vmap(lane, in_axes=[0, None, None, None]))


def exact_law(t, N, e, res):
    """E[sum_i w_i 1{x_i = s}] and E[(sum_i w_i 1{x_i = s})^2] by enumeration of everything."""
    S, K = t.S, t.K
    cur = {}
    for xs in itertools.product(range(S), repeat=N):
        w = t.psi[e, 0][list(xs)]
        w = w / w.sum()
        key = (xs, tuple(np.round(w, 12)))
        cur[key] = cur.get(key, 0.) + np.prod(t.p0[list(xs)])
    for k in range(K):
        nxt = {}
        for (xs, w), p in cur.items():
            if p <= 0:
                continue
            for A, pa in count_law(res, np.array(w)).items():
                xa = [xs[a] for a in A]
                for xn in itertools.product(range(S), repeat=N):
                    pq = np.prod([t.Q[e, k][a, b] for a, b in zip(xa, xn)])
                    if pq <= 0:
                        continue
                    ww = np.array([t.T[k][a, b] * t.psi[e, k + 1][b] / t.Q[e, k][a, b] / t.psi[e, k][a]
                                   for a, b in zip(xa, xn)])
                    key = (xn, tuple(np.round(ww / ww.sum(), 12)))
                    nxt[key] = nxt.get(key, 0.) + p * pa * pq
        cur = nxt
    m1, m2, cl = np.zeros(S), np.zeros(S), {}
    for (xs, w), p in cur.items():
        f = np.bincount(xs, weights=w, minlength=S)
        m1 += p * f
        m2 += p * f ** 2
        c = tuple(np.bincount(xs, minlength=S))
        cl[c] = cl.get(c, 0.) + p
    return m1, m2, cl


def run(scn, rec):
    S, K, N, kind, L = scn['S'], scn['K'], scn['N'], scn['kind'], scn['L']
    with W.x64(scn['x64']):
        t = Twisted(subseed(scn['seed'], 'world'), S, K, kind == 'optimal', scn['tz'], scn['off'])
        e = 1 if scn['kw'] else 0
        f = sim(S, K, N, tuple(scn['us']), scn['kw'], scn['res'], scn['x64'])
        tab = t.tables()
        y = jnp.asarray(np.random.default_rng(scn['seed']).normal(size=3))
        post = t.posterior(e)
        rec.fault('twisting_offset', int((t.off != 0).sum()))
        rec.fault('transition_hard_zero', int((t.T == 0).sum()))
        rec.event('twisted', kind, scn['res'], 'N', N)
        if kind == 'exact':
            m1, m2, cl = exact_law(t, N, e, scn['res'])
            names = sorted(cl)
            ix = {c: i for i, c in enumerate(names)}

        def one(b, seed):
            keys = jax.random.split(jax.random.PRNGKey(seed), L)
            B = 20 if kind == 'large' else L            # a resampling may need N^2 numbers
            x, lw = map(np.concatenate, zip(*[map(np.asarray, f(keys[q:q + B], tab, y, e)) for q in range(0, L, B)]))
            rec.evals += L
            rec.simtime += L * float(t.ts[-1] - t.ts[0])
            rec.log(x, lw)
            if x.shape != (L, N) or lw.shape != (L, N):
                raise Violation('shape', f'particles {x.shape}, weights {lw.shape}')
            if (x < 0).any() or (x >= S).any():
                raise Violation('invalid-particle', 'a particle is not a value that any callback produced')
            with np.errstate(invalid='ignore'):
                w = np.exp(lw.astype(np.float64))
            if np.isnan(w).any() or np.abs(w.sum(1) - 1).max() > 1e-3:
                raise Violation('weights', 'the returned weights are not normalised')
            for q in range(min(L, 300)):
                rec.state(sorted(x[q].tolist()))
            fr = np.stack([(w * (x == s)).sum(1) for s in range(S)], 1)
            if kind == 'exact':
                b.mean('weighted law', fr, m1, tol=2e-4)
                b.mean('weighted law squared', fr ** 2, m2, tol=2e-4)
                rows, cnt = np.unique(np.stack([(x == s).sum(1) for s in range(S)], 1), axis=0, return_counts=True)
                obs = np.zeros(len(names) + 1)
                for row, c in zip(rows, cnt):
                    obs[ix.get(tuple(row), len(names))] += c
                b.counts('cloud', obs, W.with_invalid([cl[c] for c in names]))
            elif kind == 'optimal':
                if np.abs(w - 1 / N).max() > 5e-4:
                    raise Violation('optimal-weights', f'under optimal twisting a weight is {N * w.max():.4f} / N')
                b.mean('optimal law', fr, post, tol=2e-4)
                if N > 1:
                    a = (x[:, 0] * S + x[:, 1])
                    b.counts('pair', W.bincount(a, S * S), W.with_invalid((post[:, None] * post).ravel()))
            else:
                b.mean('consistency', fr, post, tol=0.015)
        two_stage(rec, one, scn['seed'], kind='twisted-law')


def plan(tier, rng):
    m = 1 if tier == 'quick' else 12
    out = []
    for i in range(14 * m):
        N = [2, 1, 3, 2][i % 4]
        out.append(dict(kind='exact', S=2 if N == 3 else rng.choice([2, 3]), K=rng.choice([1, 2, 3]) if N < 3 else 2, N=N,
                        res=RES[i % 4], L=200000, cost=2.))
    for i in range(6 * m):
        out.append(dict(kind='optimal', S=rng.choice([2, 3]), K=rng.choice([1, 2, 4]), N=rng.choice([1, 2, 5]),
                        res='killing', L=100000, cost=1.))
    for i in range(8 * m):
        out.append(dict(kind='large', S=3, K=rng.choice([1, 2, 4]), N=1500, res=RES[i % 5], L=400, cost=3.))
    for i, s in enumerate(out):
        s.update(us=rng.choice(W.SHAPES), kw=rng.random() < .4, x64=int(rng.random() < .3), off=rng.choice([0, 40]),
                 tz=rng.choice([0., .25]), group=str(i))
    return out


def shrink(scn):
    return W.shrink_by(scn, [('us', [1]), ('kw', False), ('off', 0), ('tz', 0.), ('x64', 0), ('K', 1), ('K', 2), ('S', 2),
                             ('N', 1), ('N', 2)], lambda s: s['kind'] != 'large' or s['N'] >= 1000)
