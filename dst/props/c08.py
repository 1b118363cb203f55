"""C08  The backward smoother and the Gibbs initialisation draw from the laws they approximate."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W
from dst.bridge import Bridge, BridgeModel, bridges
from dst.core import Violation, subseed
from dst.stats import two_stage

PROP = 'C08'
RULE = ('a scenario is one world with either fixed particle clouds (the law of the smoothed path is enumerated exactly), a '
        'real filter run with many particles, or the Gibbs initialisation; non-trivial: more than one path occurs')
REAL = ['fbs.samplers.smc.{bootstrap_backward_smoother,bootstrap_filter}', 'fbs.samplers.gibbs.gibbs_init',
        'fbs.samplers.resampling.stratified']
STUB = ['model callbacks: finite-state worlds']
STATE = 'distinct smoothed paths'
ASSUMPTIONS = ['jax.random and XLA CPU are trusted', 'in the many-particle scenarios deviations below 0.03 in '
                                                     'probability are not decided']


@functools.lru_cache(maxsize=None)
def sim_fixed(S, V, K, N, us, vs_, kw, args, lik, x64):
    from fbs.samplers.smc import bootstrap_backward_smoother

    def lane(key, tab, cloud, vs, variant):
        m = W.Model(tab, S, V, K, us, vs_, kw)
        extra = dict(variant=variant) if kw else {}
        lp, ll = m.transition_logpdf, m.loglik
        if args:  # positional extra arguments are forwarded as well
            lp = lambda u, up, v, t, a, **k: m.transition_logpdf(u, up, v, t, **k) * a
            ll = lambda v, up, vp, t, a, **k: m.loglik(v, up, vp, t, **k) * a
            pos = (1.,)
        else:
            pos = ()
        if lik:
            extra['likelihood_logpdf'] = ll
        u = bootstrap_backward_smoother(key, W.enc(cloud, us), W.enc(vs, vs_), tab['ts'], lp, *pos, **extra)
        return W.dec(u, us)
    return jax.jit(jax.vmap(lane, in_axes=[0, None, None, None, None]))


@functools.lru_cache(maxsize=None)
def sim_e2e(S, V, K, N, us, vs_, kw, x64):
    from fbs.samplers.smc import bootstrap_backward_smoother, bootstrap_filter
    from fbs.samplers.resampling import stratified

    def lane(key, tab, vs, variant):
        m = W.Model(tab, S, V, K, us, vs_, kw)
        extra = dict(variant=variant) if kw else {}
        vv = W.enc(vs, vs_)
        k1, k2 = jax.random.split(key)
        h, _ = bootstrap_filter(m.transition_sampler, m.loglik, vv, tab['ts'], m.init_sampler_v, k1, N, stratified,
                                return_last=False, **extra)
        u = bootstrap_backward_smoother(k2, h, vv, tab['ts'], m.transition_logpdf, likelihood_logpdf=m.loglik, **extra)
        return W.dec(u, us)
    return jax.jit(jax.vmap(lane, in_axes=[0, None, None, None]))


@functools.lru_cache(maxsize=None)
def sim_init(S, V, K, N, us, vs_, kw, method, givex, marg, x64):
    from fbs.samplers.gibbs import gibbs_init

    def lane(key, tab, y0, variant):
        m = BridgeModel(tab, S, V, K, us, vs_, kw, True)
        extra = dict(variant=variant) if kw else {}
        if givex is not None:
            extra['x0'] = m.encu(jnp.asarray(givex))
        x, u = gibbs_init(key, W.enc(y0, vs_), us, tab['ts'], m.fwd_sampler, m, m.unpack, m.transition_sampler,
                          m.transition_logpdf, m.loglik, N, method=method, marg_y=marg, **extra)
        if method == 'debug':
            return m.decu(x), x[0], u
        return m.decu(x), m.decu(u), jnp.all(u[-1] == x)
    return jax.jit(jax.vmap(lane, in_axes=[0, None, None, None]))


def fixed(scn, rec):
    S, V, K, N, lik = scn['S'], scn['V'], scn['K'], scn['N'], scn['lik']
    w = W.World(subseed(scn['seed'], 'world'), S, V, K, scn['conc'], scn['tz'], scn['gz'], scn['off'])
    r = np.random.default_rng(subseed(scn['seed'], 'obs'))
    e = 1 if scn['kw'] else 0
    for _ in range(500):
        vs = r.integers(0, V, K + 1)
        cloud = r.integers(0, S, (K + 1, N))
        ok = True
        for k in range(K):
            A = w.T[e, k, vs[k]][cloud[k]] * (w.G[e, k, vs[k]][cloud[k]][:, vs[k + 1]][:, None] if lik else 1.)
            ok &= bool((A[:, cloud[k + 1]].sum(0) > 0).all())
        if ok:
            break
    else:  # no feasible cloud: every state is present
        cloud = np.stack([r.permutation(np.arange(max(N, S)) % S)[:N] for _ in range(K + 1)])
        if N < S:
            return
    P = np.array(list(itertools.product(range(S), repeat=K + 1)))
    cnt = np.stack([np.bincount(c, minlength=S) for c in cloud])
    p = cnt[K, P[:, K]] / N
    for k in reversed(range(K)):
        a = cnt[k][:, None] * w.T[e, k, vs[k]] * (w.G[e, k, vs[k]][:, vs[k + 1]][:, None] if lik else 1.)
        s = a.sum(0)
        a = a / np.where(s > 0, s, 1)
        p = p * a[P[:, k], P[:, k + 1]]
    f = sim_fixed(S, V, K, N, tuple(scn['us']), tuple(scn['vs']), scn['kw'], scn['args'], lik, scn['x64'])
    tab = w.tables()
    rec.fault('transition_hard_zero', int((w.T == 0).sum()))
    rec.fault('likelihood_offset', int((w.off != 0).sum()))
    rec.event('clouds', cloud.tolist(), 'vs', vs.tolist(), 'likelihood', lik)
    L = scn['L']

    def one(b, seed):
        u = np.asarray(f(jax.random.split(jax.random.PRNGKey(seed), L), tab, jnp.asarray(cloud), jnp.asarray(vs), e))
        rec.evals += L
        rec.simtime += L * float(w.ts[-1] - w.ts[0])
        rec.log(u)
        if u.shape != (L, K + 1):
            raise Violation('shape', f'smoothed path {u.shape}')
        for q in range(min(L, 300)):
            rec.state(u[q].tolist())
        b.counts('path', W.bincount(W.code_paths(u, S), len(p)), W.with_invalid(p))
    two_stage(rec, one, scn['seed'], kind='smoothing-law')


def e2e(scn, rec):
    S, V, K, N = scn['S'], scn['V'], scn['K'], scn['N']
    w = W.World(subseed(scn['seed'], 'world'), S, V, K, 2., 0., 0., scn['off'])
    r = np.random.default_rng(subseed(scn['seed'], 'obs'))
    e = 1 if scn['kw'] else 0
    vs = r.integers(0, V, K + 1)
    P, pw = w.path_weights(vs, e, use_g0=False)
    p = pw / pw.sum()
    f = sim_e2e(S, V, K, N, tuple(scn['us']), tuple(scn['vs']), scn['kw'], scn['x64'])
    tab = w.tables()
    L = scn['L']
    rec.event('vs', vs.tolist(), 'N', N)

    def one(b, seed):
        u = np.asarray(f(jax.random.split(jax.random.PRNGKey(seed), L), tab, jnp.asarray(vs), e))
        rec.evals += L
        rec.simtime += L * float(w.ts[-1] - w.ts[0])
        rec.log(u)
        c = W.code_paths(u, S)
        if (c < 0).any():
            raise Violation('invalid-particle', 'a smoothed path holds a value no callback produced')
        for q in range(min(L, 300)):
            rec.state(u[q].tolist())
        b.mean('path', (c[:, None] == np.arange(len(p))[None]).astype(float), p, tol=0.02)
    two_stage(rec, one, scn['seed'], kind='smoothing-law')


def init(scn, rec):
    S, V, K, N, method = 2, scn['V'], scn['K'], scn['N'], scn['method']
    w = Bridge(subseed(scn['seed'], 'world'), S, V, K, True, 2., marg=scn['marg'])
    r = np.random.default_rng(subseed(scn['seed'], 'obs'))
    e = 1 if scn['kw'] else 0
    y0 = int(r.integers(V))
    x0 = scn['givex'] or 0
    P = np.array(list(itertools.product(range(S), repeat=K + 1)))
    law = np.zeros(len(P))
    for yy in itertools.product(range(V), repeat=K):
        q = np.zeros(S)
        q[x0] = 1.
        ys = (y0, *yy)
        for k in range(K):
            q = np.einsum('x,xz->z', q, w.R[e][k][:, ys[k], :].reshape(S, S, V)[:, :, ys[k + 1]])
        if q.sum() == 0:
            continue
        vs = ys[::-1]
        p = np.full(len(P), .5)
        for k in range(K):
            p = p * w.T[e, k, vs[k], P[:, k], P[:, k + 1]] * w.G[e, k, vs[k], P[:, k], vs[k + 1]]
        law += q.sum() * p / p.sum()
    end = np.array([law[P[:, K] == s].sum() for s in range(S)])
    f = sim_init(S, V, K, N, tuple(scn['us']), tuple(scn['vs']), scn['kw'], method, scn['givex'], scn['marg'], scn['x64'])
    tab = w.tables()
    L = scn['L']
    rec.event('y0', y0, 'method', method, 'x0', scn['givex'])

    def one(b, seed):
        x, u, same = f(jax.random.split(jax.random.PRNGKey(seed), L), tab, y0, e)
        x, u = np.asarray(x), np.asarray(u)
        rec.evals += L
        rec.simtime += L * float(w.ts[-1] - w.ts[0])
        rec.log(x)
        if method == 'debug':
            if same is not None or x.shape != (L, K + 1, N):
                raise Violation('shape', f'debug initialisation returned {x.shape}')
            b.mean('filter mean', np.stack([(x[:, -1] == s).mean(1) for s in range(S)], 1), end, tol=0.02)
            return
        if not np.asarray(same).all():
            raise Violation('bookkeeping', 'x0 is not the end of the returned trajectory')
        for q in range(min(L, 300)):
            rec.state(u[q].tolist())
        b.mean('x0', np.stack([x == s for s in range(S)], 1).astype(float), end, tol=0.02)
        if method == 'smoother':
            c = W.code_paths(u, S)
            b.mean('path', (c[:, None] == np.arange(len(P))[None]).astype(float), law, tol=0.02)
    two_stage(rec, one, scn['seed'], kind='initial-law')


def run(scn, rec):
    with W.x64(scn['x64']), bridges():
        dict(fixed=fixed, e2e=e2e, init=init)[scn['kind']](scn, rec)


def plan(tier, rng):
    m = 1 if tier == 'quick' else 12
    out = []
    for i in range(16 * m):
        out.append(dict(kind='fixed', S=rng.choice([2, 3]), V=2, K=rng.choice([1, 2, 3]), N=rng.choice([1, 2, 4, 7]),
                        lik=bool(i % 2), args=int(rng.random() < .3), conc=rng.choice([0.7, 1.5]),
                        tz=rng.choice([0., .25]), gz=rng.choice([0., 0.2]), off=rng.choice([0, 40]), L=200000, cost=1.))
    for i in range(6 * m):
        out.append(dict(kind='e2e', S=rng.choice([2, 3]), V=2, K=rng.choice([2, 3]), N=200, off=rng.choice([0, 40]),
                        L=8000, cost=3.))
    for i in range(12 * m):
        out.append(dict(kind='init', S=2, V=2, K=rng.choice([2, 3]), N=200, method=['smoother', 'filter', 'debug'][i % 3],
                        givex=[None, 1, 0][i // 3 % 3], marg=i % 4 in (1, 2), L=8000 if i % 3 < 2 else 1000, cost=3.))
    for i, s in enumerate(out):
        s.update(us=rng.choice(W.SHAPES), vs=rng.choice(W.SHAPES), kw=rng.random() < .4, x64=int(rng.random() < .3),
                 group=str(i))
    return out


def shrink(scn):
    return W.shrink_by(scn, [('us', [1]), ('vs', [1]), ('kw', False), ('off', 0), ('tz', 0.), ('gz', 0.), ('x64', 0),
                             ('args', 0), ('marg', False), ('K', 1), ('K', 2), ('S', 2), ('N', 2), ('N', 50)],
                       lambda s: s['kind'] == 'fixed' or s['N'] >= 200)
