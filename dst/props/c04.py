"""C04  The particle filters estimate likelihoods and filtering laws without bias."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W
from dst.core import Violation, subseed
from dst.props.c03 import resampler
from dst.stats import two_stage

PROP = 'C04'
RULE = ('a scenario is one random finite-state world, one filter, one resampling scheme and one number of particles '
        '(from 1), simulated on many seeded lanes; non-trivial: the likelihood estimates of the lanes are not all equal')
REAL = ['fbs.samplers.smc.{bootstrap_filter,pmcmc_filter_step}', 'fbs.samplers.resampling.*',
        'fbs.samplers.csmc.resamplings.* (unconditional)']
STUB = ['model callbacks: finite-state worlds']
STATE = 'distinct final particle clouds'
ASSUMPTIONS = ['jax.random and XLA CPU are trusted']
RES = ['multinomial', 'killing', 'stratified', 'systematic', 'csmc-multinomial', 'csmc-killing', 'csmc-systematic']


@functools.lru_cache(maxsize=None)
def sim(flt, S, V, K, N, us, vs_, kw, res, log, L, x64):
    from fbs.samplers.smc import bootstrap_filter, pmcmc_filter_step
    rs = resampler(res)

    def lane(key, tab, vs, variant):
        m = W.Model(tab, S, V, K, us, vs_, kw)
        extra = dict(variant=variant) if kw else {}
        vv = W.enc(vs, vs_)
        lik = m.loglik if log else (lambda *a, **k: jnp.exp(m.loglik(*a, **k)))
        if flt == 'bootstrap':
            def init(key_, v0, n):
                return m.init_sampler_v(key_, v0, n)
            u, nell = bootstrap_filter(m.transition_sampler, lik, vv, tab['ts'], init, key, N, rs, log=log, **extra)
            h, nell2 = bootstrap_filter(m.transition_sampler, lik, vv, tab['ts'], init, key, N, rs, log=log,
                                        return_last=False, **extra)
            same = jnp.all(h[-1] == u) & ((nell == nell2) | jnp.isnan(nell))
            h = W.dec(h, us)
            ell = -nell
        else:
            k1, k2 = jax.random.split(key)
            u0 = m.init_sampler_v(k1, vv[0], N)
            u, ell = pmcmc_filter_step(k2, vv, u0, tab['ts'], m.transition_sampler, m.loglik, rs, N, **extra)
            same = jnp.ones((), bool)
            h = jnp.stack([W.dec(u0, us), W.dec(u, us)])
        return W.dec(u, us), ell, h, same
    return jax.jit(jax.vmap(lane, in_axes=[0, None, None, None]))


def run(scn, rec):
    S, V, K, N = scn['S'], scn['V'], scn['K'], scn['N']
    with W.x64(scn['x64']):
        w = W.World(subseed(scn['seed'], 'world'), S, V, K, scn['conc'], scn['tz'], scn['gz'], scn['off'])
        r = np.random.default_rng(subseed(scn['seed'], 'obs'))
        e = 1 if scn['kw'] else 0
        for _ in range(100):
            vs = r.integers(0, V, K + 1)
            P, pw = w.path_weights(vs, e, use_g0=False)
            if (pw.sum() > 0) != bool(scn.get('dead')):
                break
        Z = pw.sum()
        gam = np.array([pw[P[:, -1] == s].sum() for s in range(S)])
        scale = Z if Z > 0 else 1.
        f = sim(scn['flt'], S, V, K, N, tuple(scn['us']), tuple(scn['vs']), scn['kw'], scn['res'], scn['log'],
                scn['L'], scn['x64'])
        tab = w.tables()
        L = scn['L']
        off = w.off[1:].sum()
        rec.fault('likelihood_hard_zero', int((w.G == 0).sum()))
        rec.fault('transition_hard_zero', int((w.T == 0).sum()))
        rec.fault('likelihood_offset', int((w.off != 0).sum()))
        rec.event('world', scn['seed'], 'vs', vs.tolist(), 'filter', scn['flt'], scn['res'], 'N', N)
        p0 = w.p0[vs[0]]
        varied = [0]

        def one(b, seed):
            u, ell, h, same = f(jax.random.split((jax.random.key if scn['typed'] else jax.random.PRNGKey)(seed), L), tab,
                               jnp.asarray(vs), e)
            u, ell, h, same = map(np.asarray, (u, ell, h, same))
            rec.evals += L
            rec.simtime += L * float(w.ts[-1] - w.ts[0])
            rec.log(u, ell)
            if u.shape != (L, N) or (scn['flt'] == 'bootstrap' and h.shape != (L, K + 1, N)):
                raise Violation('shape', f'particles {u.shape}, history {h.shape}')
            if not same.all():
                raise Violation('history', 'the last step of the history is not the result with return_last=True')
            if np.isnan(ell).any() or np.isposinf(ell).any():
                raise Violation('nan-likelihood', f'{np.isnan(ell).sum()} log-likelihood estimates are NaN, '
                                                  f'{np.isposinf(ell).sum()} infinite')
            alive = ~np.isneginf(ell)
            rec.probe('extinct_clouds', int((~alive).sum()))
            if (h[:, 0] < 0).any() or (u[alive] < 0).any() or (u[alive] >= S).any():
                raise Violation('invalid-particle', 'a particle is not a value that any callback produced')
            for q in range(min(L, 300)):
                rec.state(u[q].tolist())
            lik = np.exp(ell.astype(np.float64) - off) / scale
            varied[0] += int(len(np.unique(lik)) > 1)
            b.mean('likelihood', lik[:, None], Z / scale)
            fr = np.stack([(u == s).mean(1) for s in range(S)], 1)
            b.mean('filtering', lik[:, None] * fr, gam / scale)
            if scn['flt'] == 'bootstrap':
                b.mean('initial', np.stack([(h[:, 0] == s).mean(1) for s in range(S)], 1), p0)
                ok = (h[alive] >= 0).all() and (h[alive] < S).all()
                if not ok:
                    raise Violation('invalid-particle', 'the filter history contains an invalid particle')
            if Z == 0 and alive.any():
                raise Violation('impossible-observation', 'a positive likelihood for an observation path of '
                                                          'probability zero')

        two_stage(rec, one, scn['seed'], kind='bias')
        if not varied[0]:
            rec.probe('degenerate_scenarios')


def plan(tier, rng):
    n = 36 if tier == 'quick' else 400
    out = []
    for i in range(n):
        N = [1, 2, 3, 5, 8][i % 5] if i % 9 else rng.choice([16, 33])
        off = rng.choice([0, 40]) if i % 3 else 0
        scn = dict(flt=['bootstrap', 'pmcmc'][i % 2], res=RES[i % 7], S=rng.choice([2, 3]), V=2,
                   K=rng.choice([1, 2, 3, 4]), N=N, us=rng.choice(W.SHAPES), vs=rng.choice(W.SHAPES),
                   kw=rng.random() < 0.4, log=not (i % 4 == 0 and i % 2 == 0) or off > 0, off=off,
                   conc=rng.choice([0.7, 1.5]), tz=rng.choice([0., 0.25]), gz=rng.choice([0., 0.3]),
                   x64=int(rng.random() < 0.3), L=100000 if N < 10 else 20000)
        scn['typed'] = int(rng.random() < 0.3)
        if i % 9 == 4:  # longer chains
            scn.update(S=2, K=rng.choice([8, 11]), N=rng.choice([9, 20, 40]), conc=4., L=20000, gz=0.)
        if i % 12 == 11:
            scn.update(dead=1, gz=.6, V=3, K=3, L=20000)
        scn['group'], scn['cost'] = str(i), 1. + scn['K'] * N / 20
        out.append(scn)
    return out


def shrink(scn):
    return W.shrink_by(scn, [('us', [1]), ('vs', [1]), ('kw', False), ('off', 0), ('tz', 0.), ('gz', 0.), ('x64', 0), ('typed', 0),
                             ('K', 1), ('K', 2), ('K', 4), ('S', 2), ('N', 2), ('N', 1), ('res', 'multinomial'), ('log', True)])
