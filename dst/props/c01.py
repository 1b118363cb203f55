"""C01  Every conditional SMC move leaves the conditional path law invariant, and converges to it."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W
from dst.core import Violation, subseed
from dst.stats import two_stage

PROP = 'C01'
RULE = ('a scenario is one random finite-state world (tables, irregular times, observation path, hard zeros, likelihood '
        'offsets, keyword variant, array shapes, precision) with one kernel configuration; it is simulated on many '
        'independent lanes, each one seeded execution of the real kernel; non-trivial: at least one lane moved off its '
        'reference path')
REAL = ['fbs.samplers.csmc.csmc.csmc_kernel', 'fbs.samplers.csmc.resamplings.{killing,multinomial}']
STUB = ['model callbacks (initial law, transition, likelihoods): finite-state worlds']
STATE = 'distinct (output path, output index) pairs'
ASSUMPTIONS = ['jax.random and XLA CPU are trusted', 'laws are decided up to a sampling resolution of about 1/500']


@functools.lru_cache(maxsize=None)
def sim(S, V, K, N, us, vs_, kw, backward, resample, L, iters, fixb, x64):
    from fbs.samplers.csmc.csmc import csmc_kernel
    from fbs.samplers.csmc import resamplings
    cond = getattr(resamplings, resample)

    def lane(key, tab, u_star, vs, variant):
        m = W.Model(tab, S, V, K, us, vs_, kw)
        vv = W.enc(vs, vs_)
        extra = dict(variant=variant) if kw else {}
        kb, kk = jax.random.split(key)
        b = jnp.zeros(K + 1, int) + fixb if fixb >= 0 else jax.random.randint(kb, (K + 1,), 0, N)
        nin = N - 1  # "N + 1 particles, if we include the reference trajectory"

        def body(c, key_):
            u, b = c
            u, b = csmc_kernel(key_, u, b, vv, tab['ts'], m.init_sampler(vv[0]), m.init_loglik,
                               m.transition_sampler, m.transition_logpdf, m.loglik, cond, nin, backward=backward,
                               **extra)
            return (u, b), None
        u = W.enc(u_star, us)
        if iters == 1:
            (u, b2), _ = body((u, b), kk)
        else:
            (u, b2), _ = jax.lax.scan(body, (u, b), jax.random.split(kk, iters))
        return W.dec(u, us), b2, u.shape == W.enc(u_star, us).shape

    return jax.jit(jax.vmap(lane, in_axes=[0, None, 0, None, None]))


def run(scn, rec):
    S, V, K, N = scn['S'], scn['V'], scn['K'], scn['N']
    with W.x64(scn['x64']):
        w = W.World(subseed(scn['seed'], 'world'), S, V, K, scn['conc'], scn['tz'], scn['gz'], scn['off'])
        r = np.random.default_rng(subseed(scn['seed'], 'obs'))
        e = scn['e'] if scn['kw'] else 0
        for _ in range(200):
            vs = r.integers(0, V, K + 1)
            P, pw = w.path_weights(vs, e)
            if pw.sum() > 0:
                break
        p = pw / pw.sum()
        f = sim(S, V, K, N, tuple(scn['us']), tuple(scn['vs']), scn['kw'], scn['backward'], scn['resample'],
                scn['L'], scn['iters'], scn['fixb'], scn['x64'])
        tab = w.tables()
        L = scn['L']
        rec.fault('likelihood_hard_zero', int((w.G == 0).sum()))
        rec.fault('transition_hard_zero', int((w.T == 0).sum()))
        rec.fault('likelihood_offset', int((w.off != 0).sum()))
        moved = [0]

        def one(b, seed):
            rr = np.random.default_rng(seed)
            key = (jax.random.key if scn['typed'] else jax.random.PRNGKey)(seed)
            if scn['iters'] == 1:
                start = rr.choice(len(p), size=L, p=p)
            else:  # a fixed far-away start: the least likely possible path
                start = np.full(L, int(np.argmin(np.where(p > 0, p, np.inf))))
            us, bs, _ = f(jax.random.split(key, L), tab, jnp.asarray(P[start]), jnp.asarray(vs), e)
            us, bs = np.asarray(us), np.asarray(bs)
            rec.evals += L
            rec.simtime += L * scn['iters'] * float(w.ts[-1] - w.ts[0])
            rec.log(us, bs)
            if us.shape != (L, K + 1) or bs.shape != (L, K + 1):
                raise Violation('shape', f'returned path {us.shape}, indices {bs.shape}')
            if bs.min() < 0 or bs.max() >= N:
                raise Violation('index-range', f'returned index outside [0, {N})')
            c = W.code_paths(us, S)
            moved[0] += int((c != W.code_paths(P[start], S)).sum())
            for q in range(min(L, 400)):
                rec.state(int(c[q]), bs[q].tolist())
            b.counts('path', W.bincount(c, len(p)), W.with_invalid(p))
            if scn['kind'] == 'large':
                for k, l in [(k, k + 1) for k in range(K)] + [(0, K)]:
                    pk = np.bincount(P[:, k] * S + P[:, l], p, minlength=S * S)
                    ok = (us[:, k] >= 0) & (us[:, l] >= 0)
                    b.counts(f'u{k},u{l}', W.bincount(np.where(ok, us[:, k] * S + us[:, l], -1), S * S), W.with_invalid(pk))
            if scn['fixb'] < 0 and scn['iters'] == 1:
                for k in range(K + 1):
                    pk = np.array([p[P[:, k] == s].sum() for s in range(S)])
                    b.counts(f'u{k},b{k}', W.bincount(us[:, k] * N + bs[:, k], S * N),
                             W.with_invalid(np.repeat(pk / N, N)))
                    if k < K:
                        b.counts(f'b{k},b{k + 1}', W.bincount(bs[:, k] * N + bs[:, k + 1], N * N),
                                 W.with_invalid(np.full(N * N, 1. / N ** 2)))

        rec.event('world', scn['seed'], 'vs', vs.tolist(), 'variant', e)
        two_stage(rec, one, scn['seed'], kind='stationary-law' if scn['iters'] == 1 else 'convergence')
        if moved[0] == 0 and (p > 0).sum() > 1:
            raise Violation('stuck', 'no lane ever left its reference path')
        rec.probe('lanes_moved', moved[0])


def plan(tier, rng):
    n = 26 if tier == 'quick' else 260
    out = []
    for i in range(n):
        backward = i % 2 == 1
        resample = ['killing', 'multinomial'][(i // 2) % 2]
        K = [2, 1, 3, 2][i % 4] if i % 8 else 2
        S = 2 if K == 3 else rng.choice([2, 3])
        conv = i % 5 == 4
        us, vs = rng.choice(W.SHAPES), rng.choice(W.SHAPES)
        scn = dict(kind='conv' if conv else 'inv', S=S, V=2, K=K, N=rng.choice([2, 3, 4]) if not conv else 4,
                   us=us, vs=vs, kw=rng.random() < 0.4, e=1, backward=backward, resample=resample,
                   L=120000 if not conv else 30000, iters=1 if not conv else 40,
                   fixb=-1 if rng.random() < 0.6 else rng.choice([0, 1]), x64=int(rng.random() < 0.3),
                   conc=rng.choice([0.7, 1.5]) if not conv else 3.,
                   tz=0. if conv else rng.choice([0., 0.25]), gz=0. if conv else rng.choice([0., 0.3]),
                   off=rng.choice([0, 0, 60, 250]))
        scn['typed'] = int(rng.random() < 0.3)
        if i % 13 == 12 or i % 13 == 7:  # longer chains and larger clouds than a unit test would pay for
            scn.update(kind='large', S=2, K=rng.choice([8, 11]), N=rng.choice([9, 16, 25]), L=40000, iters=1, conc=2.,
                       tz=0., gz=rng.choice([0., .2]), fixb=-1, backward=i % 2 == 0)
        scn['group'], scn['cost'] = str(i), scn['K'] * scn['N'] * (6. if conv else 1.) * scn['L'] / 120000
        out.append(scn)
    return out


def shrink(scn):
    for k, v in [('us', [1]), ('vs', [1]), ('kw', False), ('off', 0), ('tz', 0.), ('gz', 0.), ('x64', 0), ('fixb', 0), ('typed', 0),
                 ('K', 1), ('K', 2), ('S', 2), ('N', 2), ('N', 4), ('resample', 'multinomial')]:
        if scn[k] != v and list(scn[k] if isinstance(scn[k], (list, tuple)) else [scn[k]]) != (v if isinstance(v, list) else [v]):
            if k == 'K' and scn['K'] < v:
                continue
            yield {**scn, k: v}
