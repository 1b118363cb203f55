"""C02  The forward-backward Gibbs kernel leaves the conditional law p(x0 | y0) invariant, and converges to it."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W
from dst.bridge import Bridge, BridgeModel, bridges
from dst.core import Violation, subseed
from dst.stats import two_stage

PROP = 'C02'
RULE = ('a scenario is one random consistent forward/backward finite world with one option combination of the Gibbs '
        'kernel (explicit_backward x explicit_final x marg_y), simulated on many independent seeded lanes of the real kernel; '
        'non-trivial: at least one lane changed its state')
REAL = ['fbs.samplers.gibbs.{gibbs_kernel,force_move}', 'fbs.samplers.csmc.csmc', 'fbs.samplers.csmc.resamplings.killing']
STUB = ['forward noising, unpack, transition and likelihood callbacks, Doob bridge: consistent finite-state bridge worlds']
STATE = 'distinct (x0, trajectory, indices) outcomes'
ASSUMPTIONS = ['jax.random and XLA CPU are trusted', 'laws are decided up to a sampling resolution of about 1/500']


@functools.lru_cache(maxsize=None)
def sim(S, V, K, N, us, vs_, kw, eb, ef, marg, L, iters, fixb, x64):
    from fbs.samplers.gibbs import gibbs_kernel

    def lane(key, tab, x0, y0, variant):
        m = BridgeModel(tab, S, V, K, us, vs_, kw, ef)
        extra = dict(variant=variant) if kw else {}
        kb, kk = jax.random.split(key)
        n = N + 1 if ef else N
        b = jnp.zeros(K + 1, int) + fixb if fixb >= 0 else jax.random.randint(kb, (K + 1,), 0, n)
        y = W.enc(y0, vs_)

        def body(c, key_):
            x, u, b = c
            x2, u2, b2, acc = gibbs_kernel(key_, x, y, u, b, tab['ts'], m.fwd_sampler, m, m.unpack, N,
                                           m.transition_sampler, m.transition_logpdf, m.loglik,
                                           marg_y=marg, explicit_backward=eb, explicit_final=ef, **extra)
            ok = jnp.all(acc == (b2 != b)) & jnp.all(x2 == u2[-1])
            return (x2, u2, b2), ok
        x = m.encu(x0)
        u = jnp.zeros((K + 1, *us))
        if iters == 1:
            (x, u, b2), ok = body((x, u, b), kk)
        else:
            (x, u, b2), ok = jax.lax.scan(body, (x, u, b), jax.random.split(kk, iters))
        valid = jnp.ones((), bool)
        if not ef:
            valid = jnp.all(W.dec(u, us) >= 0)
        return m.decu(x), m.decu(u), b2, jnp.all(ok), valid, u[0]

    return jax.jit(jax.vmap(lane, in_axes=[0, None, 0, None, None]))


def run(scn, rec):
    S, V, K, N, ef = scn['S'], scn['V'], scn['K'], scn['N'], scn['ef']
    n = N + 1 if ef else N
    with W.x64(scn['x64']), bridges():
        w = Bridge(subseed(scn['seed'], 'world'), S, V, K, ef, scn['conc'], scn['tz'], scn['gz'], scn['marg'])
        r = np.random.default_rng(subseed(scn['seed'], 'obs'))
        e = scn['e'] if scn['kw'] else 0
        pv = w.M[e][-1].sum(0)
        y0 = int(r.choice(V, p=pv))
        post = w.posterior(y0, e)
        P, pp = w.path_law(y0, e)
        f = sim(S, V, K, N, tuple(scn['us']), tuple(scn['vs']), scn['kw'], scn['eb'], ef, scn['marg'], scn['L'], scn['iters'],
                scn['fixb'], scn['x64'])
        tab = w.tables()
        L = scn['L']
        rec.fault('likelihood_hard_zero', int((w.G == 0).sum()))
        rec.fault('transition_hard_zero', int((w.T == 0).sum()))
        moved = [0]

        def one(b, seed):
            rr = np.random.default_rng(seed)
            if scn['iters'] == 1:
                start = rr.choice(S, size=L, p=post)
            else:
                start = np.full(L, int(np.argmin(np.where(post > 0, post, np.inf))))
            x, u, bs, ok, valid, u0 = map(np.asarray, f(jax.random.split(
                (jax.random.key if scn['typed'] else jax.random.PRNGKey)(seed), L), tab, jnp.asarray(start), y0, e))
            rec.evals += L
            rec.simtime += L * scn['iters'] * float(w.ts[-1] - w.ts[0])
            rec.log(x, u, bs)
            if bs.shape != (L, K + 1) or u.shape != (L, K + 1):
                raise Violation('shape', f'trajectory {u.shape}, indices {bs.shape}')
            if bs.min() < 0 or bs.max() >= n:
                raise Violation('index-range', f'index outside [0, {n})')
            if not ok.all():
                raise Violation('bookkeeping', 'x0 is not the end of the trajectory, or the move flags are not '
                                               'where the indices changed')
            if not valid.all():
                raise Violation('invalid-state', 'a trajectory contains a value no callback produced')
            moved[0] += int((x != start).sum())
            for q in range(min(L, 300)):
                rec.state(u[q].tolist(), bs[q].tolist())
            b.counts('x0', W.bincount(x, S), W.with_invalid(post))
            b.counts('path', W.bincount(W.code_paths(u, S), len(pp)), W.with_invalid(pp))
            if scn['kind'] == 'large':
                for k, l in [(k, k + 1) for k in range(K)] + [(0, K)]:
                    pk = np.bincount(P[:, k] * S + P[:, l], pp, minlength=S * S)
                    good = (u[:, k] >= 0) & (u[:, l] >= 0)
                    b.counts(f'u{k},u{l}', W.bincount(np.where(good, u[:, k] * S + u[:, l], -1), S * S), W.with_invalid(pk))
            if ef:
                z = u0.reshape(L, -1)
                pos = pp[P[:, 0] == 1].sum()
                mu = np.zeros(z.shape[1])
                mu[0] = (2 * pos - 1) * np.sqrt(2 / np.pi)
                b.mean('u0 mean', z, mu, None)
                b.mean('u0 square', z ** 2, 1., None)
            if scn['fixb'] < 0 and scn['iters'] == 1 and not ef:
                for k in range(K + 1):
                    b.counts(f'b{k}', W.bincount(bs[:, k], N), W.with_invalid(np.full(N, 1. / N)))

        rec.event('world', scn['seed'], 'y0', y0, 'variant', e)
        two_stage(rec, one, scn['seed'], kind='stationary-law' if scn['iters'] == 1 else 'convergence')
        if moved[0] == 0 and (post > 0).sum() > 1:
            raise Violation('stuck', 'no lane ever changed its state')
        rec.probe('lanes_moved', moved[0])


def plan(tier, rng):
    n = 28 if tier == 'quick' else 280
    out = []
    for i in range(n):
        eb, ef = bool(i % 2), bool((i // 2) % 2)
        conv = i % 7 >= 5
        K = [2, 1, 3, 2][(i // 4) % 4]
        S = 2 if ef or K == 3 else rng.choice([2, 3])
        scn = dict(kind='conv' if conv else 'inv', S=S, V=rng.choice([2, 3]), K=K,
                   N=rng.choice([2, 3, 4]) if not conv else 4,
                   us=rng.choice(W.SHAPES), vs=rng.choice(W.SHAPES), kw=rng.random() < 0.4, e=1, eb=eb, ef=ef,
                   L=120000 if not conv else 30000, iters=1 if not conv else 30,
                   fixb=-1 if rng.random() < 0.6 else rng.choice([0, 1]), x64=int(rng.random() < 0.3),
                   conc=rng.choice([0.7, 1.5]) if not conv else 3.,
                   tz=0. if conv else rng.choice([0., 0.2]), gz=0. if conv else rng.choice([0., 0.2]))
        scn['marg'] = i % 7 in (1, 3, 4, 6) and K > 1
        scn['typed'] = int(rng.random() < 0.3)
        if i % 9 in (2, 7):  # longer chains and larger clouds
            scn.update(kind='large', S=2, V=2, K=rng.choice([6, 7]), N=rng.choice([9, 16, 25]), L=40000, iters=1, conc=2.,
                       fixb=-1, tz=0.)
        scn['group'], scn['cost'] = str(i), scn['K'] * scn['N'] * (4. if conv else 1.) * scn['L'] / 120000
        out.append(scn)
    return out


def shrink(scn):
    for k, v in [('us', [1]), ('vs', [1]), ('kw', False), ('tz', 0.), ('gz', 0.), ('x64', 0), ('fixb', 0), ('typed', 0), ('marg', False),
                 ('K', 1), ('K', 2), ('V', 2), ('S', 2), ('N', 2), ('N', 4)]:
        cur = list(scn[k]) if isinstance(scn[k], (list, tuple)) else scn[k]
        if cur != v and not (k == 'K' and scn['K'] < v):
            yield {**scn, k: v}
