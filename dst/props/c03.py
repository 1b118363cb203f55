"""C03  The particle MCMC kernel is an exact pseudo-marginal Metropolis-Hastings move."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W
from dst.bridge import Bridge
from dst.core import Violation, subseed
from dst.stats import two_stage

PROP = 'C03'
RULE = ('a scenario is one world (finite-state, or Gaussian for the preconditioned Crank-Nicolson proposals), one '
        'resampling scheme and one proposal kind, simulated on many seeded lanes; non-trivial: both accepted and '
        'rejected proposals occurred')
REAL = ['fbs.samplers.smc.{pmcmc_kernel,pmcmc_filter_step,pcn_proposal}', 'fbs.samplers.resampling.*',
        'fbs.sdes.linear.make_linear_sde (Gaussian worlds)']
STUB = ['model callbacks: finite-state or linear-Gaussian worlds']
STATE = 'distinct (observation path, particle) chain states'
ASSUMPTIONS = ['jax.random and XLA CPU are trusted', 'convergence is judged after a fixed number of iterations on '
                                                     'worlds whose acceptance probability is bounded away from zero']


def resampler(name):
    from fbs.samplers import resampling
    from fbs.samplers.csmc import resamplings
    if name.startswith('csmc-'):
        f = getattr(resamplings, name[5:])
        return lambda w, key: f(key, w, conditional=False)
    return getattr(resampling, name)


def prngkey(scn, seed):
    return (jax.random.key if scn['typed'] else jax.random.PRNGKey)(seed)


def finite_callbacks(tab, S, V, K, us, vs_, kw):
    m = W.Model(tab, S, V, K, us, vs_, kw)

    def fwd_ys(key, y0):
        """the forward law of the observation path: an arbitrary path table given y0 = the fixed end"""
        c = m.cat(key, tab['Q'])
        digits = [(c // V ** (K - 1 - i)) % V for i in range(K)]
        return jnp.concatenate([y0[None], W.enc(jnp.stack(digits), vs_)], 0)
    return m, fwd_ys


@functools.lru_cache(maxsize=None)
def sim_chain(S, V, K, N, us, vs_, kw, res, L, iters, which, x64):
    from fbs.samplers.smc import pmcmc_kernel, pmcmc_filter_step

    def lane(key, tab, y0, variant):
        m, fwd_ys = finite_callbacks(tab, S, V, K, us, vs_, kw)
        extra = dict(variant=variant) if kw else {}
        y = W.enc(y0, vs_)
        k1, k2, k3, k4 = jax.random.split(key, 4)
        ys = fwd_ys(k1, y)
        u0s = m.init_sampler_v(k2, ys[-1], N)
        uT, ell = pmcmc_filter_step(k3, ys[::-1], u0s, tab['ts'], m.transition_sampler, m.loglik, resampler(res), N,
                                    **extra)

        def body(c, key_):
            u, ell, ys = c
            u, ell, ys, st = pmcmc_kernel(key_, u, ell, ys, y, tab['ts'], fwd_ys, None, m.init_sampler_v,
                                          m.transition_sampler, m.loglik, resampler(res), N, None, which, **extra)
            return (u, ell, ys), st.is_accepted
        (u, ell, ys), acc = jax.lax.scan(body, (uT[which or 0], ell, ys), jax.random.split(k4, iters))
        return W.dec(u, us), W.dec(ys, vs_), ell, jnp.mean(acc.astype(float))
    return jax.jit(jax.vmap(lane, in_axes=[0, None, None, None]))


@functools.lru_cache(maxsize=None)
def sim_step(S, V, K, N, us, vs_, kw, res, L, which, x64):
    """One kernel step from an arbitrary state."""
    from fbs.samplers.smc import pmcmc_kernel

    def lane(key, tab, y0, variant, u, ell, ys):
        m, fwd_ys = finite_callbacks(tab, S, V, K, us, vs_, kw)
        extra = dict(variant=variant) if kw else {}
        u2, ell2, ys2, st = pmcmc_kernel(key, W.enc(u, us), ell, W.enc(ys, vs_), W.enc(y0, vs_), tab['ts'], fwd_ys,
                                         None, m.init_sampler_v, m.transition_sampler, m.loglik, resampler(res), N,
                                         None, which, **extra)
        return W.dec(u2, us), ell2, W.dec(ys2, vs_), st
    return jax.jit(jax.vmap(lane, in_axes=[0, None, None, None, 0, 0, 0]))


def finite(scn, rec):
    S, V, K, N = scn['S'], scn['V'], scn['K'], scn['N']
    us, vs_ = tuple(scn['us']), tuple(scn['vs'])
    e = 1 if scn['kw'] else 0
    r = np.random.default_rng(subseed(scn['seed'], 'obs'))
    bridge = scn['kind'] == 'bridge'
    if bridge:
        bw = Bridge(subseed(scn['seed'], 'world'), S, V, K, False, scn['conc'])
        w = W.World(1, S, V, K)
        w.ts, w.T, w.G = bw.ts, bw.T, bw.G
        w.p0 = (bw.m0 / bw.m0.sum(0)).T
    else:
        w = W.World(subseed(scn['seed'], 'world'), S, V, K, scn['conc'], 0., scn['gz'], scn['off'])
    y0 = int(r.integers(V))
    Y = np.array(list(itertools.product(range(V), repeat=K)))  # y_1..y_K, coded with y_1 most significant
    gam = np.zeros((len(Y), S))
    for i, yy in enumerate(Y):
        P, pw = w.path_weights(np.concatenate([yy[::-1], [y0]]), e, use_g0=False)
        for s in range(S):
            gam[i, s] = pw[P[:, -1] == s].sum()
    if bridge:  # the exact law of the observation path given y0
        q = np.array([bw.m0[:, yy[-1]].sum() for yy in Y]) * gam.sum(1)
        q = q / q.sum()
        post = (q[:, None] * gam / gam.sum(1, keepdims=True)).sum(0)
    else:
        q = W.rand_probs(r, (len(Y),), 2.)
    pi = q[:, None] * gam
    pi = pi / pi.sum()
    tab = dict(w.tables(), Q=jnp.asarray(q))
    L = scn['L']
    rec.fault('likelihood_hard_zero', int((w.G == 0).sum()))
    rec.fault('likelihood_offset', int((w.off != 0).sum()))
    rec.event('world', scn['seed'], 'y0', y0, 'resampling', scn['res'])
    accs = []
    if scn['kind'] in ('chain', 'bridge'):
        f = sim_chain(S, V, K, N, us, vs_, scn['kw'], scn['res'], L, scn['iters'], scn['which'], scn['x64'])
        obs = np.zeros(S)

        def one(b, seed):
            u, ys, ell, acc = map(np.asarray, f(jax.random.split(prngkey(scn, seed), L), tab, y0, e))
            rec.evals += L
            rec.simtime += L * scn['iters'] * float(w.ts[-1] - w.ts[0])
            rec.log(u, ys)
            accs.append(acc.mean())
            if (ys[:, 0] != y0).any():
                raise Violation('observation-changed', 'the observation path no longer starts at y0')
            c = W.code_paths(ys[:, 1:], V)
            for q_ in range(min(L, 300)):
                rec.state(int(c[q_]), int(u[q_]))
            b.counts('ys', W.bincount(c, len(Y)), W.with_invalid(pi.sum(1)))
            if scn['which'] is None or 'ystem' not in scn['res'] and scn['res'] != 'stratified':
                b.counts('ys,u', W.bincount(np.where(c < 0, -1, c * S + u), len(Y) * S), W.with_invalid(pi.ravel()))
            obs[:] += np.bincount(np.clip(u, 0, S - 1), minlength=S)

        two_stage(rec, one, scn['seed'], kind='stationary-law')
        if not 0.02 < np.mean(accs) < 1.:
            raise Violation('stuck', f'acceptance rate {np.mean(accs)}')
        if bridge:
            n = obs.sum()
            z = np.abs(obs - n * post) / np.sqrt(n * post * (1 - post))
            if z.max() > 8:
                rec.known.append('pmcmc-target')
        return

    # one step from adversarial states
    f = sim_step(S, V, K, N, us, vs_, scn['kw'], scn['res'], L, scn['which'], scn['x64'])
    ref = np.log(max(pi.max() * 0 + gam.sum(1).mean(), 1e-300)) + w.off[1:].sum()

    def one(b, seed):
        rr = np.random.default_rng(seed)
        u, ys = rr.integers(S, size=L), np.concatenate([np.full((L, 1), y0), rr.integers(V, size=(L, K))], 1)
        ell = ref + rr.normal(size=L) * 0.7
        special = rr.random(L)
        ell = np.where(special < .03, -np.inf, np.where(special < .06, ref + 60., np.where(special < .09, ref - 60., ell)))
        ell = ell.astype(np.float64 if scn['x64'] else np.float32)
        u2, ell2, ys2, st = f(jax.random.split(prngkey(scn, seed), L), tab, y0, e, jnp.asarray(u),
                              jnp.asarray(ell), jnp.asarray(ys))
        u2, ell2, ys2 = map(np.asarray, (u2, ell2, ys2))
        acc, p, prop, old = (np.asarray(x) for x in (st.is_accepted, st.acceptance_prob, st.prop_log_ell, st.log_ell))
        rec.evals += L
        rec.simtime += L * float(w.ts[-1] - w.ts[0])
        rec.log(u2, ell2, ys2)
        rec.fault('state_with_minus_inf_likelihood', int(np.isneginf(ell).sum()))
        rec.fault('state_with_extreme_likelihood', int((np.abs(ell - ref) > 50).sum()))
        rec.probe('extinct_proposal', int(np.isneginf(prop).sum()))
        rec.probe('accepted', int(acc.sum()))
        rec.probe('rejected', int((~acc).sum()))
        if np.isnan(prop).any():
            raise Violation('nan-likelihood', 'a proposed log-likelihood is NaN')
        if not np.array_equal(old, ell):
            raise Violation('state', 'the reported previous log-likelihood is not the input')
        rej = ~acc
        if not (np.array_equal(u2[rej], u[rej]) and np.array_equal(ell2[rej], ell[rej])
                and np.array_equal(ys2[rej], ys[rej])):
            raise Violation('rejected-changed', 'a rejected proposal changed the chain state')
        if not np.array_equal(ell2[acc], prop[acc]):
            raise Violation('accepted-state', 'an accepted step does not carry the proposed log-likelihood')
        if (ys2[:, 0] != y0).any() or (ys2 < 0).any() or (u2 < 0).any():
            raise Violation('accepted-state', 'an invalid chain state was returned')
        with np.errstate(all='ignore'):
            pe = np.exp(np.minimum(0., prop.astype(np.float64) - ell.astype(np.float64)))
        both = np.isneginf(prop) & np.isneginf(ell)
        pe = np.where(both, 0., pe)
        ok = np.abs(np.where(both, 0., p) - pe) < 2e-3
        if not ok.all():
            j = int(np.argmin(ok))
            raise Violation('acceptance-probability', f'reported {p[j]}, expected {pe[j]} from {prop[j]} vs {ell[j]}')
        if (acc & (pe == 0)).any():
            raise Violation('accepted-impossible', 'a proposal of likelihood zero was accepted')
        if (~acc & (pe == 1)).any():
            raise Violation('rejected-certain', 'a proposal of larger likelihood was rejected')
        b.mean('accepted - probability', (acc - pe)[:, None], 0., (pe * (1 - pe)).mean())
        hot = pe < 0.3
        b.mean('accepted - probability (low)', ((acc - pe) * hot)[:, None], 0., (pe * (1 - pe) * hot).mean())
        # accepted proposals at -inf states reveal the proposal law of (ys, u) size-biased by nothing
        free = np.isneginf(ell) & ~np.isneginf(prop)
        if free.sum() > 0 and scn['gz'] == 0:
            b.counts('proposal ys', W.bincount(W.code_paths(ys2[free][:, 1:], V), len(Y)), W.with_invalid(q))
        lik = np.exp(prop - w.off[1:].sum())
        b.mean('E proposal likelihood', lik[:, None], (q * gam.sum(1)).sum())
    two_stage(rec, one, scn['seed'], kind='acceptance')


# --- Gaussian worlds ------------------------------------------------------------------------------------------------
def sde_of(kind):
    from fbs.sdes import StationaryConstLinearSDE, StationaryLinLinearSDE, StationaryExpLinearSDE
    return {'const': lambda: StationaryConstLinearSDE(a=-0.7, b=1.1),
            'lin': lambda: StationaryLinLinearSDE(beta_min=0.1, beta_max=3., t0=0., T=2.)}[kind]()


def path_moments(kind, ts, y0):
    """Closed-form mean factor and covariance of the (scalar) forward path, in float64."""
    if kind == 'const':
        a, b = -0.7, 1.1

        def disc(t, s): return np.exp(a * (t - s)), b ** 2 / (2 * a) * (np.exp(2 * a * (t - s)) - 1)
    else:
        bm, bM, T = 0.1, 3., 2.

        def disc(t, s):
            I = bm * (t - s) + (bM - bm) / T * (t ** 2 - s ** 2) / 2
            return np.exp(-I / 2), 1 - np.exp(-I)
    n = len(ts)
    m, C = np.zeros(n), np.zeros((n, n))
    m[0] = y0
    for k in range(1, n):
        F, Q = disc(ts[k], ts[k - 1])
        m[k] = F * m[k - 1]
        C[k, :k] = F * C[k - 1, :k]
        C[:k, k] = C[k, :k]
        C[k, k] = F ** 2 * C[k - 1, k - 1] + Q
    return m, C


@functools.lru_cache(maxsize=None)
def sim_pcn(sde, K, delta, dim, x64, kernel, res):
    from fbs.sdes import make_linear_sde
    from fbs.samplers.smc import pcn_proposal, pmcmc_kernel
    s = sde_of(sde)
    _, _, fwd = make_linear_sde(s)

    def lane(key, ts, y0, ys, lin, quad, ell):
        fwd_ys = lambda key_, y: fwd(key_, y, ts)
        if not kernel:
            mean = jax.vmap(s.mean, in_axes=[0, None, None])(ts, ts[0], y0)
            return pcn_proposal(key, delta, ys, mean, lambda k_: fwd_ys(k_, y0)), ell, True

        def lik(v, us, v_prev, t):
            k = jnp.argmin(jnp.abs(ts - t))
            return jnp.ones(us.shape[0]) * jnp.sum(lin[k] * v - 0.5 * quad[k] * v ** 2)
        _, ell2, ys2, st = pmcmc_kernel(key, jnp.zeros(1), ell, ys, y0, ts, fwd_ys, s,
                                        lambda k_, v, n: jax.random.normal(k_, (n, 1)),
                                        lambda us, v, t, k_: us, lik, resampler(res), 3, delta)
        return ys2, ell2, st.is_accepted
    return jax.jit(jax.vmap(lane, in_axes=[0, None, None, 0, None, None, 0]))


def gauss(scn, rec):
    K, dim, delta, kernel = scn['K'], scn['dim'], scn['delta'], scn['kind'] == 'pcn-kernel'
    r = np.random.default_rng(subseed(scn['seed'], 'world'))
    ts = W.rand_times(r, K)
    ts = ts - ts[0] + (0.2 if scn['sde'] == 'lin' else 0.)
    ts = ts / max(1., ts[-1] / 1.9)
    y0 = r.normal(size=dim)
    m, C = path_moments(scn['sde'], ts, 1.)
    lin = r.normal(size=K) * 0.8 * (1 if kernel else 0)
    quad = r.uniform(0, 1.5, size=K) * (1 if kernel else 0)
    # v_k = y_{K-k}; the likelihood of step k -> k+1 reads v_{k+1} = y_{K-k-1}, looked up by the time ts[k]
    H, h = np.zeros((K + 1, K + 1)), np.zeros(K + 1)
    for k in range(K):
        H[K - k - 1, K - k - 1] = quad[k]
        h[K - k - 1] = lin[k]
    free = slice(1, K + 1)
    Ci = np.linalg.inv(C[free, free])
    Cp = np.linalg.inv(Ci + H[free, free])
    means = [Cp @ (Ci @ (m[free] * y) + h[free]) for y in y0]  # per coordinate
    chol = np.linalg.cholesky(Cp)
    f = sim_pcn(scn['sde'], K, delta, dim, scn['x64'], kernel, scn['res'])
    L = scn['L']
    accs = []

    def loglik(ys):
        return (h[None, :, None] * ys - 0.5 * np.diag(H)[None, :, None] * ys ** 2).sum((1, 2))

    def one(b, seed):
        rr = np.random.default_rng(seed)
        x = np.stack([means[j][None] + rr.normal(size=(L, K)) @ chol.T for j in range(dim)], -1)
        ys = np.concatenate([np.broadcast_to(y0, (L, 1, dim)), x], 1)
        dt = np.float64 if scn['x64'] else np.float32
        out, ell, acc = f(jax.random.split(prngkey(scn, seed), L), jnp.asarray(ts), jnp.asarray(y0),
                          jnp.asarray(ys, dt), jnp.asarray(lin), jnp.asarray(quad), jnp.asarray(loglik(ys), dt))
        out, ell, acc = map(np.asarray, (out, ell, acc))
        rec.evals += L
        rec.simtime += L * float(ts[-1] - ts[0])
        rec.log(out)
        accs.append(float(np.mean(acc)))
        if np.abs(out[:, 0] - y0).max() > 1e-4:
            raise Violation('observation-changed', 'the proposed path does not start at y0')
        if kernel and np.abs(ell - loglik(out.astype(float))).max() > 1e-2:
            raise Violation('accepted-state', 'log-likelihood and observation path of the chain do not belong together')
        z = (out[:, 1:] - np.stack(means, -1)[None])
        zin = (ys[:, 1:] - np.stack(means, -1)[None])
        b.mean('mean', z.reshape(L, -1), 0.)
        for j in range(dim):
            b.mean(f'cov{j}', (z[:, :, None, j] * z[:, None, :, j]).reshape(L, -1), Cp.ravel())
        if dim == 2:
            b.mean('cross', (z[:, :, None, 0] * z[:, None, :, 1]).reshape(L, -1), 0.)
        if not kernel:  # reversible with respect to the Gaussian law, with correlation 2 / (2 + delta)
            beta = 2 / (2 + delta)
            b.mean('lag', (z[:, :, None, 0] * zin[:, None, :, 0]).reshape(L, -1), (beta * Cp).ravel())
        else:       # detailed balance: antisymmetric functions have mean zero
            b.mean('balance', (z[:, :, 0] ** 3 * zin[:, :, 0] - zin[:, :, 0] ** 3 * z[:, :, 0]), 0.)

    rec.event('gauss', scn['sde'], 'delta', delta, 'K', K)
    two_stage(rec, one, scn['seed'], kind='stationary-law')
    if kernel and not 0.02 < np.mean(accs):
        raise Violation('stuck', f'acceptance rate {np.mean(accs)}')
    rec.state(scn['sde'], delta, K)


def run(scn, rec):
    with W.x64(scn['x64']):
        (gauss if scn['kind'].startswith('pcn') else finite)(scn, rec)


RES = ['multinomial', 'killing', 'stratified', 'systematic', 'csmc-multinomial', 'csmc-killing', 'csmc-systematic']


def plan(tier, rng):
    n = 1 if tier == 'quick' else 10
    out = []
    for i in range(8 * n):
        out.append(dict(kind='chain', S=rng.choice([2, 3]), V=2, K=rng.choice([2, 3]), N=rng.choice([2, 3]),
                        res=RES[i % len(RES)], iters=60, L=30000, cost=12.))
    for i in range(4 * n):  # slowly mixing particles: the chosen particle remembers the order of the offspring
        out.append(dict(kind='chain', S=2, V=2, K=2, N=[3, 5][i // 2 % 2], res=['stratified', 'systematic'][i % 2],
                        conc=0.8, iters=120, L=50000, cost=24.))
    for i in range(2 * n):  # a longer observation path and a larger cloud
        out.append(dict(kind='chain', S=2, V=2, K=5, N=[8, 20][i % 2], res=rng.choice(RES), iters=40, L=30000, cost=25.))
    for i in range(2 * n):
        out.append(dict(kind='bridge', S=2, V=2, K=2, N=3, res='multinomial', iters=60, L=30000, cost=8.))
    for i in range(8 * n):
        out.append(dict(kind='step', S=rng.choice([2, 3]), V=2, K=rng.choice([1, 2, 3]), N=rng.choice([1, 2, 4]),
                        res=RES[(i + 3) % len(RES)], L=100000, cost=3., gz=rng.choice([0., 0.6])))
    for s in out:
        s.setdefault('gz', 0.)
        s.setdefault('conc', 4. if s['kind'] != 'bridge' else 1.5)
        s.update(us=rng.choice(W.SHAPES), vs=rng.choice(W.SHAPES), kw=rng.random() < 0.4 and s['kind'] != 'bridge',
                 off=rng.choice([0, 40]) if s['kind'] != 'bridge' else 0,
                 which=rng.choice([None, None, 0, s['N'] - 1]) if s['conc'] != 0.8 else None, x64=int(rng.random() < 0.3))
    for i in range(12 * n):
        out.append(dict(kind='pcn' if i % 3 == 0 else 'pcn-kernel', sde=['const', 'lin'][i % 2], K=rng.choice([2, 3]),
                        dim=rng.choice([1, 2]), delta=rng.choice([0.05, 0.5, 2., 8.]) if i % 3 != 1 else
                        rng.choice([None, 0.2]), L=200000,
                        res=RES[i % 4], x64=int(rng.random() < 0.3), cost=2.))
    for i, s in enumerate(out):
        s['group'] = str(i)
        s['typed'] = int(rng.random() < 0.3)
    return out


def shrink(scn):
    for k, v in [('us', [1]), ('vs', [1]), ('kw', False), ('off', 0), ('gz', 0.), ('x64', 0), ('typed', 0), ('which', 0), ('dim', 1),
                 ('K', 1), ('K', 2), ('V', 2), ('S', 2), ('N', 2), ('sde', 'const')]:
        if k not in scn or (k == 'K' and scn['K'] < v) or (k == 'K' and v == 1 and scn['kind'].startswith('pcn')):
            continue
        cur = list(scn[k]) if isinstance(scn[k], (list, tuple)) else scn[k]
        if cur != v:
            yield {**scn, k: v}
