"""C14  The training objectives are unbiased, in value and gradient, for the losses they stand for, and stay finite."""
import functools
import math
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W, prng, sdes
from dst.core import Violation, subseed
from dst.stats import two_stage

PROP = 'C14'
RULE = ('a scenario is one objective with random SDE, parameters, times, batch size and state shape, evaluated with its '
        'gradient on many lanes of random words against the closed form of its expectation; non-trivial: the lanes differ')
REAL = ['fbs.sdes.linear.{make_linear_sde_law_loss,make_ou_score_matching_loss}',
        'fbs.dsb.base.{ipf_loss_disc,ipf_loss_cont,ipf_loss_cont_v}']
STUB = ['the neural networks: affine functions of the state with time-dependent coefficients',
        'the random words (simulated generator) in the fault scenarios']
STATE = 'distinct (objective, SDE, options, shape) configurations'
ASSUMPTIONS = ['jax.random.normal and uniform are trusted',
               "loss_type 'ipf-score' has an infinite expectation at random times, so it is decided at fixed times only; "
               "save_mem supports loss_type 'score' only"]


def net(p, t, xp):
    """coefficients (A, B) of the affine network A x + B at time t, for a parameter vector of 4"""
    return p[0] + p[1] * xp.sin(3 * t), p[2] + p[3] * t


def nn_fn(x, t, p):
    A, B = net(p, t, jnp)
    if jnp.ndim(t):
        A, B = (jnp.reshape(v, (*t.shape, *[1] * (x.ndim - t.ndim))) for v in (A, B))
    return A * x + B


_gx, _gw = np.polynomial.legendre.leggauss(30)


def over(f, lo, hi):
    h = (hi - lo) / 2
    return sum(w * f(lo + h * (x + 1)) for x, w in zip(_gx, _gw)) * h


# -- closed forms.  M1, M2: mean of x0 and of x0^2 over the batch law --------------------------------------------------
def score_term(p, t, F, Q, M1, M2):
    """Q E|s(X_t, t) + (X_t - F x0) / Q|^2 with X_t = F x0 + sqrt(Q) z"""
    A, B = net(p, t, np)
    return Q * (A * A * F * F * M2 + 2 * A * B * F * M1 + B * B) + (A * Q + 1) ** 2


@functools.lru_cache(maxsize=20000)
def _trans(a, b2, s, t):
    return sdes.transition(a, b2, s, t)


def pair_moments(a, b2, t0, s, t, M1, M2):
    F0, Q0 = (1., 0.) if s == t0 else _trans(a, b2, t0, s)
    F, Q = _trans(a, b2, s, t)
    m, v2 = F0 * M1, F0 * F0 * M2 + Q0                        # E X_s, E X_s^2
    return F, Q, m, v2, F * m, F * F * v2 + Q, F * v2           # ..., E X_t, E X_t^2, E X_s X_t


def ipf_term(p, a, b2, t0, s, t, M1, M2):
    F, Q, ms, vs, mt, vt, c = pair_moments(a, b2, t0, s, t, M1, M2)
    A, B = net(p, t, np)
    al = A - 1 + F                                              # al X_t + B - F X_s
    return al * al * vt + B * B + F * F * vs + 2 * al * B * mt - 2 * al * F * c - 2 * B * F * ms


def ipf_score_term(p, a, b2, t0, s, t, M1, M2):
    F, Q, ms, vs, mt, vt, c = pair_moments(a, b2, t0, s, t, M1, M2)
    A, B = net(p, t, np)
    al = A + 1 / Q                                              # al X_t + B - F/Q X_s
    g = F / Q
    return al * al * vt + B * B + g * g * vs + 2 * al * B * mt - 2 * al * g * c - 2 * B * g * ms


def grad4(f, p):
    """exact gradient of a quadratic function of the parameters"""
    p = np.asarray(p, float)
    return np.array([(f(p + e) - f(p - e)) / 2. for e in np.eye(4)])


def law_loss(scn, r):
    """-> (jax loss(param, key, x0s), closed form of the expectation as a function of the parameters)"""
    kind, nsteps, n = scn['sde'], scn['nsteps'], scn['n']
    obj = scn['obj']
    t0, T = scn['t0'], scn['t0'] + float(r.uniform(.5, 1.))
    rt = bool(scn['random_times'])
    if kind == 'ou':
        from fbs.sdes.linear import make_ou_score_matching_loss
        a_, b_ = -float(r.uniform(.2, 1.5)), float(r.uniform(.4, 1.6))
        a, b2 = (lambda t: a_ + 0 * t), (lambda t: b_ ** 2 + 0 * t)
        loss = make_ou_score_matching_loss(a_, b_, nn_fn, t0, T, nsteps, rt)
    else:
        from fbs.sdes.linear import make_linear_sde_law_loss
        build, a, b2 = sdes.make(kind, r)
        loss = make_linear_sde_law_loss(build(), nn_fn, t0, T, nsteps, rt, obj.replace('-mem', ''), obj.endswith('-mem'))
    m = n if obj.endswith('-mem') else nsteps
    eps = 1e-5
    grid = np.linspace(t0, T, m + 1)

    def h(p, t, M1, M2):
        F, Q = _trans(a, b2, t0, t)
        return score_term(p, t, F, Q, M1, M2)

    def expect(p, M1, M2):
        if obj.startswith('score'):
            if rt:
                u = over(lambda t: h(p, t, M1, M2), t0 + eps, T) / (T - t0 - eps)
                return ((m - 1) * u + h(p, T, M1, M2)) / m
            return np.mean([h(p, t, M1, M2) for t in grid[1:]])
        term = ipf_term if obj == 'ipf' else ipf_score_term
        f = lambda s, t: term(p, a, b2, t0, s, t, M1, M2)
        if not rt:
            return np.mean([f(s, t) for s, t in zip(grid[:-1], grid[1:])])
        # consecutive order statistics of m - 1 uniforms, and the two ends
        q, D = m - 1, T - t0
        if q == 0:
            return f(t0, T)
        tot = over(lambda t: f(t0, t) * q * (1 - (t - t0) / D) ** (q - 1) / D, t0, T)
        tot += over(lambda s: f(s, T) * q * ((s - t0) / D) ** (q - 1) / D, t0, T)
        if q > 1:
            tot += over(lambda s: over(lambda t: f(s, t) * q * (q - 1) * (1 - (t - s) / D) ** (q - 2) / D ** 2, s, T),
                        t0, T)
        return tot / m
    return loss, expect, (t0, T)


def sb_loss(scn, r):
    """The iterative proportional fitting losses, with affine time-dependent drifts."""
    from fbs.dsb.base import ipf_loss_disc, ipf_loss_cont, ipf_loss_cont_v
    obj, K = scn['obj'], scn['nsteps']
    ts = W.rand_times(r, K) * .5
    if scn['decreasing']:
        ts = ts[::-1].copy()
    c = r.normal(size=4) * .6

    def sd(x, t, q):
        A, B = net(q, t, jnp)
        return A * x + B

    def disp(t): return .4 + .5 * t
    if obj == 'disc':
        gam = r.uniform(.1, .6, size=K)

        def loss(param, key, x0s):
            return ipf_loss_disc(param, jnp.asarray(c), x0s, jnp.asarray(ts), jnp.asarray(gam), nn_fn, sd, key)
    else:
        f = ipf_loss_cont if obj == 'cont' else ipf_loss_cont_v

        def loss(param, key, x0s):
            return f(key, param, jnp.asarray(c), x0s, jnp.asarray(ts), nn_fn, sd, disp)

    def expect(p, M1, M2):
        m, v, tot = M1, M2, 0.
        for k in range(K):
            t, tn = ts[k], ts[k + 1]
            a_, b_ = net(c, t, np)
            A, B = net(p, tn, np)
            if obj == 'disc':
                F, o, Q, dt = a_, b_, gam[k], 1.
                # A y + B - (y + (a x + b) - (a y + b))
                al, be, ga = A - 1 + a_, B, -a_
            else:
                dt = abs(tn - t)
                F, o, Q = 1 + a_ * dt, b_ * dt, disp(t) ** 2 * dt
                # (A y + B) dt - (x + (a x + b) dt - y - (a y + b) dt)
                al, be, ga = A * dt + 1 + a_ * dt, B * dt, -(1 + a_ * dt)
            mn, vn, cxy = F * m + o, F * F * v + 2 * F * o * m + o * o + Q, F * v + o * m
            tot += al * al * vn + ga * ga * v + be * be + 2 * al * ga * cxy + 2 * al * be * mn + 2 * ga * be * m
            m, v = mn, vn
        return tot if obj == 'disc' else tot / K
    return loss, expect, (float(ts[0]), float(ts[-1]))


def run(scn, rec):
    with W.x64(scn['x64']):
        _run(scn, rec)


def _run(scn, rec):
    r = np.random.default_rng(subseed(scn['seed'], 'world'))
    obj, n, L = scn['obj'], scn['n'], scn['L']
    shape = tuple(scn['shape'])
    sb = obj in ('disc', 'cont', 'cont_v')
    loss, expect, (t0, T) = (sb_loss if sb else law_loss)(scn, r)
    p = r.normal(size=4) * .7
    mu, sg = float(r.normal()), float(r.uniform(.3, 1.2))
    f0 = jnp.asarray(0.).dtype
    pj = jnp.asarray(p, f0)
    fixed = np.asarray(mu + sg * r.normal(size=(n, *shape)))

    def lane(key, xkey):
        x = mu + sg * jax.random.normal(xkey, (n, *shape), f0) if scn['random_x0'] else jnp.asarray(fixed, f0)
        v, g = jax.value_and_grad(loss)(pj, key, x)
        return jnp.concatenate([v[None], g])
    f = jax.jit(jax.vmap(lane))
    rec.state(obj, scn['sde'], scn['nsteps'], n, shape, scn['random_times'])
    rec.event(obj, scn['sde'], 'times', round(t0, 4), round(T, 4), 'batch', n, shape)
    M1, M2 = (mu, mu * mu + sg * sg) if scn['random_x0'] else (fixed.mean(), (fixed ** 2).mean())
    e = lambda q: expect(q, M1, M2)
    want = np.concatenate([[e(p)], grad4(e, p)])

    if scn['fault'] != 'none':
        ks = prng.keys(subseed(scn['seed'], 'key'), L, scn['fault'], scn['rate'])
        out = np.asarray(f(ks, jax.random.split(jax.random.PRNGKey(3), L)))
        rec.evals += L
        rec.fault('generator_' + scn['fault'], L)
        rec.log(out)
        if not np.isfinite(out).all():
            raise Violation('not-finite', f'{obj} ({scn["sde"]}): the loss or its gradient is not finite under extreme '
                                          f'random words in {int((~np.isfinite(out)).any(-1).sum())} of {L} lanes')
        return
    if obj.startswith('cont'):  # the two implementations on the same key
        from fbs.dsb import base
        other = dict(scn, obj='cont_v' if obj == 'cont' else 'cont')
        loss2, _, _ = sb_loss(other, np.random.default_rng(subseed(scn['seed'], 'world')))
        x = jnp.asarray(fixed, f0)
        for i in range(5):
            k = jax.random.PRNGKey(subseed(scn['seed'], 'pair', i))
            u, v = float(loss(pj, k, x)), float(loss2(pj, k, x))
            rec.evals += 2
            if not abs(u - v) <= (1e-9 if scn['x64'] else 3e-4) * (1 + abs(u)):
                raise Violation('implementations', f'ipf_loss_cont and ipf_loss_cont_v differ on one key: {u} and {v}')

    def one(b, seed):
        out = np.asarray(f(jax.random.split(jax.random.PRNGKey(seed), L),
                           jax.random.split(jax.random.PRNGKey(seed + 1), L)))
        rec.evals += L
        rec.simtime += L * abs(T - t0)
        rec.log(out)
        b.mean('loss and gradient', out, want, tol=2e-4 * (1 + np.abs(want)))
    two_stage(rec, one, scn['seed'], kind='objective')


def plan(tier, rng):
    m = 1 if tier == 'quick' else 12
    out = []

    def add(obj, sde='-', **kw):
        s = dict(obj=obj, sde=sde, nsteps=rng.choice([2, 3, 5]), n=rng.choice([1, 2, 5]), t0=.2 if sde == 'lin' else rng.choice([0., .2]),
                 shape=rng.choice([[1], [3], [2, 2]]), random_times=0, random_x0=int(rng.random() < .5), fault='none',
                 rate=1, decreasing=0, L=30000, x64=int(rng.random() < .3))
        s.update(kw)
        if obj.endswith('-mem'):
            s['random_x0'] = 1
            s['n'] = rng.choice([2, 3, 5])
        out.append(s)
    for _ in range(m):
        for sde in ('const', 'lin', 'exp'):
            for rt in (0, 1):
                for obj in ('score', 'score-mem', 'ipf'):
                    add(obj, sde, random_times=rt)
            add('ipf-score', sde)
        add('score', 'ou', shape=[2], random_times=0)
        add('score', 'ou', shape=[3], random_times=1)
        for obj in ('disc', 'cont', 'cont_v'):
            for dec in (0, 1):
                add(obj, decreasing=dec, shape=[2] if obj == 'disc' else [2, 2] if dec else [3])
        for fault in ('zero', 'one', 'mix', 'near-zero'):
            for obj in ('score', 'score-mem'):
                add(obj, rng.choice(['const', 'lin', 'exp']), random_times=1, fault=fault, rate=rng.choice([1, 3]), L=4000,
                    x64=0, nsteps=8)
        add('score', 'ou', shape=[2], random_times=1, fault=rng.choice(['zero', 'mix']), rate=2, L=4000, x64=0)
    for i, s in enumerate(out):
        s['group'] = str(i)
    return out


def shrink(scn):
    return W.shrink_by(scn, [('shape', [1]), ('x64', 0), ('nsteps', 2), ('n', 2), ('n', 1), ('decreasing', 0)],
                       ok=lambda s: not (s['obj'].endswith('-mem') and s['n'] < 2))
