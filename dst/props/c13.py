"""C13  The SDE simulators follow exactly the stated discretisation, and pinned bridges their pins."""
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W, prng, sdes
from dst.core import Violation, subseed
from dst.stats import two_stage

PROP = 'C13'
RULE = ('a scenario is one simulator with time-dependent coefficients on one irregular, increasing or decreasing grid with '
        'substeps, simulated on many lanes; non-trivial: coefficients and grid differ between steps')
REAL = ['fbs.sdes.simulators.{euler_maruyama,reverse_simulator,discrete_time_simulator,doob_bridge_simulator}',
        'fbs.sdes.linear.StationaryConstLinearSDE/StationaryLinLinearSDE.bridge_drift',
        'fbs.samplers.gibbs.bridge_sampler']
STUB = ['drift, dispersion and score callbacks: time-dependent linear and nonlinear coefficient functions']
STATE = 'distinct (simulator, grid, shape) configurations'
ASSUMPTIONS = ['jax.random.normal is trusted']
SHAPES = [(), (1,), (3,), (2, 2)]


class Coef:
    """Random smooth time-dependent coefficients, in numpy or jax.numpy."""

    def __init__(self, r):
        self.p = r.normal(size=12)

    def A(self, t, xp=np): return .8 * self.p[0] + .9 * xp.sin(3 * t + self.p[1])
    def b(self, t, xp=np): return .7 * xp.cos(4 * t + self.p[2]) + .3 * self.p[3]
    def g(self, t, xp=np): return .3 + .6 * xp.abs(xp.sin(2.5 * t + self.p[4])) + .2 * t * t
    def s(self, t, xp=np): return -.6 + .4 * xp.sin(5 * t + self.p[5])
    def s0(self, t, xp=np): return .5 * xp.cos(2 * t + self.p[6])


def em_grid(ts, n):
    """The substeps of each interval: [[(time, |step|), ...], ...]."""
    return [[(a + (b - a) * i / n, abs(b - a) / n) for i in range(n)] for a, b in zip(ts[:-1], ts[1:])]


def moments(steps, x0):
    """Path mean and covariance of an affine recursion x <- F x + c + q w given per interval lists of (F, c, q)."""
    m, C = [x0], np.zeros((1, 1))
    for sub in steps:
        F, c, Q = 1., 0., 0.
        for f_, c_, q_ in sub:
            F, c, Q = f_ * F, f_ * c + c_, f_ ** 2 * Q + q_ ** 2
        n = len(m)
        D = np.zeros((n + 1, n + 1))
        D[:n, :n] = C
        D[n, :n] = D[:n, n] = F * C[n - 1]
        D[n, n] = F ** 2 * C[n - 1, n - 1] + Q
        m.append(F * m[-1] + c)
        C = D
    return np.array(m), C


def run(scn, rec):
    with W.x64(scn['x64']):
        _run(scn, rec)


def _run(scn, rec):
    from fbs.sdes import simulators as sm
    r = np.random.default_rng(subseed(scn['seed'], 'world'))
    kind, K, n, L = scn['kind'], scn['K'], scn['n'], scn['L']
    shape = tuple(scn['shape'])
    d = int(np.prod(shape)) if shape else 1
    f0 = np.float64 if scn['x64'] else np.float32
    co = Coef(r)
    dts = r.uniform(.03, .4, size=K)
    if scn['dup'] and K > 1:
        dts[r.integers(K)] = 0.
    ts = np.concatenate([[0.], np.cumsum(dts)])
    if kind != 'reverse':
        ts = ts + r.choice([0., .2])
    if scn['dec'] and kind in ('em', 'det'):
        ts = ts[::-1].copy()
    x0 = r.normal(size=shape)
    tj, xj = jnp.asarray(ts, f0), jnp.asarray(x0, f0)
    rec.event(kind, 'ts', np.round(ts, 4).tolist(), 'substeps', n, 'shape', shape)
    rec.state(kind, K, n, scn['dec'], shape)
    rec.fault('repeated_time', int((np.diff(ts) == 0).sum()))
    rec.fault('decreasing_time', int((np.diff(ts) < 0).sum()))
    tol = 1e-9 if scn['x64'] else 3e-5
    drift = lambda x, t: co.A(t, jnp) * x + co.b(t, jnp)
    disp = lambda t: co.g(t, jnp)

    if kind == 'det':   # without noise the nonlinear recursion must be followed exactly
        non = lambda x, t, xp: xp.sin(x * 2 + t) + co.A(t, xp) * x
        for path in (True, False):
            out = np.asarray(jax.jit(lambda k: sm.euler_maruyama(k, xj, tj, lambda x, t: non(x, t, jnp), lambda t: 0. * t,
                                                                 integration_nsteps=n, return_path=path))(
                jax.random.PRNGKey(1)))
            xs = [x0]
            for sub in em_grid(ts, n):
                x = xs[-1]
                for t, h in sub:
                    x = x + non(x, t, np) * h
                xs.append(x)
            want = np.stack(xs) if path else xs[-1]
            rec.evals += 1
            rec.log(out)
            if out.shape != want.shape:
                raise Violation('shape', f'{out.shape}, expected {want.shape}')
            if np.abs(out - want).max() > 300 * tol:
                raise Violation('recursion', f'noise-free path differs from the Euler recursion by {np.abs(out - want).max():.3g}')
        return

    pinned = None
    if kind == 'em':
        steps = [[(1 + co.A(t) * h, co.b(t) * h, co.g(t) * np.sqrt(h)) for t, h in sub] for sub in em_grid(ts, n)]
        f = lambda k: sm.euler_maruyama(k, xj, tj, drift, disp, integration_nsteps=n, return_path=True)
        f2 = lambda k: sm.euler_maruyama(k, xj, tj, drift, disp, integration_nsteps=n)
    elif kind == 'reverse':
        T = ts[-1]
        score = lambda x, t: co.s(t, jnp) * x + co.s0(t, jnp)
        steps = [[(1 + (-co.A(T - t) + co.g(T - t) ** 2 * co.s(T - t)) * h,
                   (-co.b(T - t) + co.g(T - t) ** 2 * co.s0(T - t)) * h, co.g(T - t) * np.sqrt(h)) for t, h in sub]
                 for sub in em_grid(ts, n)]
        f = lambda k: sm.reverse_simulator(k, xj, tj, score, drift, disp, integration_nsteps=n)
        f2 = None
    elif kind == 'discrete':
        steps = [[(co.A(t1) + .3 * t0, co.b(t1) - t0, co.g(t1) + .5 * t0)] for t0, t1 in zip(ts[:-1], ts[1:])]
        f = lambda k: sm.discrete_time_simulator(
            k, xj, tj, lambda x, t1, t0: (co.A(t1, jnp) + .3 * t0) * x + co.b(t1, jnp) - t0,
            lambda t1, t0: co.g(t1, jnp) + .5 * t0)
        f2 = None
    else:  # Doob bridges of the linear SDEs
        build, a, b2 = sdes.make(['const', 'lin'][scn['n'] % 2], r)
        sde = build()
        if scn['n'] % 2:
            ts = ts + .2
            tj = jnp.asarray(ts, f0)
        T = ts[-1]
        xT = r.normal(size=shape)
        pinned = xT
        if kind == 'bridge':
            steps_of = []
            for sub in em_grid(ts, n):
                row = []
                for t, h in sub:
                    F, Q = sdes.transition(a, b2, t, T)
                    al = a(t) - b2(t) * F * F / Q
                    row.append((1 + al * h, b2(t) * F / Q * h, np.sqrt(b2(t) * h)))
                steps_of.append(row)
            f = lambda k: sm.doob_bridge_simulator(k, sde, xj, jnp.asarray(xT, f0), tj, integration_nsteps=n,
                                                   replace=bool(scn['replace']))
            fac, C = moments([[(F, 0., q) for F, c, q in sub] for sub in steps_of], 1.)
            one_, _ = moments([[(F, c, 0.) for F, c, q in sub] for sub in steps_of], 0.)
            mean = fac[:, None] * x0.reshape(1, d) + one_[:, None] * xT.reshape(1, d)
        else:            # the bridge sampler of the Gibbs kernel against the exact bridge law
            from fbs.samplers.gibbs import bridge_sampler
            f = lambda k: bridge_sampler(k, xj, jnp.asarray(xT, f0), tj, sde)
            m1, C1 = sdes.path_law(a, b2, ts)
            g = C1[:, -1] / C1[-1, -1]
            mean = m1[:, None] * x0.reshape(1, d) + g[:, None] * (xT.reshape(1, d) - m1[-1] * x0.reshape(1, d))
            C = C1 - np.outer(g, C1[:, -1])
        f2 = None

    path = kind in ('em', 'bridge', 'sampler')
    if pinned is None:
        ms, C = zip(*[moments(steps, v) for v in x0.ravel()])
        mean, C = np.stack(ms, -1), C[0]
    if pinned is not None and (kind == 'sampler' or scn['replace']):
        C = C.copy()
        C[-1] = C[:, -1] = 0.
        mean[-1] = pinned.ravel()
    if not path:
        mean, C = mean[-1:], C[-1:, -1:]
    q = len(mean)
    fj = jax.jit(jax.vmap(f))
    if scn['fault'] != 'none':
        x = np.asarray(fj(prng.keys(subseed(scn['seed'], 'key'), min(L, 2000), scn['fault'], 2)))
        rec.evals += len(x)
        rec.fault('generator_' + scn['fault'], len(x))
        rec.log(x)
        if not np.isfinite(x).all():
            raise Violation('not-finite', 'a simulated value is not finite under extreme random words')
        return
    sd = np.sqrt(np.maximum(np.diag(C), 0))
    free = sd > 1e-6
    loose = kind == 'sampler'  # 100 substeps per interval: a discretisation error remains

    def one(b, seed):
        ks = jax.random.split(jax.random.PRNGKey(seed), L)
        x = np.asarray(fj(ks))
        rec.evals += L
        rec.simtime += L * float(abs(ts[-1] - ts[0]))
        rec.log(x)
        want = (L, *((q,) if path else ()), *shape)
        if x.shape != want:
            raise Violation('shape', f'{x.shape}, expected {want}')
        if f2 is not None:
            e = np.asarray(jax.jit(jax.vmap(f2))(ks[:1000]))
            if np.abs(e - x[:1000, -1]).max() > 100 * tol:
                raise Violation('terminal', 'the terminal value is not the end of the path from the same key')
        x = x.reshape(L, q, d)
        z = x - mean[None]
        if np.abs(z[:, ~free]).max(initial=0.) > 100 * tol:
            raise Violation('pinned', f'a fixed point of the path is off by {np.abs(z[:, ~free]).max():.3g}')
        z = z[:, free] / sd[free][None, :, None]
        R = C[free][:, free] / np.outer(sd[free], sd[free])
        p = int(free.sum())
        if not p:
            return
        b.mean('mean', z.reshape(L, -1), 0., tol=.03 if loose else 2e-4)
        full = np.einsum('ln,lm->lnm', z.reshape(L, -1), z.reshape(L, -1))
        want = np.einsum('ij,ab->iajb', R, np.eye(d)).reshape(p * d, p * d)
        b.mean('covariance', full.reshape(L, -1), want.ravel(), tol=.05 if loose else 2e-3)
    two_stage(rec, one, scn['seed'], kind='simulated-law')


def plan(tier, rng):
    m = 1 if tier == 'quick' else 15
    out = []
    for kind, c in (('em', 12), ('det', 8), ('reverse', 8), ('discrete', 6), ('bridge', 10), ('sampler', 4)):
        for i in range(c * m):
            out.append(dict(kind=kind, K=rng.choice([1, 2, 4, 5]), n=[1, 3, 2, 7][i % 4], shape=rng.choice(SHAPES),
                            dec=i % 3 == 1, dup=int(rng.random() < .3 and kind not in ('bridge', 'sampler')),
                            replace=i % 2, fault=rng.choice(['zero', 'one', 'mix']) if i % 6 == 5 else 'none',
                            L=60000 if kind != 'sampler' else 20000, x64=int(rng.random() < .3),
                            cost=1. if kind != 'sampler' else 4.))
    for i, s in enumerate(out):
        s['group'] = str(i)
    return out


def shrink(scn):
    return W.shrink_by(scn, [('shape', [1]), ('x64', 0), ('dup', 0), ('K', 1), ('K', 2), ('n', 1), ('n', 2), ('dec', False)])
