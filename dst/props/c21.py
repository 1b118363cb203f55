"""C21  The Gaussian Schroedinger bridge transports one Gaussian to the other, and is the bridge."""
import io
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W, prng
from dst.core import Violation, rng_of, subseed
from dst.stats import two_stage
from dst.props.c13 import em_grid

PROP = 'C21'
RULE = ('a scenario is one pair of random Gaussians: its bridge as functions of time and as a flow, or ensembles of bridge paths '
        'simulated forward or backward on an irregular grid, stopped and resumed from saved states; non-trivial: at least one '
        'path or one flow was judged')
REAL = ['fbs.sdes.linear.make_gaussian_bw_sb', 'fbs.sdes.simulators.euler_maruyama, reverse_simulator']
STUB = ['nothing']
STATE = 'distinct (dimension, diffusion, grid) of a bridge'
ASSUMPTIONS = ['jax.random.normal is trusted', 'covariances have condition numbers below 1e3']


class Bridge:
    """float64: the mixture of Brownian bridges over the optimal coupling"""

    def __init__(self, m0, S0, m1, S1, sig):
        self.m0, self.S0, self.m1, self.S1, self.s2 = m0, S0, m1, S1, sig ** 2
        d = len(m0)
        I = np.eye(d)
        w, V = np.linalg.eigh(S0)
        r, ri = (V * np.sqrt(w)) @ V.T, (V / np.sqrt(w)) @ V.T
        w, V = np.linalg.eigh(4 * r @ S1 @ r + sig ** 4 * I)
        self.X = .5 * (r @ ((V * np.sqrt(w)) @ V.T) @ ri - sig ** 2 * I)      # Cov(X_0, X_1)
        # the coupling is the Schroedinger one: its density is a(x_0) b(x_1) times the Brownian kernel
        P = np.linalg.inv(np.block([[S0, self.X], [self.X.T, S1]]))
        assert np.abs(P[:d, d:] + I / sig ** 2).max() < 1e-5 * np.abs(P).max()
        self.I, self.d = I, d

    def mean(self, t):
        return (1 - t) * self.m0 + t * self.m1

    def cov(self, t):
        return (1 - t) ** 2 * self.S0 + t * t * self.S1 + t * (1 - t) * (self.X + self.X.T + self.s2 * self.I)

    def A(self, t):
        """the drift is A(t) (x - mean(t)) + m1 - m0"""
        S = t * self.S1 + (1 - t) * self.X.T - (1 - t) * self.S0 - t * self.X - self.s2 * t * self.I
        return np.linalg.solve(self.cov(t).T, S.T).T


def gauss(r, d):
    a = r.normal(size=(d, d))
    q = np.linalg.qr(a)[0]
    return r.normal(size=d) * 1.5, (q * np.exp(r.uniform(-2.2, 2.2, size=d))) @ q.T


def near(a, b, tol, what, kind):
    a, b = np.asarray(a, float), np.asarray(b, float)
    e = np.abs(a - b).max() if a.shape == b.shape else np.inf
    if not e <= tol * (1 + np.abs(b).max()):
        raise Violation(kind, f'{what}: {np.round(a, 5).tolist()} should be {np.round(b, 5).tolist()}')


def run(s, rec):
    with W.x64(s['x64']):
        _run(s, rec)


def _run(s, rec):
    from fbs.sdes import make_gaussian_bw_sb
    r = np.random.default_rng(subseed(s['seed'], 'world'))
    d, sig, f0 = s['d'], s['sig'], (np.float64 if s['x64'] else np.float32)
    tol = 1e-8 if s['x64'] else 2e-3
    (m0, S0), (m1, S1) = gauss(r, d), gauss(r, d)
    if s['same']:
        m1, S1 = m0, S0
    o = Bridge(m0, S0, m1, S1, sig)
    args = [jnp.asarray(a, f0) for a in (m0, S0, m1, S1)]
    mean, cov, drift = make_gaussian_bw_sb(*args) if sig == 1. and s['default'] else make_gaussian_bw_sb(*args, sig=sig)
    what = f'bridge of dimension {d}, sig {sig}'
    rec.state(d, sig, s['kind'], s['K'])
    rec.event(s['kind'], what, 'x64' if s['x64'] else 'x32')
    if s['kind'] == 'flow':
        for t in [0., 1., *r.uniform(size=6)]:
            tj = jnp.asarray(t, f0)
            near(mean(tj), o.mean(t), tol, f'{what}: mean at {t:.3f}', 'marginal')
            near(cov(tj), o.cov(t), tol, f'{what}: covariance at {t:.3f}', 'marginal')
            x = o.mean(t) + r.normal(size=(5, d)) @ np.linalg.cholesky(o.cov(t)).T
            f = jax.jit(drift) if r.random() < .5 else drift
            for y in x:
                near(f(jnp.asarray(y, f0), tj), o.A(t) @ (y - o.mean(t)) + o.m1 - o.m0, tol * 20, f'{what}: drift at {t:.3f}', 'drift')
            rec.evals += 1
        if s['x64']:
            flow(o, drift, sig, what, rec)
    else:
        ensemble(s, o, drift, mean, cov, r, what, rec)


def flow(o, drift, sig, what, rec, n=400):
    """Moments of the linear SDE with the repository's drift, by Runge-Kutta, with Cov(X_0, X_t)."""
    d = o.d
    z = jnp.zeros(d)
    A = jax.jit(lambda t: jax.jacfwd(lambda x: drift(x, t))(z))
    b = jax.jit(lambda t: drift(z, t))

    def rhs(t, st):
        m, P, C = st
        At, bt = np.asarray(A(t)), np.asarray(b(t))
        return np.array(At @ m + bt), At @ P + P @ At.T + sig ** 2 * np.eye(d), C @ At.T
    st = (o.m0, o.S0, o.S0)

    def ax(st, k, h):
        return tuple(u + h * v for u, v in zip(st, k))
    for i in range(n):
        t, h = i / n, 1 / n
        k1 = rhs(t, st)
        k2 = rhs(t + h / 2, ax(st, k1, h / 2))
        k3 = rhs(t + h / 2, ax(st, k2, h / 2))
        k4 = rhs(t + h, ax(st, k3, h))
        st = tuple(u + h / 6 * (p + 2 * q + 2 * v + w) for u, p, q, v, w in zip(st, k1, k2, k3, k4))
    rec.simtime += 1.
    near(st[0], o.m1, 1e-4, f'{what}: mean to which the drift transports', 'transport')
    near(st[1], o.S1, 1e-4, f'{what}: covariance to which the drift transports', 'transport')
    P = np.linalg.inv(np.block([[o.S0, st[2]], [st[2].T, st[1]]]))
    near(P[:d, d:] * sig ** 2, -np.eye(d), 1e-3 * max(1, np.abs(P).max() * sig ** 2),
         f'{what}: the coupling of its ends is not that of the Schroedinger bridge', 'optimality')


def ensemble(s, o, drift, mean, cov, r, what, rec):
    from fbs.sdes.simulators import euler_maruyama, reverse_simulator
    d, K, n, L, sig = s['d'], s['K'], s['n'], s['L'], s['sig']
    f0 = np.float64 if s['x64'] else np.float32
    ts = np.concatenate([[0.], np.cumsum(r.uniform(.3, 1.7, size=K))])
    ts /= ts[-1]
    back = s['kind'] == 'backward'

    def coef(t):
        """affine drift of the simulated process at its own time t"""
        if not back:
            A = o.A(t)
            return A, o.m1 - o.m0 - A @ o.mean(t)
        u = 1 - t
        A, Si = o.A(u), np.linalg.inv(o.cov(u))
        B = -A - sig ** 2 * Si
        return B, -(o.m1 - o.m0) + A @ o.mean(u) + sig ** 2 * Si @ o.mean(u)
    ma, Sa = (o.m1, o.S1) if back else (o.m0, o.S0)
    m, P, C = ma, Sa, Sa
    for sub in em_grid(ts, n):
        for t, h in sub:
            A, b = coef(t)
            F = np.eye(d) + h * A
            m, P, C = F @ m + h * b, F @ P @ F.T + h * sig ** 2 * np.eye(d), C @ F.T
    J = np.block([[Sa, C], [C.T, P]])
    mu = np.concatenate([ma, m])
    Lj = np.linalg.cholesky(J)
    La = np.linalg.cholesky(Sa)

    def score(x, t):
        return -jnp.linalg.solve(cov(t), x - mean(t))

    def disp(_):
        return sig

    tj = jnp.asarray(ts, f0)
    cut = s['cut']

    def path(key, x, grid):
        if back:
            return reverse_simulator(key, x, grid, score, drift, disp, integration_nsteps=n)
        return euler_maruyama(key, x, grid, drift, disp, integration_nsteps=n)
    whole = jax.jit(jax.vmap(path, in_axes=[0, 0, None]))

    def sim(bt, seed):
        q = np.random.default_rng(seed)
        x = jnp.asarray(ma + q.normal(size=(L, d)) @ La.T, f0)
        if cut and not back:      # the process stops at a time of the grid and resumes from what it saved
            y = whole(prng.keys(seed, L), x, tj[:cut + 1])
            f = io.BytesIO()
            np.save(f, np.asarray(y))
            f.seek(0)
            rec.fault('crash_and_resume')
            y = whole(prng.keys(subseed(seed, 'resumed'), L), jnp.asarray(np.load(f)), tj[cut:])
        else:
            y = whole(prng.keys(seed, L), x, tj)
        z = np.concatenate([np.asarray(x, float), np.asarray(y, float)], 1)
        w = np.linalg.solve(Lj, (z - mu).T).T
        t0 = 1e-4 if s['x64'] else 5e-3
        bt.mean('mean', w, np.zeros(2 * d), var=1., tol=t0)
        i, j = np.triu_indices(2 * d)
        bt.mean('cov', w[:, i] * w[:, j] - (i == j), np.zeros(len(i)), var=1. + (i == j), tol=3 * t0)
        rec.evals += L
        rec.simtime += L
    two_stage(rec, sim, s['seed'], boost=5, kind='ensemble')
    # the discretised process ends near the other Gaussian as soon as the grid is fine
    if K * n >= 60:
        mb, Sb = (o.m0, o.S0) if back else (o.m1, o.S1)
        e = np.abs(m - mb).max(), np.abs(P - Sb).max()
        rec.event('discretisation error', e)


def plan(tier, rng):
    m = 1 if tier == 'quick' else 12
    out = []

    def add(kind, cost, **kw):
        s = dict(kind=kind, d=rng.choice([1, 2, 3, 4]), sig=rng.choice([1., 1., .5, .8, 1.7]), x64=int(rng.random() < .6),
                 default=rng.randrange(2), same=0, K=rng.choice([4, 9, 20]), n=rng.choice([1, 2, 5]), L=20000, cut=0, cost=cost)
        s.update(kw)
        s['group'] = str(len(out) % 8) if tier != 'quick' else str(len(out))
        out.append(s)
    for _ in range(m):
        for sig in (1., .5, 1.7):
            for d in (1, 2, 4):
                add('flow', 2., sig=sig, d=d, x64=1)
        for _ in range(4):
            add('flow', 2., x64=0)
        add('flow', 2., same=1, x64=1, d=2)
        for _ in range(6):
            K = rng.choice([4, 9, 20])
            add('forward', 4., K=K, cut=rng.choice([0, 1, K // 2, K - 1]))
            add('backward', 4.)
    return out


def shrink(s):
    for k, v in (('cut', 0), ('n', 1), ('K', 4), ('d', 1), ('same', 0)):
        if s[k] > v:
            yield dict(s, **{k: v})
