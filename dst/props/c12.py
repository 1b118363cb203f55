"""C12  Forward noising has exactly the transition law of its SDE."""
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W, prng, sdes
from dst.core import Violation, subseed
from dst.stats import two_stage

PROP = 'C12'
RULE = ('a scenario is one SDE with random parameters on one irregular time grid (initial time not zero, repeated times), '
        'noised on many lanes; non-trivial: the grid has at least one step of positive length')
REAL = ['fbs.sdes.linear.{make_linear_sde,make_ou_sde,StationaryConstLinearSDE,StationaryLinLinearSDE,'
        'StationaryExpLinearSDE}', 'fbs.utils.discretise_lti_sde']
STUB = ['the random words (simulated generator) in the fault scenarios']
STATE = 'distinct (SDE, grid, shape) configurations'
ASSUMPTIONS = ['jax.random.normal is trusted']
SHAPES = [(), (1,), (3,), (2, 2)]


def run(scn, rec):
    with W.x64(scn['x64']):
        (lti if scn['sde'] == 'lti' else _run)(scn, rec)


def lti(scn, rec):
    """dX = A X dt + B dW over an irregular grid, by the exact discretisation of the library."""
    from fbs.utils import discretise_lti_sde
    import scipy.linalg
    r = np.random.default_rng(subseed(scn['seed'], 'world'))
    d, K, L = scn['dim'], scn['K'], scn['L']
    A = r.normal(size=(d, d)) * .8
    if scn['drift'] == 'nilpotent':
        A = np.triu(A, 1)
    elif scn['drift'] == 'stable':
        A = A - 1.5 * np.eye(d)
    B = r.normal(size=(d, scn['noises'] if scn['noises'] < d else d))
    G = B @ B.T
    dts = r.uniform(.02, .7, size=K)
    if scn['dup'] and K > 1:
        dts[r.integers(K)] = 0.
    f0 = np.float64 if scn['x64'] else np.float32
    tol = 1e-8 if scn['x64'] else 3e-4
    nodes, wts = np.polynomial.legendre.leggauss(40)

    def exact(dt):
        es = [scipy.linalg.expm(A * dt * (z + 1) / 2) for z in nodes]
        return scipy.linalg.expm(A * dt), sum(w * dt / 2 * e @ G @ e.T for w, e in zip(wts, es))
    f = jax.jit(discretise_lti_sde)
    Ff, Qf = [], []
    m, C = np.eye(d), np.zeros((d, d))
    rec.event('lti', 'A', np.round(A, 3).tolist(), 'dts', np.round(dts, 3).tolist())
    rec.fault('repeated_time', int((dts == 0).sum()))
    rec.state('lti', d, K, scn['drift'], scn['noises'])
    for dt in dts:
        F, Q = exact(dt)
        got = [np.asarray(x, float) for x in f(jnp.asarray(A, f0), jnp.asarray(G, f0), jnp.asarray(dt, f0))]
        for x, w, name in zip(got, (F, Q), ('transition', 'covariance')):
            if x.shape != (d, d) or not np.abs(x - w).max() <= tol * (1 + np.abs(w).max()):
                raise Violation('discretisation', f'lti: {name} over {dt}: {x.tolist()}, expected {w.tolist()}')
        Ff.append(got[0])
        w_, V_ = np.linalg.eigh((got[1] + got[1].T) / 2)
        Qf.append(V_ * np.sqrt(np.maximum(w_, 0.)))
        m, C = F @ m, F @ C @ F.T + Q
        rec.probe('deterministic_comparisons', 2)
    # the whole grid in one step is the same law as its steps one after the other
    Fw, Qw = [np.asarray(x, float) for x in f(jnp.asarray(A, f0), jnp.asarray(G, f0), jnp.asarray(dts.sum(), f0))]
    if not (np.abs(Fw - m).max() <= 10 * tol * (1 + np.abs(m).max()) and np.abs(Qw - C).max() <= 10 * tol * (1 + np.abs(C).max())):
        raise Violation('composition', f'lti: {K} steps and one step over {dts.sum()} have different laws')
    x0 = r.normal(size=d)

    def one(b, seed):
        rr = np.random.default_rng(seed)
        x = np.broadcast_to(x0, (L, d))
        for F, q in zip(Ff, Qf):
            x = x @ F.T + rr.normal(size=(L, d)) @ q.T
        rec.evals += L
        rec.simtime += L * float(dts.sum())
        rec.log(x.astype(np.float32))
        s = np.sqrt(np.maximum(np.diag(C), 1e-12))
        z = (x - m @ x0) / s
        b.mean('mean', z, 0., tol=1e-2)
        b.mean('covariance', (z[:, :, None] * z[:, None, :]).reshape(L, -1), (C / np.outer(s, s)).ravel(), tol=1e-2)
    if dts.sum() > 0 and scn['noises'] >= d:
        two_stage(rec, one, scn['seed'], kind='noising-law')


def _run(scn, rec):
    r = np.random.default_rng(subseed(scn['seed'], 'world'))
    kind, K, L, mode = scn['sde'], scn['K'], scn['L'], scn['mode']
    shape = tuple(scn['shape'])
    d = int(np.prod(shape)) if shape else 1
    if kind == 'ou':
        from fbs.sdes.linear import make_ou_sde
        a_, b_ = -float(r.uniform(.2, 1.5)), float(r.uniform(.4, 1.6))
        a, b2 = (lambda t: a_ + 0 * t), (lambda t: b_ ** 2 + 0 * t)
        disc, score, fwd = make_ou_sde(a_, b_)
        obj = None
    else:
        from fbs.sdes import make_linear_sde
        build, a, b2 = sdes.make(kind, r)
        obj = build()
        disc, score, fwd = make_linear_sde(obj)
    dts = r.uniform(.02, .6, size=K)
    if scn['dup'] and K > 1:
        dts[r.integers(K)] = 0.
    ts = np.concatenate([[0.], np.cumsum(dts)]) + scn['tstart']
    ts = np.minimum(ts, 1.9 + ts[0])
    x0 = r.normal(size=shape) * 1.5
    f0 = np.float64 if scn['x64'] else np.float32
    m, C = sdes.path_law(a, b2, ts)
    keep = mode == 'path'
    extra = {}
    t0 = ts[0]
    if kind != 'ou' and not keep and scn['t0']:
        t0 = ts[0] - 0.1
        extra = dict(t0=t0)
        FQ = np.array([sdes.transition(a, b2, t0, t) for t in ts])
        m, C = FQ[:, 0], np.diag(FQ[:, 1])
    elif not keep:
        C = np.diag(np.diag(C))
    tj, xj = jnp.asarray(ts, f0), jnp.asarray(x0, f0)
    if mode == 'scalar':  # one time only, as in the memory-saving training loss
        ix = K
        tj = tj[ix]
        m, C = m[ix:ix + 1], C[ix:ix + 1, ix:ix + 1]
        extra = dict(t0=t0)
        keep = False
    n = len(m)
    f = jax.jit(jax.vmap(lambda k: fwd(k, xj, tj, keep_path=keep, **extra)))
    rec.state(kind, mode, K, shape)
    rec.event(kind, mode, 'ts', np.round(ts, 4).tolist(), 'shape', shape)
    rec.fault('repeated_time', int((np.diff(ts) == 0).sum()))
    tol = 1e-9 if scn['x64'] else 2e-5

    # deterministic parts: the discretisation, the conditional score, mean and variance
    for _ in range(4):
        s = float(ts[0] + r.uniform(0, .3))
        t = s + float(r.uniform(.05, 1.))
        F, Q = sdes.transition(a, b2, s, t)
        if kind == 'ou':
            Fr, Qr = disc(jnp.asarray(t - s, f0))
            sc = score(xj, jnp.asarray(t - s, f0), xj * .3)
        else:
            Fr, Qr = disc(jnp.asarray(t, f0), jnp.asarray(s, f0))
            sc = score(xj, jnp.asarray(t, f0), xj * .3, jnp.asarray(s, f0))
        if abs(Fr - F) > 50 * tol or abs(Qr - Q) > 50 * tol:
            raise Violation('discretisation', f'{kind}: ({Fr}, {Qr}) from {s} to {t}, expected ({F}, {Q})')
        es = -(x0 - F * x0 * .3) / Q
        if np.abs(np.asarray(sc) - es).max() > 1e3 * tol * (1 + np.abs(es).max()):
            raise Violation('score', f'{kind}: conditional score {np.asarray(sc)}, expected {es}')
        if obj is not None:
            dr, di = np.asarray(obj.drift(xj, jnp.asarray(t, f0))), float(obj.dispersion(jnp.asarray(t, f0)))
            if np.shape(dr) != np.shape(x0) or np.abs(dr - a(t) * x0).max() > 100 * tol or abs(di ** 2 - b2(t)) > 100 * tol or di < 0:
                raise Violation('coefficients', f'{kind}: drift {dr} or dispersion {di} at {t}, stated {a(t) * x0}, {np.sqrt(b2(t))}')
        if hasattr(obj, 'mean'):
            mm, vv = obj.mean(t, s, xj), obj.variance(t, s)
            if np.abs(np.asarray(mm) - F * x0).max() > 100 * tol or abs(vv - Q) > 100 * tol:
                raise Violation('moments', f'{kind}: mean or variance from {s} to {t}')
        rec.probe('deterministic_comparisons', 3)

    if scn['fault'] != 'none':
        ks = prng.keys(subseed(scn['seed'], 'key'), L, scn['fault'], 2)
        x = np.asarray(f(ks))
        rec.evals += L
        rec.fault('generator_' + scn['fault'], L)
        rec.log(x)
        bound = np.abs(m[:, None] * x0.ravel()[None]).max() + 9 * np.sqrt(np.diag(C).max() * n + 1)
        if not np.isfinite(x).all() or np.abs(x).max() > bound:
            raise Violation('not-finite', f'{kind}: a noised value is {np.abs(x).max()} under extreme random words')
        return

    sd = np.sqrt(np.diag(C))
    free = sd > 1e-9

    def one(b, seed):
        x = np.asarray(f(jax.random.split(jax.random.PRNGKey(seed), L)))
        rec.evals += L
        rec.simtime += L * float(ts[-1] - ts[0])
        rec.log(x)
        want = (L, *(() if mode == 'scalar' else (n,)), *shape)
        if x.shape != want:
            raise Violation('shape', f'{x.shape}, expected {want}')
        x = x.reshape(L, n, d)
        z = x - m[None, :, None] * x0.reshape(1, 1, d)
        if np.abs(z[:, ~free]).max(initial=0.) > 50 * tol:
            raise Violation('initial', 'the path does not start at the given state')
        z = z[:, free] / sd[free][None, :, None]
        R = C[free][:, free] / np.outer(sd[free], sd[free])
        q = int(free.sum())
        b.mean('mean', z.reshape(L, -1), 0., tol=1e-4)
        full = np.einsum('ln,lm->lnm', z.reshape(L, -1), z.reshape(L, -1))
        want = np.einsum('ij,ab->iajb', R, np.eye(d)).reshape(q * d, q * d)
        b.mean('covariance', full.reshape(L, -1), want.ravel(), tol=1e-3)
        b.mean('fourth moment', z.reshape(L, -1) ** 4, 3., tol=3e-3)
    two_stage(rec, one, scn['seed'], kind='noising-law')


def plan(tier, rng):
    m = 1 if tier == 'quick' else 15
    out = []
    for kind in ('const', 'lin', 'exp', 'ou'):
        for i in range(10 * m):
            mode = ['path', 'marginal', 'path', 'scalar', 'marginal'][i % 5]
            if kind == 'ou' and mode == 'scalar':
                mode = 'path'
            out.append(dict(sde=kind, mode=mode, K=rng.choice([1, 2, 4, 6]),
                            shape=rng.choice(SHAPES) if kind != 'ou' else rng.choice([(1,), (3,)]),
                            tstart=rng.choice([0., 0.2, 0.2]) if kind != 'lin' else .2, t0=int(rng.random() < .5), dup=int(rng.random() < .4),
                            fault=rng.choice(['zero', 'one', 'mix', 'near-zero']) if i % 5 == 4 else 'none',
                            L=60000, x64=int(rng.random() < .3)))
    for i in range(6 * m):
        out.append(dict(sde='lti', dim=[1, 2, 3, 4, 2, 3][i % 6], K=rng.choice([1, 2, 4]), noises=[9, 9, 1][i % 3],
                        drift=['any', 'stable', 'nilpotent', 'any'][i % 4], dup=int(rng.random() < .3), L=40000,
                        x64=int(rng.random() < .3)))
    for i, s in enumerate(out):
        s['group'] = str(i)
    return out


def shrink(scn):
    return W.shrink_by(scn, [('shape', [1]), ('x64', 0), ('dup', 0), ('K', 1), ('K', 2), ('t0', 0), ('tstart', 0.), ('dim', 1), ('dim', 2)])
