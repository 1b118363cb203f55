"""C22  The crescent model: samples, densities, score and posterior describe one and the same joint law."""
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W, prng
from dst.core import Violation, subseed
from dst.stats import two_stage

PROP = 'C22'
RULE = ('a scenario is one crescent model (its parameters, prior and precision): simulated draws judged by their exact law, the '
        'densities and scores at random points, posteriors on random meshes, and Metropolis chains driven by the densities; '
        'non-trivial: at least one draw or density was judged')
REAL = ['fbs.data.Crescent']
STUB = ['nothing']
STATE = 'distinct (parameters, mesh, kind)'
ASSUMPTIONS = ['jax.random.normal is trusted']


def lognorm(x, v):
    return -.5 * x * x / v - .5 * np.log(2 * np.pi * v)


class Truth:
    def __init__(self, c, psi, xi):
        self.m, self.cov, self.psi, self.xi = np.asarray(c.m, float), np.asarray(c.cov, float), psi, xi

    def em(self, p):
        return p[..., 1] / self.psi + .5 * (p[..., 0] ** 2 + self.psi ** 2)

    def prior(self, p):
        z = np.linalg.solve(np.linalg.cholesky(self.cov), (p - self.m).reshape(-1, 2).T).T.reshape(p.shape)
        return lognorm(z, 1.).sum(-1) - .5 * np.linalg.slogdet(self.cov)[1]

    def lik(self, y, p):
        return lognorm(y - self.em(p), self.xi)

    def score(self, p, y):
        h = 1e-5
        f = lambda p, y: self.prior(p) + self.lik(y, p)  # noqa
        g = [(f(p + h * e, y) - f(p - h * e, y)) / (2 * h) for e in np.eye(2)]
        return np.stack([*g, (f(p, y + h) - f(p, y - h)) / (2 * h)], -1)


def near(a, b, tol, what, kind):
    a, b = np.asarray(a, float), np.asarray(b, float)
    e = np.abs(a - b) - tol * (1 + np.abs(b)) if a.shape == b.shape else np.array([np.inf])
    if not (e <= 0).all():
        raise Violation(kind, f'{what}: {a.ravel()[:6].tolist()} should be {b.ravel()[:6].tolist()}')


def run(s, rec):
    with W.x64(s['x64']):
        _run(s, rec)


def _run(s, rec):
    from fbs.data import Crescent
    r = np.random.default_rng(subseed(s['seed'], 'world'))
    f0 = np.float64 if s['x64'] else np.float32
    psi, xi = (1., 1.) if s['default'] else (float(r.choice([-1, 1]) * r.uniform(.4, 2.)), float(r.uniform(.2, 3.)))
    c = Crescent() if s['default'] else Crescent(psi=psi, xi=xi)
    if s['prior']:
        c.m = jnp.asarray(r.normal(size=2), f0)
        if s['prior'] == 2:
            a = r.normal(size=(2, 2))
            c.cov, c.cov_is_diag = jnp.asarray(a @ a.T + .3 * np.eye(2), f0), False
        else:
            c.cov = jnp.asarray(np.diag(r.uniform(.3, 4., size=2)), f0)
    o = Truth(c, psi, xi)
    tol = 1e-8 if s['x64'] else 3e-5
    what = f'crescent psi {psi:.3f} xi {xi:.3f} prior kind {s["prior"]}'
    rec.event(s['kind'], what)
    rec.state(s['kind'], round(psi, 6), round(xi, 6), s['prior'])
    L = s['L']
    if s['kind'] == 'law':
        f = jax.jit(lambda k: c.sampler(k, L)) if s['jit'] else (lambda k: c.sampler(k, L))

        def sim(b, seed):
            xs, ys = f(prng.keys(seed))
            xs, ys = np.asarray(xs, float), np.asarray(ys, float)
            if xs.shape != (L, 2) or ys.shape != (L,):
                raise Violation('shape', f'{what}: draws of shapes {xs.shape}, {ys.shape}')
            w = np.linalg.solve(np.linalg.cholesky(o.cov), (xs - o.m).T).T
            w = np.concatenate([w, ((ys - o.em(xs)) / np.sqrt(xi))[:, None]], 1)
            b.mean('mean', w, np.zeros(3), var=1., tol=1e-4)
            i, j = np.triu_indices(3)
            b.mean('cov', w[:, i] * w[:, j] - (i == j), np.zeros(6), var=1. + (i == j), tol=1e-4)
            for k in range(3):
                h = np.histogram(w[:, k], [-np.inf, -2, -1, -.4, 0, .4, 1, 2, np.inf])[0]
                q = .5 * np.array([.0455003, .2718102, .372001, .3106886])   # |z| > 2, (1, 2), (.4, 1), (0, .4)
                q[-1] = .5 - q[:3].sum()
                b.counts(f'cells{k}', h, np.concatenate([q, q[::-1]]))
            # neighbours are independent
            b.mean('lag', w[1:] * w[:-1], np.zeros(3), var=1., tol=1e-4)
            rec.evals += L
        two_stage(rec, sim, s['seed'], boost=5, kind='sampler')
        return
    if s['kind'] == 'density':
        for _ in range(20):
            p = o.m + 1.5 * r.normal(size=2) @ np.linalg.cholesky(o.cov).T
            y = o.em(p) + 1.5 * np.sqrt(xi) * r.normal()
            p, y = p.astype(f0), f0(y)
            pj, yj = jnp.asarray(p), jnp.asarray(y)
            p, y = p.astype(float), float(y)
            near(c.emission(pj, psi), o.em(p), tol, f'{what}: emission', 'density')
            near(c.log_prior_pdf(pj), o.prior(p), tol * 5, f'{what}: log prior', 'density')
            near(c.log_cond_pdf_likelihood(yj, pj), o.lik(y, p), tol * 5, f'{what}: log likelihood', 'density')
            near(c.score(jnp.concatenate([pj, yj[None]])), o.score(p, y), 1e-4 if not s['x64'] else 1e-5, f'{what}: score', 'score')
            rec.evals += 1
        z = jnp.asarray(r.normal(size=(3, 2, 3)), f0)
        a, b = c.unpack(z)
        if not (np.array_equal(a, z[..., :2]) and np.array_equal(b, z[..., 2])):
            raise Violation('unpack', f'{what}: unpack does not split the triples')
        return
    if s['kind'] == 'posterior':
        for _ in range(3):
            n1, n2 = s['n1'], s['n2']
            u = np.sinh(np.linspace(-1.5, 1.5, n1)) / np.sinh(1.5) if s['irregular'] else np.linspace(-1, 1, n1)
            v = np.linspace(-1, 1, n2)
            sd = np.sqrt(np.diag(o.cov))
            gx, gy = o.m[0] + 5 * sd[0] * u, o.m[1] + 5 * sd[1] * v
            mesh = np.stack(np.meshgrid(gx, gy), -1).astype(f0)
            y = f0(o.em(o.m + .7 * sd) + r.normal())
            got = np.asarray(c.posterior(jnp.asarray(mesh), jnp.asarray(y)), float)
            m = mesh.astype(float)
            e = np.exp(o.prior(m) + o.lik(float(y), m))
            z = np.trapz(np.trapz(e, m[:, 0, 1], axis=0), m[0, :, 0])
            near(got, e / z, 5e-4 if not s['x64'] else 1e-7, f'{what}: posterior on a {n1} by {n2} mesh', 'posterior')
            rec.evals += 1
        return
    # Metropolis chains that start from exact joint draws stay exact: joint law of (phi, y) under updates of phi given y
    steps = s['steps']

    def logp(p, y):
        return c.log_prior_pdf(p) + c.log_cond_pdf_likelihood(y, p)

    def chain(key, p, y):
        def body(p, k):
            k1, k2 = jax.random.split(k)
            q = p + s['step'] * jax.random.normal(k1, (2,), dtype=p.dtype)
            a = jnp.log(jax.random.uniform(k2)) < logp(q, y) - logp(p, y)
            return jnp.where(a, q, p), None
        return jax.lax.scan(body, p, jax.random.split(key, steps))[0]
    f = jax.jit(jax.vmap(chain))

    def sim(b, seed):
        k1, k2 = subseed(seed, 1), subseed(seed, 2)
        xs, ys = c.sampler(prng.keys(k1), L)
        x = np.asarray(f(prng.keys(k2, L), xs, ys), float)
        ys = np.asarray(ys, float)
        w = np.linalg.solve(np.linalg.cholesky(o.cov), (x - o.m).T).T
        w = np.concatenate([w, ((ys - o.em(x)) / np.sqrt(xi))[:, None]], 1)
        b.mean('mean', w, np.zeros(3), var=1., tol=1e-4)
        i, j = np.triu_indices(3)
        b.mean('cov', w[:, i] * w[:, j] - (i == j), np.zeros(6), var=1. + (i == j), tol=1e-4)
        rec.evals += L
        rec.simtime += L * steps
    two_stage(rec, sim, s['seed'], boost=5, kind='chain')


def plan(tier, rng):
    m = 1 if tier == 'quick' else 20
    out = []

    def add(kind, **kw):
        s = dict(kind=kind, default=0, prior=rng.choice([0, 1, 2]), x64=rng.randrange(2), L=100000, jit=rng.randrange(2),
                 n1=rng.choice([31, 60]), n2=rng.choice([31, 47]), irregular=rng.randrange(2), steps=20, step=.7, cost=1.)
        s.update(kw)
        s['group'] = str(len(out) % 16)
        out.append(s)
    for _ in range(m):
        for kind in ('law', 'density', 'posterior', 'chain'):
            kw = dict(L=40000) if kind == 'chain' else {}
            add(kind, default=1, prior=0, **kw)
            for p in (0, 1, 2, 2):
                add(kind, prior=p, **kw)
    return out


def shrink(s):
    for k, v in (('prior', 0), ('irregular', 0), ('steps', 1)):
        if s[k] > v:
            yield dict(s, **{k: v})
