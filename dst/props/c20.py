"""C20  The Gaussian-process experiments: the model handed to the samplers is the one whose exact posterior is stored, every stored
draw is one application of the sampler, and runs that are compared share their data."""
import inspect
import os
import tempfile
import numpy as np
import jax
import jax.numpy as jnp
from dst import driver
from dst.core import Violation, rng_of, subseed
from dst.stats import two_stage

PROP = 'C20'
RULE = ('a scenario is one experiment program run with a recording sampler for several ids, all programs run for one comparison, '
        'a whole run with its real sampler, or a run crashed at the write of its result and repeated; non-trivial: at least one '
        'result file was judged')
REAL = ['experiments/toy/gp_{filter,gibbs,pmcmc,twisted,csgm}.py and experiments/sb/{filter,gibbs}.py (unmodified)',
        'fbs.samplers (in the whole runs)', 'fbs.sdes']
STUB = ['the samplers (recording stand-ins, except in the whole runs)', 'numpy.savez (simulated disk in a scratch directory)']
STATE = 'distinct (program, options, id)'
ASSUMPTIONS = ['the samplers and the Euler-Maruyama simulator are called through the names that fbs exports',
               'whole runs are compared with the posterior coarsely (half a standard deviation)']
SCRIPTS = ['toy/gp_filter.py', 'toy/gp_gibbs.py', 'toy/gp_pmcmc.py', 'toy/gp_twisted.py', 'toy/gp_csgm.py', 'sb/filter.py',
           'sb/gibbs.py']
NAMES = {'bootstrap_filter': ['fbs.samplers', 'fbs.samplers.smc', 'fbs.samplers.gibbs'],
         'bootstrap_backward_smoother': ['fbs.samplers.smc'], 'pmcmc_kernel': ['fbs.samplers', 'fbs.samplers.smc'],
         'twisted_smc': ['fbs.samplers', 'fbs.samplers.smc'], 'gibbs_kernel': ['fbs.samplers', 'fbs.samplers.gibbs'],
         'euler_maruyama': ['fbs.sdes', 'fbs.sdes.simulators'],
         'make_gaussian_bw_sb': ['fbs.sdes', 'fbs.sdes.linear']}


# ----- the model, in float64 -----
def gram(d):
    z = np.linspace(0., 5., d)
    return np.exp(-np.abs(z[:, None] - z[None, :]))


class Toy:
    T, K = 1., 200

    def __init__(self, d, sde):
        self.d, self.sde, self.R = d, sde, 1.
        self.C = gram(d)
        self.J = np.block([[self.C, self.C], [self.C, self.C + self.R * np.eye(d)]])
        self.dt = self.T / self.K

    def beta(self, t):
        return .02 + (4. - .02) * t if self.sde == 'lin' else 1.

    def FQ(self, t, s=0.):
        i = (.02 * t + 1.99 * t * t) - (.02 * s + 1.99 * s * s) if self.sde == 'lin' else t - s
        return np.exp(-.5 * i), 1 - np.exp(-i)

    def marg(self, t):
        F, Q = self.FQ(t)
        return np.zeros(2 * self.d), F ** 2 * self.J + Q * np.eye(2 * self.d)

    def fdrift(self, z, t):
        return -.5 * self.beta(t) * z

    def b2(self, t):
        return self.beta(t)

    def reverse(self, z, t):
        """drift of the reversed process at reversed time t, for rows z"""
        m, S = self.marg(self.T - t)
        return -self.fdrift(z, self.T - t) - self.b2(self.T - t) * np.linalg.solve(S, (z - m).T).T

    def ref(self):
        return self.marg(self.T)

    def posterior(self, y0):
        G = np.linalg.solve(self.C + self.R * np.eye(self.d), self.C).T
        return G @ y0, self.C - G @ self.C


class Bridge(Toy):
    """The Schroedinger bridge with a Brownian reference between the joint law and a Gaussian reference."""
    K = 100

    def __init__(self, d, m1, S1):
        super().__init__(d, 'const')
        self.R = .1
        self.J = np.block([[self.C, self.C], [self.C, self.C + self.R * np.eye(d)]])
        self.dt = 1. / self.K
        self.m1, self.S1 = np.asarray(m1, float), np.asarray(S1, float)
        w, V = np.linalg.eigh(self.J)
        r, ri = (V * np.sqrt(w)) @ V.T, (V / np.sqrt(w)) @ V.T
        w, V = np.linalg.eigh(4 * r @ self.S1 @ r + np.eye(2 * d))
        self.X = .5 * (r @ ((V * np.sqrt(w)) @ V.T) @ ri - np.eye(2 * d))      # Cov(z0, z1)

    def marg(self, t):
        S = (1 - t) ** 2 * self.J + t * t * self.S1 + t * (1 - t) * (self.X + self.X.T + np.eye(2 * self.d))
        return t * self.m1, S

    def fdrift(self, z, t):
        m, S = self.marg(t)
        # E[z1 | z_t] of the mixture of Brownian bridges
        c = (1 - t) * self.X.T + t * self.S1
        e = self.m1 + (c @ np.linalg.solve(S, (z - m).T)).T
        if 1 - t < 1e-9:
            # the limit
            q = (1 - t) * self.J + t * self.X
            p = t * self.S1 + (1 - t) * self.X.T
            return self.m1 + ((p - q - t * np.eye(2 * self.d)) @ np.linalg.solve(S, (z - m).T)).T
        return (e - z) / (1 - t)

    def b2(self, t):
        return 1.

    def ref(self):
        return self.m1, self.S1


# ----- the recording samplers -----
class Spy:
    def __init__(self, real=(), fast=False):
        self.fast = fast
        self.calls, self.log, self.spied = {}, [], set()
        import fbs.sdes, fbs.samplers  # noqa
        import importlib
        self.real = {}
        self.patch = []
        for n, mods in NAMES.items():
            ms = [importlib.import_module(m) for m in mods]
            ms = [m for m in ms if hasattr(m, n)]
            if not ms or n in real:
                continue
            self.real[n] = getattr(ms[0], n)
            f = self.wrap(n)
            for m in ms:
                if getattr(m, n) is self.real[n]:
                    self.patch.append((m.__name__, n, f))

    def wrap(self, n):
        sig = inspect.signature(self.real[n])

        def f(*a, **kw):
            b = sig.bind(*a, **kw)
            b.apply_defaults()
            self.spied.add(n)
            self.calls.setdefault(n, []).append(list(b.arguments.values()))
            return getattr(self, n)(*b.arguments.values())
        return f

    def note(self, tag, **arrs):
        names = sorted(arrs)

        def cb(*v):
            self.log.append((tag, dict(zip(names, [np.array(x) for x in v]))))
        jax.debug.callback(cb, *[arrs[k] for k in names])

    def make_gaussian_bw_sb(self, *a):
        return self.real['make_gaussian_bw_sb'](*a)

    def bootstrap_filter(self, tr, lik, vs, ts, init, key, n, res, log, last, kw):
        d = vs.shape[-1]
        k1, k2 = jax.random.split(key)
        us = jax.random.normal(k1, (n, d)) + jnp.arange(n)[:, None] * 100.
        nell = jnp.sum(vs * jnp.arange(1., 1 + vs.shape[0])[:, None])
        self.note('filter', key=jax.random.key_data(key) if jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key, vs=vs,
                  us=us, nell=nell)
        if last:
            return us, nell
        return jnp.concatenate([jnp.zeros((vs.shape[0] - 1, n, d)), us[None]]) + jax.random.normal(k2, (vs.shape[0], n, 1)), \
            jnp.full((vs.shape[0],), nell)

    def bootstrap_backward_smoother(self, key, uss, vs, ts, tr, args, lik, *a):
        out = uss[:, 0] * 0 + jax.random.normal(key, (uss.shape[0], uss.shape[2]))
        self.note('smoother', key=key, uss=uss, vs=vs, out=out)
        return out

    def gibbs_kernel(self, key, x0, y0, us, bs, ts, *a):
        k1, k2, k3 = jax.random.split(key, 3)
        us2 = jnp.tanh(us) + jax.random.normal(k1, us.shape)
        bs2 = jax.random.randint(k2, bs.shape, 0, 3).astype(bs.dtype)
        out = us2[-1]
        acc = jax.random.bernoulli(k3, shape=bs.shape)
        self.note('gibbs', key=key, x0=x0, y0=y0, us=us, bs=bs, out=out, us2=us2, bs2=bs2)
        return out, us2, bs2, acc

    def pmcmc_kernel(self, key, uT, ell, ys, y0, *a):
        from fbs.samplers.smc import MCMCState
        k1, k2, k3 = jax.random.split(key, 3)
        out = jnp.tanh(uT) + jax.random.normal(k1, uT.shape)
        ell2, ys2 = jax.random.normal(k2, jnp.shape(ell)), jax.random.normal(k3, ys.shape)
        self.note('pmcmc', key=key, x0=uT, ell=ell, ys=ys, y0=y0, out=out, ell2=ell2, ys2=ys2)
        return out, ell2, ys2, MCMCState(**{f: jnp.asarray(.5) for f in MCMCState._fields})

    def twisted_smc(self, key, y, ts, init, tr, tw, ps, pl, res, n, *a):
        k1, k2 = jax.random.split(key)
        us = jax.random.normal(k1, (n, y.shape[0])) + jnp.arange(n)[:, None] * 100.
        j = jax.random.randint(k2, (), 0, n)
        lw = jnp.where(jnp.arange(n) == j, 0., -jnp.inf)
        self.note('twisted', key=key, y0=y, us=us, j=j)
        return us, lw

    def euler_maruyama(self, key, x0, ts, drift, dispersion, nsub, path):
        if self.fast and path:
            return jnp.broadcast_to(x0, (len(ts), *x0.shape))
        if x0.ndim != 1 or path:
            return self.real['euler_maruyama'](key, x0, ts, drift, dispersion, nsub, path)
        out = x0 + jax.random.normal(key, x0.shape)
        self.note('em', key=key, x0=x0, out=out)
        return out


# ----- running a program -----
def conf(s):
    sc = s['script']
    a = [f"--d={s['d']}", f"--nsamples={s['nsamples']}", f"--id={s['id']}"]
    if 'csgm' not in sc:
        a.append(f"--nparticles={s['N']}")
    if sc.startswith('toy'):
        a.append(f"--sde={s['sde']}")
        k = sc[7:-3]
        if k == 'gibbs':
            a += [f'--nchains={s["nchains"]}'] + [f'--{o}' for o, on in
                                                   (('explicit_backward', s['eb']), ('explicit_final', s['ef']), ('marg', s['marg'])) if on]
            k += ('-eb' if s['eb'] else '') + ('-ef' if s['ef'] else '') + ('-marg' if s['marg'] else '')
        if k == 'pmcmc':
            a += [f'--nchains={s["nchains"]}', f"--delta={s['delta']}"]
            k += f"-{float(s['delta'])}"
        name = f"toy/results/{k}-{s['sde']}" + ('' if k == 'csgm' else f"-{s['N']}") + f"-{s['id']}.npz"
    else:
        if 'gibbs' in sc:
            a += ['--explicit_backward'] if s['eb'] else []
            k = 'gibbs' + ('-eb' if s['eb'] else '')
        else:
            a.append(f"--x0={s['x0']}")
            k = f"filter-{s['x0']}"
        name = f"sb/results/{k}-{s['N']}-{s['id']}.npz"
    return a, name


def launch(s, cwd, spy=None, fs=None):
    a, name = conf(s)
    fs = fs or driver.FS(cwd)
    _, crashed = driver.run(s['script'], a, cwd, fs=fs, patches=spy.patch if spy else ())
    jax.effects_barrier()
    return name, crashed, fs


def load(s, cwd, name):
    what = f"{s['script']} {' '.join(conf(s)[0])}"
    if not os.path.exists(f'{cwd}/{name}'):
        raise Violation('missing', f'{what}: no result {name}; there is {sorted(os.listdir(os.path.dirname(cwd + "/" + name)))}')
    z = np.load(f'{cwd}/{name}')
    for k in ('samples', 'gp_mean', 'gp_cov'):
        if k not in z.files:
            raise Violation('missing', f'{what}: the result has no {k}')
    X = z['samples']
    shape = (s['nsamples'], s['d'])
    if s['script'] in ('toy/gp_gibbs.py', 'toy/gp_pmcmc.py'):
        shape = (s['nchains'], *shape)
    if X.shape != shape:
        raise Violation('shape', f'{what}: samples of shape {X.shape} instead of {shape}')
    if not np.isfinite(X).all():
        raise Violation('finite', f'{what}: samples are not finite')
    C = gram(s['d'])
    R = 1. if s['script'].startswith('toy') else .1
    S = C + R * np.eye(s['d'])
    y0 = S @ np.linalg.solve(C, z['gp_mean'].astype(float))
    cov = C - C @ np.linalg.solve(S, C)
    if np.abs(z['gp_cov'] - cov).max() > 1e-4:
        raise Violation('posterior', f'{what}: the stored posterior covariance is off by {np.abs(z["gp_cov"] - cov).max():.2g}')
    return X, y0, z['gp_mean'], cov, what


def layout(d):
    for p in ('toy/results', 'sb/results'):
        os.makedirs(f'{d}/{p}')
    return d


def near(a, b, what, tol=2e-3, kind='model'):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation(kind, f'{what}: shape {a.shape} instead of {b.shape}')
    e = np.abs(a - b) - tol * (1 + np.abs(b))
    if not (e <= 0).all():
        i = np.unravel_index(np.argmax(np.where(np.isnan(e), np.inf, e)), e.shape) if a.ndim else ()
        raise Violation(kind, f'{what}: {a[i]:.5g} instead of {b[i]:.5g}')


# ----- judging a run with recording samplers -----
def spied(s, cwd, rec, batch=None):
    spy = Spy()
    name, _, _ = launch(s, cwd, spy)
    X, y0, gm, cov, what = load(s, cwd, name)
    rec.evals += 1
    rec.simtime += s['nsamples']
    rec.log(X)
    rec.state(s['script'], name, s['d'])
    log = {}
    for t, v in spy.log:
        log.setdefault(t, []).append(v)
    sc = s['script']

    def same_y(y):
        near(y, y0, f'{what}: the measurement handed to the sampler and that of the stored posterior', 5e-3, 'measurement')
    keys = [v['key'].tobytes() for t in log for v in log[t]]
    if len(set(keys)) != len(keys):
        raise Violation('keys', f'{what}: two sampler calls share a key')
    if 'filter' in log:
        for v in log['filter']:
            same_y(v['vs'][-1])
            if v['vs'].shape[0] != (200 if sc.startswith('toy') else 100) + 1:
                raise Violation('path', f"{what}: a path of {v['vs'].shape[0]} times")
    if sc.endswith('filter.py') and 'filter' in log:
        if len(log['filter']) != s['nsamples']:
            raise Violation('draws', f"{what}: {len(log['filter'])} filters for {s['nsamples']} samples")
        idx = []
        left = list(range(len(log['filter'])))
        for i, x in enumerate(X):     # the order of the calls is the order of the samples
            hit = [(j, k) for j in left for k in range(s['N']) if np.array_equal(log['filter'][j]['us'][k], x.astype(np.float32))]
            if not hit:
                raise Violation('draws', f'{what}: sample {i} is not a particle of a filter of its own')
            left.remove(hit[0][0])
            idx.append(hit[0][1])
        if batch is not None:
            batch.counts(f"particle-{s['N']}", np.bincount(idx, minlength=s['N']), np.full(s['N'], 1 / s['N']))
    if 'twisted' in log:
        if len(log['twisted']) != s['nsamples']:
            raise Violation('draws', f"{what}: {len(log['twisted'])} filters for {s['nsamples']} samples")
        have = {v['us'][v['j']].tobytes() for v in log['twisted']}
        for i, x in enumerate(X):
            if x.astype(np.float32).tobytes() not in have:
                raise Violation('draws', f'{what}: sample {i} is not the particle that carries the weight')
        if len({x.tobytes() for x in X}) != len(X):
            raise Violation('draws', f'{what}: a sample is stored twice')
        for v in log['twisted']:
            same_y(v['y0'])
    if 'em' in log and 'csgm' in sc:
        have = [v['out'].tobytes() for v in log['em']]
        if sorted(have) != sorted(x.astype(np.float32).tobytes() for x in X):
            raise Violation('draws', f'{what}: the samples are not the ends of the simulated paths, each once')
    for tag in ('gibbs', 'pmcmc'):
        if tag in log:
            chains(s, what, tag, log, X, same_y)
    model(s, what, spy, y0, rng_of(s['seed'], s['id'], 'points'), rec)
    return name, y0


def chains(s, what, tag, log, X, same_y):
    """each chain: every state is the input of the next application, its output is the stored sample"""
    X = X if X.ndim == 3 else X[None]
    calls = log[tag]
    n = X.shape[0]
    if len(calls) != n * s['nsamples']:
        raise Violation('draws', f'{what}: {len(calls)} applications of the kernel for {n} chains of {s["nsamples"]} samples')
    byout = {v['out'].tobytes(): v for v in calls}
    if len(byout) != len(calls):
        raise Violation('draws', f'{what}: chains coincide')
    state = (('x0', 'out'), ('us', 'us2'), ('bs', 'bs2')) if tag == 'gibbs' else (('x0', 'out'), ('ell', 'ell2'), ('ys', 'ys2'))
    firsts = []
    for c in range(n):
        prev = None
        for i in range(s['nsamples']):
            v = byout.get(X[c, i].astype(np.float32).tobytes())
            if v is None:
                raise Violation('draws', f'{what}: chain {c} sample {i} is not the output of an application of the kernel')
            same_y(v['y0'])
            if prev is None:
                firsts.append(v)
            elif any(not np.array_equal(v[a], prev[b]) for a, b in state):
                raise Violation('chain', f'{what}: application {i} of chain {c} does not start from the state that the previous '
                                         f'one returned')
            prev = v
    if tag == 'pmcmc':
        for c, v in enumerate(firsts):
            m = [f for f in log.get('filter', []) if np.array_equal(f['vs'][::-1], v['ys'])]
            if 'filter' in log and not m:
                raise Violation('initial', f'{what}: chain {c} starts from a path that was not filtered')
            for f in m[:1]:
                near(v['ell'], -f['nell'], f'{what}: initial log likelihood of chain {c}', 1e-4, 'initial')
                if not any(np.array_equal(u, v['x0']) for u in f['us']):
                    raise Violation('initial', f'{what}: chain {c} starts from no particle of its filter')
    if tag == 'gibbs' and 'smoother' in log:
        for c, v in enumerate(firsts):
            m = [f for f in log['smoother'] if np.array_equal(f['out'], v['us'])]
            if not m or not np.array_equal(v['x0'], v['us'][-1]):
                raise Violation('initial', f'{what}: chain {c} starts from an x0 that is not the end of its smoothed path')
            if not any(np.array_equal(f['vs'], m[0]['vs']) for f in log['filter']):
                raise Violation('initial', f'{what}: the smoother of chain {c} sees another observation path than its filter')


def norm_logpdf(x, m, sd):
    return (-.5 * ((x - m) / sd) ** 2 - np.log(sd) - .5 * np.log(2 * np.pi)).sum(-1)


def whiten(x, m, S):
    return np.linalg.solve(np.linalg.cholesky(S), (np.asarray(x, float) - m).T).T


def law(rec, seed, draw, what, corr=True):
    """draw(seed) -> rows that are standard normal"""
    def sim(b, sd):
        w = draw(sd)
        b.mean('mean', w, np.zeros(w.shape[1]), var=1., tol=3e-3)
        i, j = np.triu_indices(w.shape[1])
        p = w[:, i] * w[:, j] - (i == j)
        b.mean('cov', p, np.zeros(p.shape[1]), var=1. + (i == j), tol=1e-2)
    try:
        two_stage(rec, sim, seed, boost=4)
    except Violation as v:
        raise Violation('model-law', f'{what}: {v.message}')


def model(s, what, spy, y0, r, rec):
    """the callables handed to the samplers, against the model of the stored posterior"""
    d, N = s['d'], s['N']
    if s['script'].startswith('sb'):
        if 'make_gaussian_bw_sb' not in spy.calls:
            return
        m0, c0, m1, c1, sig = spy.calls['make_gaussian_bw_sb'][0]
        o = Bridge(d, np.asarray(m1), np.asarray(c1))
        near(m0, np.zeros(2 * d), f'{what}: initial mean of the bridge')
        near(c0, o.J, f'{what}: initial covariance of the bridge')
        if float(sig) != 1. or np.linalg.eigvalsh(o.S1)[0] < 1e-3:
            rec.probe('singular_reference')
            return
        tolx = 1e-2 * max(1., 1e-2 / np.linalg.eigvalsh(o.S1)[0] ** .5)
    else:
        o = Toy(d, s['sde'])
        tolx = 3e-3
    g = np.random.default_rng(subseed(s['seed'], s['id'], 'points'))
    get = {}
    for n, c in spy.calls.items():
        c = c[0]
        if n == 'bootstrap_filter':
            get.update(tr=c[0], lik=c[1], ts=c[3], ref=c[4], N=c[6])
        elif n == 'bootstrap_backward_smoother':
            get.update(trp=c[4], lik2=c[6])
        elif n == 'gibbs_kernel':
            get.update(ts=c[5], fwd=c[6], unpack=c[8], N=c[9], tr2=c[10], trp2=c[11], lik3=c[12], flags=(c[13], c[14], c[15]))
        elif n == 'pmcmc_kernel':
            get.update(ts=c[5], fwdy=c[6], ref2=c[8], tr2=c[9], lik3=c[10], N=c[12], delta=c[13])
        elif n == 'twisted_smc':
            get.update(ts=c[2], init=c[3], tws=c[4:8], N=c[9])
        elif n == 'euler_maruyama' and 'csgm' in s['script']:
            get.update(ts=c[2], drift=c[3], disp=c[4])
    if 'ts' in get:
        near(get['ts'], np.linspace(0, o.T, o.K + 1), f'{what}: times', 1e-5)
    if 'N' in get and int(get['N']) != N:
        raise Violation('options', f"{what}: {get['N']} particles")
    if 'flags' in get:
        want = (bool(s['marg']), bool(s['eb']), bool(s['ef'])) if s['script'].startswith('toy') else (False, bool(s['eb']), False)
        if tuple(map(bool, get['flags'])) != want:
            raise Violation('options', f"{what}: the kernel runs with (marg_y, explicit_backward, explicit_final) = {get['flags']}")
    if 'delta' in get and (get['delta'] is None or abs(float(get['delta']) - float(s['delta'])) > 1e-7):
        raise Violation('options', f"{what}: delta = {get['delta']}")
    ks = sorted({0, 1, o.K // 2, o.K - 1, r.randrange(o.K)})
    sd_of = lambda t: np.sqrt(o.dt * o.b2(o.T - t))  # noqa
    f32 = lambda x: jnp.asarray(x, jnp.float32)  # noqa
    for k in ks:
        t = k * o.dt
        m, S = o.marg(o.T - t)
        L = np.linalg.cholesky(S)
        z = (m + g.normal(size=(N, 2 * d)) @ L.T).astype(np.float32).astype(float)
        v = z[0, d:]
        z[:, d:] = v
        tt = jnp.asarray(t, jnp.float32)
        if not ({'tr', 'tr2', 'trp', 'trp2', 'lik', 'lik2', 'lik3'} & set(get)):
            break
        nxt = z + o.dt * o.reverse(z, t)
        sd = sd_of(t)
        u1, v1 = (nxt[0, :d] + sd * g.normal(size=d)).astype(np.float32), (nxt[0, d:] + sd * g.normal(size=d)).astype(np.float32)
        scale = np.abs(nxt[:, :] - z).max() / sd
        for f in ('trp', 'trp2'):
            if get.get(f) is not None:
                near(get[f](f32(u1), f32(z[:, :d]), f32(v), tt), norm_logpdf(u1, nxt[:, :d], sd),
                     f'{what}: transition density at step {k}', tolx * (2 + scale))
        for f in ('lik', 'lik2', 'lik3'):
            if get.get(f) is not None:
                near(get[f](f32(v1), f32(z[:, :d]), f32(v), tt), norm_logpdf(v1, nxt[:, d:], sd),
                     f'{what}: likelihood at step {k}', tolx * (2 + scale))
        for f in ('tr', 'tr2'):
            if get.get(f) is not None:
                big = np.repeat(z, -(-2000 // N), 0)
                mm = np.repeat(nxt[:, :d], -(-2000 // N), 0)
                law(rec, subseed(s['seed'], s['id'], f, k),
                    lambda q: (np.asarray(get[f](f32(big[:, :d]), f32(v), tt, jax.random.PRNGKey(q)), float) - mm) / sd,
                    f'{what}: transition sampler at step {k}')
    mr, Sr = o.ref()
    yT = (mr[d:] + .7 * g.normal(size=d)).astype(np.float32)
    G = np.linalg.solve(Sr[d:, d:], Sr[d:, :d]).T
    cm, cS = mr[:d] + G @ (yT - mr[d:]), Sr[:d, :d] - G @ Sr[d:, :d]
    for f in ('ref', 'ref2'):
        if get.get(f) is not None:
            law(rec, subseed(s['seed'], s['id'], f),
                lambda q: whiten(get[f](jax.random.PRNGKey(q), f32(yT), 2000), cm, cS), f'{what}: reference sampler')
            # under common random numbers the mean moves exactly with the observation
            y2 = (yT + 3 * g.normal(size=d)).astype(np.float32)
            move = np.asarray(get[f](jax.random.PRNGKey(5), f32(y2), 50), float) - np.asarray(
                get[f](jax.random.PRNGKey(5), f32(yT), 50), float)
            if np.ptp(move, 0).max() < 1e-4:
                near(move.mean(0), G @ (y2 - yT), f'{what}: move of the reference with the observation', tolx / 10, 'model-law')
    if 'fwd' in get:
        x = g.normal(size=d).astype(np.float32)
        P = np.asarray(get['fwd'](jax.random.PRNGKey(subseed(s['seed'], s['id'])), f32(x), f32(y0)), float)
        if P.shape != (o.K + 1, 2 * d) or not np.allclose(P[0], np.concatenate([x, np.asarray(y0, np.float32)]), atol=1e-6):
            raise Violation('forward', f'{what}: the forward path does not start from the pair')
        a, b = get['unpack'](f32(P))
        if not np.array_equal(np.concatenate([a, b], -1), P.astype(np.float32)) or a.shape != b.shape:
            raise Violation('forward', f'{what}: unpack does not split the pair')
        if isinstance(o, Toy) and not isinstance(o, Bridge):
            forward_law(s, what, o, lambda q: get['fwd'](jax.random.PRNGKey(q), f32(x), f32(y0)), rec, 2 * d)
    if 'fwdy' in get:
        P = np.asarray(get['fwdy'](jax.random.PRNGKey(1), f32(y0)), float)
        near(P[0], np.asarray(y0), f'{what}: start of the observation path', 1e-5)
        forward_law(s, what, o, lambda q: get['fwdy'](jax.random.PRNGKey(q), f32(y0)), rec, d)
    if 'fwd' not in get and 'fwdy' not in get and not isinstance(o, Bridge):
        vs = [v['vs'][::-1] for tag, v in spy.log if tag == 'filter']
        if vs:
            it = iter(vs * 50)
            forward_law(s, what, o, lambda q: next(it), rec, d, once=vs)
    if 'tws' in get:
        twisted(s, what, o, get, y0, g, rec)
    if 'drift' in get:
        pm, pc = o.posterior(y0)
        for k in ks:
            t = k * o.dt
            F, Q = o.FQ(o.T - t)
            S = F * F * pc + Q * np.eye(d)
            u = (F * pm + g.normal(size=d) @ np.linalg.cholesky(S).T).astype(np.float32)
            want = .5 * o.beta(o.T - t) * u - o.b2(o.T - t) * np.linalg.solve(S, u - F * pm)
            near(get['drift'](f32(u), jnp.asarray(t, jnp.float32)), want, f'{what}: conditional reverse drift at step {k}', .02)
            near(get['disp'](t), np.sqrt(o.b2(o.T - t)), f'{what}: reverse dispersion at step {k}', 1e-4)
        F, Q = o.FQ(o.T)
        x0s = np.stack([v['x0'] for t_, v in spy.log if t_ == 'em'])
        w = whiten(x0s, F * pm, F * F * pc + Q * np.eye(d))
        if len(w) >= 30 and (np.abs(w.mean(0)) > 6 / np.sqrt(len(w))).any():
            raise Violation('model-law', f'{what}: the reference draws have whitened mean {w.mean(0)}')
        if len(w) >= 30 and (np.abs((w ** 2).mean() - 1) > 7 * np.sqrt(2 / w.size)):
            raise Violation('model-law', f'{what}: the reference draws have whitened variance {(w ** 2).mean():.3f}')


def forward_law(s, what, o, draw, rec, dim, once=None):
    def white(P):
        P = np.asarray(P, float)
        out = []
        for k in range(o.K):
            F, Q = o.FQ((k + 1) * o.dt, k * o.dt)
            out.append((P[k + 1] - F * P[k]) / np.sqrt(Q))
        return np.stack(out)
    if once is not None:
        w = np.concatenate([white(P) for P in once])
        n = w.size
        if abs(w.mean()) > 6 / np.sqrt(n) + 5e-3 or abs((w ** 2).mean() - 1) > 6 * np.sqrt(2 / n) + .02:
            raise Violation('model-law', f'{what}: the increments of the observation paths have whitened mean {w.mean():.3f}, '
                                         f'variance {(w ** 2).mean():.3f}')
        return
    law(rec, subseed(s['seed'], s['id'], 'fwd', dim), lambda q: np.concatenate([white(draw(subseed(q, i))) for i in range(8)]),
        f'{what}: forward path')


def twisted(s, what, o, get, y0, g, rec):
    d, N = s['d'], s['N']
    tr, tw, ps, pl = get['tws']
    f32 = lambda x: jnp.asarray(x, jnp.float32)  # noqa
    F, Q = o.FQ(o.T)
    law(rec, subseed(s['seed'], s['id'], 'init'),
        lambda q: whiten(get['init'](jax.random.PRNGKey(q), 2000), np.zeros(d), F * F * o.C + Q * np.eye(d)),
        f'{what}: initial sampler')
    for k in (1, o.K // 2, o.K - 1):
        t = k * o.dt
        F, Q = o.FQ(o.T - t)
        S = F * F * o.C + Q * np.eye(d)
        b2 = o.b2(o.T - t)
        sd = np.sqrt(o.dt * b2)
        u = (g.normal(size=(N, d)) @ np.linalg.cholesky(S).T).astype(np.float32)
        m = u + o.dt * (.5 * b2 * u - b2 * np.linalg.solve(S, u.T).T)
        x = (m + sd * g.normal(size=(N, d))).astype(np.float32)
        tt = jnp.asarray(t, jnp.float32)
        near(tr(f32(x), f32(u), tt), norm_logpdf(x, m, sd), f'{what}: transition density at step {k}', 1e-2)
        # the proposal density is that of the proposal sampler: one particle repeated; its mean from the density
        def pdf(x_):
            return pl(x_, f32(np.repeat(u[:1], N, 0)), tt, f32(y0)).sum()
        at = f32(np.repeat(m[:1], N, 0))
        mean = np.asarray(at, float)[0] + sd ** 2 * np.asarray(jax.grad(pdf)(at), float)[0]
        got = np.asarray(pl(at, f32(np.repeat(u[:1], N, 0)), tt, f32(y0)), float)
        near(got[0], norm_logpdf(np.asarray(at, float)[0], mean, sd), f'{what}: normalisation of the proposal density', 2e-2)
        # it moves along the reverse drift, tilted by the gradient of the twisting function
        tilt = np.asarray(jax.grad(lambda u_: tw(f32(y0), u_, tt).sum())(f32(u)), float)[0]
        near(mean, m[0] + o.dt * b2 * tilt, f'{what}: mean of the proposal at step {k}', 2e-4, 'proposal')
        n = -(-1500 // N)
        us = f32(np.repeat(u[:1], N, 0))
        smp = jax.jit(lambda q: ps(q, us, tt, f32(y0)))
        law(rec, subseed(s['seed'], s['id'], 'prop', k),
            lambda q: (np.concatenate([np.asarray(smp(jax.random.PRNGKey(subseed(q, i))), float) for i in range(n)]) - mean) / sd,
            f'{what}: proposal sampler at step {k}, against its density')
    u = g.normal(size=(N, d)).astype(np.float32)
    near(tw(f32(y0), f32(u), jnp.asarray(o.T, jnp.float32)), norm_logpdf(np.asarray(y0), u.astype(float), 1.),
         f'{what}: final twisting function', .25)


# ----- scenarios -----
def run(s, rec):
    rec.event(*[f'{k}={s[k]}' for k in ('kind', 'script', 'd', 'N', 'sde', 'id')])
    with tempfile.TemporaryDirectory(prefix='vsim-gp-') as cwd:
        layout(cwd)
        {'spy': run_spy, 'ids': run_ids, 'cross': run_cross, 'whole': run_whole, 'crash': run_crash}[s['kind']](s, rec, cwd)


def run_spy(s, rec, cwd):
    spied(s, cwd, rec)


def run_ids(s, rec, cwd):
    """the law of the measurement over the ids"""
    C = gram(s['d'])
    S = C + (1. if s['script'].startswith('toy') else .1) * np.eye(s['d'])

    def sim(b, seed):
        r = rng_of(seed)
        w = []
        for i in r.sample(range(100000), s['nids']):
            name, _, _ = launch(dict(s, id=i), cwd, Spy(fast=True))
            _, y0, *_ = load(dict(s, id=i), cwd, name)
            w.append(whiten(y0, np.zeros(s['d']), S))
            rec.evals += 1
        w = np.stack(w)
        b.mean('mean', w, np.zeros(s['d']), var=1.)
        b.mean('scale', (w ** 2).mean(1) - 1, 0., var=2 / s['d'])
        e, V = np.linalg.eigh(S)
        for q in range(s['d'] - 1):
            b.mean(f'cov{q}', w[:, :-1 - q] * w[:, q + 1:], np.zeros(s['d'] - 1 - q), var=1.)
        b.mean('var', w ** 2 - 1, np.zeros(s['d']), var=2.)
    two_stage(rec, sim, s['seed'], boost=3, kind='measurement-law')


def neighbours(s):
    """the configurations that differ from s in one option of its program"""
    flip = dict(N=s['N'] + 2, id=s['id'] + 1)
    if s['script'].startswith('toy'):
        flip['sde'] = 'lin' if s['sde'] == 'const' else 'const'
    if s['script'] == 'toy/gp_gibbs.py':
        flip.update(eb=1 - s['eb'], ef=1 - s['ef'], marg=1 - s['marg'])
    if s['script'] == 'sb/gibbs.py':
        flip.update(eb=1 - s['eb'])
    if 'pmcmc' in s['script']:
        flip['delta'] = s['delta'] / 2
    if s['script'] == 'sb/filter.py':
        flip['x0'] = 'proper' if s['x0'] == 'heuristic' else 'heuristic'
    if 'csgm' in s['script']:
        del flip['N']
    return [dict(s, **{k: v}) for k, v in flip.items()]


def run_cross(s, rec, cwd):
    """one measurement per id for all programs and options; a result of its own for every configuration"""
    ref, files = {}, {}
    for sc in s['scripts']:
        t = dict(s, script=sc, **s['variants'][SCRIPTS.index(sc) % len(s['variants'])])
        near_ = neighbours(t)
        for q in [t] + (near_ if s['full'] else rng_of(s['seed'], sc).sample(near_, 2)):
            name, _, _ = launch(q, cwd, Spy(fast=True))
            _, y0, gm, _, what = load(q, cwd, name)
            rec.evals += 1
            rec.event('run', what)
            rec.state(tuple(conf(q)[0]))
            fam = sc[:3], q['id']
            if fam in ref:
                near(y0, ref[fam][0], f'{what}: its measurement and that of {ref[fam][1]}', 2e-3, 'comparison')
            else:
                ref[fam] = (y0, what)
            if name in files:
                raise Violation('overwritten', f'{what}: overwrote {name} of another configuration')
            for f, b in files.items():
                if open(f'{cwd}/{f}', 'rb').read() != b:
                    raise Violation('overwritten', f'{what}: overwrote {f}')
            have = os.listdir(f'{cwd}/{os.path.dirname(name)}')
            files[name] = open(f'{cwd}/{name}', 'rb').read()
            if len(have) > len([f for f in files if os.path.dirname(f) == os.path.dirname(name)]):
                raise Violation('files', f'{what}: left {sorted(have)}')


def run_whole(s, rec, cwd):
    name, _, _ = launch(s, cwd)
    X, y0, gm, cov, what = load(s, cwd, name)
    rec.evals += s['nsamples']
    rec.simtime += s['nsamples'] * 200
    rec.log(X)
    rec.state(s['script'], name, s['d'])
    flat = X.reshape(-1, *X.shape[-1:]) if X.ndim == 2 else X[:, X.shape[1] // 5:].reshape(-1, X.shape[-1])
    if X.ndim == 3:
        for a in range(len(X)):
            for b in range(a):
                if np.array_equal(X[a], X[b]):
                    raise Violation('draws', f'{what}: chains {a} and {b} coincide')
    sd = np.sqrt(np.diag(cov))
    dev = np.abs(flat.mean(0) - gm) / sd
    ratio = flat.var(0) / sd ** 2
    rec.event('deviation', np.round(dev, 3).tolist(), 'variance ratio', np.round(ratio, 3).tolist())
    if (dev > s['tol']).any():
        raise Violation('posterior', f'{what}: the samples have mean {np.round(flat.mean(0), 3).tolist()}, the posterior '
                                     f'{np.round(gm, 3).tolist()} with standard deviation {np.round(sd, 3).tolist()}')
    if (ratio > s['vmax']).any() or (ratio < s['vmin']).any():
        raise Violation('posterior', f'{what}: the samples have variance {np.round(flat.var(0), 3).tolist()}, the posterior '
                                     f'{np.round(sd ** 2, 3).tolist()}')


def run_crash(s, rec, cwd):
    name, _, _ = launch(s, cwd, Spy())
    want = open(f'{cwd}/{name}', 'rb').read()
    wantz = {k: v.copy() for k, v in np.load(f'{cwd}/{name}').items()}
    other = dict(s, id=s['id'] + 1)
    oname, _, _ = launch(other, cwd, Spy())
    ob = open(f'{cwd}/{oname}', 'rb').read()
    os.unlink(f'{cwd}/{name}')
    for torn in s['torn']:
        _, crashed, fs = launch(s, cwd, Spy(), driver.FS(cwd, crash_at=0, torn=bool(torn)))
        rec.fault('torn_write' if torn else 'crash_before_write', crashed)
        if not crashed:
            break
        if open(f'{cwd}/{oname}', 'rb').read() != ob:
            raise Violation('overwritten', f"{s['script']}: a crash while writing {name} damaged {oname}")
    launch(s, cwd, Spy())
    load(s, cwd, name)
    rec.evals += 1
    got = np.load(f'{cwd}/{name}')
    if sorted(got.files) != sorted(wantz) or any(not np.array_equal(got[k], wantz[k]) for k in wantz):
        raise Violation('reproducible', f"{s['script']}: running id {s['id']} again after crashes gives another result")
    rec.log(want)


def plan(tier, rng):
    m = 1 if tier == 'quick' else 10
    out = []

    def add(kind, cost, **kw):
        s = dict(kind=kind, script='toy/gp_filter.py', d=rng.choice([2, 3, 4]), N=rng.choice([3, 4, 7]), nsamples=4, nchains=3,
                 sde=rng.choice(['const', 'lin']), eb=rng.randrange(2), ef=rng.randrange(2), marg=rng.randrange(2),
                 delta=rng.choice([.01, .005, .3]), x0=rng.choice(['proper', 'heuristic']), id=rng.randrange(1000), cost=cost)
        s.update(kw)
        s['group'] = str(len(out))
        out.append(s)
    for _ in range(m):
        for sc in SCRIPTS:
            for sde in (('const', 'lin') if sc.startswith('toy') else ('const',)):
                add('spy', 6., script=sc, sde=sde, nsamples=2000 if 'csgm' in sc else 40 if 'filter' in sc else rng.choice([2, 5]),
                    d=rng.choice([2, 3, 5] if 'twisted' in sc else [1, 2, 3, 5]) if sc.startswith('toy') else 2)
        for sc in ('toy/gp_filter.py', 'sb/filter.py'):    # the other programs are compared with these ('cross')
            add('ids', 30., script=sc, d=6, nsamples=1, nids=60, nchains=2, N=2)
        for scs in (['toy/gp_gibbs.py', 'toy/gp_pmcmc.py'], ['toy/gp_filter.py', 'toy/gp_twisted.py', 'toy/gp_csgm.py'],
                    ['sb/filter.py', 'sb/gibbs.py']):
            add('cross', 20., scripts=['toy/gp_filter.py'] * ('toy/gp_gibbs.py' in scs) + scs, full=1, nsamples=2, nchains=2,
                variants=[dict(sde=rng.choice(['const', 'lin']), eb=rng.randrange(2), ef=rng.randrange(2), marg=rng.randrange(2),
                               delta=rng.choice([.01, .005]), x0=rng.choice(['proper', 'heuristic'])) for _ in range(3)])
        for _ in range(3):
            add('crash', 5., script=rng.choice(SCRIPTS), torn=[rng.randrange(2) for _ in range(rng.choice([1, 2]))])
        big = dict(d=2, N=20, nchains=4)
        add('whole', 12., script='toy/gp_filter.py', nsamples=400, tol=.5, vmin=.5, vmax=1.7, **big)
        add('whole', 25., script='toy/gp_gibbs.py', nsamples=200, tol=.6, vmin=.4, vmax=2., **big)
        add('whole', 15., script='toy/gp_pmcmc.py', nsamples=200, tol=1.5, vmin=.1, vmax=3., **dict(big, delta=.3))
        add('whole', 12., script='toy/gp_twisted.py', nsamples=400, tol=1., vmin=.2, vmax=3., **big)
        add('whole', 10., script='toy/gp_csgm.py', nsamples=800, tol=.3, vmin=.65, vmax=1.5, **big)
    return out


def shrink(s):
    for k, v in (('nsamples', 2), ('nchains', 2), ('N', 3), ('d', 1), ('nids', 20)):
        if k in s and s[k] > v and s['kind'] in ('spy', 'crash', 'cross'):
            yield dict(s, **{k: v})
    if s['kind'] == 'cross':
        for k in ('scripts',):
            if len(s[k]) > 1:
                for i in range(len(s[k])):
                    yield dict(s, **{k: s[k][:i] + s[k][i + 1:]})
