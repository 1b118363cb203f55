"""C23  The tables and figures report the stated statistics of exactly the runs they name."""
import io
import os
import re
import tempfile
import numpy as np
import jax
import jax.numpy as jnp
from dst import driver
from dst.core import Violation, rng_of

PROP = 'C23'
RULE = ('a scenario is one set of result files (all runs of all methods, with results of other configurations beside them, some '
        'missing, torn, or of another run) and one program that reads them, or pairs of Gaussians and the two measures of error; '
        'non-trivial: at least one printed or drawn number was judged')
REAL = ['experiments/tabulators/{tabulate_toy,plot_sb,plot_autocorrs_toy,plot_autocorrs_imgs,plot_pmcmc_trace,'
        'plot_toy_contours,tabulate_imgs,plot_imgs,plot_imgs_appendix,plot_sb_imgs,plot_sb_imgs_anime,plot_img_coalescence}.py',
        'experiments/sb_imgs/supr.py (the measurement of the animation)', 'fbs.utils.kl, bures_dist, sqrtm', 'numpyro, scipy.stats']
STUB = ['the figure (records what is drawn)', 'the result files (random samples)', 'PSNR, SSIM, LPIPS of skimage and lpips (a fast '
        'measure that identifies the two pictures)', 'the pictures (random)', 'the network of the coalescence figure (linear)']
STATE = 'distinct (program, configuration, fault)'
ASSUMPTIONS = ['the samples of a run have a covariance of full rank']


# ----- reference -----
def kl(m0, C0, m1, C1):
    P = np.linalg.inv(C1)
    return .5 * (np.trace(P @ C0) - len(m0) + (m1 - m0) @ P @ (m1 - m0) + np.linalg.slogdet(C1)[1] - np.linalg.slogdet(C0)[1])


def root(C):
    w, V = np.linalg.eigh(C)
    return (V * np.sqrt(np.maximum(w, 0))) @ V.T


def bures(m0, C0, m1, C1):
    # tr (C0^1/2 C1 C0^1/2)^1/2 is the nuclear norm of the product of the two Cholesky factors
    nuc = np.linalg.svd(np.linalg.cholesky(C0).T @ np.linalg.cholesky(C1), compute_uv=False).sum()
    return ((m0 - m1) ** 2).sum() + np.trace(C0) + np.trace(C1) - 2 * nuc


def errors(X, m, C):
    if X.ndim == 3:
        return np.mean([errors(x, m, C) for x in X], 0)
    a, S = X.mean(0), np.cov(X, rowvar=False).reshape(X.shape[1], X.shape[1])
    return np.array([kl(m, C, a, S), bures(m, C, a, S), np.abs(a - m).mean(), np.abs(np.diag(S - C)).mean()])


def autocorr(x):
    """x: (n, d); unbiased autocovariances over the variance"""
    n = len(x)
    c = x - x.mean(0)
    g = np.stack([(c[:n - k] * c[k:]).sum(0) / (n - k) for k in range(n)])
    return g / g[0]


def cov_of(g, d, spread=1.):
    q = np.linalg.qr(g.normal(size=(d, d)))[0]
    return (q * np.exp(g.uniform(-spread, spread, size=d))) @ q.T


# ----- the scratch results -----
class Axes:
    """records what is drawn"""

    def __init__(self, log, at=()):
        self.log, self.at = log, at

    def __getitem__(self, k):
        return Axes(self.log, self.at + (k if isinstance(k, tuple) else (k,)))

    def __iter__(self):
        return iter([self[i] for i in range(6)])

    def flatten(self):
        return [self[i] for i in range(12)]

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def call(*a, **kw):
            self.log.append((name, self.at, a, kw))
            return Axes([])
        return call


def draw(script, cwd, path=None):
    """-> what the script draws and prints, the files it read, and the exception it ends with"""
    import matplotlib
    log, out, read, err = [], io.StringIO(), [], None
    real = np.load

    def load(f, *a, **kw):
        read.append(os.path.relpath(os.path.join(cwd, os.fspath(f)), cwd))
        return real(f, *a, **kw)
    nop = lambda *a, **kw: None  # noqa
    mp = 'matplotlib.pyplot'
    with matplotlib.rc_context():
        try:
            driver.run(script, [], cwd, out=out, path=path, patches=[
                ('numpy', 'load', load), (mp, 'subplots', lambda *a, **kw: (Axes([]), Axes(log))), (mp, 'tight_layout', nop),
                (mp, 'show', nop), (mp, 'legend', nop), (mp, 'subplots_adjust', nop)])
        except Violation:
            raise
        except Exception as e:  # noqa
            err = e
    return log, out.getvalue(), read, err


def write(path, **kw):
    with open(path, 'wb') as f:
        np.savez(f, **kw)


def write1(path, a):
    with open(path, 'wb') as f:
        np.save(f, a)


def spoil(s, cwd, names, rec):
    """one of the files is missing, torn, or empty; -> its name"""
    if not s['fault']:
        return None
    name = names[rng_of(s['seed']).randrange(len(names))]
    p = f'{cwd}/{name}'
    rec.fault(f"result_{s['fault']}")
    if s['fault'] == 'missing':
        os.unlink(p)
    else:
        data = open(p, 'rb').read()
        with open(p, 'wb') as f:
            f.write(data[:len(data) // 2] if s['fault'] == 'torn' else b'')
    return name


def close(got, want, tol, what, kind='statistics'):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape or not (np.abs(got - want) <= tol * (1 + np.abs(want))).all():
        raise Violation(kind, f'{what}: {np.round(got, 4).tolist()} instead of {np.round(want, 4).tolist()}'[:1500])


def ended(err, bad, what):
    """a table over incomplete results must not appear"""
    if bad is None:
        if err is not None:
            raise Violation('exception', f'{what}: {type(err).__name__}: {err}')
    elif err is None:
        raise Violation('incomplete', f'{what}: completed although {bad} is missing or torn')


NUM = re.compile(r'(?<![\w.])[-+]?(?:\d+\.\d+(?:e[-+]?\d+)?|nan|inf)')


def configure(s, script, cwd):
    """-> (path of the copy of the program with the scenario's constants or None, whether to go on)"""
    if not s.get('conf'):
        return None, True
    path = driver.configured(f'tabulators/{script}.py', cwd, **s['conf'])
    return path, path is not None


# ----- scenarios -----
def gen(g, s, chains):
    d, n = s['d'], s['n']
    m, C = g.normal(size=d), cov_of(g, d)
    L = np.linalg.cholesky(cov_of(g, d, .6))
    shape = (s['nchains'], n) if chains else (n,)
    X = m + .3 * g.normal(size=d) + g.normal(size=(*shape, d)) @ L.T + (.5 * g.normal(size=(s['nchains'], 1, d)) if chains else 0.)
    return X.astype(s['dtype']), m.astype(s['dtype']), C.astype(s['dtype'])


def run_toy(s, rec, cwd):
    g = np.random.default_rng(s['seed'])
    path, go = configure(s, 'tabulate_toy', cwd)
    if not go:
        return
    c = dict(sde='const', nparticles=100, max_mcs=100) | (s.get('conf') or {})
    sde, N, K = c['sde'], c['nparticles'], c['max_mcs']
    heads = [f'filter-{sde}-{N}', f'gibbs-eb-{sde}-{N}', f'pmcmc-0.005-{sde}-{N}', f'pmcmc-0.001-{sde}-{N}', f'twisted-{sde}-{N}',
             f'csgm-{sde}']
    # results of other configurations, and of further ids, lie beside
    other = ['filter-lin-100', 'filter-const-10', 'gibbs-const-100', 'gibbs-eb-ef-const-100', 'gibbs-eb-const-10',
             'pmcmc-0.01-const-100', 'twisted-const-10', 'csgm-lin']
    other = [h for h in other if h not in heads]
    want, names = {}, []
    for h in heads + other:
        chains = 'gibbs' in h or 'pmcmc' in h
        es = []
        for i in range(K if h in heads else 3):
            X, m, C = gen(g, s, chains)
            write(f'{cwd}/toy/results/{h}-{i}.npz', samples=X, gp_mean=m, gp_cov=C)
            if h in heads:
                names.append(f'toy/results/{h}-{i}.npz')
                es.append(errors(X.astype(float), m.astype(float), C.astype(float)))
        X, m, C = gen(g, s, chains)
        write(f'{cwd}/toy/results/{h}-{K}.npz', samples=X + 100., gp_mean=m, gp_cov=C)
        if h in heads:
            es = np.stack(es)
            want[h] = np.stack([es.mean(0), es.std(0)], 1).ravel()
    bad = spoil(s, cwd, names, rec)
    _, out, read, err = draw('tabulators/tabulate_toy.py', cwd, path)
    what = f"tabulate_toy ({s['nchains']} chains, d = {s['d']}, {s['fault'] or 'all results present'}{', ' + str(s['conf']) if path else ''})"
    ended(err, bad, what)
    rows = {h: [ln for ln in out.splitlines() if h in ln] for h in heads}
    for h in heads:
        if bad and bad.startswith(f'toy/results/{h}-'):
            if rows[h]:
                raise Violation('incomplete', f'{what}: tabulated {h} although {bad} is damaged')
            break
        if len(rows[h]) != 1:
            raise Violation('rows', f'{what}: {len(rows[h])} rows for {h}')
        got = [float(x) for x in NUM.findall(rows[h][0].replace(h, ''))]
        tol = 1e-4 if s['dtype'] == 'float64' else 2e-3
        close(got, want[h], tol, f'{what}: KL, Bures, mean, variance errors of {h} (mean and deviation each)')
        rec.evals += 8 * K
        rec.state('toy', h, s['d'], s['nchains'], s['dtype'])
    rec.event(out)


def run_sb(s, rec, cwd):
    g = np.random.default_rng(s['seed'])
    N = [2, 4, 8, 16, 32, 64]
    path, go = configure(s, 'plot_sb', cwd)
    if not go:
        return
    c = dict(measure='bures', max_mcs=100) | (s.get('conf') or {})
    K = c['max_mcs']
    meth = ['filter-proper', 'filter-heuristic', 'gibbs-eb']
    want, names = {h: np.zeros((K, 6)) for h in meth}, []
    for h in meth + ['gibbs', 'filter']:
        for p, k in enumerate(N):
            for i in range(K if h in meth else 2):
                X, m, C = gen(g, s, False)
                write(f'{cwd}/sb/results/{h}-{k}-{i}.npz', samples=X, gp_mean=m, gp_cov=C)
                if h in meth:
                    names.append(f'sb/results/{h}-{k}-{i}.npz')
                    want[h][i, p] = errors(X.astype(float), m.astype(float), C.astype(float))[int(c['measure'] == 'bures')]
    bad = spoil(s, cwd, names, rec)
    log, _, read, err = draw('tabulators/plot_sb.py', cwd, path)
    what = f"plot_sb ({s['fault'] or 'all results present'}{', ' + str(s['conf']) if path else ''})"
    ended(err, bad, what)
    if bad:
        if any(c[0] == 'plot' for c in log):
            raise Violation('incomplete', f'{what}: drew a curve although {bad} is damaged')
        return
    curves = [c[2] for c in log if c[0] == 'plot' and len(c[2]) >= 2 and len(c[2][0])]
    bands = [c[2] for c in log if c[0] == 'fill_between']
    if len(curves) != 3 or len(bands) != 3:
        raise Violation('rows', f'{what}: {len(curves)} curves and {len(bands)} bands')
    for h, c, b, lab in zip(meth, curves, bands, [c[3].get('label') for c in log if c[0] == 'plot']):
        close(c[0], N, 1e-9, f'{what}: numbers of particles of {h}')
        close(c[1], want[h].mean(0), 1e-6, f'{what}: curve of {h} ({lab})')
        close(b[1:3], [np.quantile(want[h], q, axis=0) for q in (.05, .95)], 1e-6, f'{what}: band of {h}')
        rec.evals += 6 * K
        rec.state('sb', h, s['d'])


def run_acf(s, rec, cwd):
    g = np.random.default_rng(s['seed'])
    meth = [f'gibbs-eb-const-{k}' for k in (10, 100)] + \
        ['pmcmc-0.005-const-100', 'pmcmc-0.005-const-10', 'pmcmc-0.01-const-10', 'pmcmc-0.001-const-10']
    n = 104
    want, names = [], []
    for h in meth:
        ac = []
        for i in range(100):
            e = g.normal(size=(s['nchains'], n, s['d']))
            a = g.uniform(.2, .98, size=s['d'])
            for t in range(1, n):
                e[:, t] = a * e[:, t - 1] + e[:, t]
            write(f'{cwd}/toy/results/{h}-{i}.npz', samples=e)
            names.append(f'toy/results/{h}-{i}.npz')
            ac.append(np.mean([autocorr(x) for x in e], 0)[:100].max(-1))
        want.append(np.mean(ac, 0))
    bad = spoil(s, cwd, names, rec)
    log, _, read, err = draw('tabulators/plot_autocorrs_toy.py', cwd)
    what = f"plot_autocorrs_toy ({s['nchains']} chains)"
    ended(err, bad, what)
    curves = [c[2] for c in log if c[0] == 'plot']
    labels = [c[3].get('label', '') for c in log if c[0] == 'plot']
    if len(curves) != 6 and not bad:
        raise Violation('rows', f'{what}: {len(curves)} curves')
    last = meth.index([h for h in meth if bad.startswith(f'toy/results/{h}-')][0]) if bad else 6
    if len(curves) > last:
        raise Violation('incomplete', f'{what}: drew {len(curves)} curves although {bad} is damaged')
    for h, c, w, lab in zip(meth, curves, want, labels):
        close(c[0], np.arange(100), 1e-9, f'{what}: lags')
        close(c[1], w, 1e-6, f'{what}: autocorrelation of {h}')
        N, d = h.split('-')[-1], h.split('-')[1]
        if not lab.endswith('-' + N) or (d != 'eb' and d not in lab) or ('gibbs' in h) != ('gibbs' in lab.lower()):
            raise Violation('labels', f'{what}: the curve of {h} is labelled {lab}')
        rec.evals += 100
        rec.state('acf', h, s['nchains'], s['d'])


def run_acf_imgs(s, rec, cwd):
    g = np.random.default_rng(s['seed'])
    panels = [('mnist', 'inpainting', 15), ('mnist', 'supr', 4), ('celeba-64', 'inpainting', 32), ('celeba-64', 'supr', 2)]
    want, names = [], []
    path, go = configure(s, 'plot_autocorrs_imgs', cwd)
    if not go:
        return
    cf = dict(rnd_mask=False, sde='lin', max_mcs=100, max_lags=20) | (s.get('conf') or {})
    K, L = cf['max_mcs'], cf['max_lags']
    for ds, task, k in panels:
        for m, N in [(m, N) for m in ('gibbs-eb-ef', 'pmcmc-0.005') for N in ((100, 10) if ds == 'mnist' else (10, 2))]:
            ac = []
            for i in range(K):
                e = g.normal(size=(100, 3, 2, 1))
                a = g.uniform(.0, .9, size=(3, 2, 1))
                for t in range(1, 100):
                    e[t] = a * e[t - 1] + e[t]
                if s['zeros']:
                    e[:, 0, 0] = 1.      # a pixel that never moves
                name = f'imgs/results_{task}/arrs/{ds}-{k}{"-rm" if task == "supr" and cf["rnd_mask"] else ""}-{cf["sde"]}-{N}-{i}-{m}.npy'
                write1(f'{cwd}/{name}', e)
                names.append(name)
                with np.errstate(all='ignore'):
                    c = autocorr(e.reshape(100, -1))[:L]
                c[c < 0] = 0.
                ac.append(np.nanmin(c, -1))
            want.append(np.mean(ac, 0))
    bad = spoil(s, cwd, names, rec)
    log, _, read, err = draw('tabulators/plot_autocorrs_imgs.py', cwd, path)
    what = 'plot_autocorrs_imgs' + (f' ({s["conf"]})' if path else '')
    ended(err, bad, what)
    if bad:
        return
    got = {j: [c[2] for c in log if c[0] == 'plot' and c[1] == (j,)] for j in range(4)}
    if [len(got[j]) for j in range(4)] != [4] * 4:
        raise Violation('rows', f'{what}: panels of {[len(got[j]) for j in range(4)]} curves')
    for j in range(4):
        for q in range(4):
            close(got[j][q][1], want[4 * j + q], 1e-5, f'{what}: curve {q} of panel {panels[j]}')
            rec.evals += L
            rec.state('acf_imgs', j, q)


def run_trace(s, rec, cwd):
    g = np.random.default_rng(s['seed'])
    X = {}
    path, go = configure(s, 'plot_pmcmc_trace', cwd)
    if not go:
        return
    cf = dict(sde='const', nparticles=10, mc_id=0, chain_id=0, dim_id=0, down_sampling_rate=2) | (s.get('conf') or {})
    M, y, r = cf['nparticles'], cf['mc_id'], cf['down_sampling_rate']
    for d in (.01, .005, .001):
        for N in (10, 100):
            for i in range(2):
                x = g.normal(size=(2, 10000, 2))
                write(f'{cwd}/toy/results/pmcmc-{d}-{cf["sde"]}-{N}-{i}.npz', samples=x)
                X[d, N, i] = x
    bad = spoil(s, cwd, [f'toy/results/pmcmc-{d}-{cf["sde"]}-{M}-{y}.npz' for d in (.01, .005, .001)], rec)
    log, _, _, err = draw('tabulators/plot_pmcmc_trace.py', cwd, path)
    ended(err, bad, 'plot_pmcmc_trace')
    if bad:
        return
    for j, d in enumerate((.01, .005, .001)):
        c = [c[2] for c in log if c[0] == 'plot' and c[1] == (j,)]
        if len(c) != 1:
            raise Violation('rows', f'plot_pmcmc_trace: {len(c)} curves in panel {j}')
        close(c[0][0], np.arange(0, 10000, r), 1e-9, 'plot_pmcmc_trace: steps')
        close(c[0][1], X[d, M, y][cf['chain_id'], ::r, cf['dim_id']], 1e-9, f'plot_pmcmc_trace: the trace for delta = {d}')
        rec.evals += 5000
        rec.state('trace', d)


def run_contours(s, rec, cwd):
    g = np.random.default_rng(s['seed'])
    i, j, d = 60, 66, 67
    want, names = {}, []
    for row, N in enumerate((10, 100)):
        heads = ['csgm-const', f'filter-const-{N}', f'gibbs-eb-const-{N}', f'pmcmc-0.005-const-{N}', f'pmcmc-0.001-const-{N}',
                 f'twisted-const-{N}']
        for col, h in enumerate(heads):
            if row and col == 0:
                want[row, 0] = want[0, 0]
                continue
            for y in (66, 67):
                X, m, C = gen(g, dict(s, d=d, n=80), 'gibbs' in h or 'pmcmc' in h)
                write(f'{cwd}/toy/results/{h}-{y}.npz', samples=X, gp_mean=m, gp_cov=C)
                if y == 66:
                    names.append(f'toy/results/{h}-{y}.npz')
                    S = np.mean([np.cov(x, rowvar=False) for x in (X if X.ndim == 3 else X[None])], 0)
                    want[row, col] = (m, C, X.reshape(-1, d).mean(0), S)
    bad = spoil(s, cwd, names, rec)
    log, _, _, err = draw('tabulators/plot_toy_contours.py', cwd)
    ended(err, bad, 'plot_toy_contours')
    if bad:
        return
    for at, (m, C, a, S) in want.items():
        c = [c for c in log if c[0] == 'contour' and c[1] == at]
        if len(c) != 2:
            raise Violation('rows', f'plot_toy_contours: {len(c)} sets of contours in panel {at}')
        for k, (mm, CC) in enumerate(((m, C), (a, S))):
            x1, x2, pdf = c[k][2][:3]
            z = np.stack([np.asarray(x1) - mm[i], np.asarray(x2) - mm[j]], -1)
            B = CC[np.ix_([i, j], [i, j])]
            w = np.exp(-.5 * np.einsum('abi,ij,abj->ab', z, np.linalg.inv(B), z)) / (2 * np.pi * np.sqrt(np.linalg.det(B)))
            if np.ptp(np.asarray(x1)) < 4 * np.sqrt(B[0, 0]) * (1 if k == 0 else .2):
                raise Violation('statistics', f'plot_toy_contours: the grid of panel {at} misses the posterior')
            close(pdf, w, 1e-3 if s['dtype'] == 'float32' else 1e-8, f"plot_toy_contours: {('posterior', 'samples')[k]} in panel {at}")
            rec.evals += w.size
        rec.state('contours', at)


class Measures:
    """fast stand-ins for the measures of skimage and lpips; each identifies its arguments"""

    def __init__(self):
        self.range, self.axis = set(), set()

    def psnr(self, a, b, data_range=None, **kw):
        self.range.add(data_range)
        return float(np.mean((a - b) ** 2) + .1 * np.mean(a * b) + .01 * np.mean(a[:3] * b[:3]) + .03 * a.mean())

    def ssim(self, a, b, data_range=None, channel_axis=None, **kw):
        self.range.add(data_range)
        self.axis.add(None if channel_axis is None else channel_axis % a.ndim)
        return float(np.mean(np.abs(a - b)) + .05 * a.mean() - .02 * a[:2].mean() * b.mean())

    def lpips(self, a, b):
        """of pictures (1, c, h, w) in [-1, 1]"""
        a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
        w = 1. + np.arange(a.size).reshape(a.shape) / a.size
        return float(np.mean(w * (a - b) ** 2) + .1 * np.mean(w * a) - .2 * np.mean(w ** 2 * b))


class Lpips:
    def __init__(self, m):
        self.m = m

    def forward(self, a, b, *args, **kw):
        import torch
        return torch.tensor(self.m.lpips(a, b), dtype=torch.float64).reshape(1, 1, 1, 1)

    __call__ = forward


def run_imgs(s, rec, cwd):
    import sys
    import types
    import skimage.metrics  # noqa
    g = np.random.default_rng(s['seed'])
    M = Measures()
    meth = ['filter', 'gibbs-eb-ef', 'pmcmc-0.005', 'twisted', 'csgm']
    conf, path = s.get('conf'), None
    c = dict(dataset='mnist', task='supr-4', rnd_mask=False, sde='lin', nparticles=100, ny0s=100, nsamples=100) | (conf or {})
    what = f"tabulate_imgs ({s['fault'] or 'all results present'}{', ' + str(conf) if conf else ''})"
    if conf:
        path = driver.configured('tabulators/tabulate_imgs.py', cwd, **conf)
        if path is None:
            return
    task, rate = c['task'].split('-')
    ds, N, n, grey = c['dataset'], c['nparticles'], c['nsamples'], c['dataset'] == 'mnist'
    A = f'{cwd}/imgs/results_{task}/arrs'
    os.makedirs(A, exist_ok=True)
    size = 6
    clip = lambda x: np.clip(x, 0, 1)[..., 0] if grey else np.clip(x, 0, 1)  # noqa
    torched = lambda x: np.moveaxis(x, -1, 0)[None] * 2 - 1  # noqa
    masked = task == 'supr' and c['rnd_mask']
    head, other = (f"{ds}-{rate}{'-rm' if r else ''}-{c['sde']}" for r in (masked, not masked))
    odd = f"{ds}-{rate}{'-rm' if masked else ''}-{'const' if c['sde'] == 'lin' else 'lin'}"
    shape = (size, size, 1 if grey else 3)
    ref, names = [], []
    for i in range(c['ny0s']):
        t = g.normal(.5, .5, size=shape)
        ref.append(clip(t))
        write(f'{A}/{head}-{i}-true.npz', test_img=t)
        write(f'{A}/{head}-{N}-{i}-true.npz', test_img=t)
        write(f'{A}/{other}-{i}-true.npz', test_img=t[::-1])
        names.append(os.path.relpath(f'{A}/{head}-{i}-true.npz', cwd))
    want = {}
    for m in meth:
        e = []
        for i in range(c['ny0s']):
            x = g.normal(.5, .5, size=(n, *shape))
            name = f'{head}-{i}-{m}.npy' if m == 'csgm' else f'{head}-{N}-{i}-{m}.npy'
            write1(f'{A}/{name}', x)
            if i < 3:
                for o in (f'{head}-{N + 1}-{i}-{m}.npy', f'{odd}-{N}-{i}-{m}.npy', f'{head}-{N}-{i}-{m}-marg.npy',
                          f'{other}-{N}-{i}-{m}.npy'):
                    write1(f'{A}/{o}', x[::-1] + 1.)
            names.append(os.path.relpath(f'{A}/{name}', cwd))
            e.append([[M.psnr(ref[i], k), M.ssim(ref[i], k), 0. if grey else M.lpips(torched(ref[i]), torched(k))] for k in clip(x)])
        e = np.asarray(e)
        want[m] = np.stack([e.mean((0, 1)), e.std((0, 1))], 1).ravel()[:4 if grey else 6]
    M.range.clear()
    M.axis.clear()
    bad = spoil(s, cwd, names, rec)
    fake = types.ModuleType('lpips')
    fake.LPIPS = lambda *a, **kw: Lpips(M)
    real = sys.modules.get('lpips')
    sys.modules['lpips'] = fake
    old = (skimage.metrics.structural_similarity, skimage.metrics.peak_signal_noise_ratio)
    skimage.metrics.structural_similarity, skimage.metrics.peak_signal_noise_ratio = M.ssim, M.psnr
    try:
        _, out, read, err = draw('tabulators/tabulate_imgs.py', cwd, path)
    finally:
        skimage.metrics.structural_similarity, skimage.metrics.peak_signal_noise_ratio = old
        sys.modules.pop('lpips')
        if real is not None:
            sys.modules['lpips'] = real
    ended(err, bad, what)
    rows = [ln for ln in out.splitlines() if '|' in ln]
    for k, m in enumerate(meth):
        if k >= len(rows):
            if not bad:
                raise Violation('rows', f'{what}: no row for {m}')
            break
        if bad and (f'-{m}.npy' in bad or 'true' in bad):
            raise Violation('incomplete', f'{what}: tabulated {m} although {bad} is damaged')
        if not rows[k].startswith(m):
            raise Violation('rows', f'{what}: row {k} is {rows[k]}')
        got = [float(x) for x in NUM.findall(rows[k][len(m):])][:len(want[m])]
        close(got, want[m], 1e-4, f'{what}: measures of {m}')
        rec.evals += c['ny0s'] * n
        rec.state('imgs', m)
    if M.range - {1, 1.}:
        raise Violation('statistics', f'{what}: data range {M.range}, the pictures lie in [0, 1]')
    if M.axis - {None if grey else 2}:
        raise Violation('statistics', f'{what}: channel axis {M.axis} of pictures of shape {ref[0].shape}')


def run_measures(s, rec, cwd):
    from fbs.utils import kl as rkl, bures_dist, sqrtm
    g = np.random.default_rng(s['seed'])
    f = np.float64 if s['x64'] else np.float32
    old = jax.config.jax_enable_x64
    jax.config.update('jax_enable_x64', bool(s['x64']))
    try:
        for d in s['ds']:
            m0, m1, C0, C1 = g.normal(size=d), g.normal(size=d), cov_of(g, d, s['spread']), cov_of(g, d, s['spread'])
            c = [m0, C0, m1, C1]
            r = [a.astype(f) for a in c]
            cond = np.exp(2 * s['spread']) * d
            tol = cond * (1e-12 if s['x64'] else 2e-6)
            w = f"d = {d}, {np.dtype(f).name}"
            close(rkl(*r), kl(*c), tol, f'{w}: KL divergence', 'measures')
            close(bures_dist(*r), bures(*c), 10 * tol, f'{w}: squared Bures distance', 'measures')
            close(jax.jit(rkl)(*r), kl(*c), tol, f'{w}: KL divergence (jit)', 'measures')
            close(jax.vmap(bures_dist, [None, None, 0, 0])(r[0], r[1], jnp.stack([r[2], r[0]]), jnp.stack([r[3], r[1]])),
                  [bures(*c), 0.], 10 * tol, f'{w}: squared Bures distances in a batch', 'measures')
            close(jax.vmap(rkl, [None, None, 0, 0])(r[0], r[1], jnp.stack([r[2], r[0]]), jnp.stack([r[3], r[1]])),
                  [kl(*c), 0.], tol, f'{w}: KL divergences in a batch', 'measures')
            close(bures_dist(r[2], r[3], r[0], r[1]), bures(*c), 10 * tol, f'{w}: Bures distance the other way', 'measures')
            for meth in ('eigh', 'schur'):
                q = np.asarray(sqrtm(jnp.asarray(r[1]), method=meth), float)
                close(q @ q, C0, tol, f'{w}: square of sqrtm ({meth})', 'measures')
                close(q, root(C0), 10 * tol, f'{w}: sqrtm ({meth})', 'measures')
            rec.evals += 8
            rec.state('measures', d, s['x64'], s['spread'])
    finally:
        jax.config.update('jax_enable_x64', old)


class Shelf:
    """picture files, made when they are opened; each is unlike any other"""
    NAME = re.compile(r'imgs/results_(supr|inpainting)/imgs/(mnist|celeba-64|celeba-128)-(\d+)(-rm)?-(lin|const)-(?:(\d+)-)?(\d+)-'
                      r'(?:(true|corrupt-lr|corrupt)|(filter|gibbs-eb-ef|pmcmc-0\.005|twisted|csgm)-(\d+))\.png')

    def __init__(self, seed, bad=None, fault=''):
        self.seed, self.bad, self.fault, self.read = seed, bad, fault, []

    def pic(self, *key):
        ds, what = key[1], key[-1]
        size = 28 if ds == 'mnist' else int(ds[7:])
        if what == 'corrupt-lr':
            size //= key[2]
        return np.random.default_rng([self.seed, *repr(key).encode()]).integers(0, 256, (size, size, 4), dtype=np.uint8)

    def key(self, f):
        m = self.NAME.fullmatch(os.path.normpath(os.fspath(f)))
        if not m:
            return None
        task, ds, size, rm, sde, N, k, plain, method, i = m.groups()
        if plain:                # the programs of all methods store the same
            return task, ds, int(size), bool(rm), sde, int(k), plain
        if (N is None) != (method == 'csgm') or int(i) >= 100 or int(k) >= 100:
            return None
        return task, ds, int(size), bool(rm), sde, int(k), method, N and int(N), int(i)

    def open(self, f, *a, **kw):
        from PIL import Image, UnidentifiedImageError
        k = self.key(f)
        name = os.path.normpath(os.fspath(f))
        if k is None:
            raise FileNotFoundError(f'{f}: no program of the campaign writes this file')
        self.read.append(name)
        if name == self.bad:
            if self.fault == 'missing':
                raise FileNotFoundError(name)
            raise UnidentifiedImageError(name)
        return Image.fromarray(self.pic(*k[:3], *k[3:]))


class Grids:
    """stands for ImageGrid: records what is shown, figure by figure"""

    def __init__(self):
        self.figs = []

    def __call__(self, fig, rect, nrows_ncols=None, **kw):
        log = []
        self.figs.append((tuple(nrows_ncols), log))
        n = nrows_ncols[0] * nrows_ncols[1]

        class Cells:
            def __getitem__(_, i):
                if not -n <= i < n:
                    raise IndexError(i)
                return Cell(log, i % n)

            def __iter__(_):
                return iter([Cell(log, i) for i in range(n)])

            def __len__(_):
                return n
        return Cells()

    @staticmethod
    def shown(fig):
        """{(row, col): (picture, title)}"""
        (nr, nc), log = fig
        pics, titles = {}, {}
        for name, at, a, kw in log:
            at = divmod(at, nc)
            if name in ('imshow', 'set_data'):
                pics[at] = np.asarray(a[0])
            if name == 'set_title':
                titles[at] = a[0]
        return {(i, j): (pics.get((i, j)), titles.get((i, j))) for i in range(nr) for j in range(nc)}


class Cell:
    def __init__(self, log, at):
        self.log, self.at = log, at

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def call(*a, **kw):
            self.log.append((name, self.at, a, kw))
            return Cell(self.log, self.at)
        return call


def show(script, cwd, shelf, patches=(), fs=None, net=None, path=None):
    import matplotlib
    import mpl_toolkits.axes_grid1  # noqa
    import PIL.Image  # noqa
    nop, grids, err = (lambda *a, **kw: None), Grids(), None
    mp = 'matplotlib.pyplot'
    fs = fs or driver.FS(cwd)
    state = np.random.get_state()
    with matplotlib.rc_context():
        try:
            driver.run(script, [], cwd, fs=fs, path=path, patches=[
                ('mpl_toolkits.axes_grid1', 'ImageGrid', grids), ('PIL.Image', 'open', shelf.open), (mp, 'tight_layout', nop),
                (mp, 'show', nop), (mp, 'subplots_adjust', nop), *patches])
        except Violation:
            raise
        except Exception as e:  # noqa
            err = e
    np.random.set_state(state)
    return grids, fs, err


def run_pictures(s, rec, cwd):
    """the figures of restored pictures"""
    script = f"tabulators/{s['script']}.py"
    meth = ['filter', 'gibbs-eb-ef', 'pmcmc-0.005', 'twisted', 'csgm']
    conf = {'plot_imgs': ('supr', 'mnist', 4, False, 'lin', 100, [94], 3),
            'plot_imgs_appendix': ('supr', 'celeba-64', 2, False, 'lin', 10, range(100), 12)}[s['script']]
    *head, N, ys, ncol = conf
    path = None
    if s.get('conf'):
        c = s['conf']
        path = driver.configured(script, cwd, **c)
        if path is None:
            return
        head = [c['task'].split('-')[0], c['dataset'], int(c['task'].split('-')[1]), 'supr' in c['task'] and c['rnd_mask'], c['sde']]
        N, ys = c['nparticles'], [c.get('y0_id', 0)] if s['script'] == 'plot_imgs' else ys
    shelf = Shelf(s['seed'])
    if s['fault']:               # an undisturbed run tells which files are read
        _, _, err = show(script, cwd, shelf, path=path)
        if err is not None:
            raise Violation('exception', f"{script}: {type(err).__name__}: {err}")
        for f in os.listdir(f'{cwd}/figs'):
            os.unlink(f'{cwd}/figs/{f}')
        bad = rng_of(s['seed'], 'bad').choice(shelf.read)
        shelf = Shelf(s['seed'], bad, s['fault'])
        rec.fault(f"picture_{s['fault']}")
    grids, fs, err = show(script, cwd, shelf, path=path)
    what = f"{s['script']} ({s['fault'] or 'all pictures present'}{', ' + str(s['conf']) if s.get('conf') else ''})"
    ended(err, shelf.bad, what)
    saved = [w for w in fs.writes if w.startswith('figs/')]
    if len(set(saved)) != len(saved):
        raise Violation('figures', f'{what}: a figure is saved over another one')
    if shelf.bad is None and len(saved) != len(ys):
        raise Violation('figures', f'{what}: {len(saved)} figures of {len(ys)} pictures')
    for y, fig, f in zip(ys, grids.figs, saved):
        if not re.search(rf'(?<!\d){y}\.\w+$', f):
            raise Violation('figures', f'{what}: the figure of picture {y} is saved as {f}')
        got = Grids.shown(fig)
        ids = {}
        for k, m in enumerate(meth):
            for i in range(100):
                ids[shelf.pic(*head, y, m, None if m == 'csgm' else N, i).tobytes()] = (m, i)
        size = 28 if head[1] == 'mnist' else 64
        lr = shelf.pic(*head, y, 'corrupt-lr' if head[0] == 'supr' else 'corrupt')
        lr = lr.repeat(size // len(lr), 0).repeat(size // len(lr), 1)
        true = shelf.pic(*head, y, 'true')
        if fig[0] != (len(meth), ncol + 2):
            raise Violation('figures', f'{what}: a grid of {fig[0]}')
        for k, m in enumerate(meth):
            if not np.array_equal(got[k, 0][0], lr):
                raise Violation('figures', f'{what}: row {k}: the first picture is not the measurement of picture {y}')
            if not np.array_equal(got[k, 1][0], true):
                raise Violation('figures', f'{what}: row {k}: the second picture is not the true picture {y}')
            cells = [ids.get(np.asarray(got[k, j][0]).tobytes()) for j in range(2, ncol + 2)]
            if any(c is None or c[0] != m for c in cells):
                raise Violation('figures', f'{what}: row {k} shows {cells} instead of samples of {m} of picture {y}')
            if len(set(cells)) != ncol:
                raise Violation('figures', f'{what}: row {k} shows a sample twice: {cells}')
            rec.evals += ncol + 2
        rec.state('pictures', s['script'], y)


def sb_results(g, cwd, y, gibbs_init=None):
    """all results of the bridge experiments of picture y and its neighbours"""
    res = {}
    R = f'{cwd}/sb_imgs/results'
    os.makedirs(R, exist_ok=True)
    for k in (y - 1, y, y + 1, 10 * y):
        for N in (100, 10):
            h = f'{R}/mnist-4-lin-{N}-{k}'
            t = g.normal(.5, .5, (28, 28, 1))
            write(f'{h}-true.npz', test_img=t)
            for m in ('filter', 'gibbs-eb-ef'):
                for x in ('random', 'blank', 'interp'):
                    a = g.normal(.5, .5, (100, 28, 28, 1)).astype(np.float32)
                    write1(f'{h}-{m}-{x}.npy', a)
                    if (k, N) == (y, 100):
                        res[m, x] = np.clip(a, 0, 1)[..., 0]
            a = g.normal(.5, .5, (28, 28, 1)).astype(np.float32)
            write1(f'{h}-gibbs-init.npy', a)
            if (k, N) == (y, 100):
                res['true'], res['init'] = np.clip(t, 0, 1)[..., 0], np.clip(a, 0, 1)[..., 0]
    return res


class LowRes:
    """the pictures of measurements of the bridge experiments"""

    def __init__(self, seed, cwd, y):
        self.seed, self.cwd, self.y, self.read = seed, cwd, y, []

    def pic(self, k):
        return np.random.default_rng([self.seed, k]).integers(0, 256, (7, 7, 4), dtype=np.uint8)

    def open(self, f, *a, **kw):
        from PIL import Image
        m = re.fullmatch(r'sb_imgs/results/mnist-4-lin-100-(\d+)-corrupt-lr\.png', os.path.normpath(os.fspath(f)))
        if not m:
            raise FileNotFoundError(f'{f}: no program writes this file')
        self.read.append(f)
        return Image.fromarray(self.pic(int(m.group(1))))


def member(pic, sets, tol=1e-6):
    for k, v in sets.items():
        for i, a in enumerate(v):
            if np.shape(pic) == a.shape and np.abs(np.asarray(pic) - a).max() < tol:
                return k, i
    return None


def run_sbfig(s, rec, cwd):
    g = np.random.default_rng(s['seed'])
    y = 7
    res = sb_results(g, cwd, y)
    names = [f'sb_imgs/results/mnist-4-lin-100-{y}-{t}' for t in ('true.npz', 'filter-random.npy', 'filter-interp.npy',
                                                                  'filter-blank.npy', 'gibbs-eb-ef-blank.npy')]
    bad = spoil(s, cwd, names, rec)
    low = LowRes(s['seed'], cwd, y)
    grids, fs, err = show('tabulators/plot_sb_imgs.py', cwd, low)
    what = f"plot_sb_imgs ({s['fault'] or 'all results present'})"
    ended(err, bad, what)
    if bad:
        if any('appendix' in w for w in fs.writes):
            raise Violation('incomplete', f'{what}: the second figure is saved although {bad} is damaged')
        rec.evals += 1
        rec.state('sbfig', bad)
        return
    sets = {k: v for k, v in res.items() if isinstance(k, tuple)}
    lr = low.pic(y).repeat(4, 0).repeat(4, 1)
    if len(grids.figs) != 2 or len([w for w in fs.writes if w.startswith('figs/')]) != 2:
        raise Violation('figures', f'{what}: {len(grids.figs)} figures drawn, {fs.writes} saved')

    def two(got, row):
        if not np.array_equal(got[row, 0][0], lr):
            raise Violation('figures', f'{what}: the first picture is not the measurement')
        if member(got[row, 1][0], {'true': [res['true']]}) is None:
            raise Violation('figures', f'{what}: the second picture is not the true one')

    got = Grids.shown(grids.figs[0])
    two(got, 0)
    seen = set()
    for (i, j), (pic, title) in got.items():
        if j < 2:
            continue
        m = member(pic, sets)
        want = ('filter', 'random') if 'random' in title else ('filter', 'interp') if 'interp' in title else \
            ('gibbs-eb-ef', 'blank') if 'Gibbs' in title else None
        if m is None or m[0] != want or m in seen:
            raise Violation('figures', f'{what}: under "{title}" it shows {m}')
        seen.add(m)
        rec.evals += 1
    got = Grids.shown(grids.figs[1])
    for i, k in enumerate([('filter', 'random'), ('filter', 'blank'), ('filter', 'interp'), ('gibbs-eb-ef', 'blank')]):
        two(got, i)
        cells = [member(got[i, j][0], sets) for j in range(2, 12)]
        if any(c is None or c[0] != k for c in cells) or len(set(cells)) != 10:
            raise Violation('figures', f'{what}: row {i} shows {cells} instead of samples of {k}')
        rec.evals += 10
    rec.state('sbfig', '')


def run_anime(s, rec, cwd):
    """the animation: frames in any order the backend asks for"""
    from dst import imgs
    g = np.random.default_rng(s['seed'])
    root, y = os.path.dirname(cwd), 9
    os.makedirs(f'{cwd}/checkpoints')
    os.makedirs(f'{root}/datasets', exist_ok=True)
    try:
        imgs.write_mnist(root, np.zeros((60000, 1, 1), np.uint8), g.uniform(size=(10000, 28, 28)).astype(np.float32))
        res = sb_results(g, cwd, y)
        # the measurement that the experiment itself restores
        par = np.asarray([.5, .2, .1], np.float32)
        np.savez(f'{cwd}/checkpoints/sb_mnist_lin_9.npz', param_fwd=par, param_bwd=par)
        fs = driver.FS(cwd)
        imgs.run('sb_imgs/supr.py', ['--test_nsteps=3', '--nsamples=1', '--nparticles=3', '--method=filter', f'--y0_id={y}'], cwd,
                 imgs.Net('lin'), fs=fs)
        blank = driver.picture(f'{cwd}/sb_imgs/results/mnist-4-lin-3-{y}-corrupt.png')
        blank = blank.reshape(28, 28)
        low = LowRes(s['seed'], cwd, y)
        films = []

        class Film:
            def __init__(self, fig, update, frames=None, init_func=None, **kw):
                self.update, self.frames, self.init, self.saved = update, list(frames), init_func, []
                films.append(self)

            def save(self, f, **kw):
                self.saved.append(f)

        grids, fs, err = show('tabulators/plot_sb_imgs_anime.py', cwd, low, patches=[('matplotlib.animation', 'FuncAnimation', Film)])
        what = 'plot_sb_imgs_anime'
        ended(err, None, what)
        if len(films) != 1 or len(films[0].saved) != 1:
            raise Violation('figures', f'{what}: {len(films)} animations')
        film = films[0]
        start = Grids.shown(grids.figs[0])
        if not np.array_equal(start[0, 0][0], low.pic(y).repeat(4, 0).repeat(4, 1)) or \
                member(start[0, 1][0], {'true': [res['true']]}) is None:
            raise Violation('figures', f'{what}: the first two pictures are not the measurement and the truth')
        for j in (2, 3):
            p = np.asarray(start[0, j][0], float).reshape(28, 28)
            if np.abs(p - blank).max() > 1e-5:
                raise Violation('figures', f'{what}: the animation starts from another measurement than that of the experiment')
        film.init()
        n = len(film.frames)
        delay = next((f for f in film.frames if film.update(f) is not None and
                      np.abs(np.asarray(Grids.shown(grids.figs[0])[0, 2][0], float).reshape(28, 28) - blank).max() > 1e-5), n)
        order = list(range(delay, n))
        rng_of(s['seed'], 'frames').shuffle(order)
        rec.fault('frames out of order', len(order))
        chain = [res['init'], *res['gibbs-eb-ef', 'blank']]
        for f in order:
            film.update(film.frames[f])
            now = Grids.shown(grids.figs[0])
            k = f - delay
            for j, want, t in ((2, res['filter', 'blank'][k], 'PF'), (3, chain[k], 'Gibbs')):
                if member(now[0, j][0], {0: [want]}) is None or not re.search(rf'{t}.*\b{k}$', now[0, j][1]):
                    raise Violation('figures', f'{what}: frame {f} shows, under "{now[0, j][1]}", not sample {k}')
            rec.evals += 2
        rec.state('anime', s['seed'])
    finally:
        import shutil
        shutil.rmtree(f'{root}/datasets', ignore_errors=True)


def run_coalescence(s, rec, cwd):
    """the particles of the initial filter run: what is drawn of given trajectories, and that the real run can be drawn"""
    import matplotlib
    from dst import imgs
    from fbs.samplers import gibbs_init as real
    g = np.random.default_rng(s['seed'])
    root = os.path.dirname(cwd)
    os.makedirs(f'{cwd}/checkpoints')
    os.makedirs(f'{root}/datasets', exist_ok=True)
    N, n, rect = s['N'], s['nsteps'], s['rect']
    call = {}

    def fake(key, y0, *a, nparticles=None, x0_shape=None, ts=None, **kw):
        call.update(N=nparticles, shape=tuple(x0_shape), ts=ts, kw=kw)
        x, u = real(key, y0, *a, nparticles=nparticles, x0_shape=x0_shape, ts=ts, **kw)
        jax.debug.callback(lambda v: call.__setitem__('x', np.asarray(v)), x)
        return x, u

    try:
        imgs.write_mnist(root, np.zeros((60000, 1, 1), np.uint8), g.uniform(size=(10000, 28, 28)).astype(np.float32))
        imgs.checkpoint(cwd, 'mnist', 'lin', 2999, [9., 1., 3.], [.5, .2, .1])
        log = []

        class Ax(Axes):
            def __getattr__(self, name):
                if name.startswith('__'):
                    raise AttributeError(name)

                def f(*a, **kw):
                    self.log.append((name, self.at, a, kw))
                    return [Axes([])]
                return f

            def __getitem__(self, k):
                return Ax(self.log, self.at + (k,))

        nop, mp = (lambda *a, **kw: None), 'matplotlib.pyplot'
        fs = driver.FS(cwd)
        with matplotlib.rc_context():
            imgs.run('tabulators/plot_img_coalescence.py', [f'--test_nsteps={n}', f'--nparticles={N}', f'--rect_size={rect}', '--test_ema'],
                     cwd, imgs.Net('lin'), fs=fs, patches=[
                ('fbs.samplers', 'gibbs_init', fake), (mp, 'subplots', lambda *a, **kw: (Axes([]), Ax(log))), (mp, 'tight_layout', nop),
                (mp, 'show', nop), (mp, 'legend', nop), (mp, 'subplots_adjust', nop)])
        jax.effects_barrier()
        what = f'plot_img_coalescence (N = {N}, {n} steps)'
        x = call['x'].reshape(n + 1, N, -1).astype(float)
        if call['N'] != N or x.shape[-1] != rect ** 2:
            raise Violation('coalescence', f"{what}: the filter ran with {call['N']} particles of shape {call['shape']}")
        every = n // 10
        t = np.linspace(0, 2, n + 1)[::every]
        lines = {k: [(np.asarray(a[0], float), np.asarray(a[1], float)) for name, at, a, kw in log if name == 'plot' and at == (k,)]
                 for k in (0, 1)}
        if len(lines[0]) != N or len(lines[1]) != rect ** 2 + 1:
            raise Violation('coalescence', f'{what}: {len(lines[0])} trajectories and {len(lines[1])} curves of spread')
        for u, v in lines[0] + lines[1]:
            close(u, t, 1e-5, f'{what}: times', 'coalescence')
        got = np.stack([v for _, v in lines[0]])
        # the trajectories of one and the same pixel, each particle once
        d = [k for k in range(x.shape[-1]) if np.abs(np.sort(x[::every, :, k].T, 0) - np.sort(got, 0)).max() < 1e-5]
        if not d or np.abs(x[::every, :, d[0]].T - got).max() > 1e-5:
            raise Violation('coalescence', f'{what}: the lines are not the trajectories of one pixel')
        sd = 2 * x.std(1)
        close(np.stack([v for _, v in lines[1][:-1]]), sd[::every].T, 2e-4, f'{what}: twice the deviation of the particles', 'coalescence')
        close(lines[1][-1][1], np.quantile(sd, .95, axis=-1)[::every], 2e-4, f'{what}: 0.95 quantile over the pixels', 'coalescence')
        rec.evals += N + rect ** 2
        rec.log(x)
        rec.state('coalescence', N, n, rect)
    finally:
        import shutil
        shutil.rmtree(f'{root}/datasets', ignore_errors=True)


def run(s, rec):
    rec.event(*[f'{k}={s[k]}' for k in ('kind', 'd', 'nchains', 'fault', 'dtype')])
    with tempfile.TemporaryDirectory(prefix='vsim-tab-') as root:
        cwd = f'{root}/experiments'
        for d in ('toy', 'sb', 'imgs/results_supr', 'imgs/results_inpainting'):
            os.makedirs(f'{cwd}/{d}/' + ('arrs' if 'imgs' in d else 'results'))
        os.makedirs(f'{cwd}/figs')
        globals()['run_' + s['kind']](s, rec, cwd)


def plan(tier, rng):
    m = 1 if tier == 'quick' else 12
    out = []

    def add(kind, cost, **kw):
        s = dict(kind=kind, d=rng.choice([2, 3, 5]), n=rng.choice([12, 20]), nchains=rng.choice([1, 2, 4]), dtype='float64', fault='',
                 zeros=0, x64=1, ds=[], spread=1., seed=rng.randrange(2 ** 31), cost=cost)
        s.update(kw)
        s['group'] = str(len(out))
        out.append(s)
    FAULTS = ['missing', 'torn', 'empty']
    fault = lambda: rng.choice(FAULTS)  # noqa
    for _ in range(m):
        add('toy', 20.)
        add('toy', 20., dtype='float32')
        add('sb', 10.)
        for z in (0, 1):
            add('acf_imgs', 6., zeros=z)
        K = rng.choice([5, 12])
        add('toy', 5., conf=dict(sde='lin', nparticles=rng.choice([10, 100]), max_mcs=K), fault=rng.choice(['', '', fault()]))
        add('toy', 5., conf=dict(sde='const', nparticles=10, max_mcs=K))
        add('sb', 5., conf=dict(measure='kl', max_mcs=K))
        add('acf_imgs', 4., zeros=rng.randrange(2), conf=dict(rnd_mask=True, sde=rng.choice(['lin', 'const']), max_mcs=K, max_lags=10))
        add('acf_imgs', 4., conf=dict(rnd_mask=False, sde='const', max_mcs=K, max_lags=rng.choice([5, 20])))
        add('trace', 2., conf=dict(sde=rng.choice(['const', 'lin']), nparticles=rng.choice([10, 100]), mc_id=rng.randrange(2),
                                   chain_id=rng.randrange(2), dim_id=rng.randrange(2), down_sampling_rate=rng.choice([1, 5])))
        add('acf', 6.)
        add('trace', 2.)
        for f in FAULTS:
            add('toy', 15., fault=f, d=2, n=8, nchains=rng.choice([1, 2]))
            add('sb', 8., fault=f, d=2, n=8)
            add('acf', 5., fault=f, d=2, nchains=1)
            add('acf_imgs', 5., fault=f)
            add('trace', 2., fault=f)
            add('contours', 5., fault=f)
        add('contours', 6.)
        add('contours', 6., dtype='float32')
        add('imgs', 10.)
        for rm in (False, True):
            ds, task = rng.choice([('celeba-64', 'supr-2'), ('celeba-128', 'supr-4')])
            add('imgs', 4., fault=rng.choice(['', '', fault()]), conf=dict(
                dataset=ds, task=task, rnd_mask=rm, sde=rng.choice(['lin', 'const']), nparticles=rng.choice([10, 100]), ny0s=4,
                nsamples=5))
        add('imgs', 4., conf=dict(dataset='celeba-64', task='inpainting-32', rnd_mask=rng.random() < .5, sde='lin', nparticles=10, ny0s=3,
                                  nsamples=4))
        add('imgs', 4., conf=dict(dataset='mnist', task='inpainting-15', rnd_mask=False, sde='const', nparticles=10, ny0s=5, nsamples=3))
        for rm in (False, True):
            add('pictures', 2., script='plot_imgs', conf=dict(
                dataset='celeba-64', task=rng.choice(['supr-2', 'supr-4', 'inpainting-32']), rnd_mask=rm, sde=rng.choice(['lin', 'const']),
                nparticles=rng.choice([10, 2]), y0_id=rng.randrange(100)))
        add('imgs', 10., fault=FAULTS[0])
        add('imgs', 10., fault=fault())
        for f in ('', 'missing', 'torn'):
            add('pictures', 2., script='plot_imgs', fault=f)
            add('sbfig', 2., fault=f)
        add('pictures', 10., script='plot_imgs_appendix')
        add('pictures', 15., script='plot_imgs_appendix', fault=rng.choice(['missing', 'torn']))
        add('anime', 8.)
        add('coalescence', 6., N=5, nsteps=30, rect=4)
        add('coalescence', 6., N=8, nsteps=20, rect=7)
        for x in (0, 1):
            for sp in (.3, 1., 2.):
                add('measures', 4., x64=x, spread=sp, ds=[1, 2, 3, 7, 20])
    return out


def shrink(s):
    for k, v in (('nchains', 1), ('d', 2), ('n', 12)):
        if s[k] > v:
            yield dict(s, **{k: v})
    if len(s['ds']) > 1:
        for d in s['ds']:
            yield dict(s, ds=[d])
