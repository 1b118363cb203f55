"""C11  Every random key is consumed at most once."""
import functools
import os
import tempfile
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W, prng, driver, imgs
from dst.bridge import Bridge, BridgeModel
from dst.core import Violation, subseed
from dst.props import c10, c18, c19, c27
from dst.props.c03 import resampler, finite_callbacks

PROP = 'C11'
RULE = ('a scenario is one sampler, simulator, loss, dataset or whole experiment script, executed with a generator that '
        'reports every use of a key; non-trivial: at least two keys were drawn from')
REAL = ['fbs.samplers.*', 'fbs.sdes.*', 'fbs.dsb.base', 'fbs.data.*', 'experiments/toy/gp_{filter,gibbs,pmcmc,twisted,'
        'csgm}.py, experiments/sb/{filter,gibbs}.py, experiments/imgs/*.py and experiments/sb_imgs/*.py as whole scripts']
STUB = ['the pseudo-random generator (reporting Threefry)', 'model callbacks: finite-state worlds', 'data files', 'networks of the picture programs (closed form)']
STATE = 'distinct (target, number of draws, number of splits)'
ASSUMPTIONS = ['splitting a key again in the same way gives the same children, and is judged by the use of the children',
               'internal uses inside jax.random are the library\'s own']
S, V, K = 3, 3, 4


class Tracker:
    def __init__(self):
        self.draws, self.parents, self.log = {}, {}, []

    def __call__(self, op, key):
        k = tuple(int(v) for v in np.asarray(key).ravel()[:2])
        if len(self.log) < 5000:
            self.log.append((op, k))
        if op == 'draw':
            self.draws[k] = self.draws.get(k, 0) + 1
        elif op.startswith('split'):
            self.parents.setdefault(k, set()).add(op)

    def judge(self, what):
        for k, n in self.draws.items():
            if n > 1:
                raise Violation('key-drawn-twice', f'{what}: key {k} was drawn from {n} times', {'key': k})
            if k in self.parents:
                raise Violation('key-drawn-and-split', f'{what}: key {k} was drawn from and also split', {'key': k})
        for k, ops in self.parents.items():
            if len(ops) > 1:
                raise Violation('key-split-twice', f'{what}: key {k} was split in different ways: {sorted(ops)}', {'key': k})


# Every target is name -> f(variant) -> g(key): a closed simulated call.
def t_csmc(v):
    from fbs.samplers.csmc.csmc import csmc_kernel
    from fbs.samplers.csmc import resamplings
    w = W.World(v['seed'], S, V, K)
    tab = w.tables()
    vs = W.enc(jnp.arange(K + 1) % V, (1,))
    N = v['N']

    def g(key):
        m = W.Model(tab, S, V, K, (2,), (1,))
        u, b = W.enc(jnp.zeros(K + 1, int), (2,)), jnp.zeros(K + 1, int)
        for _ in range(2):
            key, sub = jax.random.split(key)
            u, b = csmc_kernel(sub, u, b, vs, tab['ts'], m.init_sampler(vs[0]), m.init_loglik, m.transition_sampler,
                               m.transition_logpdf, m.loglik, getattr(resamplings, v['res']), N, backward=v['flag'])
        return u, b
    return g


def t_gibbs(v):
    from fbs.samplers.gibbs import gibbs_kernel
    eb, ef = v['eb'], v['flag']
    N = v['N']
    w = Bridge(v['seed'], 2, V, K, ef)
    tab = w.tables()

    def g(key):
        m = BridgeModel(tab, 2, V, K, (2,), (1,), False, ef)
        x, u, b = m.encu(jnp.asarray(1)), jnp.zeros((K + 1, 2)), jnp.zeros(K + 1, int)
        for _ in range(2):
            key, sub = jax.random.split(key)
            x, u, b, _ = gibbs_kernel(sub, x, W.enc(jnp.asarray(0), (1,)), u, b, tab['ts'], m.fwd_sampler, None, m.unpack,
                                      N if ef else N + 1, m.transition_sampler, m.transition_logpdf, m.loglik,
                                      explicit_backward=eb, explicit_final=ef)
        return x, u, b
    return g


def gauss(v):
    """a Gaussian world for the routines that need an SDE (marginalised observation paths)"""
    from fbs.sdes import make_linear_sde, StationaryConstLinearSDE
    sde = StationaryConstLinearSDE(a=-.5, b=1.)
    _, _, fwd = make_linear_sde(sde)
    ts = jnp.linspace(0., 1., K + 1)
    dt = 1. / K
    cb = dict(
        fwd_sampler=lambda key, x0, y0, **k: fwd(key, jnp.concatenate([x0, y0]), ts),
        unpack=lambda xy, **k: (xy[..., :2], xy[..., 2:]),
        transition_sampler=lambda us, vp, t, key, **k: .9 * us + .1 * vp[0] + dt ** .5 * jax.random.normal(key, us.shape),
        transition_logpdf=lambda u, up, vp, t, **k: -jnp.sum((u - .9 * up - .1 * vp[0]) ** 2, -1) / (2 * dt),
        likelihood_logpdf=lambda vv, up, vp, t, **k: -jnp.sum((vv - .9 * vp - .1 * up[:, :1]) ** 2, -1) / (2 * dt))
    return sde, fwd, ts, cb


def t_gibbs_marg(v):
    from fbs.samplers.gibbs import gibbs_kernel
    sde, fwd, ts, cb = gauss(v)

    def g(key):
        return gibbs_kernel(key, jnp.zeros(2), jnp.ones(1), jnp.zeros((K + 1, 2)), jnp.zeros(K + 1, int), ts, sde=sde,
                            nparticles=v['N'] + 1, marg_y=True, explicit_backward=v['eb'], explicit_final=False, **cb)
    return g


def t_gibbs_init(v):
    from fbs.samplers.gibbs import gibbs_init
    sde, fwd, ts, cb = gauss(v)

    def g(key):
        r = gibbs_init(key, jnp.ones(1), (2,), ts, sde=sde, nparticles=v['N'] + 1, method=v['method'], marg_y=v['flag'], **cb)
        return [x for x in r if x is not None]
    return g


def t_filter(v):
    from fbs.samplers.smc import bootstrap_filter, bootstrap_backward_smoother, pmcmc_filter_step
    w = W.World(v['seed'], S, V, K)
    tab = w.tables()
    vs = W.enc(jnp.arange(K + 1) % V, (1,))

    def g(key):
        m = W.Model(tab, S, V, K, (2,), (1,))
        k1, k2, k3, k4 = jax.random.split(key, 4)
        h, nell = bootstrap_filter(m.transition_sampler, m.loglik, vs, tab['ts'], m.init_sampler_v, k1, v['N'],
                                   resampler(v['res2']), return_last=False)
        u = bootstrap_backward_smoother(k2, h, vs, tab['ts'], m.transition_logpdf, likelihood_logpdf=m.loglik)
        return h, u, pmcmc_filter_step(k3, vs, m.init_sampler_v(k4, vs[0], v['N']), tab['ts'], m.transition_sampler,
                                       m.loglik, resampler(v['res2']), v['N'])
    return g


def t_pmcmc(v):
    from fbs.samplers.smc import pmcmc_kernel
    sde, fwd, ts, cb = gauss(v)

    def g(key):
        c = (jnp.zeros(2), jnp.asarray(-100.), fwd(jax.random.fold_in(key, 7), jnp.ones(1), ts))
        for _ in range(2):
            key, sub = jax.random.split(key)
            c = pmcmc_kernel(sub, *c, jnp.ones(1), ts, lambda k, y: fwd(k, y, ts), sde,
                             lambda k, y, n: jax.random.normal(k, (n, 2)), cb['transition_sampler'],
                             cb['likelihood_logpdf'], resampler(v['res2']), v['N'], v['delta'], v['which'])[:3]
        return c
    return g


def t_twisted(v):
    step = c10.make_step('twisted', S, V, K, v['N'])
    tab, y0, st = c10.make_world('twisted', v['seed'], S, V, K, v['N'])
    return lambda key: step(key, st, tab, y0)['x']


def t_resampling(v):
    from fbs.samplers.csmc import resamplings
    from fbs.samplers.gibbs import force_move
    w = jnp.asarray(np.random.default_rng(v['seed']).dirichlet(np.ones(5)))

    def g(key):
        ks = jax.random.split(key, 8)
        out = [resampler(n)(w, k) for n, k in zip(['systematic', 'stratified', 'multinomial', 'killing'], ks)]
        out += [resamplings.killing(ks[4], w, 1, 3, v['flag']), resamplings.multinomial(ks[5], w, 1, 3, v['flag']),
                resamplings.systematic(ks[6], w, 0, 0, False), force_move(ks[7], w, 2)]
        return out
    return g


def t_sde(v):
    from fbs.sdes import make_linear_sde, StationaryConstLinearSDE, StationaryLinLinearSDE, reverse_simulator, euler_maruyama
    from fbs.sdes.linear import make_ou_sde, StationaryExpLinearSDE
    from fbs.sdes.simulators import discrete_time_simulator, doob_bridge_simulator
    from fbs.samplers.gibbs import bridge_sampler
    sde = StationaryLinLinearSDE(.02, 4., 0., 1.)
    ts = jnp.linspace(0., 1., K + 1)
    x0 = jnp.ones((2, 2))

    def g(key):
        ks = jax.random.split(key, 12)
        out = []
        for i, s in enumerate([sde, StationaryConstLinearSDE(-.5, 1.), StationaryExpLinearSDE(-.5, 1., 1., 1.)]):
            out.append(make_linear_sde(s)[2](ks[i], x0, ts, keep_path=v['flag']))
        out.append(make_ou_sde(-.5, 1.)[2](ks[3], jnp.ones(3), ts, v['flag']))
        out.append(euler_maruyama(ks[4], x0, ts, sde.drift, sde.dispersion, integration_nsteps=3, return_path=True))
        out.append(reverse_simulator(ks[5], x0, ts, lambda x, t: -x, sde.drift, sde.dispersion, integration_nsteps=2))
        out.append(discrete_time_simulator(ks[6], x0, ts, lambda x, t, s: .5 * x, lambda t, s: t - s))
        out.append(doob_bridge_simulator(ks[7], sde, x0, -x0, ts, 3, True))
        out.append(bridge_sampler(ks[8], x0, -x0, ts, sde))
        return out
    return g


def t_losses(v):
    from fbs.sdes.linear import make_linear_sde_law_loss, make_ou_score_matching_loss, StationaryConstLinearSDE
    from fbs.dsb.base import ipf_loss_disc, ipf_loss_cont, ipf_loss_cont_v
    sde = StationaryConstLinearSDE(-.5, 1.)
    x0 = jnp.asarray(np.random.default_rng(v['seed']).normal(size=(5, 2)))
    nn = lambda x, t, p: p * x + t if jnp.ndim(t) == 0 else p * x + t[:, None]

    def g(key):
        ks = jax.random.split(key, 9)
        out = []
        for i, (kw) in enumerate([dict(loss_type='score'), dict(loss_type='ipf'), dict(loss_type='ipf-score'),
                                  dict(loss_type='score', save_mem=True)]):
            out.append(make_linear_sde_law_loss(sde, nn, 0., 1., 4, v['flag'], **kw)(.3, ks[i], x0))
        out.append(make_ou_score_matching_loss(-.5, 1., nn, 0., 1., 4, v['flag'])(.3, ks[4], x0))
        ts = jnp.linspace(0., 1., 5)
        dr = lambda x, t, p: p * x
        out.append(ipf_loss_cont(ks[5], .1, .2, x0, ts, dr, dr, lambda t: 1.))
        out.append(ipf_loss_cont_v(ks[6], .1, .2, x0, ts, dr, dr, lambda t: 1.))
        out.append(ipf_loss_disc(.1, .2, x0, ts, jnp.ones(4) * .1, dr, dr, ks[7]))
        return out
    return g


def t_data(v):
    from fbs.data.base import Dataset
    from fbs.data.images import Image, ImageRestore
    from fbs.data.bayesian import Crescent

    class D(Dataset):
        n, xs = 23, jnp.arange(46.).reshape(23, 2)

    class I(Image):
        n, image_shape = 6, (16, 16, 1)
        xs = jnp.arange(6 * 256.).reshape(6, 16, 16, 1)

    def g(key):
        ks = jax.random.split(key, 10)
        d = D()
        out = [d.draw_subset(ks[0], 7), d.init_enumeration(ks[1], 5)]
        r = ImageRestore(v['task'], (8, 8, 1), v['flag'])
        r.n, r.xs = 6, jnp.arange(6 * 64.).reshape(6, 8, 8, 1)
        out.append(r.sampler(ks[2])[:2])
        out.append(Crescent().sampler(ks[3], 4))
        for i, task in enumerate(['inpaint-5', 'deconv-5', 'supr']):
            im = I()
            im.task = task
            out.append(im.sampler(ks[4 + i]))
            im.init_enumeration(jax.random.PRNGKey(0), 3)
            out.append(im.enumerate_subset(1, None, ks[7 + i]))
        return out
    return g


T = dict(csmc=t_csmc, gibbs=t_gibbs, gibbs_marg=t_gibbs_marg, gibbs_init=t_gibbs_init, filter=t_filter, pmcmc=t_pmcmc,
         twisted=t_twisted, resampling=t_resampling, sde=t_sde, losses=t_losses, data=t_data)
EAGER = {'data'}
SCRIPTS = {'toy/gp_filter.py': ['--nparticles=3'], 'toy/gp_gibbs.py': ['--nparticles=3', '--nchains=2'],
           'toy/gp_pmcmc.py': ['--nparticles=3', '--nchains=2'], 'toy/gp_twisted.py': ['--nparticles=3'],
           'toy/gp_csgm.py': [], 'sb/filter.py': ['--nparticles=3'], 'sb/gibbs.py': ['--nparticles=3']}


def run(scn, rec):
    tr = Tracker()
    prng.set_recorder(tr)
    try:
        if scn['kind'] == 'script':
            _script(scn, rec)
            what = scn['target'] + ' ' + ' '.join(scn['argv'])
        else:
            v = dict(scn)
            for rep in range(scn['reps']):
                if rep:
                    prng.set_recorder(Tracker())
                    tr.judge(scn['target'])
                    prng.set_recorder(tr := Tracker())
                key = prng.keys(subseed(scn['seed'], rep), mode=scn['mode'], rate=40)
                g = T[scn['target']](v)
                if scn['target'] not in EAGER and scn['jit']:
                    g = jax.jit(g)
                out = g(key)
                jax.block_until_ready(out)
                jax.effects_barrier()
                for leaf in jax.tree_util.tree_leaves(out):
                    rec.log(np.asarray(leaf))
                rec.evals += 1
                if scn['mode'] != 'none':
                    rec.fault('extreme random words')
            what = scn['target'] + ' ' + str({k: scn[k] for k in ('flag', 'eb', 'method', 'res', 'res2', 'delta', 'N')})
        jax.effects_barrier()
    finally:
        prng.set_recorder(None)
    if sum(tr.draws.values()) < 2:
        raise RuntimeError(f'the recorder saw no draws in {what}')
    rec.state(scn['target'], len(tr.draws), len(tr.parents))
    rec.probe('keys_drawn', len(tr.draws))
    rec.log(len(tr.draws), len(tr.parents))
    tr.judge(what)


def _script(scn, rec):
    from jax._src import prng as P
    from jax._src.config import config  # noqa
    if 'vsim' not in P.prngs:
        P.register_prng(prng.SPEC._impl if hasattr(prng.SPEC, '_impl') else prng.SPEC)
    prev = jax.config.jax_default_prng_impl
    with tempfile.TemporaryDirectory(prefix='vsim-c11-') as d:
        os.makedirs(f'{d}/toy/results')
        os.makedirs(f'{d}/sb/results')
        try:
            jax.config.update('jax_default_prng_impl', 'vsim')
            if 'conf' in scn:        # a restoration program
                s = dict(scn['conf'], script=scn['target'], seed=scn['seed'])
                cwd = c27.world(d, s)
                scn['argv'] = c18.conf(s)[0]
                net = c27.Net(False, (s['res'], s['res'], 1 if s['res'] == 28 else 3))
                imgs.run(s['script'], scn['argv'], cwd, net, driver.FS(cwd))
            elif 'train' in scn['target']:
                w = c19.World(d, dict(n=scn['n']), scn['seed'])
                driver.run(scn['target'], scn['argv'], w.cwd, patches=w.patches())
            else:
                driver.run(scn['target'], scn['argv'], d)
        finally:
            jax.config.update('jax_default_prng_impl', prev)
    rec.evals += 1


def plan(tier, rng):
    out = []
    big = tier == 'thorough'

    def add(target, **kw):
        base = dict(kind='call', target=target, jit=True, reps=4 if big else 1, mode='none', flag=True, eb=True, N=rng.choice([2, 3, 5]),
                    res='killing', res2='stratified', method='smoother', delta=None, which=None, task='supr-4',
                    group=f'{target}{len(out)}', cost=1.5)
        base.update(kw)
        base['seed'] = rng.randrange(2 ** 31)
        if not big and base['mode'] == 'none' and rng.random() < .4:
            base['mode'] = rng.choice(['mix', 'zero', 'one'])
        out.append(base)
    for mode in ['none'] if not big else ['none', 'mix', 'zero', 'one']:
        for res in ['killing', 'multinomial']:
            for flag in (True, False):
                add('csmc', res=res, flag=flag, mode=mode)
        for eb in (True, False):
            for flag in (True, False):
                add('gibbs', eb=eb, flag=flag, mode=mode)
            add('gibbs_marg', eb=eb, mode=mode)
        for method in ['filter', 'smoother', 'debug']:
            add('gibbs_init', method=method, flag=mode == 'none', mode=mode)
        for res2 in ['stratified', 'systematic', 'multinomial', 'killing', 'csmc-killing']:
            add('filter', res2=res2, mode=mode)
        for delta, which in [(None, None), (.3, None), (None, 0), (.3, 0)]:
            add('pmcmc', delta=delta, which=which, mode=mode, res2=rng.choice(['stratified', 'multinomial']))
        add('twisted', mode=mode)
        for flag in (True, False):
            add('resampling', flag=flag, mode=mode)
            add('sde', flag=flag, mode=mode)
            add('losses', flag=flag, mode=mode)
            add('data', flag=flag, task='supr-4' if flag else 'inpaint-3', mode=mode)
    for s, a in SCRIPTS.items():
        for extra in ([[]] if not s.endswith('gibbs.py') else [[], ['--explicit_backward']]):
            out.append(dict(kind='script', target=s, argv=['--d=2', '--nsamples=2', f'--id={rng.randrange(1000)}', *a, *extra],
                            group=s + str(extra), cost=6., seed=rng.randrange(2 ** 31)))
    base = dict(res=4, nsteps=3, nsamples=2, size=2, N=3, k=0, ny0s=2, start=0, ema=False, rm=False, method='gibbs-eb-ef', marg=False,
                init='smoother')
    runs = [('imgs/inpainting.py', dict(method='filter')), ('imgs/inpainting.py', dict(method='gibbs')),
            ('imgs/inpainting.py', dict(method='gibbs', marg=True, init='filter')), ('imgs/inpainting.py', dict()),
            ('imgs/inpainting.py', dict(method='pmcmc-0.1')), ('imgs/supr.py', dict(method='filter', marg=True)),
            ('imgs/supr.py', dict(method='gibbs-eb', rm=True)), ('imgs/supr.py', dict(init='filter')),
            ('imgs/supr.py', dict(method='pmcmc-0.1')), ('imgs/inpainting_twisted.py', {}), ('imgs/supr_twisted.py', {}),
            ('imgs/inpainting_csgm.py', {}), ('imgs/supr_csgm.py', dict(rm=True)),
            ('sb_imgs/supr.py', dict(res=28, size=4, method='filter')), ('sb_imgs/supr.py', dict(res=28, size=4, method='gibbs'))]
    for s, kw in runs:
        out.append(dict(kind='script', target=s, argv=[], conf=dict(base, sde=rng.choice(['lin', 'const']), tseed=rng.randrange(1000),
                                                                     nsamples=rng.choice([2, 3])) | kw,
                        group=s + str(kw), cost=6., seed=rng.randrange(2 ** 31)))
    for loss, opt in ((['--loss_type=score'], []), (['--loss_type=ipf'], ['--vmap_loss']), (['--loss_type=score', '--save_mem'], None)):
        n = rng.choice([5, 6])
        a = ['--dataset=celeba-4', f"--sde={rng.choice(['lin', 'const'])}", '--lr=0.01', '--batch_size=2', '--schedule=const']
        out.append(dict(kind='script', target='imgs/train.py', n=n, seed=rng.randrange(2 ** 31), group=f'train{loss}', cost=4.,
                        argv=a + ['--nepochs=3', '--nsteps=3', *loss]))
        if opt is not None:
            out.append(dict(kind='script', target='sb_imgs/train.py', n=n, seed=rng.randrange(2 ** 31), group=f'sbtrain{opt}',
                            cost=6., argv=a + ['--nepochs=2', '--nsteps=3', '--nsbs=2', '--T=1.0', *opt]))
    return out


def shrink(scn):
    if scn['kind'] == 'call':
        yield from W.shrink_by(scn, [('reps', 1), ('mode', 'none'), ('N', 2), ('delta', None), ('which', None)])
