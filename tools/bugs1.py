CSMC = 'fbs/samplers/csmc/csmc.py'
CRES = 'fbs/samplers/csmc/resamplings.py'
RES = 'fbs/samplers/resampling.py'
SMC = 'fbs/samplers/smc.py'
GIBBS = 'fbs/samplers/gibbs.py'
LIN = 'fbs/sdes/linear.py'
SIM = 'fbs/sdes/simulators.py'
DSB = 'fbs/dsb/base.py'

BUGS = [
    dict(id='c01-forward-times', prop='C01',
         edits=[(CSMC, 'inputs = (vs[1:], vs[:-1], ts[:-1], bs_star[:-1]', 'inputs = (vs[1:], vs[:-1], ts[1:], bs_star[:-1]')],
         needs='a model whose likelihood or transition varies quickly with time',
         breaks='the particles are moved and weighted with the coefficients of the wrong time',
         demo='''
import jax, jax.numpy as jnp, sys
from fbs.samplers.csmc.csmc import csmc_kernel
from fbs.samplers.csmc.resamplings import killing
# u1 = u0 with probability .9 for the step that starts at time 0, the observation of that step is uninformative
ts = jnp.array([0., 1., 2.])
p_stay = lambda t: jnp.where(t < .5, .9, .5)
def trans(u, v, t, k): return jnp.where(jax.random.uniform(k, u.shape) < p_stay(t), u, 1 - u)
def init(k, n): return jax.random.randint(k, (n,), 0, 2).astype(float)
zero = lambda v, u, *_: jnp.zeros(u.shape[0])
def lane(key):
    k0, k1, k2, k3 = jax.random.split(key, 4)
    u0 = init(k0, 1)
    u1 = trans(u0, 0., 0., k1)
    us = jnp.concatenate([u0, u1, trans(u1, 0., 1., k3)])
    out, _ = csmc_kernel(k2, us, jnp.zeros(3, int), jnp.zeros(3), ts, init, zero, trans, None, zero, killing, 5)
    return out[0] == out[1]
f = float(jnp.mean(jax.jit(jax.vmap(lane))(jax.random.split(jax.random.PRNGKey(1), 20000))))
print('P(u1 = u0) =', f, 'should be 0.9')
sys.exit(abs(f - .9) > .02)
'''),
    dict(id='c02-forced-move-index', prop='C02',
         edits=[(GIBBS, 'jnp.exp(log_ws[-1]), bs_star[-1])', 'jnp.exp(log_ws[-1]), bs_star[0])')],
         needs='explicit_backward, and reference indices that differ between the first and the last time (they do from the '
               'second iteration on)',
         breaks='the forced move excludes the wrong particle, so the conditional law of x0 is not invariant',
         demo='''
import jax, jax.numpy as jnp, numpy as np, sys
from fbs.samplers import gibbs_kernel
# law of the hidden path: x0 uniform, x1 = x0 with probability .9, x2 uniform; the observation multiplies it by L(x1)
ts = jnp.array([0., 1., 2.])
L = jnp.array([.9, .1])
pi = np.array([.9 * .9 + .1 * .1, .1 * .9 + .9 * .1])
pi = pi / pi.sum()
def fwd(key, x0, y0, **_):   # x1, x2 given x0 and the observation
    k1, k2 = jax.random.split(key)
    w1 = jnp.where(x0[0] == 1, .9, .1) * L[1]
    w0 = jnp.where(x0[0] == 0, .9, .1) * L[0]
    x1 = (jax.random.uniform(k1, (1, 1)) < w1 / (w0 + w1)).astype(float)
    xs = jnp.concatenate([x0[None], x1, jax.random.randint(k2, (1, 1), 0, 2).astype(float)])
    return jnp.concatenate([xs, jnp.zeros((3, 1))], -1)
unpack = lambda xy, **_: (xy[..., :1], xy[..., 1:])
def trans(u, v, t, k, **_):
    k1, k2 = jax.random.split(k)
    stay = jnp.where(jax.random.uniform(k1, u.shape) < .9, u, 1 - u)
    return jnp.where(t > .5, stay, jax.random.randint(k2, u.shape, 0, 2).astype(float))
def like(v, u, vp, t, **_): return jnp.where(t > .5, jnp.log(L)[u[:, 0].astype(int)], 0.)
def lane(key):
    k0, k1 = jax.random.split(key)
    def body(c, k):
        x0, bs = c
        x0, us, bs, _ = gibbs_kernel(k, x0, jnp.zeros(1), jnp.zeros((3, 1)), bs, ts, fwd, None, unpack, 3, trans, None, like)
        return (x0, bs), x0[0]
    x0 = (jax.random.uniform(k0, (1,)) < pi[1]).astype(float)
    return jax.lax.scan(body, (x0, jnp.array([0, 0, 1])), jax.random.split(k1, 4))[1]
f = np.asarray(jnp.mean(jax.jit(jax.vmap(lane))(jax.random.split(jax.random.PRNGKey(1), 100000)), 0))
print('P(x0 = 1) per iteration', f, 'should stay at', pi[1])
sys.exit(bool(np.any(abs(f - pi[1]) > .007)))
'''),
    dict(id='c02-stale-terminal', prop='C02',
         edits=[(GIBBS, 'return us[0] * jnp.ones((nparticles, *us.shape[1:]))', 'return us_star[0] * jnp.ones((nparticles, *us.shape[1:]))')],
         needs='explicit_final=False and a terminal state that the following states depend on',
         breaks='the particles start from the terminal state of another path than the reference and the observations',
         demo='''
import jax, jax.numpy as jnp, numpy as np, sys
from fbs.samplers import gibbs_kernel
# x1 = x0 always (no noise): whatever the particles do, x0 can never change
ts = jnp.array([0., 1.])
fwd = lambda key, x0, y0, **_: jnp.stack([jnp.concatenate([x0, y0])] * 2)
unpack = lambda xy, **_: (xy[..., :1], xy[..., 1:])
trans = lambda u, v, t, k, **_: u
like = lambda v, u, vp, t, **_: jnp.zeros(u.shape[0])
x0 = [float(gibbs_kernel(jax.random.PRNGKey(i), jnp.ones(1), jnp.zeros(1), jnp.zeros((2, 1)), jnp.zeros(2, int), ts, fwd, None,
                         unpack, 3, trans, None, like)[0][0]) for i in range(10)]
print('x0 after one iteration', x0, 'should be 1')
sys.exit(any(x != 1. for x in x0))
'''),
    dict(id='c03-pcn-origin', prop='C03',
         edits=[(SMC, 'mean = jax.vmap(sde.mean, in_axes=[0, None, None])(ts, ts[0], y0)',
                 'mean = jax.vmap(sde.mean, in_axes=[0, None, None])(ts, 0., y0)')],
         needs='a preconditioned Crank-Nicolson proposal (delta given) on a time grid that does not start at zero',
         breaks='the proposal is centred at the wrong mean, so it is not reversible for the law of the observation path',
         demo='''
import jax, jax.numpy as jnp, numpy as np, sys
from fbs.samplers.smc import pmcmc_kernel
from fbs.sdes import StationaryConstLinearSDE, make_linear_sde
sde = StationaryConstLinearSDE(a=-1., b=.1)
_, _, sim = make_linear_sde(sde)
ts = jnp.array([1., 1.3, 2.])
y0 = jnp.array([2.])
fy = lambda k, y: sim(k, y, ts)
ref = lambda k, v, n: jax.random.normal(k, (n, 1))
trans = lambda u, v, t, k, **_: u
like = lambda v, u, vp, t, **_: jnp.zeros(u.shape[0])
res = lambda w, k: jnp.arange(w.shape[0])
def lane(k):
    k1, k2 = jax.random.split(k)
    return pmcmc_kernel(k2, jnp.zeros(1), 0., fy(k1, y0), y0, ts, fy, sde, ref, trans, like, res, 2, delta=1.)[2][:, 0]
m = np.asarray(jnp.mean(jax.jit(jax.vmap(lane))(jax.random.split(jax.random.PRNGKey(0), 4000)), 0))
want = np.asarray(2. * jnp.exp(-(ts - 1.)))
print('mean of the observation path', m, 'should be', want)
sys.exit(bool(np.abs(m - want).max() > .03))
'''),
    dict(id='c03-accepted-path', prop='C03',
         edits=[(SMC, 'lambda _: (prop_uT, prop_log_ell, prop_ys, mcmc_state),', 'lambda _: (prop_uT, prop_log_ell, vs, mcmc_state),')],
         needs='an accepted move of a chain whose next proposal depends on the path (delta given)',
         breaks='an accepted path is stored in reversed time, so the next Crank-Nicolson proposal starts at the wrong path '
                'and the observation is lost from its start',
         demo='''
import jax, jax.numpy as jnp, numpy as np, sys
from fbs.samplers.smc import pmcmc_kernel
from fbs.sdes import StationaryConstLinearSDE, make_linear_sde
sde = StationaryConstLinearSDE(a=-1., b=1.)
_, _, sim = make_linear_sde(sde)
ts = jnp.linspace(0., 1., 5)
y0 = jnp.array([2.])
fy = lambda k, y: sim(k, y, ts)
ref = lambda k, v, n: jax.random.normal(k, (n, 1))
trans = lambda u, v, t, k, **_: u
like = lambda v, u, vp, t, **_: jnp.zeros(u.shape[0])
res = lambda w, k: jnp.arange(w.shape[0])
ys = fy(jax.random.PRNGKey(1), y0)
bad = 0
for i in range(20):
    _, ll, ys, st = pmcmc_kernel(jax.random.PRNGKey(i), jnp.zeros(1), 0., ys, y0, ts, fy, sde, ref, trans, like, res, 2, delta=.5)
    bad += abs(float(ys[0, 0]) - 2.) > 1e-4
print(bad, 'of 20 states do not start at the observation')
sys.exit(bad > 0)
'''),
    dict(id='c05-killing-edge', prop='C05',
         edits=[(RES, '    killed = (jax.random.uniform(key_1, (N,)) * w_max >= weights)',
                 '    killed = (jax.random.uniform(key_1, (N,)) * w_max > weights)')],
         needs='a uniform draw of exactly zero (probability 2^-23 per particle) at a particle of weight zero',
         breaks='a particle of weight zero survives the killing',
         demo='''
import jax, jax.numpy as jnp, numpy as np, sys
from fbs.samplers.resampling import killing
N = 1 << 16
w = jnp.where(jnp.arange(N) % 2 == 0, 2. / N, 0.)
f = jax.jit(lambda k: jnp.sum(w[killing(w, k)] <= 0))
bad = sum(int(f(jax.random.PRNGKey(i))) for i in range(1500))
print(bad, 'particles of weight zero selected')
sys.exit(bad > 0)
'''),
    dict(id='c06-rotation-law', prop='C06',
         edits=[(CRES, '    J_prob = J_prob.at[i].set(0.)\n', '')],
         needs='conditional killing with a reference that does not have the largest weight',
         breaks='the rotation that places the reference is drawn with a probability at i that counts its own term twice, so '
                'the other ancestors do not have the conditional law',
         demo='''
import jax, jax.numpy as jnp, numpy as np, sys
from fbs.samplers.csmc.resamplings import killing
# the conditional law is that of the unconditional scheme, uniformly rotated, given that slot 0 holds index 2
w = jnp.array([.6, .3, .1])
code = jnp.array([9, 3, 1])
def lane(key):
    k1, k2, k3 = jax.random.split(key, 3)
    u = jnp.roll(killing(k3, w, conditional=False), jax.random.randint(k1, (), 0, 3))
    return jnp.stack([jnp.sum(killing(k2, w, 2, 0, True) * code), jnp.sum(u * code), u[0]])
x = np.asarray(jax.jit(jax.vmap(lane))(jax.random.split(jax.random.PRNGKey(0), 400000)))
c = np.bincount(x[:, 0], minlength=27) / len(x)
u = np.bincount(x[x[:, 2] == 2, 1], minlength=27) / (x[:, 2] == 2).sum()
print('largest difference of the joint laws', np.abs(c - u).max())
sys.exit(bool(np.abs(c - u).max() > .015))
'''),
    dict(id='c07-threshold', prop='C07',
         edits=[(GIBBS, '    threshold = jnp.maximum(1 - jnp.exp(-M), 1 - 1e-12)  # This might be problematic',
                 '    threshold = 1 - 1e-1')],
         needs='a reference particle with more than 90 percent of the weight',
         breaks='the proposal becomes uniform while the acceptance assumes it is proportional to the weights',
         demo='''
import jax, jax.numpy as jnp, numpy as np, sys
from fbs.samplers.gibbs import force_move
w = jnp.array([.91, .08, .01])
def lane(key):
    k0, k1 = jax.random.split(key)
    return force_move(k1, w, jax.random.choice(k0, 3, p=w))[0]
x = np.asarray(jax.jit(jax.vmap(lane))(jax.random.split(jax.random.PRNGKey(0), 200000)))
f = np.bincount(x, minlength=3) / len(x)
print('law after the move', f, 'should be', w)
sys.exit(bool(np.abs(f - np.asarray(w)).max() > .01))
'''),
    dict(id='c08-init-order', prop='C08',
         edits=[(GIBBS, '        approx_us_star = unpack(fwd_sampler(key_fwd2, approx_x0, y0, **kwargs), **kwargs)[0][::-1]',
                 '        approx_us_star = unpack(fwd_sampler(key_fwd2, approx_x0, y0, **kwargs), **kwargs)[0]')],
         needs="gibbs_init with method='filter'",
         breaks='the initial reference path is in forward time, so it ends at the noise instead of the sample x0',
         demo='''
import jax, jax.numpy as jnp, sys
from fbs.samplers.gibbs import gibbs_init
ts = jnp.linspace(0., 1., 5)
def fwd(key, x0, y0, **_):
    xy = jnp.concatenate([x0, y0])
    return jnp.concatenate([xy[None], jax.random.normal(key, (4, 2))])
unpack = lambda xy, **_: (xy[..., :1], xy[..., 1:])
trans = lambda u, v, t, k, **_: u + .1 * jax.random.normal(k, u.shape)
like = lambda v, u, vp, t, **_: -.5 * (v - u[:, 0].mean() * 0)[0] ** 2 * jnp.ones(u.shape[0])
x0, us = gibbs_init(jax.random.PRNGKey(0), jnp.zeros(1), (1,), ts, fwd, None, unpack, trans, None, like, 8, method='filter',
                    marg_y=False)
print('x0', x0, 'end of the path', us[-1])
sys.exit(bool(abs(float(x0[0] - us[-1, 0])) > 1e-6))
'''),
    dict(id='c08-smoother-observation', prop='C08',
         edits=[(SMC, 'log_ws = transition_logpdf(u_kp1, uf_k, v_k, t_k, *args, **kwargs)',
                 'log_ws = transition_logpdf(u_kp1, uf_k, v_kp1, t_k, *args, **kwargs)')],
         needs='a transition that depends on the observation',
         breaks='the backward weights use the next observation in the transition density',
         demo='''
import jax, jax.numpy as jnp, numpy as np, sys
from fbs.samplers.smc import bootstrap_backward_smoother
us = jnp.array([[0., 1.], [1., 1.]])
vs = jnp.array([0., 1.])
lp = lambda u, up, v, t: jnp.log(jnp.where(up == v, .9, .1))
x = jax.jit(jax.vmap(lambda k: bootstrap_backward_smoother(k, us, vs, jnp.array([0., 1.]), lp)[0]))(
    jax.random.split(jax.random.PRNGKey(0), 4000))
f = float(jnp.mean(x == 0.))
print('P(u0 = 0)', f, 'should be 0.9')
sys.exit(abs(f - .9) > .03)
'''),
    dict(id='c09-twisting-weights', prop='C09',
         edits=[(SMC, '        log_ps_prev = log_ps_prev[resampling_inds, ...]\n', '')],
         needs='resampling that permutes or duplicates particles of different twisting values',
         breaks='the weights divide by the twisting value of another particle',
         demo='''
import jax, jax.numpy as jnp, numpy as np, sys
from fbs.samplers.smc import twisted_smc
from fbs.samplers.resampling import stratified
# states 0/1 that never move, uniform at first; the twisting value is the likelihood (1 for 0, 9 for 1) throughout
tw = lambda y, x, t: jnp.log(jnp.where(x == 1., 9., 1.))
zero = lambda x, xp, *_: jnp.zeros(x.shape[0])
f = jax.jit(lambda k: twisted_smc(k, 0., jnp.arange(4.), lambda k, n: (jnp.arange(n) % 2).astype(float), zero, tw,
                                  lambda k, x, t, y: x, zero, stratified, 1000))
x, lw = f(jax.random.PRNGKey(0))
p = float(jnp.sum(jnp.exp(lw) * x) / jnp.sum(jnp.exp(lw)))
print('P(x = 1 | y)', p, 'should be 0.9')
sys.exit(abs(p - .9) > .03)
'''),
    dict(id='c10-compiled-cache', prop='C10',
         edits=[(SMC, '''    log_ell0 = 0.

    def scan_body(carry, elem):
        us_prev, log_ell = carry
        v, v_prev, t_prev, key_ = elem

        key_proposal, key_resampling = jax.random.split(key_)

        log_ws = likelihood_logpdf(''', '''    log_ell0 = 0.
    likelihood_logpdf = _likelihoods.setdefault((nparticles, ts.shape, u0s.shape), likelihood_logpdf)  # avoid retracing

    def scan_body(carry, elem):
        us_prev, log_ell = carry
        v, v_prev, t_prev, key_ = elem

        key_proposal, key_resampling = jax.random.split(key_)

        log_ws = likelihood_logpdf('''),
                (SMC, 'def bootstrap_filter(', '_likelihoods = {}\n\n\ndef bootstrap_filter(')],
         needs='two chains of the same sizes and different models in one process, interleaved or one after the other',
         breaks='the second chain runs with the likelihood of the first',
         demo='''
import jax, jax.numpy as jnp, sys
from fbs.samplers.smc import pmcmc_filter_step
from fbs.samplers.resampling import stratified
trans = lambda u, v, t, k: u
out = []
for c in (1., 2.):
    like = lambda v, u, vp, t, c=c: c * jnp.ones(u.shape[0])
    out.append(float(pmcmc_filter_step(jax.random.PRNGKey(0), jnp.zeros((3, 1)), jnp.zeros((4, 1)), jnp.arange(3.), trans, like,
                                       stratified, 4)[1]))
print('log likelihoods', out, 'should be [2, 4]')
sys.exit(abs(out[0] - 2.) > 1e-4 or abs(out[1] - 4.) > 1e-4)
'''),
    dict(id='c11-noise-reuse', prop='C11',
         edits=[(GIBBS, 'us_star_next = unpack(fwd_sampler(key_csmc_bwd_us, x0, y0, **kwargs), **kwargs)[0][::-1]',
                 'us_star_next = unpack(fwd_sampler(key_fwd, x0, y0, **kwargs), **kwargs)[0][::-1]')],
         needs='explicit_backward',
         breaks='the refreshed path reuses the noise of the reference path of the same iteration, so they are not independent '
                'given their starts',
         demo='''
import jax, jax.numpy as jnp, numpy as np, sys
from fbs.samplers import gibbs_kernel
ts = jnp.array([0., 1., 2.])
seen = []
def fwd(key, x0, y0, **_):
    seen.append(tuple(np.asarray(key).tolist()))
    xs = jnp.concatenate([x0[None], jax.random.normal(key, (2, 1))])
    return jnp.concatenate([xs, jnp.zeros((3, 1))], -1)
unpack = lambda xy, **_: (xy[..., :1], xy[..., 1:])
trans = lambda u, v, t, k, **_: jax.random.normal(k, u.shape)
like = lambda v, u, vp, t, **_: jnp.zeros(u.shape[0])
gibbs_kernel(jax.random.PRNGKey(0), jnp.zeros(1), jnp.zeros(1), jnp.zeros((3, 1)), jnp.zeros(3, int), ts, fwd, None, unpack, 3,
             trans, None, like)
print(len(seen), 'noisings with', len(set(seen)), 'distinct keys')
sys.exit(len(set(seen)) < len(seen))
'''),
    dict(id='c12-beta-origin', prop='C12',
         edits=[(LIN, '''        return 0.5 * (t - s) * ((beta_max - beta_min) / (T - t0) * (t + s)
                                + 2 * (beta_min * T - beta_max * t0) / (T - t0))''',
                 '''        return 0.5 * (t - s) * ((beta_max - beta_min) / (T - t0) * (t + s) + 2 * beta_min)''')],
         needs='a StationaryLinLinearSDE with t0 different from zero',
         breaks='the transition law does not integrate the declared coefficient',
         demo='''
import numpy as np, sys
from fbs.sdes import StationaryLinLinearSDE
sde = StationaryLinLinearSDE(beta_min=.1, beta_max=5., t0=.5, T=2.)
ts = np.linspace(.7, 1.8, 10001)
want = np.trapezoid(sde.beta(ts), ts) if hasattr(np, 'trapezoid') else np.trapz(sde.beta(ts), ts)
got = float(sde.beta_integral(1.8, .7))
print('integral of beta', got, 'should be', want)
sys.exit(bool(abs(got - want) > 1e-3))
'''),
    dict(id='c12-exp-origin', prop='C12',
         edits=[(LIN, 'r = a * (jnp.exp(c * (t - z)) - jnp.exp(c * (s - z))) / c', 'r = a * jnp.exp(-c * z) * jnp.expm1(c * (t - s)) / c')],
         needs='a StationaryExpLinearSDE noised from a time that is not zero, or along a path of more than one step',
         breaks='the transition law depends on t - s only, as if the coefficients were constant in time',
         demo='''
import numpy as np, sys
from fbs.sdes import StationaryExpLinearSDE, make_linear_sde
sde = StationaryExpLinearSDE(a=-.5, b=1., c=1., z=1.)
disc = make_linear_sde(sde)[0]
ts = np.linspace(.5, 1.5, 20001)
want = np.exp(np.mean([float(sde.drift(1., t)) for t in ts[::100]]))
got = float(disc(1.5, .5)[0])
print('decay', got, 'should be', want)
sys.exit(bool(abs(got - want) > 1e-3))
'''),
    dict(id='c13-frozen-dispersion', prop='C13',
         edits=[(SIM, 'x = x + drift(x, t_) * ddt + dispersion(t_) * jnp.sqrt(ddt) * rnd',
                 'x = x + drift(x, t_) * ddt + dispersion(t) * jnp.sqrt(ddt) * rnd')],
         needs='integration_nsteps > 1 and a dispersion that depends on time',
         breaks='the dispersion is frozen at the beginning of each interval',
         demo='''
import jax, jax.numpy as jnp, sys
from fbs.sdes.simulators import euler_maruyama
ts = jnp.array([0., 1.])
x = jax.vmap(lambda k: euler_maruyama(k, jnp.zeros(1), ts, lambda x, t: 0. * x, lambda t: t, 50))(
    jax.random.split(jax.random.PRNGKey(0), 2000))
v = float(jnp.var(x))
print('variance', v, 'should be about 1/3')
sys.exit(bool(not .28 < v < .38))
'''),
    dict(id='c14-random-times', prop='C14',
         edits=[(LIN, '''            ts = jnp.hstack([jnp.sort(jax.random.uniform(key_ts, (nsamples - 1,), minval=t0 + eps, maxval=T)),
                             T])  # (n, )''', '''            ts = jnp.hstack([jnp.sort(jax.random.uniform(key_ts, (nsamples - 1,), minval=eps, maxval=T)),
                             T])  # (n, )''')],
         needs='save_mem with random times and an initial time that is not zero',
         breaks='training times before the initial time are drawn, whose variance is negative',
         demo='''
import jax, jax.numpy as jnp, sys
from fbs.sdes import StationaryConstLinearSDE
from fbs.sdes.linear import make_linear_sde_law_loss
loss = make_linear_sde_law_loss(StationaryConstLinearSDE(a=-1., b=1.), lambda x, t, p: p * x, t0=1., T=2., random_times=True,
                                save_mem=True)
v = jnp.stack([loss(-1., jax.random.PRNGKey(i), jnp.ones((8, 2))) for i in range(10)])
print('losses', v)
sys.exit(not bool(jnp.all(jnp.isfinite(v))))
'''),
    dict(id='c14-ipf-times', prop='C14',
         edits=[(DSB, '''jax.vmap(fn, in_axes=[0, 0, 0])(trajs[1:],
                                                                                                        ts[:-1],
                                                                                                        dts))''',
                 '''jax.vmap(fn, in_axes=[0, 0, 0])(trajs[1:],
                                                                                                        ts[1:],
                                                                                                        dts))''')],
         needs='a simulator drift that depends on time',
         breaks='the vectorised loss evaluates the reference drift at the wrong time and differs from the loss it replaces',
         demo='''
import jax, jax.numpy as jnp, sys
from fbs.dsb.base import ipf_loss_cont, ipf_loss_cont_v
a = (jax.random.PRNGKey(0), 1., 2., jnp.ones((3, 2)), jnp.linspace(0., 1., 4), lambda x, t, p: p * x, lambda x, t, p: p * x * jnp.cos(3 * t),
     lambda t: 1.)
u, v = float(ipf_loss_cont(*a)), float(ipf_loss_cont_v(*a))
print('losses', u, v, 'should be equal')
sys.exit(abs(u - v) > 1e-4)
'''),
]
