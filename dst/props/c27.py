"""C27  The image restoration programs: what is handed to the samplers is the reversal of the trained process, conditioned on the
pixels of the measurement; every stored restoration is one application of the sampler with the requested options."""
import os
import tempfile
import numpy as np
import jax
import jax.numpy as jnp
from dst import imgs, driver
from dst.core import Violation, rng_of, subseed
from dst.props import c18, c20
from dst.props.c20 import near, norm_logpdf, law

PROP = 'C27'
RULE = ('a scenario is one run of a restoration program on synthetic pictures with recording samplers, after which every callable '
        'and option the samplers were given is judged, or runs of a directly simulating program whose restorations are judged '
        'against their exact law; non-trivial: at least one restoration was written')
REAL = ['experiments/imgs/{supr,inpainting}{,_twisted,_csgm}.py, experiments/sb_imgs/supr.py and '
        'experiments/tabulators/plot_img_coalescence.py (unmodified)', 'fbs.data.images',
        'fbs.sdes']
STUB = ['the samplers (recording stand-ins)', 'UNet and its checkpoint: a smooth network known in closed form',
        'the picture files (synthetic)', 'numpy.save, numpy.savez and pyplot.imsave (simulated disk in a scratch directory)']
STATE = 'distinct (program, options, picture)'
ASSUMPTIONS = ['the samplers are called through the names that fbs.samplers exports',
               'the twisting function is that of the programs: one reverse step ahead, data variance 0.06']
P1, P2, BAD = np.array([.7, 1.1, .4]), np.array([-.5, .8, .9]), np.array([9., 1., 3.])


class Net:
    """score or drift, in closed form"""

    def __init__(self, linear, shape):
        self.linear, self.params = linear, []
        self.W = np.linspace(-1., 1.5, int(np.prod(shape))).reshape(shape)

    def __call__(self, x, t, p, xp=np):
        W = self.W if xp is np else jnp.asarray(self.W, jnp.float32)
        if self.linear:     # neighbouring pixels attract each other
            s = W + t + .7 * xp.cos(2 * t) * (xp.roll(x, 1, axis=-2) + xp.roll(x, 1, axis=-3))
        else:
            s = xp.sin(x + (1 + t) * W)
        return p[0] * s - p[1] * (1 + .5 * t) * x + p[2] * xp.cos(t) * xp.mean(x, axis=(-3, -2, -1), keepdims=True)

    def make_st_nn(self, key, nn=None, dim_in=None, batch_size=None, **kw):
        if tuple(dim_in) != self.W.shape:
            raise Violation('shape', f'a network for pictures of shape {tuple(dim_in)}')

        def f(x, t, param):
            if not isinstance(param, jax.core.Tracer):
                self.params.append(np.asarray(param))
            return self(x, t, param, jnp)
        return jnp.zeros(3), None, f

    def patches(self):
        return [('fbs.nn.unet', 'UNet', lambda *a, **kw: 'stub'), ('fbs.nn.models', 'make_st_nn', self.make_st_nn)]


class Spy(c20.Spy):
    def __init__(self):
        self.masks = []
        c20.NAMES['gibbs_init'] = ['fbs.samplers', 'fbs.samplers.gibbs']
        try:
            super().__init__(real=('euler_maruyama', 'make_gaussian_bw_sb', 'bootstrap_filter', 'bootstrap_backward_smoother'))
        finally:
            del c20.NAMES['gibbs_init']

    def keep(self, kw):
        leaves, tree = jax.tree_util.tree_flatten(kw)
        if not leaves:
            raise Violation('mask', 'a sampler is called without the mask')
        jax.debug.callback(lambda *v: self.masks.append(jax.tree_util.tree_unflatten(tree, [np.array(x) for x in v])), *leaves)

    def gibbs_init(self, key, y0, shape, ts, fwd, sde, unpack, tr, trp, lik, n, method, marg, x0, kw):
        self.keep(kw)
        k1, k2 = jax.random.split(key)
        us = jax.random.normal(k1, (len(ts), *shape))
        out = jax.random.normal(k2, (len(ts), n, *shape) if method == 'debug' else tuple(shape))
        self.note('init-' + method, key=key, y0=y0, us=us, out=out, x0=jnp.zeros(shape) if x0 is None else x0)
        return out, us

    def gibbs_kernel(self, key, x0, y0, us, bs, ts, *a):
        self.keep(a[-1])
        return super().gibbs_kernel(key, x0, y0, us, bs, ts, *a)

    def pmcmc_kernel(self, key, uT, ell, ys, y0, *a):
        self.keep(a[-1])
        return super().pmcmc_kernel(key, uT, ell, ys, y0, *a)

    def twisted_smc(self, key, y, ts, init, tr, tw, ps, pl, res, n, kw):
        self.keep(kw)
        k1, k2 = jax.random.split(key)
        us = jax.random.normal(k1, jax.eval_shape(lambda k: init(k, n), key).shape) + jnp.arange(n)[:, None, None, None] * 100.
        j = jax.random.randint(k2, (), 0, n)
        self.note('twisted', key=key, y0=y, us=us, j=j)
        return us, jnp.where(jnp.arange(n) == j, 0., -jnp.inf)


class Model:
    """the process that the network was trained for, in float64"""

    def __init__(self, s, net):
        self.s, self.net = s, net
        self.sb = s['script'].startswith('sb_imgs')
        self.T, self.K = (.5 if self.sb else 2.), s['nsteps']
        self.dt = self.T / self.K

    def beta(self, t):
        return 1. if self.s['sde'] == 'const' else .02 + (5. - .02) * t / self.T

    def FQ(self, t, u=0.):
        i = lambda r: r if self.s['sde'] == 'const' else .02 * r + (5. - .02) * r * r / (2 * self.T)  # noqa
        d = i(t) - i(u)
        return np.exp(-.5 * d), 1 - np.exp(-d)

    def reverse(self, z, t):
        if self.sb:
            return self.net(z, self.T - t, P2)
        b = self.beta(self.T - t)
        return .5 * b * z + b * self.net(z, self.T - t, P1)

    def sd(self, t):
        return np.sqrt(self.dt * self.beta(self.T - t))


def world(d, s):
    cwd = c18.world(d, s['res'], subseed(s['seed'], 'pictures'))
    ds = 'mnist' if s['res'] == 28 else f"celeba-{s['res']}"
    imgs.checkpoint(cwd, ds, s['sde'], 2999, BAD if s['ema'] else P1, P1 if s['ema'] else BAD)
    np.savez(f"{cwd}/checkpoints/sb_{ds}_{s['sde']}_9.npz", param_fwd=P1.astype(np.float32), param_bwd=P2.astype(np.float32))
    return cwd


def launch(s, cwd, net, spy=None):
    a, head, s = c18.conf(s)
    # the forward network of a bridge is evaluated with other parameters than the backward one: their calls are judged by value
    _, crashed = imgs.run(s['script'], a, cwd, net, driver.FS(cwd), spy.patch if spy else ())
    jax.effects_barrier()
    return head, s['script'] + ' ' + ' '.join(a)


def results(s, cwd, head, k, lab):
    f = f'{cwd}/{head[0]}-{k}-{lab}.npy'
    if not os.path.exists(f):
        raise Violation('missing', f'{s["script"]}: no {os.path.basename(f)}; there is {sorted(os.listdir(os.path.dirname(f)))}')
    return np.load(f)


def spied(s, rec, cwd):
    shape = (s['res'], s['res'], 1 if s['res'] == 28 else 3)
    if s['crash']:     # an earlier run that crashed; the operator restarts from the first picture without a result
        a, head, _ = c18.conf(s)
        net = Net(False, shape)
        torn = bool(s['crash'] % 2)
        _, crashed = imgs.run(s['script'], a, cwd, net, driver.FS(cwd, crash_at=s['crash'], torn=torn), Spy().patch)
        jax.effects_barrier()
        rec.fault('torn_write' if torn else 'crash_before_write', crashed)
        if not s['script'].startswith('sb_imgs'):
            while s['start'] < s['ny0s'] - 1 and c18.readable(f"{cwd}/{head[0]}-{s['start']}-{c18.label(s)}.npy"):
                s = dict(s, start=s['start'] + 1)
    net, spy = Net(False, shape), Spy()
    head, what = launch(s, cwd, net, spy)
    c = shape[-1]
    sb = s['script'].startswith('sb_imgs')
    labs = [c18.label(s)] if not sb else [('filter-' if s['method'] == 'filter' else 'gibbs-eb-ef-') + n
                                         for n in ('random', 'blank', 'interp')]
    keys = [v['key'].tobytes() for _, v in spy.log]
    if not keys:
        raise Violation('draws', f'{what}: no sampler was called')
    if len(set(keys)) != len(keys):
        raise Violation('keys', f'{what}: two sampler calls share a key')
    masks = []
    for k in ([s['k']] if sb else range(s['start'], s['ny0s'])):
        img, un, ob, _ = c18.truth(cwd, head, k)
        flat = img.reshape(-1, c)
        masks.append((un, ob))
        x0 = start = None
        for lab in labs:
            R = results(s, cwd, head, k, lab)
            if R.shape != (s['nsamples'], *shape):
                raise Violation('shape', f'{what}: restorations of shape {R.shape}')
            rec.evals += len(R)
            rec.log(R)
            rec.state(s['script'], what, k)
            U = R.reshape(len(R), -1, c)[:, un].astype(np.float32)
            if 'twisted' in lab:
                have = {v['us'][v['j']].tobytes() for t, v in spy.log if t == 'twisted' and np.array_equal(v['y0'], flat[ob])}
                got = {r.astype(np.float32).tobytes() for r in R}
                if len(got) != len(R) or not got <= have:
                    raise Violation('draws', f'{what}: the restorations of picture {k} are not the weighted particles of filters of '
                                             f'that picture, each once')
                continue
            inits = [v for t, v in spy.log if t.startswith('init-') and np.array_equal(v['y0'], flat[ob])]
            by = {v['out'].tobytes(): v for t, v in spy.log}
            used = [by.get(u.tobytes()) for u in U]
            if any(v is None or not np.array_equal(v['y0'], flat[ob]) for v in used) or len({v['key'].tobytes() for v in used}) != len(U):
                raise Violation('draws', f'{what}: the restorations of picture {k} are not outputs of the sampler for that picture, '
                                         f'each once')
            if 'gibbs' in lab or 'pmcmc' in lab:
                state = (('x0', 'out'), ('us', 'us2'), ('bs', 'bs2')) if 'gibbs' in lab else \
                    (('x0', 'out'), ('ell', 'ell2'), ('ys', 'ys2'))
                for a, b in zip(used[:-1], used[1:]):
                    if any(not np.array_equal(b[p], a[q]) for p, q in state):
                        raise Violation('chain', f'{what}: picture {k}: an application does not start from the state that the previous '
                                                 f'one returned')
            if 'gibbs' in lab:
                m = [v for v in inits if np.array_equal(v['us'], used[0]['us']) and np.array_equal(v['out'], used[0]['x0'])]
                if not m or used[0]['bs'].any():
                    raise Violation('initial', f'{what}: picture {k}: the chain does not start from its initialisation')
                start = m
                if not sb and not np.array_equal(results(s, cwd, head, k, 'gibbs-init').reshape(-1, c)[un], m[0]['out']):
                    raise Violation('initial', f'{what}: picture {k}: the stored initialisation is not that of the chain')
            elif 'pmcmc' in lab:
                v = used[0]
                if v['ell'] != -np.inf or not np.array_equal(v['ys'][0], flat[ob]):
                    raise Violation('initial', f'{what}: picture {k}: the chain starts from log likelihood {v["ell"]}')
            else:
                start = used
            if sb:     # where the forward path starts
                x0 = np.stack([v['x0'] for v in start])
                if 'blank' in lab and x0.any():
                    raise Violation('start', f'{what}: the blank start is not blank')
                if 'random' in lab:
                    z = np.sqrt(12 * x0.size) * (x0.mean() - .5)
                    q = np.sqrt(180 * x0.size) * (((x0 - .5) ** 2).mean() - 1 / 12)
                    if x0.min() < 0 or x0.max() > 1 or abs(z) > 6 or abs(q) > 6:
                        raise Violation('start', f'{what}: the random start is not uniform: mean {x0.mean():.3f}, from {x0.min():.3f} '
                                                 f'to {x0.max():.3f}')
                if 'interp' in lab:
                    low = flat[ob].reshape(s['res'] // s['size'], -1, c)
                    want = np.asarray(jax.image.resize(low, shape, method='linear')).reshape(-1, c)[un]
                    near(x0, np.broadcast_to(want, x0.shape), f'{what}: interpolated start', 1e-4, 'start')
            elif start is not None and any(v['x0'].any() for v in start if 'us2' not in v):
                raise Violation('start', f'{what}: picture {k}: the initialisation starts from a picture that was not asked for')
    for m in spy.masks:
        un, ob = (np.asarray(a).ravel() for a in jax.tree_util.tree_leaves(m)[-2:])
        if not any(np.array_equal(un, a) and np.array_equal(ob, b) for a, b in masks):
            raise Violation('mask', f'{what}: a sampler works with another mask than the stored ones')
    try:
        model(s, what, spy, net, masks, c, rec)
    finally:
        if any(np.allclose(p, BAD) for p in net.params):
            raise Violation('parameters', f'{what}: the network is evaluated with other parameters than the requested ones')


def model(s, what, spy, net, masks, c, rec):
    o = Model(s, net)
    shape = net.W.shape
    g = np.random.default_rng(subseed(s['seed'], 'points'))
    kw = spy.masks[-1]
    un, ob = (np.asarray(a).ravel() for a in jax.tree_util.tree_leaves(kw)[-2:])
    n = s['N']
    f32 = lambda x: jnp.asarray(x, jnp.float32)  # noqa
    split = lambda z: (z.reshape(*z.shape[:-3], -1, c)[..., un, :], z.reshape(*z.shape[:-3], -1, c)[..., ob, :])  # noqa
    flags = lambda x: tuple(None if v is None else bool(v) for v in x)  # noqa
    tr, trp, lik, fwd, fwdy, ref, unpack, sdes, tss, ns = [], [], [], [], [], [], [], [], [], []
    marg = bool(s['marg'])
    sb = o.sb
    used = {t for t, _ in spy.log}
    for name, calls in spy.calls.items():
        for a in calls:
            if name == 'gibbs_init':
                tss.append(a[3]), fwd.append(a[4]), sdes.append(a[5]), unpack.append(a[6])
                tr.append(a[7]), trp.append(a[8]), lik.append(a[9]), ns.append(a[10])
                want = ('debug', False) if s['method'] == 'debug' else ('filter' if s['method'] == 'filter' else 'smoother' if sb else s['init'], False if sb else marg)
                if (a[11], bool(a[12])) != want or tuple(a[2]) != (len(un), c):
                    raise Violation('options', f'{what}: initialisation with {a[11]}, marg_y = {a[12]}, shape {a[2]}')
            elif name == 'gibbs_kernel':
                tss.append(a[5]), fwd.append(a[6]), sdes.append(a[7]), unpack.append(a[8]), ns.append(a[9])
                tr.append(a[10]), trp.append(a[11]), lik.append(a[12])
                want = (False, True, True) if sb else (marg, 'eb' in s['method'], 'ef' in s['method'])
                if flags(a[13:16]) != want:
                    raise Violation('options', f'{what}: the kernel runs with (marg_y, explicit_backward, explicit_final) = {a[13:16]}')
            elif name == 'pmcmc_kernel':
                tss.append(a[5]), fwdy.append(a[6]), ref.append(a[8]), tr.append(a[9]), lik.append(a[10]), ns.append(a[12])
                sdes.append(a[7])
                delta = float(s['method'].split('-')[1]) if '-' in s['method'] else None
                if (a[13] is None) != (delta is None) or (delta is not None and abs(float(a[13]) - delta) > 1e-6):
                    raise Violation('options', f'{what}: delta = {a[13]}')
            elif name == 'twisted_smc':
                tss.append(a[2]), ns.append(a[9])
    if any(int(v) != n for v in ns):
        raise Violation('options', f'{what}: {ns} particles')
    if s['method'].startswith('gibbs') and 'gibbs' not in used or s['method'].startswith('pmcmc') and 'pmcmc' not in used:
        if 'twisted' not in s['script']:
            raise Violation('options', f'{what}: the method was not used: {sorted(used)}')
    for t in tss:
        near(t, np.linspace(0, o.T, o.K + 1), f'{what}: times', 1e-5)
    for q in sdes:
        for t in (.1 * o.T, .7 * o.T):
            near(q.dispersion(t), np.sqrt(o.beta(t)), f'{what}: dispersion of the process handed over', 1e-4)
            near(q.drift(1.5, t), -.75 * o.beta(t), f'{what}: drift of the process handed over', 1e-4)

    def uniq(fs):
        seen = []
        for f in fs:
            if not any(f is h for h in seen):
                seen.append(f)
        return seen
    pic = g.normal(size=(3, *shape)).astype(np.float32)
    for f in uniq(unpack):
        a, b = f(f32(pic), **kw)
        if not (np.array_equal(a, split(pic)[0]) and np.array_equal(b, split(pic)[1])):
            raise Violation('mask', f'{what}: unpack does not split a picture by the mask')

    def join(u, v):
        z = np.zeros((*np.broadcast_shapes(u.shape[:-2], v.shape[:-2]), len(un) + len(ob), c))
        z[..., un, :], z[..., ob, :] = u, v
        return z.reshape(*z.shape[:-2], *shape)
    ks = sorted({0, 1, o.K // 2, o.K - 1})
    for k in ks:
        if not (tr or trp or lik):
            break
        t = k * o.dt
        tt = jnp.asarray(t, jnp.float32)
        u = (.3 + g.normal(size=(n, len(un), c))).astype(np.float32).astype(float)
        v = (.3 + g.normal(size=(len(ob), c))).astype(np.float32).astype(float)
        z = join(u, v)
        nxt = z + o.dt * o.reverse(z, t)
        nu, nv = split(nxt)
        sd = o.sd(t)
        u1, v1 = (nu[0] + sd * g.normal(size=nu[0].shape)).astype(np.float32), (nv[0] + sd * g.normal(size=nv[0].shape)).astype(np.float32)
        rows = lambda m: m.reshape(len(m), -1)  # noqa
        for f in uniq(trp):
            near(f(f32(u1), f32(u), f32(v), tt, **kw), norm_logpdf(u1.reshape(-1), rows(nu), sd),
                 f'{what}: transition density at step {k}', 1e-2)
        for f in uniq(lik):
            near(f(f32(v1), f32(u), f32(v), tt, **kw), norm_logpdf(v1.reshape(-1), rows(nv), sd),
                 f'{what}: likelihood at step {k}', 1e-2)
        for f in uniq(tr):
            m = -(-(1200 if len(un) < 100 else 60) // n)
            big, mm = np.repeat(u, m, 0), rows(np.repeat(nu, m, 0))
            pix = slice(0, 40)
            law(rec, subseed(s['seed'], 'tr', k),
                lambda q: ((np.asarray(f(f32(big), f32(v), tt, jax.random.PRNGKey(q), **kw), float).reshape(len(big), -1) - mm) / sd)[:, pix],
                f'{what}: transition sampler at step {k}')
    for f in uniq(ref):
        y = f32(g.normal(size=(len(ob), c)))
        law(rec, subseed(s['seed'], 'ref'), lambda q: np.asarray(f(jax.random.PRNGKey(q), y, 1500), float).reshape(1500, -1)[:, :40],
            f'{what}: reference sampler')

    def increments(P):
        out = []
        for k in range(o.K):
            x = P[k]
            if sb:
                m, sd = x + o.dt * net(x, k * o.dt, P1), np.sqrt(o.dt * o.beta(k * o.dt))
            else:
                F, Q = o.FQ((k + 1) * o.dt, k * o.dt)
                m, sd = F * x, np.sqrt(Q)
            out.append(((P[k + 1] - m) / sd).reshape(-1)[:40])
        return np.stack(out)
    x, y = split(pic[0])
    m = 40 if len(un) < 100 else 8
    for f in uniq(fwd):
        jf = jax.jit(f)
        P = np.asarray(jf(jax.random.PRNGKey(1), f32(x), f32(y), **kw), float)
        if P.shape != (o.K + 1, *shape) or not np.array_equal(P[0], pic[0].astype(float)):
            raise Violation('forward', f'{what}: the forward path does not start from the picture, or has shape {P.shape}')
        law(rec, subseed(s['seed'], 'fwd'), lambda q: np.concatenate(
            [increments(np.asarray(jf(jax.random.PRNGKey(subseed(q, i)), f32(x), f32(y), **kw), float)) for i in range(m)]),
            f'{what}: forward path')
    for f in uniq(fwdy):
        jf = jax.jit(f)
        P = np.asarray(jf(jax.random.PRNGKey(1), f32(y)), float)
        if P.shape != (o.K + 1, len(ob), c) or not np.array_equal(P[0], y.astype(float)):
            raise Violation('forward', f'{what}: the path of the measurement does not start from it, or has shape {P.shape}')
        law(rec, subseed(s['seed'], 'fwdy'), lambda q: np.concatenate(
            [increments(np.asarray(jf(jax.random.PRNGKey(subseed(q, i)), f32(y)), float)) for i in range(m)]),
            f'{what}: path of the measurement')
    if 'twisted_smc' in spy.calls:
        twisted(s, what, o, spy.calls['twisted_smc'][0], kw, split, g, rec)


def twisted(s, what, o, a, kw, split, g, rec):
    init, tr, tw, ps, pl = a[3:8]
    n, shape = s['N'], o.net.W.shape
    f32 = lambda x: jnp.asarray(x, jnp.float32)  # noqa
    law(rec, subseed(s['seed'], 'init'), lambda q: np.asarray(init(jax.random.PRNGKey(q), 1500), float).reshape(1500, -1)[:, :40],
        f'{what}: initial sampler')
    _, y = split(g.normal(size=shape).astype(np.float32))
    for k in (1, o.K // 2, o.K - 1):
        t = k * o.dt
        tt = jnp.asarray(t, jnp.float32)
        sd, b2 = o.sd(t), o.beta(o.T - t)
        u = (.3 + g.normal(size=(n, *shape))).astype(np.float32)
        m = u + o.dt * o.reverse(u.astype(float), t)
        x = (m + sd * g.normal(size=m.shape)).astype(np.float32)
        rows = lambda q: np.asarray(q, float).reshape(len(q), -1)  # noqa
        near(tr(f32(x), f32(u), tt), norm_logpdf(rows(x), rows(m), sd), f'{what}: transition density at step {k}', 1e-2)
        F, Q = o.FQ(o.T - t)
        near(tw(f32(y), f32(u), tt, **kw), norm_logpdf(np.asarray(y, float).reshape(-1), rows(split(m)[1]), np.sqrt(.06 * F * F + Q)),
             f'{what}: twisting function at step {k}', 1e-2)
        u0 = f32(np.repeat(u[:1], n, 0))
        tilt = np.asarray(jax.grad(lambda u_: tw(f32(y), u_, tt, **kw).sum())(f32(u)), float)[0]
        mean = m[0] + o.dt * b2 * tilt
        at = (mean + sd * g.normal(size=(n, *shape))).astype(np.float32)
        near(pl(f32(at), u0, tt, f32(y), **kw), norm_logpdf(rows(at), mean.reshape(-1), sd), f'{what}: density of the proposal at step {k}',
             1e-2, 'proposal')
        reps = -(-1200 // n)
        smp = jax.jit(lambda q: ps(q, u0, tt, f32(y), **kw))
        law(rec, subseed(s['seed'], 'prop', k),
            lambda q: (np.concatenate([rows(smp(jax.random.PRNGKey(subseed(q, i)))) for i in range(reps)]) - mean.reshape(-1))[:, :40] / sd,
            f'{what}: proposal sampler at step {k}')


class Blank:
    """axes on which nothing is drawn"""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **kw: [Blank()]

    def __getitem__(self, k):
        return self


def figure(s, rec, cwd):
    """the program of the coalescence figure"""
    import matplotlib
    net, spy = Net(False, (28, 28, 1)), Spy()
    os.makedirs(f'{cwd}/figs')
    a = [f"--test_nsteps={s['nsteps']}", f"--nparticles={s['N']}", f"--rect_size={s['size']}", f"--sde={s['sde']}",
         f"--test_seed={s['tseed']}"] + ['--test_ema'] * s['ema']
    what = f"{s['script']} {' '.join(a)}"
    nop, mp = (lambda *a, **kw: None), 'matplotlib.pyplot'
    with matplotlib.rc_context():
        imgs.run(s['script'], a, cwd, net, driver.FS(cwd), spy.patch + [
            (mp, 'subplots', lambda *a, **kw: (Blank(), Blank()))] + [(mp, n, nop) for n in (
                'tight_layout', 'show', 'legend', 'subplots_adjust', 'savefig')])
    jax.effects_barrier()
    if [t for t, _ in spy.log] != ['init-debug']:
        raise Violation('draws', f'{what}: the samplers run were {[t for t, _ in spy.log]}')
    rec.evals += 1
    rec.state(what)
    rec.log(spy.log[0][1]['y0'])
    try:
        model(s, what, spy, net, None, 1, rec)
    finally:
        if any(np.allclose(p, BAD) for p in net.params):
            raise Violation('parameters', f'{what}: the network is evaluated with other parameters than the requested ones')


def simulated(s, rec, cwd):
    """cSGM: with an affine network the restorations are Gaussian, and their law is known"""
    shape = (s['res'], s['res'], 3)
    net = Net(True, shape)

    def draw(seed):
        q = dict(s, tseed=seed % 100000)
        head, what = launch(q, cwd, net)
        img, un, ob, _ = c18.truth(cwd, head, 0)
        R = results(q, cwd, head, 0, 'csgm')
        if R.shape != (s['nsamples'], *shape) or not np.isfinite(R).all():
            raise Violation('shape', f'{what}: restorations of shape {R.shape}, or not finite')
        rec.evals += len(R)
        rec.log(R)
        rec.state(s['script'], what)
        if any(not np.allclose(p, P1) for p in net.params):
            raise Violation('parameters', f'{what}: the network is evaluated with other parameters than the requested ones')
        o = Model(q, net)
        c = 3
        idx = np.arange(img.size).reshape(-1, c)
        iu, iv = idx[un].ravel(), idx[ob].ravel()
        y = img.reshape(-1)[iv].astype(float)
        m, S = np.zeros(len(iu)), np.eye(len(iu))
        W = net.W.reshape(-1)
        for k in range(o.K):
            t = o.T - k * o.dt
            b = o.beta(t)
            A = (net(np.eye(img.size).reshape(-1, *shape), t, P1) - net(np.zeros(shape), t, P1)).reshape(img.size, img.size).T
            F, Q = o.FQ(t)
            J = np.eye(len(iu)) * (1 + .5 * b * o.dt) + o.dt * b * A[np.ix_(iu, iu)]
            B = o.dt * b * A[np.ix_(iu, iv)]
            m = J @ m + B @ (F * y) + o.dt * b * P1[0] * (W[iu] + t)
            S = J @ S @ J.T + Q * B @ B.T + o.dt * b * np.eye(len(iu))
        U = R.reshape(len(R), -1)[:, iu]
        return c20.whiten(U, m, S)
    law(rec, subseed(s['seed'], 'csgm'), draw, f"{s['script']} with {s['sde']}, {s['nsteps']} steps: the restorations")
    rec.simtime += s['nsteps'] * s['nsamples']


def run(s, rec):
    rec.event(*[f'{k}={s[k]}' for k in ('kind', 'script', 'method', 'res', 'size', 'sde', 'N', 'nsamples', 'nsteps')])
    with tempfile.TemporaryDirectory(prefix='vsim-imgs-') as d:
        cwd = world(d, s)
        {'spy': spied, 'csgm': simulated, 'figure': figure}[s['kind']](s, rec, cwd)


def plan(tier, rng):
    m = 1 if tier == 'quick' else 12
    out = []

    def add(kind, cost, **kw):
        s = dict(kind=kind, res=4, size=2, script='imgs/supr.py', method='filter', sde=rng.choice(['lin', 'const']), N=rng.choice([3, 5]),
                 nsteps=rng.choice([5, 8, 11]), nsamples=3, ny0s=3, start=0, ema=rng.randrange(2), rm=rng.randrange(2),
                 marg=rng.randrange(2), init=rng.choice(['smoother', 'filter']), tseed=rng.randrange(1000), k=0, cost=cost,
                 crash=rng.choice([0, 0, rng.randrange(1, 14)]))
        s.update(kw)
        s['group'] = str(len(out))
        out.append(s)
    for _ in range(m):
        for base in ('supr', 'inpainting'):
            sdes = ['lin', 'const']
            rng.shuffle(sdes)
            for i, method in enumerate(('filter', 'gibbs-eb-ef', rng.choice(['gibbs', 'gibbs-eb', 'gibbs-ef']),
                                        rng.choice(['pmcmc', 'pmcmc-0.1', 'pmcmc-0.3']))):
                add('spy', 10., script=f'imgs/{base}.py', method=method, sde=sdes[i % 2], size=2 if base == 'supr' else rng.choice([2, 3]),
                    start=rng.choice([0, 0, 1]), **(dict(marg=0) if method.startswith('pmcmc') else {}))
            for sde in sdes:
                add('spy', 10., script=f'imgs/{base}_twisted.py', sde=sde, size=2 if base == 'supr' else rng.choice([2, 3]))
                add('csgm', 12., script=f'imgs/{base}_csgm.py', sde=sde, size=2 if base == 'supr' else rng.choice([1, 2]), nsamples=1500,
                    ny0s=1)
        for sde, method in zip(('lin', 'const'), rng.sample(['filter', 'gibbs'], 2)):
            add('spy', 20., script='sb_imgs/supr.py', method=method, sde=sde, res=28, size=rng.choice([4, 7]), nsteps=rng.choice([4, 6]),
                k=rng.randrange(3), marg=0, rm=0)
        add('figure', 15., script='tabulators/plot_img_coalescence.py', method='debug', res=28, size=rng.choice([3, 5]), nsteps=12, marg=0)
        add('spy', 15., script='imgs/inpainting.py', res=28, size=5, method='filter', nsteps=4, ny0s=2)
    return out


def shrink(s):
    for k, v in (('crash', 0), ('nsamples', 2), ('ny0s', s['start'] + 1), ('nsteps', 4), ('N', 3)):
        if s[k] > v and not (k == 'nsamples' and s['kind'] == 'csgm'):
            yield dict(s, **{k: v})
