"""C19  Training: every step uses each item once per epoch, the optimiser and the moving average follow their recurrences over
the whole training, and checkpoints hold the latest parameters, whatever crashes."""
import os
import tempfile
import numpy as np
import jax
import jax.numpy as jnp
import optax
from dst import imgs, driver
from dst.core import Violation, rng_of, subseed

PROP = 'C19'
RULE = ('a scenario is one simulated training process (whole programs with a closed-form loss, crashed at arbitrary writes and '
        'run again), or one history of several interleaved optimisation kernels with crashes and restores; non-trivial: at '
        'least two optimisation steps were judged')
REAL = ['experiments/imgs/train.py and experiments/sb_imgs/train.py (unmodified)', 'fbs.nn.utils.make_optax_kernel',
        'fbs.data.images, fbs.data.base (enumeration)']
STUB = ['UNet and the losses: quadratic functions of the parameters and the batch that record every evaluation', 'the picture '
        'files (synthetic)', 'numpy.savez and pyplot.savefig (simulated disk in a scratch directory)']
STATE = 'distinct (program, options, checkpoint)'
ASSUMPTIONS = ['optax computes its optimisers and schedules correctly', 'float32 rounding below 1e-3 of the parameters']
P = 4


def close(a, b, what, kind):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.isfinite(a).all() or np.abs(a - b).max() > 1e-3 * (1 + np.abs(b).max()):
        raise Violation(kind, f'{what}: {np.round(a, 5).tolist()}, the recurrence gives {np.round(b, 5).tolist()}')


def optimiser(s, n, start=1e-2):
    """the optimiser that the options describe"""
    per = n // s['batch']
    if s['schedule'] == 'cos':
        sch = optax.cosine_decay_schedule(init_value=s['lr'], decay_steps=int(.95 * s['nepochs']) * per, alpha=1e-2)
    elif s['schedule'] == 'exp':
        sch = optax.exponential_decay(s['lr'], per, .96)
    else:
        sch = optax.constant_schedule(s['lr'])
    o = optax.adam(learning_rate=sch)
    return optax.chain(optax.clip_by_global_norm(1.), o) if s['clip'] else o


class World:
    def __init__(self, d, s, seed):
        self.cwd = imgs.layout(d)
        self.s, self.n = s, s['n']
        r = np.random.default_rng(seed)
        x = r.normal(size=(1000 + self.n, 4, 4, 3)).astype(np.float32)
        x[1000:, 0, 0, 0] = np.arange(self.n) * .5       # the number of a training picture
        imgs.write_celeba(self.cwd, 4, x)
        self.steps, self.kwargs, self.perms, self.p0 = [], [], [], None

    def dataset(self):
        from fbs.data.images import CelebAHQRestore
        n = self.n

        class Data(CelebAHQRestore):
            def __init__(self, *a, **kw):
                super().__init__(*a, **kw)
                self.n = n
        return Data

    def make_st_nn(self, key, nn=None, dim_in=None, batch_size=None, **kw):
        def f(x, t, param):
            return x * (param[0] * .01 - .5) + 2.
        self.p0 = jnp.linspace(-1, 1, P)
        return self.p0, None, f

    def unet(self, *a, **kw):
        return 'stub'

    def patches(self):
        return [('fbs.nn.unet', 'UNet', self.unet), ('fbs.nn.models', 'make_st_nn', self.make_st_nn),
                ('fbs.data', 'CelebAHQRestore', self.dataset())]


def feats(x):
    return jnp.mean(jnp.reshape(x, (x.shape[0], -1))[:, :P], axis=0)


# --- imgs/train.py ---------------------------------------------------------------------------------------------------
def train_run(s, w, fs):
    def law_loss(sde, nn_score, *a, **kw):
        w.kwargs.append((type(sde).__name__, a, kw))

        def loss(param, key, x0s):
            jax.debug.callback(lambda k, x, p: w.steps.append((np.asarray(k).copy(), np.asarray(x).copy(),
                                                               np.asarray(p).copy())), key, x0s, param, ordered=True)
            return jnp.sum((param - feats(x0s)) ** 2)
        return loss
    a = ['--dataset=celeba-4', f"--sde={s['sde']}", f"--loss_type={s['loss']}", f"--lr={s['lr']}", f"--batch_size={s['batch']}",
         f"--nsteps={s['nsteps']}", f"--schedule={s['schedule']}", f"--nepochs={s['nepochs']}"]
    a += (['--save_mem'] if s['save_mem'] else []) + (['--grad_clip'] if s['clip'] else [])
    w.args = a
    _, crashed = driver.run('imgs/train.py', a, w.cwd, fs=fs, patches=w.patches() + [('fbs.sdes', 'make_linear_sde_law_loss',
                                                                                     law_loss)])
    jax.effects_barrier()
    return crashed


def epochs(what, ids, n, batch, whole):
    """`ids`: per step the numbers of the items"""
    per = n // batch
    orders = []
    for e in range(len(ids) // per):
        flat = [i for b in ids[e * per:(e + 1) * per] for i in b]
        if len(flat) != per * batch or len(set(flat)) != len(flat) or not all(0 <= i < n for i in flat):
            raise Violation('epoch', f'{what}: epoch {e} trains on items {flat} (batches of {batch} of {n} items)')
        orders.append(tuple(flat))
    if len(orders) > 20 and len(set(orders)) < len(orders) // 4 and np.prod(range(1, per * batch + 1)) > 1000:
        raise Violation('shuffle', f'{what}: {len(set(orders))} different orders in {len(orders)} epochs')
    if whole and len(ids) % per:
        raise Violation('epoch', f'{what}: the last epoch is not complete')


def reference(s, n, p0, batches, marks):
    """-> {step count: (param, ema)} by the recurrences, started over the whole training"""
    opt = optimiser(s, n)

    def body(c, x):
        p, o, e, k = c
        g = 2 * (p - x)
        u, o = opt.update(g, o, p)
        p = optax.apply_updates(p, u)
        e = jnp.where(k < 300, p, jnp.where(k % 2 == 0, .99 * e + .01 * p, e))
        return (p, o, e, k + 1), (p, e)
    xs = jnp.stack([feats(b) for b in batches])
    _, (ps, es) = jax.jit(lambda z: jax.lax.scan(body, (p0, opt.init(p0), p0, 0), z))(xs)
    ps, es = np.asarray(ps), np.asarray(es)
    return {m: (ps[m - 1], es[m - 1]) for m in marks}


def run_train(scn, rec):
    s = scn
    per = s['n'] // s['batch']
    r = rng_of(s['seed'], 'crashes')
    marks = [e for e in range(100, s['nepochs'] + 1, 100)]
    files = [f"checkpoints/celeba-4_{s['sde']}_{e - 1}.npz" for e in marks]
    with tempfile.TemporaryDirectory(prefix='vsim-train-') as d:
        contents, left, ref = {}, s['crashes'], None
        cwd = None
        for attempt in range(s['crashes'] + 1):
            w = World(d, s, subseed(s['seed'], 'pictures'))
            cwd = w.cwd
            before = {f: open(f'{cwd}/{f}', 'rb').read() for f in files if os.path.exists(f'{cwd}/{f}')}
            at = r.randrange(len(marks) + 1) if attempt < left else None
            torn = bool(r.randrange(2))
            fs = driver.FS(cwd, crash_at=at, torn=torn)
            crashed = train_run(s, w, fs)
            what = f"imgs/train.py {' '.join(w.args)}"
            rec.fault('torn_checkpoint' if torn else 'crash_before_checkpoint', crashed)
            rec.event('run', attempt, 'crashed' if crashed else 'finished', 'after', len(w.steps), 'steps', fs.n, 'writes')
            rec.evals += len(w.steps)
            rec.simtime += len(w.steps)
            nsteps = len(w.steps)
            if not crashed and nsteps != per * s['nepochs']:
                raise Violation('steps', f'{what}: {nsteps} steps in {s["nepochs"]} epochs of {per} batches')
            ids = [[int(round(float(v) * 2)) for v in x[:, 0, 0, 0]] for _, x, _ in w.steps]
            if any(len(i) != s['batch'] for i in ids):
                raise Violation('epoch', f'{what}: a batch of {[len(i) for i in ids if len(i) != s["batch"]][0]} items')
            epochs(what, ids, s['n'], s['batch'], not crashed)
            keys = {k.tobytes() for k, _, _ in w.steps}
            if len(keys) != nsteps:
                raise Violation('keys', f'{what}: {nsteps - len(keys)} steps reuse the key of another step')
            cls = {'const': 'StationaryConstLinearSDE', 'lin': 'StationaryLinLinearSDE', 'exp': 'StationaryExpLinearSDE'}
            name, pos, kw = w.kwargs[0]
            full = dict(zip(('t0', 'T', 'nsteps', 'random_times', 'loss_type', 'save_mem'), pos))
            full.update(kw)
            want = dict(t0=0., T=2, nsteps=s['nsteps'], random_times=True, loss_type=s['loss'], save_mem=bool(s['save_mem']))
            got = {k: full.get(k, v if k in ('random_times',) else False if k == 'save_mem' else None) for k, v in want.items()}
            if name != cls[s['sde']] or got != want:
                raise Violation('loss', f'{what}: the loss is built with {name} {got}')
            rf = reference(s, s['n'], w.p0, [x for _, x, _ in w.steps], [m * per for m in marks if m * per <= nsteps])
            for i in range(1, nsteps):     # the parameters that a step starts from are those the step before produced
                if i in (1, 2, 3, nsteps // 2, nsteps - 1):
                    q = reference(s, s['n'], w.p0, [x for _, x, _ in w.steps[:i]], [i])[i][0]
                    close(w.steps[i][2], q, f'{what}: parameters before step {i}', 'parameters')
            for j, (m, f) in enumerate(zip(marks, files)):
                path = f'{cwd}/{f}'
                if j < fs.n:
                    if not os.path.exists(path):
                        raise Violation('checkpoint', f'{what}: no {f} after epoch {m}')
                    with np.load(path) as z:
                        p, e = z['param'], z['ema_param']
                    close(p, rf[m * per][0], f'{what}: param in {f}', 'checkpoint')
                    close(e, rf[m * per][1], f'{what}: ema_param in {f}', 'ema')
                    b = (p.tobytes(), e.tobytes())
                    if contents.setdefault(f, b) != b:
                        raise Violation('restart', f'{what}: {f} differs when the training is run again')
                    rec.state('train', s['sde'], s['schedule'], s['clip'], s['batch'], m, p.tobytes())
                    rec.log(p, e)
                elif f in before and not (crashed and j == fs.n and torn) and open(path, 'rb').read() != before[f]:
                    raise Violation('overwritten', f'{what}: {f} changed although the run did not reach it')
            if not crashed and sorted(x for x in fs.writes if x.startswith('checkpoints')) != sorted(files):
                raise Violation('checkpoint', f'{what}: checkpoints {sorted(fs.writes)}, expected {files}')


# --- sb_imgs/train.py --------------------------------------------------------------------------------------------------
def run_sb(scn, rec):
    s = scn
    n, per = s['n'], s['n'] // s['batch']
    with tempfile.TemporaryDirectory(prefix='vsim-train-') as d:
        w = World(d, s, subseed(s['seed'], 'pictures'))

        def ipf(which):
            def loss(key, param, other, x, ts, nn_drift, other_drift, dispersion):
                probe = other_drift(jnp.full((4, 4, 3), .7), .1, other)
                mine = nn_drift(jnp.full((4, 4, 3), .7), .1, param)
                is_nn = jnp.mean(probe) > .8       # the network's drift is larger by 2
                disp = dispersion(.2)
                jax.debug.callback(lambda *z: w.steps.append((which, *[np.asarray(q).copy() for q in z])), key, x, param, other,
                                   ts, jnp.mean(probe), is_nn, disp, ordered=True)
                return jnp.sum((param - feats(x) - .5 * other - .3 * jnp.mean(probe) - .1 * ts[0] + .05 * ts[-1]) ** 2) \
                    + 0. * jnp.sum(mine)
            return loss
        a = ['--dataset=celeba-4', f"--sde={s['sde']}", f"--lr={s['lr']}", f"--batch_size={s['batch']}", f"--nsteps={s['nsteps']}",
             f"--schedule={s['schedule']}", f"--nepochs={s['nepochs']}", f"--nsbs={s['nsbs']}", f"--T={s['T']}"]
        a += (['--vmap_loss'] if s['vmap'] else []) + (['--grad_clip'] if s['clip'] else [])
        what = f"sb_imgs/train.py {' '.join(a)}"
        r = rng_of(s['seed'], 'crashes')
        contents = {}
        for attempt in range(s['crashes'] + 1):
            at = r.randrange(s['nsbs'] + 1) if attempt < s['crashes'] else None
            torn = bool(r.randrange(2))
            fs = driver.FS(w.cwd, crash_at=at, torn=torn)
            w.steps.clear()
            pats = w.patches() + [('fbs.dsb.base', 'ipf_loss_cont', ipf('cont')), ('fbs.dsb.base', 'ipf_loss_cont_v', ipf('v'))]
            _, crashed = driver.run('sb_imgs/train.py', a, w.cwd, fs=fs, patches=pats)
            jax.effects_barrier()
            rec.fault('torn_checkpoint' if torn else 'crash_before_checkpoint', crashed)
            rec.event('run', attempt, crashed, len(w.steps), fs.n)
            rec.evals += len(w.steps)
            rec.simtime += len(w.steps)
            judge_sb(s, w, what, per, fs, crashed, contents, rec)


def judge_sb(s, w, what, per, fs, crashed, contents, rec):
    E, K = s['nepochs'], len(w.steps)
    if not crashed and K != 2 * E * per * s['nsbs']:
        raise Violation('steps', f'{what}: {K} steps, expected {2 * E * per * s["nsbs"]}')
    if len({z[1].tobytes() for z in w.steps}) != K:
        raise Violation('keys', f'{what}: steps reuse keys')
    opt = optimiser(s, s['n'])

    def upd(p, o, g):
        u, o = opt.update(g, o, p)
        return optax.apply_updates(p, u), o
    upd = jax.jit(upd)
    fwd = bwd = w.p0
    of, ob = opt.init(fwd), opt.init(bwd)
    nl = [z for z in w.steps]
    T = s['T']
    refs = []
    for i, (which, key, x, param, other, ts, probe, is_nn, disp) in enumerate(nl):
        it, ph = divmod(i, 2 * E * per)
        back = ph < E * per
        me, oth = (bwd, fwd) if back else (fwd, bwd)
        tag = f"{what}: Schroedinger iteration {it}, {'backward' if back else 'forward'} step {ph % (E * per)}"
        if which != ('v' if s['vmap'] else 'cont'):
            raise Violation('loss', f'{tag}: the other loss is used')
        if i < 6 or ph < 3 or abs(ph - E * per) < 3 or i % 17 == 0:
            close(param, me, f'{tag}: parameters learnt', 'parameters')
            close(other, oth, f'{tag}: parameters of the simulated direction', 'parameters')
        if bool(is_nn) != (not (back and it == 0)):
            raise Violation('drift', f"{tag}: the paths are simulated with the {'network' if is_nn else 'reference'} drift")
        sgn = ts if back else ts[::-1]
        if len(ts) != s['nsteps'] + 1 or abs(sgn[0]) > 1e-6 or abs(sgn[-1] - T) > 1e-6 or (np.diff(sgn) < 0).any():
            raise Violation('times', f'{tag}: times {np.round(ts, 3).tolist()}')
        b = .02 + (5. - .02) * .2 / T if s['sde'] == 'lin' else 1.
        if abs(disp - np.sqrt(b)) > 1e-4:
            raise Violation('dispersion', f'{tag}: dispersion {disp} at .2')
        g = 2 * (jnp.asarray(param) - feats(jnp.asarray(x)) - .5 * other - .3 * probe - .1 * ts[0] + .05 * ts[-1])
        if back:
            bwd, ob = upd(bwd, ob, g)
        else:
            fwd, of = upd(fwd, of, g)
            refs.append(x)
        if ph == 2 * E * per - 1:
            f = f"checkpoints/sb_celeba-4_{s['sde']}_{it}.npz"
            if it < fs.n:
                with np.load(f'{w.cwd}/{f}') as z:
                    pf, pb = z['param_fwd'], z['param_bwd']
                close(pf, fwd, f'{what}: param_fwd in {f}', 'checkpoint')
                close(pb, bwd, f'{what}: param_bwd in {f}', 'checkpoint')
                rec.log(pf, pb)
                rec.state('sb', s['sde'], it, pf.tobytes())
                b = (pf.tobytes(), pb.tobytes())
                if contents.setdefault(f, b) != b:
                    raise Violation('restart', f'{what}: {f} differs when the training is run again')
    backs = [z for i, z in enumerate(nl) if i % (2 * E * per) < E * per]
    ids = [[int(round(float(v) * 2)) for v in z[2][:, 0, 0, 0]] for z in backs]
    epochs(what, ids, s['n'], s['batch'], not crashed)
    if refs:
        x = np.stack(refs).astype(float)
        if x.shape[1:] != (s['batch'], 4, 4, 3):
            raise Violation('reference', f'{what}: reference samples of shape {x.shape[1:]}')
        m, v = x.mean() * np.sqrt(x.size), (x ** 2).mean() - 1
        if abs(m) > 6 or abs(v) > 6 * np.sqrt(2 / x.size) or len(np.unique(x)) < .99 * x.size:
            raise Violation('reference', f'{what}: the reference samples are not fresh standard Gaussians (mean {x.mean():.3f}, '
                                         f'second moment {1 + v:.3f})')


# --- kernels -----------------------------------------------------------------------------------------------------------
def run_kernel(scn, rec):
    from fbs.nn.utils import make_optax_kernel
    r = rng_of(scn['seed'], 'history')
    procs = []
    for c in range(scn['nprocs']):
        rr = rng_of(scn['seed'], c)
        kind = rr.choice(['adam', 'sgd', 'clip'])
        mk = {'adam': lambda: optax.adam(.05), 'sgd': lambda: optax.sgd(.1, momentum=.5),
              'clip': lambda: optax.chain(optax.clip_by_global_norm(.3), optax.adamw(.05, weight_decay=.1))}[kind]
        a = float(rr.uniform(.5, 2.))
        kw = bool(rr.randrange(2))

        def loss(p, x, a=a, scale=1.):
            return jnp.sum(a * (p - x) ** 2) * scale
        k, ema = make_optax_kernel(mk(), loss, jit=bool(rr.randrange(2)))
        p = jnp.asarray(np.random.default_rng(c).normal(size=P), jnp.float32)
        st = dict(opt=mk(), a=a, kw=kw, k=k, ema=ema, p=p, o=mk().init(p), e=p, n=0,
                  cs=rr.choice([0, 0, 1, 5, 9]), ce=rr.choice([1, 2, 3]), decay=rr.choice([.5, .9, .99, 0., 1.]))
        st.update(rp=p, ro=mk().init(p), re=np.asarray(p, float), rn=0)
        st['disk'] = (st['p'], st['o'], st['e'], 0)
        st['rdisk'] = (st['rp'], st['ro'], st['re'], 0)
        procs.append(st)
    for _ in range(scn['nops']):
        c = r.randrange(len(procs))
        st = procs[c]
        if r.random() < scn['crash']:
            st['p'], st['o'], st['e'], st['n'] = st['disk']
            st['rp'], st['ro'], st['re'], st['rn'] = st['rdisk']
            rec.fault('crash_restart')
            continue
        if r.random() < .15:
            st['disk'] = jax.tree_util.tree_map(lambda v: np.asarray(v).copy(), (st['p'], st['o'], st['e'])) + (st['n'],)
            st['rdisk'] = (st['rp'], st['ro'], st['re'], st['rn'])
            continue
        x = jnp.asarray(np.random.default_rng(subseed(scn['seed'], c, st['n'])).normal(size=P), jnp.float32)
        scale = 2. if st['kw'] else 1.
        st['p'], st['o'], l = st['k'](st['p'], st['o'], x, scale=2.) if st['kw'] else st['k'](st['p'], st['o'], x)
        st['e'] = st['ema'](st['e'], st['p'], st['n'], st['cs'], st['ce'], st['decay'])
        lref = float(scale * st['a'] * np.sum((np.asarray(st['rp']) - np.asarray(x)) ** 2))
        g = jnp.asarray(scale * st['a'] * 2 * (st['rp'] - x))
        u, st['ro'] = st['opt'].update(g, st['ro'], st['rp'])
        st['rp'] = optax.apply_updates(st['rp'], u)
        rp = np.asarray(st['rp'], float)
        if st['rn'] < st['cs']:
            st['re'] = rp
        elif st['rn'] % st['ce'] == 0:
            st['re'] = st['decay'] * st['re'] + (1 - st['decay']) * rp
        st['n'] += 1
        st['rn'] += 1
        what = f"kernel {c} step {st['n']}"
        close(l, lref, what + ' loss', 'loss-value')
        close(st['p'], st['rp'], what + ' parameters', 'parameters')
        close(st['e'], st['re'], what + f" moving average (start {st['cs']}, every {st['ce']}, decay {st['decay']})", 'ema')
        rec.evals += 1
        rec.simtime += 1
        rec.log(np.asarray(st['p']), np.asarray(st['e']))
        rec.state('kernel', c, st['n'], st['cs'], st['ce'], st['decay'])
    rec.event('kernels', scn['nprocs'], scn['nops'])


def run(scn, rec):
    {'train': run_train, 'sb': run_sb, 'kernel': run_kernel}[scn['kind']](scn, rec)


def plan(tier, rng):
    m = 1 if tier == 'quick' else 12
    out = []

    def add(kind, cost, **kw):
        s = dict(kind=kind, cost=cost, group=str(len(out)))
        s.update(kw)
        out.append(s)
    for _ in range(m):
        for schedule in ('cos', 'exp', 'const', 'cos'):
            for clip in (0, 1):
                n, b = rng.choice([[6, 2], [7, 2], [8, 2], [9, 3], [5, 1]])
                ne = rng.choice([100, 200, 230, 130]) if b > 1 else rng.choice([100, 130])
                add('train', 6., n=n, batch=b, nepochs=ne, schedule=schedule, clip=clip, sde=rng.choice(['const', 'lin', 'exp']),
                    loss=rng.choice(['score', 'ipf']), save_mem=rng.randrange(2), lr=rng.choice([.02, .1]),
                    nsteps=rng.choice([2, 7]), crashes=rng.choice([0, 1, 1]))
        for _ in range(5):
            n, b = rng.choice([[6, 2], [7, 2], [9, 3], [5, 1]])
            sch = rng.choice(['cos', 'exp', 'const'])       # a cosine schedule needs two epochs
            add('sb', 5., n=n, batch=b, nepochs=rng.choice([2 if sch == 'cos' else 1, 2, 4, 24]), nsbs=rng.choice([2, 3]),
                T=rng.choice([.5, 1.]), schedule=sch, clip=rng.randrange(2), sde=rng.choice(['const', 'lin']),
                vmap=rng.randrange(2), lr=rng.choice([.02, .1]), nsteps=rng.choice([2, 6]), crashes=rng.choice([0, 1]))
        for _ in range(8):
            add('kernel', 4., nprocs=rng.choice([1, 2, 4]), nops=rng.choice([60, 120]), crash=rng.choice([0., .05]))
    return out


def shrink(scn):
    for k, v in (('crashes', 0), ('nprocs', 1), ('nops', 20), ('nepochs', 100 if scn['kind'] == 'train' else 2), ('nsbs', 1),
                 ('clip', 0), ('crash', 0.)):
        if k in scn and scn[k] > v:
            yield dict(scn, **{k: v})
