"""C18  Image restoration runs: observed pixels kept, the same test pictures everywhere, crashes and restarts lose nothing."""
import os
import tempfile
import numpy as np
from dst import imgs, driver
from dst.core import Violation, rng_of, subseed

PROP = 'C18'
RULE = ('a scenario is one operation of the restoration experiments on synthetic pictures: whole runs whose every output is '
        'judged, several programs run for one comparison, or a run that is crashed at arbitrary writes (possibly tearing the '
        'file) and restarted with --start_from until complete; non-trivial: at least one restoration was written')
REAL = ['experiments/imgs/{supr,inpainting}{,_twisted,_csgm}.py and experiments/sb_imgs/supr.py (unmodified)',
        'fbs.data.images', 'fbs.samplers', 'fbs.sdes']
STUB = ['UNet and its checkpoint: the exact score of Gaussian pictures, selected by the stored parameters',
        'the picture files (synthetic)', 'numpy.save, numpy.savez and pyplot.imsave (simulated disk in a scratch directory)']
STATE = 'distinct (program, method, task, picture) restored'
ASSUMPTIONS = ['picture files are drawn through pyplot.imsave, arrays through numpy.save and numpy.savez',
               'the closeness to the posterior is judged only beyond a third of the spread of the pictures']
M, S2, C2 = .5, .05, 1.


def world(d, res, seed):
    cwd = imgs.layout(d)
    r = np.random.default_rng(seed)
    if res == 28:
        x = np.clip(120 + 60 * r.normal(size=(10000, 1, 1)) + 12 * r.normal(size=(10000, 28, 28)), 0, 255).astype(np.uint8)
        imgs.write_mnist(d, np.zeros((60000, 1, 1), np.uint8), x)
    else:
        imgs.write_celeba(cwd, res, imgs.levels(r, 1004, (res, res, 3), M, S2, C2))
    return cwd


def conf(scn, **kw):
    s = dict(scn)
    s.update(kw)
    sr = 'supr' in s['script']
    mn = s['res'] == 28
    ds = 'mnist' if mn else f"celeba-{s['res']}"
    sb = s['script'].startswith('sb_imgs')
    a = [f"--test_nsteps={s['nsteps']}", f"--test_seed={s['tseed']}", f"--nsamples={s['nsamples']}", f"--sde={s['sde']}",
         f"--rate={s['size']}" if sr else f"--rect_size={s['size']}"]
    csgm = 'csgm' in s['script']
    if not csgm:
        a.append(f"--nparticles={s['N']}")
    if sb:
        a += [f"--y0_id={s['k']}", f"--method={s['method']}"]
        head = f"sb_imgs/results/{ds}-{s['size']}-{s['sde']}-{s['N']}"
        return a, (head, head), s
    a += [f'--dataset={ds}', f"--ny0s={s['ny0s']}", f"--start_from={s['start']}"]
    if s['ema']:
        a.append('--test_ema')
    rm = sr and s['rm']
    if rm:
        a.append('--rnd_mask')
    if 'twisted' not in s['script'] and not csgm:
        a += [f"--method={s['method']}"] + (['--marg'] if s['marg'] else []) + [f"--init_method={s['init']}"]
    tail = f"{ds}-{s['size']}{'-rm' if rm else ''}-{s['sde']}" + ('' if csgm else f"-{s['N']}")
    k = 'supr' if sr else 'inpainting'
    return a, (f'imgs/results_{k}/arrs/{tail}', f'imgs/results_{k}/imgs/{tail}'), s


def label(s):
    """suffix of the result files of a method"""
    if 'csgm' in s['script']:
        return 'csgm'
    if 'twisted' in s['script']:
        return 'twisted'
    m = s['method']
    marg = '-marg' if s['marg'] else ''
    if m == 'filter':
        return 'filter' + marg
    if 'pmcmc' in m:
        return 'pmcmc-' + (str(float(m.split('-')[1])) if '-' in m else 'None')
    return 'gibbs' + ('-eb' if 'eb' in m else '') + ('-ef' if 'ef' in m else '') + marg


def start(s, a, cwd, fs):
    net = imgs.Net(s['sde']) if not s['script'].startswith('sb_imgs') else SBNet(s['sde'])
    g, crashed = imgs.run(s['script'], a, cwd, net, fs)
    want = np.asarray([M, S2, C2], np.float32)
    for p in net.params:
        if not np.array_equal(p, want):
            raise Violation('parameters', f"{s['script']} {' '.join(a)}: the network is evaluated with other parameters than the "
                                          f"stored {'ema_param' if s['ema'] else 'param'}")
    return crashed


class SBNet(imgs.Net):
    def make_st_nn(self, *a, **kw):
        self.sb = True
        p0, _, score = super().make_st_nn(*a, **kw)

        def drift(x, t, param):
            return -.1 * x + .3 * param[0] * (.4 - x)
        return p0, None, drift


def truth(cwd, head, k):
    f = f'{cwd}/{head[0]}-{k}-true.npz'
    if not os.path.exists(f):
        raise Violation('missing', f'no {os.path.basename(f)}: test picture {k} was not restored')
    z = np.load(f)
    arrs = [z[f'arr_{i}'] for i in range(len(z.files) - 1)]
    return z['test_img'], arrs[-2], arrs[-1], arrs


def judge(s, cwd, head, k, rec, exact=True):
    """the files of test picture k"""
    what = f"{s['script']} {s['method'] if 'method' in s else ''} picture {k}"
    img, un, ob, _ = truth(cwd, head, k)
    res, c = s['res'], img.shape[-1]
    if img.shape != (res, res, 1 if res == 28 else 3):
        raise Violation('shape', f'{what}: test picture of shape {img.shape}')
    if sorted([*un.tolist(), *ob.tolist()]) != list(range(res * res)):
        raise Violation('mask', f'{what}: the stored mask is not a partition of the pixels')
    sr = 'supr' in s['script']
    size = s['size']
    if len(ob) != ((res // size) ** 2 if sr else res * res - size ** 2):
        raise Violation('mask', f'{what}: {len(ob)} observed pixels')
    if sr and not s.get('rm') and ((ob // res % size != size // 2) | (ob % res % size != size // 2)).any():
        raise Violation('mask', f'{what}: the mask is not the one asked for')
    flat = img.reshape(-1, c)
    p = driver.picture

    def shown(a):
        a = np.clip(a, 0, 1)
        return a[..., 0] if c == 1 else a
    cor = np.zeros_like(flat)
    cor[ob] = flat[ob]
    pics = [('-true.png', img), ('-corrupt.png', cor.reshape(img.shape))]
    if sr:
        pics.append(('-corrupt-lr.png', flat[ob].reshape(res // size, res // size, c)))
    for f, a in pics:
        if not np.array_equal(p(f'{cwd}/{head[1]}-{k}{f}'), shown(a)):
            raise Violation('picture', f'{what}: {f} does not show what it names')
    names = [label(s)] if not s['script'].startswith('sb_imgs') else \
        [('filter-' if s['method'] == 'filter' else 'gibbs-eb-ef-') + n for n in ('random', 'blank', 'interp')]
    out = []
    for lab in names:
        fn = f'{cwd}/{head[0]}-{k}-{lab}.npy'
        if not os.path.exists(fn):
            raise Violation('missing', f'{what}: no {os.path.basename(fn)}')
        R = np.load(fn)
        rec.evals += s['nsamples']
        rec.log(R)
        if R.shape != (s['nsamples'], *img.shape):
            raise Violation('shape', f'{what}: restorations of shape {R.shape}')
        if not np.isfinite(R).all():
            raise Violation('finite', f'{what}: a restoration is not finite')
        for i in range(len(R)):
            if not np.array_equal(p(f'{cwd}/{head[1]}-{k}-{lab}-{i}.png'), shown(R[i].astype(np.float32))):
                raise Violation('picture', f'{what}: the picture of sample {i} is not the stored sample')
        V, U = R.reshape(len(R), -1, c)[:, ob], R.reshape(len(R), -1, c)[:, un]
        if lab != 'twisted' and not np.array_equal(V.astype(np.float32), np.broadcast_to(flat[ob], V.shape)):
            raise Violation('observed', f'{what}: a restoration changes observed pixels')
        if len(R) > 1 and 'pmcmc' not in lab and any(np.array_equal(U[0], U[i]) for i in range(1, len(U))):
            if lab in ('filter', 'filter-marg', 'csgm', 'twisted'):
                raise Violation('repeated', f'{what}: independent restorations are identical')
        if (U == 0).all((1, 2)).any():
            raise Violation('blank', f'{what}: a restoration was left blank')
        rec.state(s['script'], lab, s['size'], img.tobytes())
        out.append((img, un, ob, R))
    if s['script'].startswith('sb_imgs'):
        return out
    if exact and s['res'] != 28 and s['nsteps'] >= 40 and len(R) >= 20:
        statistics(s, what, flat, un, ob, U, label(s))
    return out


def statistics(s, what, flat, un, ob, U, lab):
    pm, pv, pc = imgs.posterior(M, S2, C2, flat[ob].astype(float))
    n = U.shape[1] * U.shape[2]
    half = U[len(U) // 4:]
    got = half.mean()
    sd = np.sqrt(pc + (pv - pc) / n)
    exact = lab.startswith('gibbs') or lab.startswith('filter')
    tol = {'twisted': .75, 'csgm': .8}.get(lab, .35) + 4 * sd / np.sqrt(len(half) / 4)
    if abs(got - pm) > tol + (.25 * abs(pm - M) if not exact else 0):
        raise Violation('posterior', f'{what}: the restored pixels have mean {got:.3f}, the measurement implies {pm:.3f} '
                                     f'(tolerance {tol:.2f})')
    if lab.startswith('gibbs'):
        v = half.var(0).mean()
        if not .4 < v / pv < 2.5:
            raise Violation('posterior', f'{what}: the restored pixels have variance {v:.4f}, the measurement implies {pv:.4f}')


def checkpoints(cwd, s):
    good, bad = [M, S2, C2], [9., 1., 3.]
    ds = 'mnist' if s['res'] == 28 else f"celeba-{s['res']}"
    imgs.checkpoint(cwd, ds, s['sde'], 2999, bad if s['ema'] else good, good if s['ema'] else bad)
    np.savez(f"{cwd}/checkpoints/sb_{ds}_{s['sde']}_9.npz", param_fwd=np.asarray(good, np.float32),
             param_bwd=np.asarray(good, np.float32))


def run(scn, rec):
    rec.event(*[f'{k}={scn[k]}' for k in ('kind', 'script', 'method', 'res', 'size', 'sde', 'N', 'nsamples', 'ny0s')])
    with tempfile.TemporaryDirectory(prefix='vsim-imgs-') as d:
        cwd = world(d, scn['res'], subseed(scn['seed'], 'pictures'))
        checkpoints(cwd, scn)
        {'restore': run_restore, 'cross': run_cross, 'crash': run_crash}[scn['kind']](scn, rec, cwd)


def run_restore(scn, rec, cwd):
    a, head, s = conf(scn)
    fs = driver.FS(cwd)
    start(s, a, cwd, fs)
    rec.simtime += s['nsteps'] * s['nsamples']
    ks = [s['k']] if s['script'].startswith('sb_imgs') else range(s['start'], s['ny0s'])
    seen = [judge(s, cwd, head, k, rec)[0][0] for k in ks]
    same = [np.array_equal(a, b) for a, b in zip(seen, seen[1:])]
    if sum(same) > 1:     # one may be a coincidence: a picture is drawn out of 1000
        raise Violation('same-picture', f"{s['script']}: the pictures {list(ks)} repeat")


def run_cross(scn, rec, cwd):
    """Programs, methods and options that are compared with each other restore the same measurements."""
    ref = {}
    for i, kw in enumerate(scn['runs']):
        a, head, s = conf(scn, **kw)
        fs = driver.FS(cwd)
        start(s, a, cwd, fs)
        rec.event('run', s['script'], s['method'], s['N'], s['start'])
        ks = [s['k']] if s['script'].startswith('sb_imgs') else range(s['start'], s['ny0s'])
        for k in ks:
            judge(s, cwd, head, k, rec, exact=False)
            t = truth(cwd, head, k)
            t = [t[0], *t[3]]
            if k in ref:
                if len(t) != len(ref[k][1]) or not all(np.array_equal(x, y) for x, y in zip(t, ref[k][1])):
                    raise Violation('comparison', f"{s['script']} {' '.join(a)}: test picture {k} or its mask differs from the one "
                                                  f"of {ref[k][0]}")
            else:
                ref[k] = (s['script'] + ' ' + ' '.join(a), t)


def run_crash(scn, rec, cwd):
    r = rng_of(scn['seed'], 'crashes')
    a, head, s = conf(scn)
    # the undisturbed execution
    with tempfile.TemporaryDirectory(prefix='vsim-imgs-') as d:
        cwd0 = world(d, scn['res'], subseed(scn['seed'], 'pictures'))
        checkpoints(cwd0, s)
        fs0 = driver.FS(cwd0)
        start(s, a, cwd0, fs0)
        want = {k: (truth(cwd0, head, k), np.load(f'{cwd0}/{head[0]}-{k}-{label(s)}.npy')) for k in range(s['ny0s'])}
        nwrites = fs0.n
    nxt, first, runs = 0, None, 0
    left = scn['crashes']
    while nxt < s['ny0s']:
        done = {f: open(f, 'rb').read() for f in list_files(cwd) if belongs(f, head, range(nxt))}
        at = r.randrange(1, max(2, nwrites * (s['ny0s'] - nxt) // s['ny0s'])) if left > 0 else None
        left -= 1
        torn = bool(r.randrange(2))
        a2, _, _ = conf(scn, start=nxt)
        fs = driver.FS(cwd, crash_at=at, torn=torn)
        crashed = start(s, a2, cwd, fs)
        runs += 1
        rec.fault('torn_write' if torn else 'crash_before_write', crashed)
        rec.event('run', 'from', nxt, 'crashed' if crashed else 'finished', 'after', fs.n, 'writes')
        for f, b in done.items():
            if open(f, 'rb').read() != b:
                raise Violation('overwritten', f"{s['script']}: a restart from picture {nxt} changed {os.path.basename(f)}")
        # the operator restarts from the first picture whose result is not there (or torn)
        comp = nxt
        while comp < s['ny0s'] and readable(f'{cwd}/{head[0]}-{comp}-{label(s)}.npy'):
            comp += 1
        if not crashed and comp < s['ny0s']:
            raise Violation('missing', f"{s['script']}: a run that ended normally left no result for picture {comp}")
        if first is None:
            for k in range(comp):
                if not np.array_equal(np.load(f'{cwd}/{head[0]}-{k}-{label(s)}.npy'), want[k][1]):
                    raise Violation('restart', f"{s['script']}: the restorations of picture {k} differ from those of an "
                                               f"undisturbed run")
            first = comp
        nxt = comp
        if runs > scn['crashes'] + 2:
            raise Violation('progress', f"{s['script']}: no progress after the crashes stopped")
    for k in range(s['ny0s']):
        judge(s, cwd, head, k, rec)
        t = truth(cwd, head, k)
        if not all(np.array_equal(x, y) for x, y in zip([t[0], *t[3]], [want[k][0][0], *want[k][0][3]])):
            raise Violation('restart', f"{s['script']}: after restarts with --start_from, test picture {k} or its mask differs "
                                       f"from that of an undisturbed run")
    rec.simtime += nwrites


def readable(f):
    try:
        np.load(f)
        return True
    except Exception:  # noqa
        return False


def list_files(cwd):
    return sorted(os.path.join(a, f) for a, _, fs in os.walk(cwd) for f in fs)


def belongs(f, head, ks):
    f = os.path.basename(f)
    return any(f.startswith(f'{os.path.basename(h)}-{k}-') for h in head for k in ks)


METHODS = ['filter', 'gibbs', 'gibbs-eb', 'gibbs-eb-ef', 'gibbs-ef', 'pmcmc', 'pmcmc-0.1']


def plan(tier, rng):
    m = 1 if tier == 'quick' else 12
    out = []

    def task():
        sr = rng.random() < .5
        return dict(script=f"imgs/{'supr' if sr else 'inpainting'}.py", res=4, size=2 if sr else rng.choice([2, 3]))

    def add(kind, cost, **kw):
        s = dict(kind=kind, res=4, size=2, script='imgs/supr.py', method='filter', sde=rng.choice(['lin', 'lin', 'const']), N=10,
                 nsteps=40, nsamples=24, ny0s=4, start=0, ema=int(rng.random() < .6), rm=rng.randrange(2), marg=0, init='smoother',
                 tseed=rng.randrange(1000), k=0, cost=cost)
        s.update(kw)
        s['group'] = str(len(out))
        out.append(s)
    for _ in range(m):
        for base in ('supr', 'inpainting'):
            t = dict(script=f'imgs/{base}.py', size=2 if base == 'supr' else rng.choice([2, 3]))
            for method in METHODS:
                if method == 'gibbs-ef' and rng.random() < .5:
                    continue
                add('restore', 8. if 'gibbs' in method else 4., method=method,
                    start=rng.choice([0, 0, 1]), init=rng.choice(['smoother', 'filter']), **t)
            add('restore', 8., method='gibbs-eb-ef', marg=1, **t)
            add('restore', 4., method='filter', marg=1, **t)
            for k in ('twisted', 'csgm'):
                add('restore', 4., script=f'imgs/{base}_{k}.py', size=t['size'], nsamples=32, N=20)
        for base in ('supr', 'inpainting'):
            runs = [dict(), dict(method='gibbs-eb-ef', N=3, nsamples=1), dict(script=f'imgs/{base}_twisted.py', N=4),
                    dict(script=f'imgs/{base}_csgm.py', nsamples=3, start=1), dict(method='pmcmc-0.1', nsteps=7)]
            rng.shuffle(runs)
            add('cross', 18., script=f'imgs/{base}.py', size=2, nsteps=5, nsamples=2, ny0s=4, runs=runs)
        for _ in range(5):
            t = task()
            if rng.random() < .4:
                t['script'] = t['script'].replace('.py', rng.choice(['_twisted.py', '_csgm.py']))
            add('crash', 20., method=rng.choice(METHODS), nsteps=5, nsamples=3, N=4, ny0s=5, crashes=rng.choice([1, 2, 3]),
                **t)
        add('cross', 25., script='imgs/supr.py', res=28, size=4, nsteps=3, nsamples=2, ny0s=3, N=2, sde='lin', rm=0,
            runs=[dict(method='gibbs-eb-ef'), dict(script='sb_imgs/supr.py', k=2, method=rng.choice(['filter', 'gibbs'])),
                  dict(script='sb_imgs/supr.py', k=0, method='filter')])
        add('restore', 10., script='imgs/inpainting.py', res=28, size=15, nsteps=3, nsamples=2, ny0s=2, N=2)
    return out


def shrink(scn):
    if scn['kind'] == 'cross' and len(scn['runs']) > 2:
        for i in range(len(scn['runs'])):
            yield dict(scn, runs=scn['runs'][:i] + scn['runs'][i + 1:])
    for k, v in (('ny0s', scn['start'] + 1), ('ny0s', 2), ('crashes', 1), ('nsamples', 2)):
        if k in scn and scn[k] > v and not (k == 'nsamples' and scn['kind'] == 'restore'):
            yield dict(scn, **{k: v})
