"""C25  A batch campaign runs each requested job once, whatever order the jobs end in."""
import argparse
import os
import re
import numpy as np
from dst import campaign, driver, env
from dst.core import Violation, rng_of

PROP = 'C25'
RULE = ('a scenario is one launch of one launcher (locally or on the simulated cluster) with one order in which jobs start and end, one '
        'set of failing jobs and lost nodes; non-trivial: at least one job was started and ended by the simulator, or the launch was '
        'to be refused')
REAL = ['experiments/run_*.sh, experiments/bashes/*.sh, experiments/check_integrity.sh (run by bash)',
        'the argument parsers of all the programs they start', 'experiments/generate_rng_keys.py']
STUB = ['the programs themselves (stand-ins that block until the simulator ends them)', 'sbatch and the cluster',
        'the login environment and the virtual environment', 'nvidia-smi']
STATE = 'distinct (launcher, set of running jobs) reached'
ASSUMPTIONS = ['Slurm: `#SBATCH -a` starts one task per index, and whatever a batch script leaves behind ends with it']

PIX = {'mnist': (15, 4), 'celeba-64': (32, 2), 'celeba-128': (64, 2)}
TOY = {'filter': {}, 'gibbs': dict(explicit_backward=True), 'pmcmc': {}, 'twisted': {}, 'csgm': {}}


class Captured(BaseException):
    pass


_parsers = {}


def parser_of(prog):
    if prog not in _parsers:
        real = argparse.ArgumentParser.parse_args

        def grab(self, *a, **kw):
            raise Captured(self)

        argparse.ArgumentParser.parse_args = grab
        try:
            driver.run(prog, [], '/tmp')
        except Captured as e:
            _parsers[prog] = e.args[0]
        finally:
            argparse.ArgumentParser.parse_args = real
    return _parsers[prog]


def defaults(prog):
    return {a.dest: a.default for a in parser_of(prog)._actions if a.dest != 'help'}


def effective(j):
    """(program, options it will use)"""
    args = list(j.argv[1:])
    while args and args[0].startswith('-'):
        if args[0] not in ('-u', '-O', '-B', '-s', '-E', '-I'):
            raise Violation('command', f'the interpreter is called with {j.argv}')
        args.pop(0)
    if not args:
        raise Violation('command', f'no program in {j.argv}')
    prog = os.path.normpath(os.path.relpath(os.path.realpath(os.path.join(j.cwd, args[0])), os.path.realpath(j.exp)))
    if not os.path.exists(f'{env.REPO}/experiments/{prog}'):
        raise Violation('command', f'{prog} does not exist: {args} in {j.cwd}')
    p = parser_of(prog)
    err = []

    def error(m):
        err.append(m)
        raise Captured(m)

    p.error = error
    try:
        ns = p.parse_args(args[1:])
    except Captured:
        raise Violation('command', f'{prog} refuses {args[1:]}: {err[0]}')
    return prog, vars(ns)


def job(prog, **kw):
    o = {**defaults(prog), **kw}
    return prog, tuple(sorted(o.items()))


def toy(method, n, sde, delta=None):
    o = dict(d=100, nsamples=10000, sde=sde, **TOY[method])
    if method != 'csgm':
        o['nparticles'] = n
    if method == 'pmcmc':
        o['delta'] = delta
    return [job(f'toy/gp_{method}.py', id=k, **o) for k in range(100)]


def imgs(method, dataset, n=None, start=0, delta=.005):
    rect, rate = PIX[dataset]
    o = dict(dataset=dataset, sde='lin', test_nsteps=1000, test_epoch=2999, test_ema=True, test_seed=996, ny0s=100, start_from=start,
             nsamples=100)
    suffix = {'twisted': '_twisted', 'csgm': '_csgm'}.get(method, '')
    if method != 'csgm':
        o['nparticles'] = n
    if not suffix:
        o['method'] = {'filter': 'filter', 'gibbs': 'gibbs-eb-ef', 'pmcmc': f'pmcmc-{delta}'}[method]
    return [job(f'imgs/inpainting{suffix}.py', rect_size=rect, **o), job(f'imgs/supr{suffix}.py', rate=rate, **o)]


def sb(kind, n):
    if kind == 'gibbs':
        return [job('sb/gibbs.py', id=k, d=10, nsamples=10000, nparticles=n, explicit_backward=True) for k in range(100)]
    return [job('sb/filter.py', id=k, d=10, nsamples=10000, nparticles=n, x0=x0) for k in range(100) for x0 in ('proper', 'heuristic')]


def expected(s):
    a = s['args']
    w = s['what']
    if w == 'toy-local' or w == 'toy-gpu' or w == 'toy-array':
        return toy(s['method'], a.get('n'), a['sde'], a.get('delta'))
    if w == 'toy-all':
        return [j for m in TOY for j in toy(m, a['n'], a['sde'], .005)]
    if w == 'imgs' or w == 'imgs-local':
        return imgs(s['method'], a['dataset'], a.get('n'), a.get('start', 0), a.get('delta', 0.005))
    if w == 'imgs-all':
        return [j for m in TOY for j in imgs(m, a['dataset'], a['n'])]
    if w == 'sb':
        return sb(s['method'], a['n'])
    if w == 'sb-all':
        return [j for n in (4, 8, 16, 32, 64) for k in ('filter', 'gibbs') for j in sb(k, n)]
    if w == 'sb-imgs':
        return [job('sb_imgs/supr.py', sb_step=9, method=m, y0_id=k, test_nsteps=64, nsamples=100, nparticles=100)
                for k in range(10) for m in ('filter', 'gibbs')]
    if w == 'train':
        return [job('imgs/train.py', dataset=a['dataset'], sde=a['sde'], batch_size=256, nsteps=256, schedule='cos', nepochs=3000,
                    grad_clip=True, save_mem=True)]
    if w == 'train-sb':
        return [job('sb_imgs/train.py', dataset='mnist', sde='lin', batch_size=64, nsteps=32, schedule='cos', nepochs=10,
                    grad_clip=True, vmap_loss=True, nn_dim=64, nsbs=20)]
    raise ValueError(w)


def command(s):
    """-> the command the user types in experiments/ (launchers of the cluster are submitted)"""
    a, w, m = s['args'], s['what'], s.get('method')
    f = lambda *v: [str(x) for x in v if x is not None]  # noqa: E731
    tail = f(a.get('n') if m != 'csgm' else None, a.get('sde'), a.get('delta') if m == 'pmcmc' else None)
    if w == 'toy-local':
        return ['bash', f'bashes/toy_{m}_local.sh', *tail]
    if w == 'toy-gpu':
        return ['sbatch', f'bashes/toy_{m}.sh', *tail]
    if w == 'toy-array':
        return ['sbatch', f'bashes/toy_{m}_dardel.sh', *tail]
    if w == 'toy-all':
        if a['where'] == 'local':
            return ['bash', 'run_toy_all_local.sh', *f(a['n'], a['sde'])]
        return ['bash', 'run_toy_all.sh', *f(a['n'], a['sde'], a['where'])]
    if w == 'imgs' or w == 'imgs-local':
        n = [a['n']] if m != 'csgm' else []
        t = f(a['dataset'], *n, a.get('start'), a.get('delta') if m == 'pmcmc' else None)
        return ['bash', f'bashes/imgs_{m}_local.sh', *t] if w == 'imgs-local' else ['sbatch', f'bashes/imgs_{m}.sh', *t]
    if w == 'imgs-all':
        return ['bash', 'run_imgs_all.sh', *f(a['dataset'], a['n'])]
    if w == 'sb':
        return ['sbatch', f'bashes/sb_{m}_dardel.sh', *f(a['n'])]
    if w == 'sb-all':
        return ['bash', 'run_sb_all.sh']
    if w == 'sb-imgs':
        return ['bash', 'bashes/sb_imgs.sh']
    if w == 'train':
        return ['sbatch', 'run_train.sh', *f(a['dataset'], a['sde'])]
    if w == 'train-sb':
        return ['sbatch', 'run_sb_train.sh']


FOLDERS = {'imgs/inpainting': ['imgs/results_inpainting/arrs', 'imgs/results_inpainting/imgs'],
           'imgs/supr': ['imgs/results_supr/arrs', 'imgs/results_supr/imgs'], 'toy/': ['toy/results'], 'sb/': ['sb/results'],
           'sb_imgs/supr': ['sb_imgs/results'], 'sb_imgs/train': ['checkpoints'], 'imgs/train': ['checkpoints']}


def fraction(j):
    return float(j.env.get('XLA_PYTHON_CLIENT_MEM_FRACTION', '.75'))


def run_launch(s, rec):
    rng = rng_of(s['seed'], 'order')
    exp = expected(s)
    want = {}
    for k in exp:
        want[k] = want.get(k, 0) + 1
    w = campaign.World(rng, rec)
    try:
        cmd = command(s)
        if cmd[0] == 'sbatch':
            w.njob += 1
            args = cmd[1:]
            head = [x for line in open(f'{w.exp}/{args[0]}') if line.startswith('#SBATCH') for x in line.split()[1:]]
            for t in w.array(head) or [None]:
                w.queue.append((w.njob, args, w.exp, dict(w.env), t))
        else:
            w.start(' '.join(cmd), cmd, w.exp)
        gpu = not any('dardel' in c for c in cmd) and s['args'].get('where') != 'dardel'
        seen = {}

        def check(w):
            while check.at < len(w.history):
                ev = w.history[check.at]
                check.at += 1
                if ev[0] == 'end' and ev[2]:
                    raise Violation('abandoned', f'{ev[1].label} ended while {len(ev[2])} of its jobs were running, e.g. '
                                                 f'{ev[2][0].argv[1:]}')
                if ev[0] == 'rejected':
                    raise Violation('command', f'cannot be submitted: {ev[1].argv}')
                if ev[0] == 'preempted':
                    for j in ev[1].jobs:
                        if j.key is not None:
                            seen[j.key] -= 1
                if ev[0] == 'start':
                    j = ev[1]
                    j.exp, j.key = w.exp, None
                    if j.name not in ('python', 'python3', 'srun'):
                        continue
                    prog, o = effective(j)
                    j.key = key = prog, tuple(sorted(o.items()))
                    seen[key] = seen.get(key, 0) + 1
                    if key not in want:
                        near = min(want, key=lambda k: (k[0] != prog, len(set(k[1]) ^ set(key[1]))))
                        raise Violation('unrequested', f'{cmd}: {prog} was started with '
                                                       f'{dict(set(key[1]) - set(near[1]))}, requested is {dict(set(near[1]) - set(key[1]))}')
                    if seen[key] > want[key]:
                        raise Violation('repeated', f'{cmd}: started {seen[key]} times: {j.argv[1:]}')
                    if os.path.realpath(j.cwd) != os.path.realpath(w.exp):
                        raise Violation('folder', f'{prog} runs in {j.cwd}')
                    if j.root.task is not None and j.env.get('VIRTUAL_ENV') != f'{w.top}/venv':
                        raise Violation('environment', f'{prog} runs outside the virtual environment on the cluster')
                    for h, fs in FOLDERS.items():
                        if prog.startswith(h) and s['what'] not in ('imgs', 'imgs-local'):
                            for f in fs:
                                if not os.path.isdir(f'{w.exp}/{f}'):
                                    raise Violation('folder', f'{prog} starts before its result folder {f} exists')
                    rec.evals += 1
                if ev[0] == 'job end':
                    rec.state(ev[1].root.label, ev[1].argv[-4:], len([j for j in ev[1].root.jobs if j.open]))
            for r in w.roots:
                if r.status is None:
                    on = [j for j in r.jobs if j.open and j.name.startswith('python')]
                    if len(on) > 20:
                        raise Violation('crowd', f'{len(on)} jobs at a time in {r.label}')
                    if gpu and on:
                        tot = sum(fraction(j) for j in on)
                        if tot > 1 + 1e-9:
                            raise Violation('memory', f'{len(on)} jobs on one GPU may take {tot:.2f} of its memory')
                        if len(on) > 1 and any(j.env.get('XLA_PYTHON_CLIENT_PREALLOCATE') != 'false' for j in on):
                            raise Violation('memory', f'{len(on)} jobs on one GPU, not all of which leave memory unallocated')

        check.at = 0
        w.run(nodes=s['nodes'], order=s['order'], fail=s['fail'], preempt=s['preempt'], on_state=check)
        check(w)
        miss = [k for k, n in want.items() if seen.get(k, 0) < n]
        if miss:
            raise Violation('missing', f'{cmd}: {len(miss)} of {len(want)} jobs never ran, e.g. {miss[0][0]} '
                                       f'{dict(set(miss[0][1]) - set(defaults(miss[0][0]).items()))}')
        rec.simtime += w.clock
        rec.fault('completion out of order', sum(e[0] == 'job end' for e in w.history) if s['order'] != 'fifo' else 0)
        if s['nodes'] > 1:
            rec.fault('tasks on several nodes at a time', len([r for r in w.roots if r.task is not None]))
    finally:
        w.close()


def run_refused(s, rec):
    w = campaign.World(rng_of(s['seed'], 'order'), rec)
    try:
        r = w.start(s['script'], ['bash', s['script'], *s['argv']], w.exp)
        while r.status is None:
            new = [j for j in w.settle() if j.name != 'nvidia-smi']
            if new:
                raise Violation('unrequested', f'{s["script"]} {s["argv"]} starts {new[0].argv} for an unknown dataset')
        if r.status == 0:
            raise Violation('silent', f'{s["script"]} {s["argv"]} reports success for an unknown dataset')
        rec.fault('unknown dataset')
        rec.evals += 1
        rec.state('refused', s['script'])
        rec.event('refused', s['script'], r.status)
    finally:
        w.close()


def run_keys(s, rec):
    import jax
    import tempfile
    with tempfile.TemporaryDirectory(prefix='vsim-keys-') as d:
        driver.run('generate_rng_keys.py', [], d)
        got = np.load(f'{d}/keys.npy')
    old = np.load(f'{env.REPO}/experiments/keys.npy')
    want = np.asarray(jax.random.split(jax.random.PRNGKey(666), 1000))
    if got.shape != old.shape or (got != old).any() or got.dtype != old.dtype:
        raise Violation('keys', f'the generated keys differ from those of the repository: {got.shape}, {old.shape}')
    if len(np.unique(got, axis=0)) != 1000 or (got != want).any():
        raise Violation('keys', 'the keys of the 1000 runs are not 1000 distinct children of one key')
    rec.evals += 1
    rec.log(got)
    rec.state('keys')


def run_integrity(s, rec):
    g = rng_of(s['seed'], 'files')
    w = campaign.World(g, rec)
    try:
        n = {}
        for task, sizes in (('inpainting', (('mnist', 15), ('celeba-64', 32), ('celeba-128', 64))),
                            ('supr', (('mnist', 4), ('celeba-64', 2), ('celeba-128', 2)))):
            d = f'{w.exp}/imgs/results_{task}/arrs'
            os.makedirs(d)
            for ds, size in sizes:
                for p in (1, 2, 10, 20, 100, 102):
                    for k in g.sample(range(100), g.randrange(1, 12)):
                        open(f'{d}/{ds}-{size}-lin-{p}-{k}-true.npz', 'w').close()
                        for m in ('filter', 'gibbs-eb-ef', 'pmcmc-0.005', 'twisted', 'gibbs-init'):
                            if g.random() < .6:
                                open(f'{d}/{ds}-{size}-lin-{p}-{k}-{m}.npy', 'w').close()
                                key = ds, p, m.split('-0')[0], task
                                n[key] = n.get(key, 0) + 1
                for k in range(5):
                    open(f'{d}/{ds}-{size}-lin-{k}-csgm.npy', 'w').close()
        for dp, dn, fn in os.walk(w.exp):
            os.chmod(dp, 0o755)
        r = w.start('check_integrity.sh', ['bash', 'check_integrity.sh'], w.exp)
        while r.status is None:
            w.settle()
        got = {}
        ds = None
        for line in w.text(r).splitlines():
            if re.match(r'Checking (MNIST|CEL\w+)$', line):
                ds = 'mnist' if 'MNIST' in line else 'celeba-64'
            m = re.match(r'Checking (\S+) with (\d+) particles: inpainting (\d+) supr (\d+)', line)
            if m:
                got[ds, int(m.group(2)), m.group(1)] = int(m.group(3)), int(m.group(4))
        for ds, ps in (('mnist', (10, 100)), ('celeba-64', (2, 10))):
            for p in ps:
                for m in ('filter', 'gibbs-eb-ef', 'pmcmc', 'twisted'):
                    want = n.get((ds, p, m, 'inpainting'), 0), n.get((ds, p, m, 'supr'), 0)
                    if got.get((ds, p, m)) != want:
                        raise Violation('count', f'check_integrity.sh: {ds} {m} {p} particles: printed {got.get((ds, p, m))}, '
                                                 f'stored {want}')
                    rec.evals += 1
        rec.fault('results missing', 1)
        rec.state('integrity', s['seed'])
        rec.event('counted', sorted(n.items()))
    finally:
        w.close()


def run(s, rec):
    {'launch': run_launch, 'refused': run_refused, 'keys': run_keys, 'integrity': run_integrity}[s['kind']](s, rec)


ORDERS = ['random', 'straggler', 'lifo', 'random', 'straggler', 'fifo']


def plan(tier, rng):
    out = []
    reps = 1 if tier == 'quick' else 8

    def launch(what, cost, method=None, faults=True, nodes=None, **args):
        out.append(dict(kind='launch', what=what, method=method, args=args, seed=rng.randrange(2 ** 31), order=rng.choice(ORDERS),
                        fail=rng.choice([.05, .2, .5, 1., 0.]) if faults else 0., preempt=0., nodes=nodes or 1, cost=cost))

    for _ in range(reps):
        for m in TOY:
            n, sde = rng.choice([2, 10, 100, 37]), rng.choice(['lin', 'const'])
            d = rng.choice([.005, .001, .3])
            launch('toy-local', 3, m, n=n, sde=sde, delta=d)
            launch('toy-gpu', 3, m, n=rng.choice([10, 100]), sde=sde, delta=rng.choice([.005, .001]))
            launch('toy-array', 4, m, n=rng.choice([10, 100]), sde=rng.choice(['lin', 'const']), delta=d, nodes=rng.choice([1, 3, 8]))
            out[-1]['preempt'] = rng.choice([0., .05])
            for where in ('imgs', 'imgs-local'):
                for ds in (PIX if tier != 'quick' else rng.sample(sorted(PIX), 2)):
                    a = dict(dataset=ds, n=rng.choice([2, 10, 100]))
                    if rng.random() < .6:
                        a['start'] = rng.randrange(100)
                        if m == 'pmcmc' and rng.random() < .7:
                            a['delta'] = rng.choice([.001, .05])
                    launch(where, .5, m, **a)
            for ext in ('', '_local'):
                for bad in ['cifar10', '', 'MNIST', 'celeba', 'celeba-256', f'celeba-{rng.randrange(1, 512) * 2 + 1}', 'mnist-64']:
                    out.append(dict(kind='refused', script=f'bashes/imgs_{m}{ext}.sh', argv=[bad, '10'], seed=rng.randrange(2 ** 31),
                                    cost=.3))
        launch('toy-all', 15, n=rng.choice([10, 100]), sde=rng.choice(['lin', 'const']), where='local')
        launch('toy-all', 15, n=rng.choice([10, 100]), sde=rng.choice(['lin', 'const']), where='berzelius', nodes=rng.choice([1, 2, 5]))
        launch('toy-all', 20, n=rng.choice([10, 100]), sde=rng.choice(['lin', 'const']), where='dardel', nodes=rng.choice([4, 8]))
        out[-1]['preempt'] = rng.choice([.02, .05])
        for ds in PIX:
            launch('imgs-all', 1, dataset=ds, n=rng.choice([2, 10, 100]), nodes=rng.choice([1, 2, 5]))
            launch('train', .4, dataset=ds, sde=rng.choice(['lin', 'const']))
        for k in ('filter', 'gibbs'):
            launch('sb', 4, k, n=rng.choice([4, 64]), nodes=rng.choice([2, 8]))
            out[-1]['preempt'] = rng.choice([0., .05])
        if tier != 'quick':
            launch('sb-all', 60, nodes=8)
        launch('sb-imgs', 1)
        launch('sb-imgs', 1)
        launch('train-sb', .4)
        out.append(dict(kind='integrity', seed=rng.randrange(2 ** 31), cost=1))
    out.append(dict(kind='keys', seed=0, cost=1))
    return out


def shrink(s):
    if s['kind'] != 'launch':
        return
    for k, v in (('fail', 0.), ('preempt', 0.), ('nodes', 1), ('order', 'fifo')):
        if s[k] != v:
            yield {**s, k: v}
