"""C10  Chains are deterministic functions of (key, state): interleaving, batching, crashes and restarts do not matter."""
import functools
import os
import random
import shutil
import tempfile
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W
from dst.bridge import Bridge, BridgeModel
from dst.core import Violation, subseed
from dst.props.c03 import finite_callbacks

PROP = 'C10'
RULE = ('a scenario is a set of chains of different samplers and worlds, a seeded schedule of operations (single step, '
        'scanned chunk, batched step next to healthy or poisoned lanes, eager step, checkpoint, crash and restart from the '
        'last checkpoint, loss of every compiled program); every state is compared with an undisturbed execution; '
        'non-trivial: the chains move and at least one crash loses steps')
REAL = ['fbs.samplers.csmc.csmc.csmc_kernel', 'fbs.samplers.gibbs.gibbs_kernel', 'fbs.samplers.smc.pmcmc_kernel',
        'fbs.samplers.smc.{bootstrap_filter,bootstrap_backward_smoother,twisted_smc} (as stateless samplers)']
STUB = ['model callbacks: finite-state worlds', 'the driver loop and its checkpoint files (scratch directory)']
STATE = 'distinct (operation, chain kind, steps done since checkpoint)'
ASSUMPTIONS = ['comparisons are in double precision: batching may change the last bits of float sums']
US, VS = (2,), (1,)
KINDS = ['csmc-scan', 'csmc-bwd', 'gibbs-00', 'gibbs-01', 'gibbs-10', 'gibbs-11', 'pmcmc', 'filter', 'twisted']


def make_step(kind, S, V, K, N):
    """step(key, state, tab, y0) -> state; pure, traceable."""
    if kind.startswith('csmc'):
        from fbs.samplers.csmc.csmc import csmc_kernel
        from fbs.samplers.csmc import resamplings

        def step(key, st, tab, y0):
            m = W.Model(tab, S, V, K, US, VS)
            vv = W.enc(st['vs'], VS)
            u, b = csmc_kernel(key, st['u'], st['b'], vv, tab['ts'], m.init_sampler(vv[0]), m.init_loglik,
                               m.transition_sampler, m.transition_logpdf, m.loglik, resamplings.killing, N - 1,
                               backward=kind.endswith('bwd'))
            return dict(st, u=u, b=b)
    elif kind.startswith('gibbs'):
        from fbs.samplers.gibbs import gibbs_kernel
        eb, ef = kind[-2] == '1', kind[-1] == '1'

        def step(key, st, tab, y0):
            m = BridgeModel(tab, S, V, K, US, VS, False, ef)
            x, u, b, _ = gibbs_kernel(key, st['x'], W.enc(y0, VS), st['u'], st['b'], tab['ts'], m.fwd_sampler, None,
                                      m.unpack, N - 1 if ef else N, m.transition_sampler, m.transition_logpdf, m.loglik,
                                      explicit_backward=eb, explicit_final=ef)
            return dict(st, x=x, u=u, b=b)
    elif kind == 'pmcmc':
        from fbs.samplers.smc import pmcmc_kernel
        from fbs.samplers.resampling import multinomial

        def step(key, st, tab, y0):
            m, fwd = finite_callbacks(tab, S, V, K, US, VS, False)
            u, ell, ys, _ = pmcmc_kernel(key, st['u'], st['ell'], st['ys'], W.enc(y0, VS), tab['ts'], fwd, None,
                                         m.init_sampler_v, m.transition_sampler, m.loglik, multinomial, N)
            return dict(st, u=u, ell=ell, ys=ys)
    elif kind == 'filter':
        from fbs.samplers.smc import bootstrap_filter, bootstrap_backward_smoother
        from fbs.samplers.resampling import stratified

        def step(key, st, tab, y0):
            m = W.Model(tab, S, V, K, US, VS)
            vv = W.enc(st['vs'], VS)
            k1, k2 = jax.random.split(key)
            h, nell = bootstrap_filter(m.transition_sampler, m.loglik, vv, tab['ts'], m.init_sampler_v, k1, N, stratified,
                                       return_last=False)
            u = bootstrap_backward_smoother(k2, h, vv, tab['ts'], m.transition_logpdf, likelihood_logpdf=m.loglik)
            return dict(st, u=u, h=h, nell=nell)
    else:
        from fbs.samplers.smc import twisted_smc
        from fbs.samplers.resampling import systematic

        def step(key, st, tab, y0):
            m = W.Model(tab, S, V, K, US, VS)
            kof = lambda t: jnp.maximum(m.k_of(t) - 1, 0)
            v = W.enc(y0, VS)
            x, lw = twisted_smc(key, v, tab['ts'], lambda k, n: m.init_sampler_v(k, v, n),
                                lambda u, up, t: tab['lT'][0, kof(t), 0, W.dec(up, US), W.dec(u, US)],
                                lambda y, u, t: tab['lg0'][0, W.dec(y, VS), W.dec(u, US)] * (1 + t),
                                lambda k, u, t, y: W.enc(m.cat(k, tab['T'][0, kof(t), 1, W.dec(u, US)]), US),
                                lambda u, up, t, y: tab['lT'][0, kof(t), 1, W.dec(up, US), W.dec(u, US)], systematic, N)
            return dict(st, x=x, lw=lw)
    return step


def make_world(kind, seed, S, V, K, N):
    r = np.random.default_rng(seed)
    if kind.startswith('gibbs'):
        ef = kind[-1] == '1'
        w = Bridge(seed, S, V, K, ef)
        tab = w.tables()
        m = BridgeModel(tab, S, V, K, US, VS, False, ef)
        y0 = int(r.integers(V))
        st = dict(x=m.encu(jnp.asarray(r.integers(S))), u=jnp.zeros((K + 1, *US)), b=jnp.asarray(r.integers(0, N, K + 1)))
        return tab, y0, st
    w = W.World(seed, S, V, K)
    tab = dict(w.tables(), Q=jnp.asarray(W.rand_probs(r, (V ** K,), 2.)))
    y0 = int(r.integers(V))
    vs = jnp.asarray(r.integers(0, V, K + 1))
    if kind.startswith('csmc'):
        st = dict(u=W.enc(jnp.asarray(r.integers(0, S, K + 1)), US), b=jnp.asarray(r.integers(0, N, K + 1)), vs=vs)
    elif kind == 'pmcmc':
        ys = r.integers(0, V, K + 1)
        ys[0] = y0
        st = dict(u=W.enc(jnp.asarray(r.integers(S)), US), ell=jnp.asarray(-1.), ys=W.enc(jnp.asarray(ys), VS))
    elif kind == 'filter':
        st = dict(u=jnp.zeros((K + 1, *US)), h=jnp.zeros((K + 1, N, *US)), nell=jnp.asarray(0.), vs=vs)
    else:
        st = dict(x=jnp.zeros((N, *US)), lw=jnp.zeros(N))
    return tab, y0, st


@functools.lru_cache(maxsize=None)
def compiled(kind, S, V, K, N, mode, n=0):
    step = make_step(kind, S, V, K, N)
    if mode == 'single':
        return jax.jit(step)
    if mode == 'batch':
        return jax.jit(jax.vmap(step))

    def chunk(key, st, tab, y0):
        """n steps; the chain key is split exactly as the drivers of the experiments do"""
        def body(c, _):
            key, st = c
            key, sub = jax.random.split(key)
            return (key, step(sub, st, tab, y0)), None
        return jax.lax.scan(body, (key, st), None, length=n)[0]
    return jax.jit(chunk)


def same(a, b):
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape or x.dtype != y.dtype or not np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True):
            return k
    return None


def run(scn, rec):
    with W.x64(True):
        _run(scn, rec)


def _run(scn, rec):
    S, V, K, N, T = 2, 2, scn['K'], scn['N'], scn['T']
    rng = random.Random(subseed(scn['seed'], 'schedule'))
    chains = []
    for c, kind in enumerate(scn['kinds']):
        tab, y0, st = make_world(kind, subseed(scn['seed'], 'world', c), S, V, K, N)
        key = jax.random.PRNGKey(subseed(scn['seed'], 'key', c))
        single = compiled(kind, S, V, K, N, 'single')
        ref = [(key, st)]
        k_, s_ = key, st
        for _ in range(T):
            k_, sub = jax.random.split(k_)
            s_ = single(sub, s_, tab, y0)
            ref.append((k_, s_))
        moved = sum(same(ref[i][1], ref[i + 1][1]) is not None for i in range(T))
        rec.probe('reference_moves', moved)
        rec.log(*[np.asarray(v) for v in ref[-1][1].values()])
        chains.append(dict(kind=kind, tab=tab, y0=y0, ref=ref, i=0, key=key, st=st, saved=0))
    scratch = tempfile.mkdtemp(prefix='vsim-c10-')
    try:
        def save(c, ch):
            path = f'{scratch}/chain{c}'
            with open(path + '.tmp', 'wb') as f:
                np.savez(f, _i=ch['i'], _key=np.asarray(ch['key']), **{k: np.asarray(v) for k, v in ch['st'].items()})
            os.replace(path + '.tmp', path + '.npz')
            ch['saved'] = ch['i']

        def load(c, ch):
            z = np.load(f'{scratch}/chain{c}.npz')
            ch['i'], ch['key'] = int(z['_i']), jnp.asarray(z['_key'])
            ch['st'] = {k: jnp.asarray(z[k]) for k in z.files if not k.startswith('_')}

        for c, ch in enumerate(chains):
            save(c, ch)
        eager_left, ops = scn['eager'], 0
        while any(ch['i'] < T for ch in chains) and ops < 400:
            ops += 1
            c = rng.choice([c for c, ch in enumerate(chains) if ch['i'] < T])
            ch = chains[c]
            op = rng.choices(['step', 'chunk', 'batch', 'eager', 'save', 'crash', 'recompile'],
                             [4, 3, 4, 1, 3, 2, .4 if scn['recompile'] else 0])[0]
            if op == 'eager' and not eager_left:
                op = 'step'
            kind, args = ch['kind'], (S, V, K, N)
            if op == 'chunk' and ch['i'] + 3 > T:
                op = 'step'
            rec.state(op, kind, ch['i'] - ch['saved'])
            rec.event(op, c, kind, 'at', ch['i'])
            if op == 'save':
                save(c, ch)
                rec.probe('checkpoints')
                continue
            if op == 'crash':
                rec.fault('crash_restart')
                rec.fault('lost_steps', sum(q['i'] - q['saved'] for q in chains))
                for c2, q in enumerate(chains):   # the process dies: every chain restarts from its own checkpoint
                    load(c2, q)
                continue
            if op == 'recompile':
                rec.fault('compiled_programs_lost')
                jax.clear_caches()
                compiled.cache_clear()
                continue
            if op == 'chunk':
                ch['key'], ch['st'] = compiled(kind, *args, 'chunk', 3)(ch['key'], ch['st'], ch['tab'], ch['y0'])
                ch['i'] += 3
            else:
                ch['key'], sub = jax.random.split(ch['key'])
                if op == 'step':
                    ch['st'] = compiled(kind, *args, 'single')(sub, ch['st'], ch['tab'], ch['y0'])
                elif op == 'eager':
                    eager_left -= 1
                    ch['st'] = make_step(kind, *args)(sub, ch['st'], ch['tab'], ch['y0'])
                    rec.probe('eager_steps')
                else:     # batched with three other lanes, some of them poisoned
                    pos = rng.randrange(4)
                    lanes, keys, tabs = [], [], []
                    for q in range(4):
                        poison = q != pos and rng.random() < .6
                        s = dict(ch['st'])
                        t = dict(ch['tab'])
                        if poison:
                            rec.fault('poisoned_lane')
                            for k in s:
                                if jnp.issubdtype(s[k].dtype, jnp.floating) and rng.random() < .7:
                                    s[k] = s[k] * jnp.nan
                            if rng.random() < .3:
                                t['lG' if 'lG' in t else 'lT'] = t['lG'] * jnp.nan
                        lanes.append(s)
                        tabs.append(t)
                        keys.append(sub if q == pos else jax.random.fold_in(sub, q))
                    stack = lambda ds: {k: jnp.stack([d[k] for d in ds]) for k in ds[0]}
                    out = compiled(kind, *args, 'batch')(jnp.stack(keys), stack(lanes), stack(tabs),
                                                         jnp.full(4, ch['y0']))
                    ch['st'] = {k: v[pos] for k, v in out.items()}
                ch['i'] += 1
            rec.evals += 1
            rec.simtime += 1
            bad = same(ch['ref'][ch['i']][1], ch['st'])
            if bad:
                raise Violation('diverged', f"{kind} chain: '{bad}' after step {ch['i']} ({op}) differs from the undisturbed "
                                            f"execution of the same keys")
            if not np.array_equal(np.asarray(ch['key']), np.asarray(ch['ref'][ch['i']][0])):
                raise Violation('diverged', f'{kind} chain: the key stream differs')
        # the undisturbed executions once more: nothing the samplers keep between calls may change them
        for ch in chains:
            sub = jax.random.split(ch['ref'][0][0])[1]
            st = compiled(ch['kind'], S, V, K, N, 'single')(sub, ch['ref'][0][1], ch['tab'], ch['y0'])
            if same(st, ch['ref'][1][1]):
                raise Violation('not-repeatable', f"{ch['kind']}: the first step gives another result when repeated")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


PAIRS = [('csmc-scan', 'twisted'), ('csmc-bwd', 'filter'), ('gibbs-00', 'pmcmc'), ('gibbs-01',), ('gibbs-10',),
         ('gibbs-11',), ('pmcmc',), ('twisted', 'filter')]


def plan(tier, rng):
    out = []
    for rep in range(1 if tier == 'quick' else 12):
        K, N = (2, 3) if rep == 0 else (rng.choice([1, 2, 3]), rng.choice([2, 3, 4]))
        for p, pair in enumerate(PAIRS):     # scenarios of one group share their compiled programs
            for i in range(10):
                out.append(dict(kind='history', kinds=[pair[0], pair[-1], pair[0]], K=K, N=N, T=24,
                                eager=int(i == 0), recompile=int(i == 1 and p in (0, 6)), group=f'{rep}-{p}'))
    return out


def shrink(scn):
    ks = scn['kinds']
    if len(ks) > 1:
        for i in range(len(ks)):
            yield {**scn, 'kinds': ks[:i] + ks[i + 1:]}
    yield from W.shrink_by(scn, [('T', 1), ('T', 3), ('T', 6), ('eager', 0), ('recompile', 0), ('K', 2)])
