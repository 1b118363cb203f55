"""The simulation runner: seeds -> scenarios -> simulated executions -> verdicts, replay files and evidence.

One integer (VERIF_SEED) decides everything.  `plan(tier, rng)` of a property module turns it into a list of scenarios
(plain JSON dicts, each with its own seed); a scenario is one exactly repeatable simulated execution (or a batch of
simulated executions: "lanes").  The parent process never imports jax; workers are fresh interpreters, and the
assignment of scenarios to workers is a pure function of the plan, and no verdict depends on it.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback

from dst import env

VERIF = env.VERIF
MASK = (1 << 63) - 1


def subseed(*parts):
    """Stable derivation of a 31-bit seed from anything (independent of PYTHONHASHSEED)."""
    h = hashlib.sha256(json.dumps(parts, sort_keys=True).encode()).digest()
    return int.from_bytes(h[:8], 'big') % (2 ** 31 - 1)


def rng_of(*parts):
    return random.Random(subseed(*parts))


class Violation(Exception):
    def __init__(self, kind, message, data=None):
        super().__init__(f'{kind}: {message}')
        self.kind, self.message, self.data = kind, message, data or {}


class Rec:
    """What one scenario did: counters for the evidence file and the event digest for determinism checks."""

    def __init__(self):
        self.evals = 0
        self.faults = {}
        self.states = set()
        self.simtime = 0.
        self.probes = {}
        self.known = []
        self._h = hashlib.sha256()
        self.trace = []

    def fault(self, kind, n=1):
        n = int(n)
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + int(n)

    def state(self, *key):
        if len(self.states) < 20000:
            self.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def log(self, *vals):
        for v in vals:
            if hasattr(v, 'tobytes'):
                self._h.update(v.tobytes())
            else:
                self._h.update(repr(v).encode())

    def event(self, *vals):
        self.log(*vals)
        if len(self.trace) < 400:
            self.trace.append(' '.join(str(v) for v in vals))

    def digest(self):
        return self._h.hexdigest()[:16]


def _in_repo(tb):
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(env.REPO + '/'):
            return f'{os.path.relpath(f, env.REPO)}:{tb.tb_lineno}'
        tb = tb.tb_next
    return None


def run_one(mod, scn):
    """-> result dict.  An exception that passed through the code under test during a legal use of it is a violation;
    any other exception is an error of the harness."""
    rec = Rec()
    t0 = time.perf_counter()
    out = {'violation': None, 'error': None}
    try:
        mod.run(scn, rec)
    except Violation as v:
        out['violation'] = {'kind': v.kind, 'message': v.message, 'data': v.data}
    except Exception as e:  # noqa
        where = _in_repo(e.__traceback__)
        c = e.__cause__
        while where is None and c is not None:
            where = _in_repo(c.__traceback__)
            c = c.__cause__
        if where is not None:
            out['violation'] = {'kind': 'exception', 'message': f'{type(e).__name__} raised through {where}: '
                                                                f'{str(e)[:300]}', 'data': {}}
        else:
            out['error'] = traceback.format_exc()[-3000:]
    out.update(evals=rec.evals, faults=rec.faults, states=sorted(rec.states), simtime=rec.simtime, probes=rec.probes,
               known=rec.known, digest=rec.digest(), trace=rec.trace[-80:], wall=time.perf_counter() - t0)
    return out


# ---------------------------------------------------------------------------------------------------------------------
# Worker side
# ---------------------------------------------------------------------------------------------------------------------
def load(prop):
    return importlib.import_module(f'dst.props.{prop.lower()}')


def worker_main(prop, infile, outfile):
    env.pin(prop)
    mod = load(prop)
    with open(infile) as f:
        items = json.load(f)
    tmp = open(outfile, 'w')
    for idx, scn in items:
        r = run_one(mod, scn)
        tmp.write(json.dumps([idx, r]) + '\n')
        tmp.flush()
        if os.environ.get('VERIF_VERBOSE'):
            print(f"[{idx}] {r['wall']:.1f}s {scn.get('kind')} {r['violation'] or ''} {r['error'] or ''}",
                  file=sys.stderr, flush=True)
    tmp.write(json.dumps(['done', None]) + '\n')
    tmp.close()


def minimise_main(prop, infile, outfile):
    """Greedy minimisation: keep a simpler scenario whenever it still fails with the same kind of violation."""
    env.pin(prop)
    mod = load(prop)
    with open(infile) as f:
        scn = json.load(f)
    budget = float(os.environ.get('VERIF_MIN_S', '60'))
    t0 = time.monotonic()
    best = run_one(mod, scn)
    tried = kept = 0
    if best['violation'] is None:
        json.dump({'scenario': scn, 'result': best, 'tried': 0, 'kept': 0, 'flaky': True}, open(outfile, 'w'))
        return
    shrink = getattr(mod, 'shrink', None)
    progress = shrink is not None
    while progress and time.monotonic() - t0 < budget:
        progress = False
        for cand in shrink(scn):
            if time.monotonic() - t0 > budget:
                break
            tried += 1
            r = run_one(mod, cand)
            if r['violation'] is not None and r['violation']['kind'] == best['violation']['kind']:
                scn, best, progress = cand, r, True
                kept += 1
                break
    json.dump({'scenario': scn, 'result': best, 'tried': tried, 'kept': kept, 'flaky': False}, open(outfile, 'w'))


# ---------------------------------------------------------------------------------------------------------------------
# Parent side
# ---------------------------------------------------------------------------------------------------------------------
def _spawn(args, extra_env=None):
    e = dict(os.environ)
    e['PYTHONPATH'] = f'{VERIF}:{env.REPO}'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['JAX_PLATFORMS'] = 'cpu'
    e.update(extra_env or {})
    return subprocess.Popen([sys.executable, '-m', 'dst.run', *args], cwd=VERIF, env=e, stdin=subprocess.DEVNULL)


def assign(plan, nworkers):
    """Static balanced assignment; scenarios of one group (one set of compiled shapes) stay together."""
    groups = {}
    for i, s in enumerate(plan):
        groups.setdefault(s.get('group', str(i)), []).append(i)
    order = sorted(groups.items(), key=lambda kv: (-sum(plan[i].get('cost', 1.) for i in kv[1]), kv[0]))
    loads = [0.] * nworkers
    bins = [[] for _ in range(nworkers)]
    for _, idxs in order:
        w = loads.index(min(loads))
        loads[w] += sum(plan[i].get('cost', 1.) for i in idxs) + 1.
        bins[w] += idxs
    return bins


def run_plan(prop, plan, nworkers=None, limit=840, extra_env=None):
    nworkers = nworkers or int(os.environ.get('VERIF_WORKERS', min(8, os.cpu_count() or 1)))
    results = [None] * len(plan)
    with tempfile.TemporaryDirectory(prefix=f'vsim-{prop}-') as d:
        procs = []
        for w, idxs in enumerate(assign(plan, nworkers)):
            if not idxs:
                continue
            fin, fout = f'{d}/in{w}.json', f'{d}/out{w}.jsonl'
            with open(fin, 'w') as f:
                json.dump([[i, plan[i]] for i in idxs], f)
            procs.append((_spawn(['worker', prop, fin, fout], {'TMPDIR': d, **(extra_env or {})}), fout, idxs))
        t0 = time.monotonic()
        errors = []
        for p, fout, idxs in procs:
            try:
                p.wait(timeout=max(1., limit - (time.monotonic() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                errors.append(f'worker exceeded the wall limit of {limit} s')
        for p, fout, idxs in procs:
            done = False
            if os.path.exists(fout):
                for line in open(fout):
                    try:
                        i, r = json.loads(line)
                    except ValueError:
                        continue
                    if i == 'done':
                        done = True
                    else:
                        results[i] = r
            if not done:
                errors.append(f'worker ended early (exit {p.returncode})')
    return results, errors


def load_known(prop):
    fn = f'{VERIF}/known_findings.json'
    if not os.path.exists(fn):
        return []
    return [e for e in json.load(open(fn)).get('findings', []) if e['property'] == prop]


def write_replay(prop, idx, res, tier, seed):
    os.makedirs(f'{VERIF}/replays', exist_ok=True)
    scn, r = res['scenario'], res['result']
    name = f"{prop}-{hashlib.sha1(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:10]}.json"
    path = f'{VERIF}/replays/{name}'
    json.dump({'property': prop, 'verif_seed': seed, 'tier': tier, 'scenario_index': idx, 'scenario': scn,
               'violation': r['violation'], 'digest': r['digest'], 'trace': r['trace'],
               'minimisation': {'tried': res['tried'], 'kept': res['kept']}}, open(path, 'w'), indent=1)
    return path


def replay(prop, path):
    env.pin()
    mod = load(prop)
    rp = json.load(open(path))
    r = run_one(mod, rp['scenario'])
    if r['error']:
        print(r['error'])
        return 2
    if r['violation'] is None:
        print(f'replay of {path}: no violation (the property holds on this execution)')
        return 0
    same = r['violation']['kind'] == rp['violation']['kind'] and r['digest'] == rp['digest']
    print(f"replay of {path}: {r['violation']['kind']}: {r['violation']['message']}")
    for line in r['trace'][-40:]:
        print('   ', line)
    print(f"exact reproduction: {same}")
    print(f'VIOLATION property={prop} replay={path}')
    return 1


def check(prop, tier, seed):
    t0 = time.monotonic()
    mod = load(prop)
    plan = mod.plan(tier, rng_of(prop, tier, seed))
    for i, s in enumerate(plan):
        s.setdefault('seed', subseed(prop, tier, seed, i))
    print(f'{prop}: seed {seed}, tier {tier}, {len(plan)} scenarios', flush=True)
    limit = 840 if tier == 'quick' else 6 * 3600
    results, errors = run_plan(prop, plan, limit=limit)
    viol = [i for i, r in enumerate(results) if r and r['violation']]
    herr = [(i, r['error']) for i, r in enumerate(results) if r and r['error']]
    wall = time.monotonic() - t0

    known = load_known(prop)
    knownhits = {}
    for r in results:
        for k in (r or {}).get('known', []):
            knownhits[k] = knownhits.get(k, 0) + 1
    listed = {k['id'] for k in known}
    unlisted = [k for k in knownhits if k not in listed]

    ok = [r for r in results if r]
    faults, probes, states = {}, {}, set()
    for r in ok:
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
        states.update(r['states'])
    evals = sum(r['evals'] for r in ok)
    simtime = sum(r['simtime'] for r in ok)
    distinct = len({json.dumps({k: v for k, v in s.items() if k not in ('group', 'cost')}, sort_keys=True)
                    for s, r in zip(plan, results) if r and r['evals'] > 0})
    level = getattr(mod, 'LEVEL', 'exploration')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': distinct,
            'rule': mod.RULE,
            'samples': [plan[i] for i in sorted({0, len(plan) // 2, len(plan) - 1})] if plan else [],
            'scenarios': len(plan), 'scenarios_completed': len(ok),
            'scenarios_per_hour': round(len(ok) / max(wall, 1e-9) * 3600),
            'simulated_runs_per_hour': round(evals / max(wall, 1e-9) * 3600),
            'simulated_time': round(simtime, 3),
            'faults_injected': faults, 'rare_conditions_reached': probes,
            'distinct_states': len(states), 'state_measure': getattr(mod, 'STATE', 'distinct recorded outcomes'),
            'real_components': mod.REAL, 'stubbed_components': mod.STUB,
            'known_findings_seen': knownhits,
            'digest': hashlib.sha1(''.join(r['digest'] for r in ok).encode()).hexdigest(),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': len(viol) + len(unlisted),
    }
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    json.dump(ev, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)

    for k in known:
        if k['id'] in knownhits:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    if viol or unlisted:
        status = 1
        i = viol[0] if viol else next(j for j, r in enumerate(results) if r and set(r['known']) & set(unlisted))
        # prefer a structural violation for the report, then the lowest index
        print(f'{prop}: {len(viol)} of {len(plan)} scenarios violate; first: #{i} '
              f"{(results[i]['violation'] or {}).get('kind')}: {(results[i]['violation'] or {}).get('message')}",
              flush=True)
        path = None
        with tempfile.TemporaryDirectory(prefix=f'vmin-{prop}-') as d:
            json.dump(plan[i], open(f'{d}/in.json', 'w'))
            p = _spawn(['minimise', prop, f'{d}/in.json', f'{d}/out.json'], {'TMPDIR': d})
            try:
                p.wait(timeout=max(30., min(200., limit - (time.monotonic() - t0))))
                res = json.load(open(f'{d}/out.json'))
                if res.get('flaky'):
                    res = None
            except Exception:  # noqa
                p.kill()
                res = None
        if res is None:  # minimisation impossible within its budget: the unminimised execution is the replay
            res = {'scenario': plan[i], 'result': results[i], 'tried': 0, 'kept': 0}
        path = write_replay(prop, i, res, tier, seed)
        if res['result']['violation']:
            print(f"minimised ({res['kept']} of {res['tried']} reductions kept): {res['result']['violation']['kind']}: "
                  f"{res['result']['violation']['message']}")
        print(f'VIOLATION property={prop} replay={path}', flush=True)
        return status
    if herr or errors:
        for i, e in herr[:3]:
            print(f'harness error in scenario #{i} {json.dumps(plan[i])}:\n{e}')
        for e in errors:
            print('harness error:', e)
        return 2
    print(f'{prop}: held on {evals} simulated executions in {len(plan)} scenarios, '
          f"{sum(faults.values())} faults injected, {wall:.1f} s")
    return 0


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    if argv and argv[0] == 'worker':
        return worker_main(*argv[1:])
    if argv and argv[0] == 'minimise':
        return minimise_main(*argv[1:])
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.prop, a.replay)
    return check(a.prop, a.tier, a.seed)

