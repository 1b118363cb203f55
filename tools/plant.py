"""python3 tools/plant.py ID...: (re)build /verif/seeded/ID from tools/bugs*.py and confirm it in a scratch copy: the patch
applies, the demonstration passes without and fails with it, the stable tests pass with it; then run its check.
Options: --notest, --nocheck, --all-checks."""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def bugs():
    out = {}
    for f in sorted(glob.glob(f'{V}/tools/bugs*.py')):
        spec = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b['id'] not in out, b['id']
            out[b['id']] = b
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def plant(b, test=True, check=True):
    d = f"/tmp/plant-{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    out = f"{V}/seeded/{b['id']}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    with open(f'{out}/demo.sh', 'w') as f:
        f.write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 '
                'JAX_PLATFORMS=cpu MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{out}/demo.sh', 0o755)
    open(f'{out}/demo.py', 'w').write(b['demo'].lstrip('\n'))
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(f'{out}/meta.json', 'w'), indent=1)
    res = {'id': b['id'], 'prop': b['prop']}
    r = sh(f'bash {out}/demo.sh', cwd=d)
    res['demo_clean'] = r.returncode
    if r.returncode:
        print(r.stdout[-500:], r.stderr[-1500:])
    for file, old, new in b['edits']:
        s = open(f'{d}/{file}').read()
        assert s.count(old) == 1, (b['id'], file, s.count(old), old)
        open(f'{d}/{file}', 'w').write(s.replace(old, new))
    diff = sh('git diff', cwd=d).stdout
    open(f'{out}/patch.diff', 'w').write(diff)
    res['applies'] = sh(f'git apply --check {out}/patch.diff', cwd='/repo').returncode
    r = sh(f'bash {out}/demo.sh', cwd=d)
    res['demo_patched'] = r.returncode
    res['demo_msg'] = (r.stdout + r.stderr).strip().splitlines()[-1:]
    if test:
        t = sh(f'PYTHONPATH={d} PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg /opt/venv/bin/python -m pytest tests -q '
               f'-p no:cacheprovider -n 4 --timeout=300 2>&1 | tail -8', cwd=d)
        res['tests'] = t.stdout.strip().splitlines()[-1:]
        res['failed'] = [l for l in t.stdout.splitlines() if l.startswith('FAILED')]
    if check:
        for p in ([b['prop']] if check is True else check):
            r = sh(f'./check {p}', cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_MIN_S='10'))
            res[f'check {p}'] = (r.returncode, [l for l in r.stdout.splitlines() if 'iolation' in l or 'VIOL' in l][:2],
                                 r.stderr[-300:] if r.returncode not in (0, 1) else '')
    shutil.rmtree(d)
    return res


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    B = bugs()
    for i in args or B:
        print(json.dumps(plant(B[i], '--notest' not in sys.argv, '--nocheck' not in sys.argv), indent=1), flush=True)
