"""python3 tools/selftest.py [ID...]: every check twice, with other numbers of workers and hash seeds: the digests of all simulated executions
must be the same (same seed, same execution)."""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = []
for p in sys.argv[1:] or [f'C{i:02d}' for i in range(1, 28)]:
    out = []
    for w, h in ((8, 0), (3, 12345)):
        r = subprocess.run(['./check', p], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_WORKERS=str(w), PYTHONHASHSEED=str(h)))
        c = json.load(open(f'{V}/evidence/{p}.json'))['coverage']
        out.append((r.returncode, c['digest']))
    ok = out[0] == out[1] and out[0][0] == 0
    print(p, 'same' if ok else f'DIFFERS {out}', flush=True)
    bad += [] if ok else [p]
print('different:', bad or 'none')
sys.exit(bool(bad))
