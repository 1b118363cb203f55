B = 'experiments/bashes/'

# runs launch scripts with stand-ins for python and sbatch that append their arguments to a log
SH = r'''
import atexit, os, shutil, subprocess, sys, tempfile
repo = os.getcwd()
tmp = tempfile.mkdtemp()
atexit.register(shutil.rmtree, tmp, True)
os.makedirs(tmp + '/bin')
exp = tmp + '/w/fbs/experiments'
os.makedirs(exp + '/logs')
os.makedirs(tmp + '/w/fbs/venv/bin')
open(tmp + '/w/fbs/venv/bin/activate', 'w').close()
open(tmp + '/.bashrc', 'w').close()
for f in os.listdir(repo + '/experiments'):
    if f.endswith('.sh'):
        shutil.copy(f'{repo}/experiments/{f}', exp)
shutil.copytree(f'{repo}/experiments/bashes', exp + '/bashes')
for d in ('toy/results', 'sb', 'imgs'):
    os.makedirs(f'{exp}/{d}')
def tool(name, text):
    p = f'{tmp}/bin/{name}'
    open(p, 'w').write('#!/bin/bash\n' + text)
    os.chmod(p, 0o755)
env = dict(os.environ, PATH=f'{tmp}/bin:/usr/bin:/bin', HOME=tmp, WRKDIR=tmp + '/w', LOG=tmp + '/log')
tool('nvidia-smi', 'exit 0\n')
def sh(*a, **kw):
    open(tmp + '/log', 'a').close()
    r = subprocess.run(a, cwd=exp, env={**env, **kw}, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=200)
    return r, open(tmp + '/log').read().splitlines()
'''

BUGS = [
    dict(id='c25-wait-last', prop='C25',
         edits=[(B + 'toy_gibbs_local.sh', '--explicit_backward &\n    done\n    wait\n', '--explicit_backward &\n    done\n    wait $!\n')],
         needs='a job of a batch which is still running when the last one of its batch has ended',
         breaks='the next batch starts beside the stragglers, and the launcher ends before its jobs',
         demo=SH + '''
tool('python', 'case "$*" in *--id=3\\ *) sleep 3;; esac; echo "end $*" >> $LOG\\n')
r, log = sh('bash', 'bashes/toy_gibbs_local.sh', '10', 'lin')
print(len(log), 'jobs had ended when the launcher ended')
at = [i for i, l in enumerate(log) if '--id=3 ' in l]
sys.exit(0 if len(log) == 100 and at and at[0] < 10 else 1)
'''),
    dict(id='c25-fail-fast', prop='C25',
         edits=[(B + 'toy_twisted.sh', 'PARALLEL_MAX=20\n', 'set -eo pipefail\n\nPARALLEL_MAX=20\n'),
                (B + 'toy_twisted.sh', '    wait\n', '    for job in $(jobs -p)\n    do\n        wait $job\n    done\n')],
         needs='a job that fails before the last batch',
         breaks='one failed run ends the launcher: the later ids never run',
         demo=SH + '''
tool('python', 'echo "$*" >> $LOG; case "$*" in *--id=7\\ *) sleep .5; exit 1;; esac; sleep .2\\n')
r, log = sh('bash', 'bashes/toy_twisted.sh', '10', 'lin')
import time; time.sleep(1)
print(len(log), 'jobs started')
sys.exit(0 if len(log) == 100 else 1)
'''),
    dict(id='c25-retry', prop='C25',
         edits=[(B + 'toy_csgm_local.sh', '--sde=$sde &\n', '--sde=$sde || python toy/gp_csgm.py --id=$k --d=100 --nsamples=10000 --sde=$sde &\n')],
         needs='a job that fails',
         breaks='a failed run is started a second time behind the user\'s back (and runs without end if it was out of memory)',
         demo=SH + '''
tool('python', 'echo "$*" >> $LOG; case "$*" in *--id=42\\ *) exit 1;; esac\\n')
r, log = sh('bash', 'bashes/toy_csgm_local.sh', 'lin')
print(len(log), 'jobs started')
sys.exit(0 if len(log) == 100 else 1)
'''),
    dict(id='c25-supr-start', prop='C25',
         edits=[(B + 'imgs_twisted.sh', 'start_from=${3:-0}', 'start_from=${3:-0}\nshift'),
                (B + 'imgs_twisted.sh', 'dataset=$1\n', 'dataset=$1\nparticles=$2\n'),
                (B + 'imgs_twisted.sh', 'python imgs/supr_twisted.py --dataset="$dataset" --rate=$sr_rate --sde="lin" --test_nsteps=1000 --test_epoch=2999 --test_ema --test_seed=996 --ny0s=100 --start_from=$start_from --nparticles=$nparticles',
                 'python imgs/supr_twisted.py --dataset="$dataset" --rate=$sr_rate --sde="lin" --test_nsteps=1000 --test_epoch=2999 --test_ema --test_seed=996 --ny0s=100 --start_from=${3:-0} --nparticles=$nparticles')],
         needs='a resumed campaign (a third argument)',
         breaks='after an interruption super-resolution starts from the first picture again',
         demo=SH + '''
tool('python', 'echo "$*" >> $LOG\\n')
r, log = sh('bash', 'bashes/imgs_twisted.sh', 'mnist', '10', '37')
print(log)
sys.exit(0 if len(log) == 2 and all('--start_from=37 ' in l for l in log) else 1)
'''),
    dict(id='c25-array-pair', prop='C25',
         edits=[(B + 'sb_filter_dardel.sh', '--x0="heuristic"\nwait', '--x0="heuristic"')],
         needs='a task in which the first of the two programs runs longer than the second',
         breaks='the cluster ends the program which still runs when the batch script ends, so its result is never stored',
         demo=SH + '''
tool('python', 'case "$*" in *proper*) sleep 1;; esac; echo "$*" >> $LOG\\n')
r, log = sh('bash', 'bashes/sb_filter_dardel.sh', '8', SLURM_ARRAY_TASK_ID='5')
print(log)
import time; time.sleep(1.5)
sys.exit(0 if len(log) == 2 else 1)
'''),
    dict(id='c25-celeba', prop='C25',
         edits=[(B + 'imgs_gibbs_local.sh', 'elif [[ "$dataset" == "celeba-64" ]]\nthen\n    rect_size=32\n    sr_rate=2\nelif [[ "$dataset" == "celeba-128" ]]\nthen\n    rect_size=64\n    sr_rate=2\n',
                 'elif [[ "$dataset" == celeba-* ]]\nthen\n    rect_size=$(( ${dataset#celeba-} / 2 ))\n    sr_rate=2\n')],
         needs='a dataset that does not exist, like celeba-256',
         breaks='an unknown dataset starts two jobs instead of being refused',
         demo=SH + '''
tool('python', 'echo "$*" >> $LOG\\n')
for n, ds in ((2, 'celeba-64'), (4, 'celeba-128'), (4, 'celeba-256')):
    r, log = sh('bash', 'bashes/imgs_gibbs_local.sh', ds, '10')
    print(ds, len(log), r.returncode)
    if len(log) != n:
        sys.exit(1)
sys.exit(0 if r.returncode else 1)
'''),
]
