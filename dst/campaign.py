"""A simulated cluster and a simulated machine for the launch scripts of experiments/.

The scripts run for real, in bash, in a scratch copy of their folder, as an unprivileged user, with a PATH that holds only
harmless tools and stand-ins for every program that matters: `python` (a job), `sbatch` (a submission), `sleep` (the virtual
clock), `nvidia-smi`.  A stand-in reports its arguments, folder and environment and then blocks until the simulator ends it, so
the simulator decides the order in which jobs end, their exit status, which queued array task starts next, and on how many
nodes.  It acts only when nothing can move without it: every process of every launcher sleeps, none is a zombie, twice
identically.  Arrivals between two such moments are put in a canonical order, so one seed is one execution.
"""
import os
import re
import select
import shutil
import signal
import socket
import struct
import subprocess
import tempfile
import time
from dst import env
from dst.core import Violation

TOOLS = ('bash sh mkdir find wc tee cat seq xargs env dirname basename test [ expr printf grep sed awk mawk gawk sort head tail ls tr '
         'cut uniq touch true false nice nohup mktemp date hostname id uname echo pwd readlink realpath').split()
STANDINS = ['python', 'python3', 'sbatch', 'sleep', 'nvidia-smi', 'module', 'srun', 'ml']
NOBODY = 65534
PATIENCE = 60.


class Job:
    def __init__(self, conn, fields, root):
        self.conn, self.root = conn, root
        self.pid, self.sid, self.cwd, n = int(fields[0]), int(fields[1]), fields[2], int(fields[3])
        self.argv = fields[4:4 + n]
        self.env = dict(e.split('=', 1) for e in fields[4 + n:] if '=' in e)
        self.name = os.path.basename(self.argv[0])
        self.open, self.status = True, None


class Root:
    """one launcher: a shell script started by the user or by Slurm"""

    def __init__(self, proc, label, task=None):
        self.proc, self.label, self.task, self.status, self.jobs = proc, label, task, None, []


class World:
    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.d = tempfile.mkdtemp(prefix='vsim-sh-', dir='/tmp')
        self.top = f'{self.d}/work/fbs'
        self.exp = f'{self.top}/experiments'
        self.bin = f'{self.d}/bin'
        self.drop = os.geteuid() == 0 and self.can_drop()
        self.roots, self.queue, self.clock, self.njob = [], [], 0., 0
        self.history = []
        for p in ('bin', 'home', 'work/fbs/venv/bin', 'work/fbs/experiments'):
            os.makedirs(f'{self.d}/{p}')
        for t in TOOLS:
            w = shutil.which(t, path='/usr/bin:/bin')
            if w:
                os.symlink(w, f'{self.bin}/{t}')
        subprocess.run(['gcc', '-O1', '-w', '-o', f'{self.bin}/standin', f'{env.VERIF}/dst/stub.c'], check=True)
        for t in STANDINS:
            os.symlink('standin', f'{self.bin}/{t}')
        src = f'{env.REPO}/experiments'
        for dp, dn, fn in os.walk(src):
            rel = os.path.relpath(dp, src)
            dn[:] = sorted(x for x in dn if x not in ('__pycache__', 'datasets'))
            tracked = [f for f in fn if f.endswith('.sh') or f == '.dummy']
            keep = tracked or rel in ('.', 'bashes', 'toy', 'imgs', 'sb', 'sb_imgs', 'tabulators')
            if keep:
                os.makedirs(f'{self.exp}/{rel}', exist_ok=True)
            for f in tracked:
                shutil.copy(f'{dp}/{f}', f'{self.exp}/{rel}/{f}')
        with open(f'{self.d}/home/.bashrc', 'w') as f:
            f.write('export SIM_BASHRC=1\n')
        with open(f'{self.top}/venv/bin/activate', 'w') as f:
            f.write(f'export VIRTUAL_ENV="{self.top}/venv"\n')
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sock.bind(f'{self.d}/s')
        self.sock.listen(512)
        self.sock.setblocking(False)
        for dp, dn, fn in os.walk(self.d):
            os.chmod(dp, 0o755)
            if self.drop:
                os.chown(dp, NOBODY, NOBODY)
        os.chmod(f'{self.d}/s', 0o777)
        self.env = {'PATH': self.bin, 'HOME': f'{self.d}/home', 'WRKDIR': f'{self.d}/work', 'SIM_SOCKET': f'{self.d}/s',
                    'LC_ALL': 'C', 'TERM': 'dumb'}

    def close(self):
        for r in self.roots:
            self.kill(r)
        self.sock.close()
        assert self.d.startswith('/tmp/vsim-sh-')
        shutil.rmtree(self.d, ignore_errors=True)

    @staticmethod
    def can_drop():
        try:
            return subprocess.run(['/bin/true'], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
        except (OSError, subprocess.SubprocessError):
            return False

    # ----- processes -----
    def start(self, label, argv, cwd, extra=None, task=None):
        out = open(f'{self.d}/out{len(self.roots)}', 'w+b')
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if self.drop else {}
        p = subprocess.Popen(argv, cwd=cwd, env=extra or self.env, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT,
                             start_new_session=True, **kw)
        r = Root(p, label, task)
        r.out = out
        self.roots.append(r)
        return r

    def text(self, r):
        r.out.seek(0)
        return r.out.read().decode()

    def kill(self, r):
        for pid, *_ in self.procs({r.proc.pid}):
            try:
                os.kill(pid, signal.SIGKILL)
            except PermissionError:          # only the user itself may
                subprocess.run(['/bin/bash', '-c', f'kill -9 {pid}'], user=NOBODY, group=NOBODY, extra_groups=[])
            except OSError:
                pass
        for j in r.jobs:
            if j.open:
                j.open = False
                j.conn.close()
        r.proc.wait()

    def procs(self, sids):
        res = []
        for p in os.listdir('/proc'):
            if p.isdigit():
                try:
                    with open(f'/proc/{p}/stat') as f:
                        s = f.read()
                except OSError:
                    continue
                name, rest = s[s.index('(') + 1:s.rindex(')')], s[s.rindex(')') + 2:].split()
                if int(rest[3]) in sids:
                    res.append((int(p), name, rest[0], int(rest[1])))
        return sorted(res)

    def accept(self):
        new = []
        while True:
            try:
                c, _ = self.sock.accept()
            except BlockingIOError:
                return new
            c.setblocking(True)
            c.settimeout(10)
            n = struct.unpack('I', self._get(c, 4))[0]
            fields = self._get(c, n)[:-1].decode().split('\0')
            j = Job(c, fields, None)
            new.append(j)

    @staticmethod
    def _get(c, n):
        b = b''
        while len(b) < n:
            k = c.recv(n - len(b))
            if not k:
                raise RuntimeError('a stand-in died while it reported itself')
            b += k
        return b

    def settle(self, gone=()):
        """run the real processes until none can move; -> jobs that reported themselves meanwhile"""
        t0, new, last = time.monotonic(), [], None
        while True:
            live = {r.proc.pid: r for r in self.roots if r.status is None}
            new += self.accept()
            ps = self.procs(set(live))
            pids = {p[0] for p in ps}
            ended = all(p[0] != r.proc.pid or p[2] == 'Z' for p in ps for r in [live.get(p[0])] if r)
            still = all(p[2] == 'S' or (p[2] == 'Z' and p[0] in live) for p in ps) and not any(g in pids for g in gone)
            known = {j.pid for r in live.values() for j in r.jobs if j.open} | {j.pid for j in new}
            # a launcher that sleeps waits for something: one of its stand-ins, or the end of a filter behind one
            waits = all(any(p[0] in known for p in ps if self._sid(p, r)) or self._dead(r) for r in live.values())
            if still and waits and ps == last:
                extra = self.accept()
                if not extra:
                    break
                new += extra
            last = ps
            if time.monotonic() - t0 > PATIENCE:
                raise Violation('stuck', f'nothing moves: processes {[(p[1], p[2]) for p in ps]}')
            select.select([self.sock], [], [], .002)
            del ended
        for j in new:
            r = next((r for r in self.roots if r.proc.pid == j.sid), None)
            if r is None:
                raise RuntimeError(f'a stand-in outside every launcher: {j.argv}')
            j.root = r
        order = {id(r): i for i, r in enumerate(self.roots)}
        new.sort(key=lambda j: (order[id(j.root)], j.argv, sorted(j.env.items())))
        for j in new:
            j.root.jobs.append(j)
        for r in self.roots:
            if r.status is None and self._dead(r):
                r.status = r.proc.wait()
                left = [j for j in r.jobs if j.open]
                self.on_root_end(r, left)
        return new

    def _sid(self, p, r):
        try:
            return os.getsid(p[0]) == r.proc.pid
        except OSError:
            return False

    @staticmethod
    def _dead(r):
        try:
            with open(f'/proc/{r.proc.pid}/stat') as f:
                s = f.read()
            return s[s.rindex(')') + 2] == 'Z'
        except OSError:
            return True

    def reply(self, j, status=0, text=''):
        j.open, j.status = False, status
        try:
            j.conn.sendall(struct.pack('ii', status, 0) + text.encode())
        except OSError:
            pass
        j.conn.close()

    # ----- policy -----
    def on_root_end(self, r, left):
        self.rec.event('launcher ends', r.label, r.status, f'{len(left)} jobs still run')
        self.history.append(('end', r, left))
        if left and r.task is not None:          # Slurm ends whatever the batch script left behind
            self.kill(r)

    def submit(self, j):
        args = j.argv[1:]
        opts = []
        while args and args[0].startswith('-'):
            opts.append(args.pop(0))
            if '=' not in opts[-1] and args and re.fullmatch(r'[\d,:%-]+', args[0]):
                opts.append(args.pop(0))
        if not args or not os.path.exists(os.path.join(j.cwd, args[0])):
            self.reply(j, 1, 'sbatch: error: Unable to open file\n')
            self.history.append(('rejected', j))
            return
        head = [w for line in open(os.path.join(j.cwd, args[0])) if line.startswith('#SBATCH') for w in line.split()[1:]]
        ids = self.array(opts) or self.array(head) or [None]
        self.njob += 1
        n = self.njob
        self.rec.event('sbatch', *args, f'{len(ids)} tasks')
        for t in ids:
            self.queue.append((n, args, j.cwd, dict(j.env), t))
        self.reply(j, 0, f'Submitted batch job {n}\n')

    @staticmethod
    def array(words):
        for i, w in enumerate(words):
            m = re.match(r'(?:-a|--array)=?(.*)', w)
            if m:
                spec = m.group(1) or words[i + 1]
                out = []
                for part in spec.split('%')[0].split(','):
                    m = re.fullmatch(r'(\d+)(?:-(\d+)(?::(\d+))?)?', part)
                    a, b, st = int(m.group(1)), int(m.group(2) or m.group(1)), int(m.group(3) or 1)
                    out += range(a, b + 1, st)
                return out
        return None

    def start_task(self, i):
        n, args, cwd, e, t = self.queue.pop(i)
        e = {k: v for k, v in e.items() if k not in ('PWD', 'OLDPWD', 'SHLVL', '_')}
        e['SLURM_JOB_ID'] = str(n)
        if t is not None:
            e.update(SLURM_ARRAY_JOB_ID=str(n), SLURM_ARRAY_TASK_ID=str(t))
        return self.start(f'{args[0]}[{t}]', ['bash', *args], cwd, e, task=(n, args, cwd, e, t))

    def run(self, nodes=1, order='random', fail=0., preempt=0., on_state=None):
        """until every launcher has ended and the queue is empty"""
        rng, gone, straggler, requeued = self.rng, [], None, set()
        while True:
            for j in self.settle(gone):
                self.clock += 1.
                self.history.append(('start', j))
                self.rec.event('start', j.root.label, *[a.replace(self.d, '') for a in j.argv])
                if order == 'straggler' and straggler is None and j.name.startswith('python') and rng.random() < .1:
                    straggler = j
            gone = []
            if on_state:
                on_state(self)
            live = [r for r in self.roots if r.status is None]
            wait = [j for r in live for j in r.jobs if j.open]
            now = [j for j in wait if j.name in ('sbatch', 'nvidia-smi', 'module', 'ml')]
            if now:
                for j in now:
                    gone.append(j.pid)
                    self.submit(j) if j.name == 'sbatch' else self.reply(j)
                continue
            busy = sum(r.task is not None for r in live)
            # fill the nodes, then end something
            if self.queue and busy < nodes:
                i = rng.randrange(len(self.queue)) if order != 'fifo' else 0
                self.start_task(i)
                continue
            if not wait:
                if not live and not self.queue:
                    return
                if live:
                    raise Violation('stuck', f'{live[0].label} neither ends nor runs a job')
                continue
            if preempt and rng.random() < preempt:
                r = rng.choice([j.root for j in wait])
                if r.task is not None and id(r) not in requeued:
                    self.rec.fault('node lost, task requeued')
                    self.rec.event('preempt', r.label)
                    self.kill(r)
                    r.status = 'preempted'
                    self.history.append(('preempted', r))
                    self.queue.append(r.task)
                    continue
            sleepers = [j for j in wait if j.name == 'sleep']
            jobs = [j for j in wait if j.name != 'sleep']
            if straggler in jobs and len(jobs) > 1:
                jobs.remove(straggler)
            if sleepers and (not jobs or rng.random() < .3):
                j = sleepers[0]
                self.clock += 60
                status = 0
            else:
                j = {'fifo': jobs[0], 'lifo': jobs[-1]}.get(order) or rng.choice(jobs)
                if j is straggler:
                    straggler = None
                status = rng.choice([1, 2, 137, -9, -11]) if rng.random() < fail else 0
                self.clock += rng.expovariate(1 / 3600.)
            if status:
                self.rec.fault({-9: 'job killed (out of memory)', -11: 'job crashed'}.get(status, 'job failed'))
            self.rec.event('end', j.root.label, j.argv[-1], status)
            self.history.append(('job end', j, status))
            gone.append(j.pid)
            self.reply(j, status)
