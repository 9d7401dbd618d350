"""P20: executions in one working directory: killed between any two file operations, and started at the same time with
their file operations interleaved as MCSerial says.  (Also the end of executions at the same time, for P18.)"""
import hashlib
import multiprocessing
import os
import random
import re
import shutil
import time

import lib
import obs
import outputs
import rec

CFG = '''SPECIFICATION Spec
%s
CONSTANTS P = %d
 Kills = %d
 Lock = %s
 Atomic = %s
 First = %d
 Emit = %s
%s
CHECK_DEADLOCK FALSE
'''
ALL = 'INVARIANTS Fresh Dense NoneFails Readable\nPROPERTY AllStart'
KW = dict(n=3, k=1, a0=.3, seed=5, max_iterations=1, iterations_after_convergence=1, generate_graphs=False, metrics=[1, 2], cost_max=.01)
BLOCKED = .12


class Ops:
    """File operations in the working directory; before each one, `gate(name, path)` is called."""
    def __init__(self, gate, got):
        self.gate, self.got = gate, got
        self.cwd = os.getcwd() + os.sep
        self.install()

    def mine(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p[len(self.cwd):] if p.startswith(self.cwd) else None

    def wrap(self, module, name):
        inner = getattr(module, name)

        def f(*a, **kw):
            p = self.mine(a[0]) if a else None
            if p is not None:
                self.gate(name, p)
            out = inner(*a, **kw)
            if name == 'mkdir' and p is not None:
                m = re.fullmatch(r'output/(\d+)-[^/]*', p)
                if m:
                    self.got(int(m.group(1)), p)
            return out
        setattr(module, name, f)

    def install(self):
        import builtins
        import io
        for name in ('replace', 'rename', 'mkdir', 'remove', 'unlink', 'link', 'open', 'rmdir', 'symlink'):
            self.wrap(os, name)
        try:
            import fcntl
            inner_flock = fcntl.flock

            def flock(*a, **kw):
                self.gate('flock', 'sequence')
                return inner_flock(*a, **kw)
            fcntl.flock = flock
        except ImportError:
            pass
        inner = builtins.open

        def opened(file, *a, **kw):
            p = self.mine(file) if not isinstance(file, int) else None
            if p is None:
                return inner(file, *a, **kw)
            self.gate('open', p)
            f = inner(file, *a, **kw)
            wrote = [False]
            try:
                write, close = f.write, f.close

                def gated_write(data):
                    if not wrote[0]:
                        self.gate('write', p)
                        wrote[0] = True
                    return write(data)

                def gated_close():
                    if not f.closed:
                        self.gate('close', p)
                    return close()
                if f.writable():
                    f.write, f.close = gated_write, gated_close
            except AttributeError:
                pass            # not a text file: its write is a single operation
            return f
        builtins.open = io.open = opened


def execute(kind, ident, extra=()):
    """A small execution; says where it worked."""
    kw = dict(KW, **dict(extra))
    with rec.quiet():
        if kind == 'batch':
            from custom_batchrunner import custom_batch_run
            import logic.sim as sim
            kw.pop('seed')
            metrics = kw.pop('metrics')         # noqa: F841
            kw['k'] = [1, 2]
            _, path = custom_batch_run(sim.Simulation, parameters=kw, batch_run_id=ident, number_processes=1, iterations=1, max_steps=50,
                                       display_progress=False, initial_seed=3)
            return str(path)
        import logic.sim as sim
        m = sim.Simulation(execution_id=ident, **kw)
        m.run_model()
        return str(m.directory)


def child(kind, ident, extra, conn, kill_at, gated):
    """kill_at: the operation before which the process dies; gated(name, path): operations that wait for permission."""
    import sys
    sys.stdout = sys.stderr = open(os.devnull, 'w')
    count = [0]

    def gate(name, path):
        if kill_at is not None and count[0] == kill_at:
            os._exit(137)
        count[0] += 1
        if gated and gated(name, path):
            conn.send(('op', name, path))
            if conn.recv() == 'kill':
                os._exit(137)
    try:
        Ops(gate, lambda n, p: conn.send(('got', n, p)))
        if gated:
            conn.send(('op', 'begin', ''))
            conn.recv()
        d = execute(kind, ident, extra)
        conn.send(('end', d, count[0]))
    except BaseException as e:
        try:
            conn.send(('failed', rec.describe(e), count[0]))
        except OSError:
            pass
    os._exit(0)


class Proc:
    def __init__(self, p, kind, ident, extra=(), kill_at=None, gated=None):
        ctx = multiprocessing.get_context('fork')
        self.p, self.kind = p, kind
        self.conn, other = ctx.Pipe(True)
        self.proc = ctx.Process(target=child, args=(kind, ident, extra, other, kill_at, gated))
        self.proc.start()
        other.close()
        self.state, self.number, self.dir, self.ops, self.err = 'running', None, None, 0, ''

    def receive(self, history, timeout):
        """Handles messages until the process waits for permission or is over; False if that takes too long."""
        until = time.time() + timeout
        while self.state == 'running':
            if not self.conn.poll(max(0, until - time.time())):
                return False
            try:
                m = self.conn.recv()
            except EOFError:
                history.append(['killed', self.p, 0])
                self.state = 'dead'
                break
            if m[0] == 'op':
                self.state = 'waits'
            elif m[0] == 'got':
                if self.number is None:
                    self.number = m[1]
                    history.append(['got', self.p, m[1]])
            elif m[0] == 'end':
                self.dir, self.ops, self.state = m[1], m[2], 'done'
                n = int(os.path.basename(m[1]).split('-')[0]) if re.match(r'\d+-', os.path.basename(m[1])) else 0
                if self.number is None:
                    history.append(['got', self.p, n])
                history.append(['end', self.p, 0])
            elif m[0] == 'failed':
                self.err, self.ops, self.state = m[1], m[2], 'failed'
                history.append(['failed', self.p, 0])
        if self.state in ('done', 'failed', 'dead'):
            self.proc.join(10)
        return True

    def command(self, what):
        self.state = 'running'
        try:
            self.conn.send(what)
        except OSError:
            pass


FINAL = ('args.json', 'initial-state-descriptors.json', 'metrics.csv', 'final-state-descriptors.json', 'simulation-object.pkl')


def complete(proc):
    if proc.state != 'done':
        return True
    if proc.kind == 'batch':
        subs = [d for d in os.listdir(proc.dir) if os.path.isdir(os.path.join(proc.dir, d))]
        return len(subs) == 2 and all(os.path.exists(os.path.join(proc.dir, d, f)) for d in subs for f in FINAL)
    names = os.listdir(proc.dir)
    return all(f in names for f in FINAL) and sum(n.startswith('final-state-pools') for n in names) == 1


def fresh_directory(first):
    for n in os.listdir('.'):
        shutil.rmtree(n) if os.path.isdir(n) else os.unlink(n)
    if first:
        with open('sequence.dat', 'w') as f:
            f.write(str(first))


def tree(d):
    out = []
    for base, _, fs in os.walk(d):
        for f in sorted(fs):
            with open(os.path.join(base, f), 'rb') as fh:
                out.append((os.path.join(base, f), hashlib.sha1(fh.read()).hexdigest()))
    return sorted(out)


def conclude(src, first, history, procs, scenario, untouched=True):
    return dict(t='serial', src=src, first=first, history=history, untouched=untouched, folders=[os.path.basename(p.dir) for p in procs if p.dir],
                complete=all(complete(p) for p in procs), errors='; '.join(p.err for p in procs if p.err), scenario=repr(scenario))


def killed_history(plan, first):
    """plan: [(kind, operation before which it is killed or None)], one after the other."""
    fresh_directory(first)
    history, procs = [], []
    untouched = True
    for p, (kind, kill_at) in enumerate(plan, 1):
        old = tree('output') if os.path.isdir('output') else []
        history.append(['begin', p, 0])
        proc = Proc(p, kind, 'x', (), kill_at)
        procs.append(proc)
        if not proc.receive(history, 60):
            proc.proc.kill()
            raise lib.Hang()
        now = dict(tree('output')) if os.path.isdir('output') else {}
        untouched = untouched and all(now.get(f) == h for f, h in old if not f.endswith('experiment-tracker.csv'))
    return conclude('killed', first, history, procs, (plan, first), untouched)


def scheduled_history(schedule, first, kinds, idents):
    """schedule: numbers of processes that make their next step, negative: that are killed instead."""
    fresh_directory(first)

    def gated(name, path):
        return 'sequence' in path or name == 'mkdir' and path.count('/') <= 1
    history, procs = [], {}
    for step in schedule + [p for p in (1, 2, 3) if p in [abs(s) for s in schedule]] * 40:
        p = abs(step)
        if p not in procs:
            history.append(['begin', p, 0])
            procs[p] = Proc(p, kinds[p - 1], idents[p - 1], (), None, gated)
            procs[p].receive(history, 10)
            continue
        q = procs[p]
        if q.state == 'running':
            q.receive(history, BLOCKED)
        if q.state == 'waits':
            q.command('kill' if step < 0 else 'go')
            q.receive(history, BLOCKED if step > 0 else 10)
    for q in procs.values():
        until = time.time() + 30
        while q.state not in ('done', 'failed', 'dead') and time.time() < until:
            if q.state == 'waits':
                q.command('go')
            q.receive(history, 1)
        if q.state not in ('done', 'failed', 'dead'):
            q.proc.kill()
            raise lib.Hang()
    return conclude('interleaved', first, history, list(procs.values()), (schedule, first, kinds, idents))


def existing_history(rnd):
    """A folder of the name that an execution wants exists already."""
    fresh_directory(0)
    kind = rnd.choice(['single', 'batch', 'given'])
    n = 1 if kind != 'given' else 12
    d = os.path.join('output', '%d-x' % n)
    os.makedirs(d)
    names = ['args.json', 'notes.txt', 'metrics.csv', 'aggregate-results-1-x.csv', 'final-state-pools-%d-x.csv' % n]
    for f in rnd.choice([names, names, [], [], rnd.sample(names, 1)]):      # (an empty folder is somebody's, too)
        with open(os.path.join(d, f), 'w') as fh:
            fh.write('precious')
    before = tree(d)
    history = []
    proc = Proc(1, 'batch' if kind == 'batch' else 'single', 'x', (('seq_id', 12),) if kind == 'given' else ())
    if not proc.receive(history, 60):
        proc.proc.kill()
        raise lib.Hang()
    return dict(t='existing', src=kind, untouched=os.path.isdir(d) and tree(d) == before, scenario=kind)


def ending_history(schedule):
    """Executions that append to the tracker at the same time."""
    fresh_directory(3)
    history, procs = [], {}
    os.makedirs('output')
    for p in sorted({abs(s) for s in schedule}):
        procs[p] = Proc(p, 'single', 'x', (('seq_id', 100 + p),), None, lambda name, path: 'tracker' in path)
        procs[p].receive(history, 10)
        procs[p].command('go')                  # begins, and runs until it wants to write to the tracker
        procs[p].receive(history, 20)
    for p in schedule + sorted(procs) * 30:
        q = procs[p]
        if q.state == 'running':
            q.receive(history, BLOCKED)
        if q.state == 'waits':
            q.command('go')
            q.receive(history, BLOCKED)
    for q in procs.values():
        if not q.receive(history, 20):
            q.proc.kill()
            raise lib.Hang()
    rows = outputs.table('output/experiment-tracker.csv') if os.path.exists('output/experiment-tracker.csv') else [[]]
    headers = sum(bool(r) and r[0]['t'] == 'id' for r in rows)
    return dict(t='ending', src='tracker', headers=headers, rows=len(rows) - headers, ended=len(procs), scenario=repr(schedule))


def guarded(out, f, *args):
    try:
        out.append(lib.limited(f, *args, seconds=120))
    except lib.Hang:
        out.append(dict(t='crash', src='serial', err='hang', scenario=repr(args)))


def kill_shard(plans, path):
    out = []
    for plan, first in plans:
        guarded(out, killed_history, plan, first)
    obs.write(path, out)


def schedule_shard(jobs, path):
    out = []
    for job in jobs:
        guarded(out, scheduled_history, *job)
    obs.write(path, out)


def existing_shard(seed, count, path):
    rnd = random.Random(seed)
    out = []
    for _ in range(count):
        guarded(out, existing_history, rnd)
    obs.write(path, out)


def ending_shard(schedules, path):
    out = []
    for s in schedules:
        guarded(out, ending_history, s)
    obs.write(path, out)


def count_ops():
    fresh_directory(0)
    out = {}
    for kind in ('single', 'batch'):
        h = []
        q = Proc(1, kind, 'x')
        if not q.receive(h, 60) or q.state == 'dead':
            raise lib.Broken('no operations counted: %s' % h)
        out[kind] = q.ops
    return out


def schedules(check, procs, kills, first=0):
    t = lib.start_tlc(check, 'MCSerial', CFG % ('', procs, kills, 'FALSE', 'TRUE', first, 'TRUE', 'INVARIANT Written'), 'schedules-%d-%d' % (procs, kills), heap='6g')
    r = lib.end_tlc(t)
    if not r['ok']:
        raise lib.Broken('MCSerial: ' + str(r['error']))
    return lib.tagged(r, 'SCHEDULE')


def run(check):
    lib.preload()
    import custom_batchrunner      # noqa: F401
    runs = [(2, 1, 0), (2, 2, 7)] if check.quick else [(2, 1, 0), (2, 2, 7), (3, 1, 0), (3, 3, 4)]
    ts = [lib.start_tlc(check, 'MCSerial', CFG % ('VIEW View', p, k, 'TRUE', 'TRUE', f, 'FALSE', ALL), 'serial-%d-%d' % (p, k), workers=2) for p, k, f in runs]
    ds = [lib.start_tlc(check, 'MCSerial', CFG % ('VIEW View', 2, 1, *d, 0, 'FALSE', ALL), 'serial-d%d' % j) for j, d in enumerate([('FALSE', 'TRUE'), ('TRUE', 'FALSE')])]
    for t in ts:
        r = lib.end_tlc(t)
        if not r['ok']:
            raise lib.Broken('MCSerial: ' + str(r['error']))
        check.count(r['distinct'], r['generated'])
        check.cover('MCSerial', {'states': r['distinct']})
    for t in ds:
        if 'is violated' not in lib.end_tlc(t)['text']:
            raise lib.Broken('MCSerial does not notice a deliberate defect')
    check.cover('MCSerial', {'deliberate defects noticed': 2})
    d = check.dir('serial')
    n = lib.CORES
    rnd = random.Random(check.salt('serial'))
    # killed between any two operations, one execution after the other
    ops = lib.forked(check, count_ops, [()], 'count')[0]
    plans = []
    for kind in ('single', 'batch'):
        for j in range(ops[kind] + 1):
            for _ in range(1 if check.quick else 4):
                other = rnd.choice(['single', 'batch'])
                more = [(rnd.choice(['single', 'batch']), rnd.randrange(min(14, ops[other])))] if rnd.random() < .3 else []
                plans.append(([(rnd.choice(['single', 'batch']), None)] * rnd.choice([0, 0, 1]) + [(kind, j)] + more + [(other, None)], rnd.choice([0, 0, 7])))
    for j in range(10):
        plans.append(([(rnd.choice(['single', 'batch']), None) for _ in range(rnd.choice([2, 3, 4]))], rnd.choice([0, 9])))
    check.cover('killed', {'operations of an execution': ops['single'], 'operations of a batch': ops['batch']})
    paths = [os.path.join(d, 'k%d.ndjson' % j) for j in range(n)]
    lib.forked(check, kill_shard, list(zip(lib.shard(plans, n), paths)), 'killed')
    obs.check_files(check, 'Observed', paths, 'killed')
    # interleaved
    scheds = schedules(check, 2, 0) + schedules(check, 2, 1)
    check.cover('interleaved', {'interleavings': len(scheds)})
    rnd.shuffle(scheds)
    used = scheds[:160] if check.quick else scheds[:4000]
    if not check.quick:
        more = schedules(check, 2, 2)
        rnd.shuffle(more)
        used += more[:2000]
    jobs = [(s, rnd.choice([0, 0, 5]), [rnd.choice(['single', 'single', 'batch']) for _ in range(3)],
             rnd.choice([['x', 'x', 'x'], ['a', 'b', 'c'], ['', 'x', '']])) for s in used]
    paths = [os.path.join(d, 's%d.ndjson' % j) for j in range(n)]
    lib.forked(check, schedule_shard, list(zip(lib.shard(jobs, n), paths)), 'interleaved')
    obs.check_files(check, 'Observed', paths, 'interleaved')
    paths = [os.path.join(d, 'e%d.ndjson' % j) for j in range(4)]
    lib.forked(check, existing_shard, [(check.salt('e%d' % j), 4 if check.quick else 20, p) for j, p in enumerate(paths)], 'existing')
    obs.check_files(check, 'Observed', paths, 'existing folders')
    check.count(traces=len(plans) + len(used))
    check.sample(dict(part='killed', plan=plans[0]))
    check.sample(dict(part='interleaved', job=jobs[0]))


def tracker(check):
    """For P18: executions that end at the same time, their operations on the tracker interleaved in all ways."""
    import itertools
    scheds = set()
    steps = 4
    for c in itertools.combinations(range(2 * steps), steps):
        scheds.add(tuple(1 if i in c else 2 for i in range(2 * steps)))
    scheds = [list(s) for s in sorted(scheds)]
    rnd = random.Random(check.salt('tracker'))
    rnd.shuffle(scheds)
    used = scheds[:24] if check.quick else scheds
    paths = [os.path.join(check.dir('tracker'), 't%d.ndjson' % j) for j in range(lib.CORES)]
    lib.forked(check, ending_shard, list(zip(lib.shard(used, lib.CORES), paths)), 'tracker')
    obs.check_files(check, 'Observed', paths, 'tracker')
