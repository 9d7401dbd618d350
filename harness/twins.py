"""P15: executions with the same parameters and seed, in one process or in several, interleaved with others, in one go or
round by round, to different places, from arguments or from a file, compared round by round."""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys

import lib
import obs
import rec
import scen

CFG = '''SPECIFICATION Spec
%s
CONSTANTS Sims = %d
 Len_ = %d
 MaxNoise = %d
 Shared = %s
 Emit = %s
INVARIANTS Type NonInterference Written
CHECK_DEADLOCK FALSE
'''


def h(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:12]


def snapshot(m):
    """Everything that an execution has done so far, as a digest."""
    s = rec.project(m)
    row = [(k, repr(v[-1]) if v else None, len(v)) for k, v in m.datacollector.model_vars.items()]
    return h((sorted(s.items()), m.schedule.steps, bool(m.running), list(m.equilibrium_steps), list(m.pivot_steps), m.current_phase, row,
              [rec.profile_of(a) for a in m.schedule.agents]))


def files(m):
    """The contents of the files that describe the run (their names and the tracker contain the identifier)."""
    out = []
    for f in sorted(os.listdir(m.directory)):
        if f.endswith('.csv') or f in ('final-state-descriptors.json', 'initial-state-descriptors.json'):
            with open(os.path.join(m.directory, f)) as fh:
                out.append((f.replace(m.execution_id, ''), h(fh.read())))
    return h(out)


class Run:
    """One execution and its digests."""
    def __init__(self, kw):
        import logic.sim as sim
        with rec.quiet():
            self.m = sim.Simulation(**kw)
        self.log = [snapshot(self.m)]

    def step(self):
        if self.m.running:
            with rec.quiet():
                self.m.step()
            self.log.append(snapshot(self.m))

    def finish(self, once=False):
        """To the end, by single steps or in one go, and the files."""
        if once:
            with rec.quiet():
                self.m.run_model()
            self.log.append(snapshot(self.m))
        while self.m.running:
            self.step()
        self.log.append(files(self.m))
        return self.log


def solo(kw, once=False):
    return Run(kw).finish(once)


def noise(n):
    import numpy as np
    random.seed(n * 17 + 3)
    np.random.seed(n * 13 + 5)
    [random.random() for _ in range(n)]
    np.random.random(n + 1)


def disturb(rnd):
    """Another, unrelated simulation."""
    kw = scen.core(rnd.randrange(10 ** 6), 1)[0]
    kw.update(seq_id=90000 + rnd.randrange(9999), execution_id='other%d' % rnd.randrange(10 ** 6), max_iterations=3)
    r = Run(kw)
    r.step()
    if rnd.random() < .5:
        r.finish(True)


def key(kw):
    return {k: v for k, v in kw.items() if k not in ('seq_id', 'execution_id', 'parent_dir')}


def place(kw, rnd, j):
    """Another place for the same execution."""
    k = dict(kw)
    k['seq_id'] = 10 * j + rnd.randrange(10)
    k['execution_id'] = rnd.choice(['x', 'twin', 'a-b-c', ''])
    if rnd.random() < .3:
        k['parent_dir'] = 'sub%d' % rnd.randrange(3)
    return k


def reference(kws):
    """The executions one by one, in a new interpreter (with its own hash seed)."""
    out = []
    for i, kw in enumerate(kws):
        noise(i)
        out.append(solo(dict(kw, seq_id=i + 1, execution_id='ref')))
    return out


def subprocess_reference(check, kws, b, j):
    d = check.dir("ref%d-%d" % (b, j))
    with open(os.path.join(d, 'kws.json'), 'w') as f:
        json.dump(kws, f)
    env = dict(os.environ, PYTHONPATH=lib.REPO, PYTHONHASHSEED=str(1000 + check.seed + j), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               VERIF_REPO=lib.REPO)
    code = ('import sys, json; sys.path.insert(0, %r); import lib, twins; '
            'out = twins.reference(json.load(open("kws.json"))); json.dump(out, open("out.json", "w"))' % os.path.join(lib.VERIF, 'harness'))
    p = subprocess.Popen([sys.executable, '-c', code], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    return p, os.path.join(d, 'out.json')


def twins_shard(jobs, path, seed):
    """jobs: [(programme, [kwargs], [reference logs])]."""
    rnd = random.Random(seed)
    out = []

    def pair(how, kw, a, b):
        out.append(dict(t='twins', src=how, a=a, b=b, scenario=repr(key(kw))))
    for j, (prog, kws, refs) in enumerate(jobs):
        try:
            # 1. interleaved, as the programme says
            runs = {}
            for what, i in prog:
                if what == 'create':
                    runs[i] = Run(place(kws[i - 1], rnd, 100 * j + i))
                elif what == 'noise':
                    noise(rnd.randrange(50))
                    if i % 2:
                        disturb(rnd)
                elif what == 'step':
                    runs[i].step()
                else:
                    while runs[i].m.running:
                        runs[i].step()
            for i, r in runs.items():
                pair('interleaved', kws[i - 1], refs[i - 1], r.finish())
            kw, ref = kws[0], refs[0]
            if j % 2:
                # 2. in one go: initial state, final state and files
                log = solo(place(kw, rnd, 100 * j + 50), True)
                pair('in one go', kw, [ref[0], ref[-2], ref[-1]], log)
            else:
                # 3. parameters from a file: those of the exported args.json
                folder = Run(place(kw, rnd, 100 * j + 60)).m.directory
                with open(os.path.join(folder, 'args.json')) as f:
                    args = json.load(f)
                args.update(seq_id=100 * j + 70, execution_id='file')
                with open('args.json', 'w') as f:
                    json.dump(args, f)
                other = scen.core(j + seed, 1)[0]
                pair('from a file', kw, ref, solo(dict(other, input_from_file=True, seq_id=100 * j + 71)))
            # 4. no seed: the recorded one leads to the same run
            k = dict(place(kw, rnd, 100 * j + 80), seed=None)
            noise(rnd.randrange(99))
            r = Run(k)
            first = r.finish()
            with open(os.path.join(r.m.directory, 'initial-state-descriptors.json')) as f:
                s = json.load(f)['Randomness seed']
            noise(rnd.randrange(99))
            pair('with the recorded seed', k, first, solo(dict(place(kw, rnd, 100 * j + 90), seed=s)))
            # 5. other seeds: other populations
            x = rnd.randrange(1, 10 ** 6)
            seeds = [x] + rnd.sample([x + 1, x + 2 ** 16, x + 2 ** 31, 10 * x, x + 1000, x + 10 ** 6, 2 * x, x + 4096, 0], 3)
            pops = [Run(dict(place(kw, rnd, 100 * j + 40 + 2 * n), seed=x)).log[0] for n, x in enumerate(seeds)]
            out.append(dict(t='seeds', src='seeds', populations=pops, scenario=repr(key(kw))))
        except lib.Hang:
            out.append(dict(t='crash', src='twins', err='hang'))
        except Exception as e:
            out.append(dict(t='crash', src='twins', err=rec.describe(e)))
        shutil.rmtree('output', ignore_errors=True)
    obs.write(path, out)
    return len(out)


def programmes(check):
    sims, length = (2, 3) if check.quick else (3, 2)
    t = lib.start_tlc(check, 'MCTwins', CFG % ('', sims, length, 1, 'FALSE', 'TRUE'), 'twins', heap='8g')
    d = lib.start_tlc(check, 'MCTwins', CFG % ('VIEW View', 2, 2, 1, 'TRUE', 'FALSE'), 'twins-shared')
    r, rd = lib.end_tlc(t), lib.end_tlc(d)
    if not r['ok']:
        raise lib.Broken('MCTwins: ' + str(r['error']))
    if 'is violated' not in rd['text']:
        raise lib.Broken('MCTwins does not notice a shared generator')
    out = lib.tagged(r, 'BEHAVIOUR')
    check.count(r['distinct'], r['generated'])
    return out, r['distinct']


def run(check):
    lib.preload()
    lib.java_classes(check)
    progs, states = programmes(check)
    rnd = random.Random(check.salt('twins'))
    rnd.shuffle(progs)
    total = len(progs)
    used = progs[:128] if check.quick else progs[:3000]
    check.cover('MCTwins', {'states': states, 'interleavings': total, 'performed': len(used), 'deliberate defects noticed': 1})
    per = 64
    for b in range(0, len(used), per):
        part = used[b:b + per]
        kws = [kw for kw in scen.core(check.salt('t%d' % b), 3 * len(part), 'P14')]
        for kw in kws:
            kw['max_iterations'] = min(kw['max_iterations'], 12)
            kw['metrics'] = rnd.sample([1, 2, 5, 6, 9, 10, 13, 17, 18, 23, 25, 26, 30], 3)
            if rnd.random() < .15:
                kw['seed'] = rnd.choice([0, 1, 2 ** 31, 9999999])
        jobs = []
        for j, prog in enumerate(part):
            n = max(i for w, i in prog if w != 'noise')
            mine = kws[3 * j:3 * j + n]
            if j % 3 == 0:
                mine = [mine[0]] * n                     # twins side by side
            elif j % 3 == 1:
                mine = [dict(mine[0], seed=mine[0]['seed'] + i) for i in range(n)]
            jobs.append((prog, mine))
        flat = [kw for _, mine in jobs for kw in mine]
        shards = 4
        procs = [subprocess_reference(check, s, b, j) for j, s in enumerate(lib.shard(flat, shards))]
        refs = [None] * len(flat)
        failed = False
        for j, (p, o) in enumerate(procs):
            _, err = p.communicate(timeout=800)
            if p.returncode:
                check.violation('an execution crashed: ' + err.strip().splitlines()[-1][:200], part='reference')
                failed = True
                continue
            with open(o) as f:
                refs[j::shards] = json.load(f)
        if failed:
            return
        full, at = [], 0
        for prog, mine in jobs:
            full.append((prog, mine, refs[at:at + len(mine)]))
            at += len(mine)
        paths = [os.path.join(check.dir('twins'), 't%d.ndjson' % j) for j in range(lib.CORES)]
        lib.forked(check, twins_shard, [(s, p, check.salt('s%d-%d' % (b, j))) for j, (s, p) in enumerate(zip(lib.shard(full, lib.CORES), paths))], 'twins')
        obs.check_files(check, 'Observed', paths, 'twins')
        check.count(traces=len(flat))
    check.sample(dict(part='twins', interleaving=used[0], scenario=kws[0]))
