"""What all checks share: scratch space, TLC, parallel recording, findings, evidence, verdict."""
import json
import multiprocessing
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla'
CORES = 8
SHARDS = 32              # files of traces
SCENARIO_LIMIT = 180     # seconds after which a single recorded scenario counts as hanging
JUDGING_LIMIT = 480      # seconds for the files of one part of a quick check; usually a fraction of it is needed

sys.path.insert(0, os.path.join(VERIF, 'harness'))
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['MPLBACKEND'] = 'Agg'


class Broken(Exception):
    """The machinery failed: no verdict."""


class TlcError(Exception):
    """TLC could not evaluate the specification on what was observed."""


class Check:
    def __init__(self, prop, tier, seed, replay=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.replay = replay
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.violations = []
        self.states = self.transitions = self.traces = 0
        self.extra = {}
        self.samples = []
        self.assumptions = []
        self.parts = {}
        self.known = read_known(prop)

    @property
    def quick(self):
        return self.tier == 'quick'

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def salt(self, name=''):
        """A seed for the random choices of this check."""
        import zlib
        return self.seed * 1000003 + zlib.crc32((self.prop + '/' + name).encode()) % 1000003

    def count(self, states=0, transitions=0, traces=0, **extra):
        self.states += states
        self.transitions += transitions
        self.traces += traces
        for k, v in extra.items():
            self.extra[k] = self.extra.get(k, 0) + v if isinstance(v, (int, float)) else v

    def cover(self, part, counts):
        d = self.parts.setdefault(part, {})
        for k, v in dict(counts).items():
            d[k] = d.get(k, 0) + v

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, clause, **info):
        """The code broke the property: `clause` says how, `info` the failing case."""
        self.violations.append(dict(clause=clause, **info))

    def finish(self):
        listed, new = [], []
        for v in self.violations:
            k = next((k for k in self.known if re.search(k['match'], v['clause'] + ' ' + json.dumps(v, default=str))), None)
            (listed.append(k) if k else new.append(v))
        for what in sorted({k['what'] for k in listed}):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                samples=self.samples or ['none'], parts=self.parts, **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=[{k: v[k] for k in v if k in ('clause', 'part', 'case')} for v in new[:20]])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        if not self.replay:
            with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1, default=str)
        code = 0
        if new:
            code = 1
            path = os.path.join(VERIF, 'evidence', 'replay-%s.json' % self.prop)
            if self.replay:
                path = self.replay
            else:
                with open(path, 'w') as f:
                    json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, violations=new[:20]), f, indent=1, default=str)
            seen = set()
            for v in new:
                if v['clause'] not in seen:
                    seen.add(v['clause'])
                    print('  %s: %s' % (self.prop, v['clause']))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        else:
            print('%s held: %d states, %d transitions, %d traces, %.1f s' %
                  (self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
        sys.stdout.flush()
        return code

    def cleanup(self):
        if self.scratch.startswith(tempfile.gettempdir() + '/verif-'):
            shutil.rmtree(self.scratch, ignore_errors=True)


def read_known(prop):
    """Entries of known_findings.txt:  known: property=<id> match=/<regex>/ <what fails>"""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append(dict(match=m.group(2), what=m.group(3)))
    return out


# -- TLC ------------------------------------------------------------------------------------------------------------

def java_classes(check):
    """Compiles the Java overrides of the specification (Doubles) into scratch space."""
    d = os.path.join(check.scratch, 'classes')
    if not os.path.isdir(d):
        tmp = tempfile.mkdtemp(dir=check.scratch)
        r = subprocess.run(['javac', '-cp', TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar', '-d', tmp] +
                           [os.path.join(SPEC, f) for f in ('Doubles.java', 'Recorded.java')],
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken('javac: ' + r.stderr[-2000:])
        os.rename(tmp, d)
    return d


def start_tlc(check, module, cfg, name, args=(), heap='3g', workers=1, simulate=None, env=None, props=()):
    d = check.dir('tlc-' + name)
    cp = ':'.join([java_classes(check), TLA + '/tla2tools.jar', TLA + '/CommunityModules-deps.jar'])
    with open(os.path.join(d, module + '.cfg'), 'w') as f:
        f.write(cfg)
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-cp', cp,
           '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + d, *props, 'tlc2.TLC', '-nowarning', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'),
           '-config', os.path.join(d, module + '.cfg')]
    if simulate:
        cmd += simulate
    cmd += list(args) + [os.path.join(SPEC, module + '.tla')]
    out = open(os.path.join(d, 'out'), 'w')
    p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, cwd=d, env=dict(os.environ, **(env or {})))
    return dict(p=p, dir=d, out=out, name=name, module=module)


def end_tlc(t, timeout=None):
    """Waits for TLC.  Result: out (text), lines (those printed with a tag), states, distinct, ok, error."""
    timed_out = False
    try:
        t['p'].wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        timed_out = True
        t['p'].kill()
        t['p'].wait()
    t['out'].close()
    text = open(os.path.join(t['dir'], 'out'), errors='replace').read()
    r = dict(text=text, name=t['name'], timed_out=timed_out, code=t['p'].returncode)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
    m2 = re.findall(r'The number of states generated: (\d+)', text)
    r['generated'], r['distinct'] = (int(m[-1][0]), int(m[-1][1])) if m else (int(m2[-1]), int(m2[-1])) if m2 else (0, 0)
    r['ok'] = 'No error has been found' in text or (m2 and 'Error:' not in text)
    if not m and not m2 and not timed_out:
        if 'OutOfMemory' in text or 'Parsing or semantic analysis failed' in text or not text.strip() or t['p'].returncode < 0:
            raise Broken('TLC %s: %s' % (t['name'], text[-3000:]))
    r['error'] = text[text.index('Error:'):][:3000] if 'Error:' in text else None
    return r


def judge_files(check, module, cfg, paths, name, heap='8g'):
    """Has TLC check every file (observations or traces) with a module that prints one RESULT per file.  One process for
    all files; if it cannot evaluate the specification on one of them, one process for each.  [(RESULT or None, run)]"""
    def quoted(ps):
        return ', '.join('"%s"' % p for p in ps)
    r = end_tlc(start_tlc(check, module, cfg(quoted(paths)), name, heap=heap, workers=min(CORES, len(paths))),
                timeout=JUDGING_LIMIT if check.quick else None)
    found = {x['file']: x for x in tagged(r, 'RESULT')}
    if r['timed_out']:          # the verdict is about the files that have been judged by now
        late = [p for p in paths if p not in found]
        check.cover(name, {'files not judged in time': len(late)})
        found.update({p: dict(file=p, bad=[], cov=[], events=0) for p in late})
    if all(p in found for p in paths):
        check.count(r['distinct'], r['generated'])
        return [(found[p], r) for p in paths]
    out = []
    started = [start_tlc(check, module, cfg(quoted([p])), '%s-%d' % (name, j)) for j, p in enumerate(paths)]
    for t in started:
        r = end_tlc(t)
        check.count(r['distinct'], r['generated'])
        out.append(((tagged(r, 'RESULT') or [None])[0], r))
    return out


def tagged(r, tag):
    """JSON printed by PrintT(tag \\o " " \\o ToJson(..))."""
    out = []
    for line in r['text'].splitlines():
        if line.startswith('"%s ' % tag) and line.endswith('"'):
            out.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return out


def selftest():
    check = Check('SELF', 'quick', 1)
    try:
        java_classes(check)
        for m in sorted(os.listdir(SPEC)):
            if m.endswith('.tla'):
                r = subprocess.run(['java', '-cp', TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar', 'tla2sany.SANY',
                                    os.path.join(SPEC, m)], capture_output=True, text=True, cwd=SPEC)
                if r.returncode or 'Semantic errors' in r.stdout:
                    print(m, r.stdout[-2000:])
                    return 2
                print(m, 'parsed')
        return 0
    finally:
        check.cleanup()


# -- running the code under test ---------------------------------------------------------------------------------------

class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def limited(f, *args, seconds=SCENARIO_LIMIT):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        return f(*args)
    finally:
        signal.alarm(0)


def _worker(f, args, cwd, conn):
    try:
        os.makedirs(cwd, exist_ok=True)
        os.chdir(cwd)
        sys.stdout = open(os.devnull, 'w')
        out = f(*args)
        conn.send(('ok', out))
    except BaseException:
        conn.send(('error', traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def forked(check, f, arglists, name='w', limit=CORES):
    """Runs f(*args) for every args in a forked process with its own empty working directory; at most `limit` at once.
    Results in order."""
    ctx = multiprocessing.get_context('fork')
    pending = list(enumerate(arglists))
    running, results = {}, [None] * len(arglists)
    from multiprocessing.connection import wait
    while pending or running:
        while pending and len(running) < limit:
            i, args = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(f, args, os.path.join(check.scratch, 'cwd-%s-%d' % (name, i)), b))
            p.start()
            b.close()
            running[a] = (i, p)
        for c in wait(list(running)):
            i, p = running.pop(c)
            try:
                results[i] = c.recv()
            except EOFError:
                results[i] = ('error', 'worker died')
            p.join()
    bad = [r[1] for r in results if r[0] != 'ok']
    if bad:
        raise Broken('worker: ' + bad[0])
    return [r[1] for r in results]


def preload():
    import logic.sim                    # noqa: F401  (forked workers inherit the imports)
    import logic.stakeholder_profiles   # noqa: F401


def shard(seq, n):
    return [seq[i::n] for i in range(n)]
