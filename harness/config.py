"""P21: sessions of MCConfig typed into the real main.py."""
import contextlib
import hashlib
import io
import json
import os
import random
import shutil
import sys

import core
import lib
import obs
import population
import rec
from rec import dbl

CFG = '''SPECIFICATION Spec
CONSTANTS Opts <- %(opts)s
 MaxGiven = %(given)d
 MaxCmds = %(cmds)d
 Rich = %(rich)s
 Broken = "%(broken)s"
 Emit = %(emit)s
INVARIANTS InRange AsTyped AsSaved NoFile Written
CHECK_DEADLOCK FALSE
'''
ROUNDS = 3
DEFECTS = ['file over options', 'options over file', 'costs unchecked']


def cfg(opts, given, cmds, rich, broken='', emit=False):
    return CFG % dict(opts=opts, given=given, cmds=cmds, rich=str(rich).upper(), broken=broken, emit=str(emit).upper())


def words(given):
    out = []
    for x in given:
        if x['o'] in FLAGS:
            out.append('--' + ('' if x['w'] == ['yes'] else 'no-') + x['o'])
        else:
            out += ['--' + x['o']] + x['w']
    return out


FLAGS = ['inactive_stake_fraction_known', 'generate_graphs', 'input_from_file', 'profile_code']
INTS = ['n', 'k', 'iterations_after_convergence', 'max_iterations', 'seed', 'metrics', 'reward_scheme']
TEXTS = ['agent_activation_order', 'stake_distr_source', 'execution_id']
REALS = ['a0', 'agent_profile_distr', 'cost_min', 'cost_max', 'extra_pool_cost_fraction', 'absolute_utility_threshold',
         'relative_utility_threshold', 'pareto_param', 'inactive_stake_fraction']


def items(o, v):
    """A parameter's value, as the specification writes it."""
    if v is None:
        return []
    if isinstance(v, (list, tuple)):
        return [i for x in v for i in items(o, x)]
    if o in FLAGS:
        return [['flag', bool(v)]]
    if o in INTS:
        return [['int', int(v)] if v == int(v) else ['real', dbl(v)]]
    if o in TEXTS:
        return [['text', str(v).lower() if o != 'execution_id' else str(v)]]
    return [['real', dbl(v)]]


def live(m):
    """Parameters that the simulation has."""
    import logic.model_reporters as reporters
    import logic.reward_schemes as rss
    ids = {v: k for k, v in reporters.REPORTER_IDS.items()}
    scheme = next(k for k, c in rss.RSS_MAPPING.items() if type(m.reward_scheme) is c)
    mp = m.multi_phase_params
    d = dict(n=len(m.schedule.agents), a0=mp.get('a0', m.reward_scheme.a0), reward_scheme=scheme,
             agent_activation_order=m.agent_activation_order, absolute_utility_threshold=m.absolute_utility_threshold,
             relative_utility_threshold=m.relative_utility_threshold, extra_pool_cost_fraction=m.extra_pool_cost_fraction,
             iterations_after_convergence=m.iterations_after_convergence, max_iterations=m.max_iterations,
             generate_graphs=m.generate_graphs)
    with open(os.path.join(str(m.directory), 'initial-state-descriptors.json')) as f:
        d['seed'] = json.load(f)['Randomness seed']
    return {k: items(k, v) for k, v in d.items()}, [ids[x] for x in m.datacollector.model_reporters]


class Watch:
    """main.py with its simulations observed: they end after some rounds, large ones at once."""

    def __enter__(self):
        import logic.sim as sim
        self.sims, self.rounds, self.first = [], 0, {}
        cls = self.cls = sim.Simulation
        self.saved = cls.__init__, cls.step
        init, step = self.saved
        watch = self

        def observed_init(self, *a, **k):
            init(self, *a, **k)
            watch.sims.append(self)
            watch.first[id(self)] = watch.look(self)

        def observed_step(self, *a, **k):
            watch.rounds += 1
            if len(self.schedule.agents) <= 12 and self.schedule.steps < ROUNDS:
                step(self, *a, **k)
            else:
                self.running = False
        cls.__init__, cls.step = observed_init, observed_step
        return self

    def __exit__(self, *a):
        self.cls.__init__, self.cls.step = self.saved

    def look(self, m):
        o = population.look(m)
        values, tracked = live(m)
        return o, values, tracked


def snapshot():
    return sorted(os.path.join(d, f) for d, _, fs in os.walk('.') for f in fs) + sorted(d for d, _, _ in os.walk('.'))


def digest(m):
    s = rec.project(m)
    return hashlib.sha1(repr((sorted(s.items()), m.schedule.steps, list(m.equilibrium_steps), list(m.pivot_steps),
                              [(k, [repr(x) for x in v]) for k, v in m.datacollector.model_vars.items()])).encode()).hexdigest()


def command(given, kind, saved, stakes):
    """Types one command.  Result: the observation and the exported parameters."""
    import main
    argv = words(given)
    from_file = any(x['o'] == 'input_from_file' and x['w'] == ['yes'] for x in given)
    before = snapshot()
    out = io.StringIO()
    e = dict(t='command', src='accepted', given=given, argv=argv, file=[saved['params']] if kind == 'copied' else [],
             ended='ok', wrote=False, rounds=0, sims=0, args={}, live={}, again='', digest='', profiled=False, pop=[], why='')
    old = sys.argv
    with Watch() as w:
        sys.argv = ['main.py'] + argv
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                main.main()
        except SystemExit as x:
            if x.code not in (None, 0):
                e['ended'], e['why'] = 'refused', 'exit %s' % (x.code,)
        except Exception as x:
            e['ended'], e['why'] = 'refused', rec.describe(x)
        finally:
            sys.argv = old
    e['src'] = ('accepted' if e['ended'] == 'ok' else 'refused') + (' with a file' if from_file else '')
    e['wrote'] = snapshot() != before
    e['rounds'], e['sims'] = w.rounds, len(w.sims)
    e['profiled'] = 'Profiling results' in out.getvalue()
    exported = None
    if e['ended'] == 'ok' and w.sims:
        m = w.sims[-1]
        o, values, tracked = w.first[id(m)]
        with open(os.path.join(str(m.directory), 'args.json')) as f:
            exported = json.load(f)
        e['args'] = {k: items(k, v) for k, v in exported.items() if k in INTS + TEXTS + REALS + FLAGS}
        e['live'] = values
        e['live']['metrics'] = items('metrics', tracked) if 'metrics' in exported and len(set(exported['metrics'])) == len(exported['metrics']) else e['args'].get('metrics', [])
        if not exported.get('inactive_stake_fraction_known'):
            e['live']['k'] = items('k', m.multi_phase_params.get('k', m.reward_scheme.k)) if m.current_phase == 0 else e['args'].get('k', [])
        if isinstance(exported.get('execution_id'), str) and exported['execution_id'] not in m.execution_id.split('-', 1)[-1]:
            e['live']['execution_id'] = [['text', m.execution_id]]
        e['digest'] = digest(m)
        e['pop'] = [dict(o=o, values=[dbl(v) for v in stakes])]
        if saved and kind == 'copied' and from_file:
            e['again'] = saved['digest']
    return e, dict(exported=exported, params=e['args'], digest=e['digest']) if exported else None


def type_session(session, rnd, records):
    for n in os.listdir('.'):
        shutil.rmtree(n) if os.path.isdir(n) else os.unlink(n)
    stakes = [rnd.choice([rnd.randint(1, 9), rnd.random() * 100]) for _ in range(40)]
    with open('synthetic-stake-distribution-10000-agents.csv', 'w') as f:
        f.write(','.join(map(str, stakes)))
    last, saved, kind = None, None, 'none'
    for c in session:
        if c['file'] != kind or c['file'] == 'copied':
            # what happened to args.json since the last command
            if c['file'] == 'copied' and last is not None:
                with open('args.json', 'w') as f:
                    json.dump(last['exported'], f)
                saved = last
            elif c['file'] == 'spoilt':
                with open('args.json', 'w') as f:
                    f.write(rnd.choice(['', '{"n": 5', 'n = 5']))
                saved = None
        kind = c['file'] if not (c['file'] == 'copied' and saved is None) else 'none'
        given = [dict(o=x['o'], w=[str(t) for t in x['w']]) for x in c['given']]
        e, got = command(given, kind, saved, stakes)
        records.append(e)
        last = got or last


def session_shard(sessions, seed, path):
    rnd = random.Random(seed)
    records = []
    for s in sessions:
        try:
            lib.limited(type_session, s, rnd, records)
        except lib.Hang:
            records.append(dict(t='crash', src='command', err='hang', session=repr(s)))
    obs.write(path, records)


def sessions(check, count):
    ts = []
    for i, (given, cmds) in enumerate([(4, 2), (8, 2), (14, 2), (5, 3)]):
        ts.append(lib.start_tlc(check, 'MCConfig', cfg('All', given, cmds, True, emit=True), 'sessions-%d' % i, workers=2, simulate=[
            '-simulate', 'num=%d' % max(1, count // 8), '-depth', '60', '-seed', str(check.salt('sessions%d' % i))]))
    out = []
    for t in ts:
        r = lib.end_tlc(t)
        if r['error']:
            raise lib.Broken('simulation of MCConfig: ' + r['error'])
        check.count(r['distinct'], r['generated'])
        out += lib.tagged(r, 'SESSION')
    return out


def run(check):
    lib.preload()
    import main     # noqa: F401
    models = [('Few', 2, 2)] if check.quick else [('Few', 3, 2), ('Few', 2, 3)]
    for opts, given, cmds in models:
        r = lib.end_tlc(lib.start_tlc(check, 'MCConfig', cfg(opts, given, cmds, False), 'config', workers=4))
        if not r['ok']:
            raise lib.Broken('MCConfig: ' + str(r['error']))
        check.count(r['distinct'], r['generated'])
        check.cover('MCConfig', {'states': r['distinct']})
    ts = [(b, lib.start_tlc(check, 'MCConfig', cfg('Few', 2, 2, False, broken=b), 'config-%d' % i)) for i, b in enumerate(DEFECTS)]
    for b, t in ts:
        if 'is violated' not in lib.end_tlc(t)['text']:
            raise lib.Broken('MCConfig does not notice its deliberate defect "%s"' % b)
        check.cover('MCConfig', {'deliberate defects noticed': 1})
    ss = sessions(check, 480 if check.quick else 8000)
    d = check.dir('config')
    paths = [os.path.join(d, 'c%d.ndjson' % j) for j in range(lib.CORES)]
    lib.forked(check, session_shard, [(s, check.salt('c%d' % j), p) for j, (s, p) in enumerate(zip(lib.shard(ss, lib.CORES), paths))], 'config')
    obs.check_files(check, 'Observed', paths, 'commands')
    check.count(traces=len(ss))
    check.sample(dict(part='sessions of MCConfig', session=[words(c['given']) for c in ss[0]]))
