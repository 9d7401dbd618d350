"""P19: batch runs: all orders of completion (MCBatch) with stand-in executions, random grids with real simulations, and
the script batch-run.py."""
import csv
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import time

import lib
import obs
import outputs
import rec
import scen
from outputs import param, params, table

CFG = '''SPECIFICATION Spec
CONSTANTS T = %d
 W = %d
 Children = %s
 Emit = %s
INVARIANTS OneHeader EachOnce Complete Written
%s
CHECK_DEADLOCK FALSE
'''
PY = sys.executable


def text(v):
    return str(v)


# -- stand-in executions whose end is controlled from outside ---------------------------------------------------------

def gate_model():
    from mesa import Model
    from mesa.datacollection import DataCollector
    from mesa.time import BaseScheduler

    class GateModel(Model):
        """An execution of `length` rounds that ends when it is told to (or at once without a gate)."""
        def __init__(self, a=0, b=0, length=2, gate='', seed=None, seq_id=-1, execution_id='', parent_dir=''):
            super().__init__()
            self.schedule = BaseScheduler(self)
            self.running = True
            self.a, self.b, self.length, self.gate, self.number, self.s = a, b, length, gate, seq_id, seed
            self.datacollector = DataCollector(model_reporters={'M1': lambda m: m.value(1), 'M2': lambda m: m.value(2)})

        def value(self, i):
            return gate_value(i, self.a, self.b, self.s, self.schedule.steps)

        def step(self):
            self.datacollector.collect(self)
            if self.schedule.steps >= self.length - 1:
                if self.gate:
                    open(os.path.join(self.gate, 'started-%d' % self.number), 'w').close()
                    go = os.path.join(self.gate, 'go-%d' % self.number)
                    until = time.time() + 30
                    while not os.path.exists(go) and time.time() < until:
                        time.sleep(.002)
                self.running = False
                return
            self.schedule.step()
    return GateModel


def gate_value(i, a, b, s, step):
    return i * 1000003 + a * 1009 + b * 101 + s * 11 + step if i == 1 else (a + b * .1 + step) / 7


GateModel = None


def rows_in_aggregates():
    n = 0
    for d, _, fs in os.walk('output'):
        for f in fs:
            if f.startswith('aggregate-results'):
                with open(os.path.join(d, f)) as fh:
                    n += sum(1 for _ in fh)
    return n


def controller(gate, order):
    """Lets the executions end in the given order, each after the previous one has been reported."""
    def wait(cond, limit):
        until = time.time() + limit
        while not cond() and time.time() < until:
            time.sleep(.002)
    for n, i in enumerate(order):
        wait(lambda: os.path.exists(os.path.join(gate, 'started-%d' % i)), 5)
        open(os.path.join(gate, 'go-%d' % i), 'w').close()
        wait(lambda: rows_in_aggregates() >= n + 2, 1)
    for i in range(1, 50):
        open(os.path.join(gate, 'go-%d' % i), 'w').close()
    os._exit(0)


def observe_batch(src, model, given, fixed, iterations, seed0, period, processes, solo, metrics, scenario, max_steps=1000, hasfolders=True):
    """Makes a batch run and says what it executed and reported."""
    from custom_batchrunner import custom_batch_run
    parameters = {}
    for k, v in list(given.items()) + list(fixed.items()):
        parameters[k] = v
    with rec.quiet():
        results, path = custom_batch_run(model, parameters=parameters, batch_run_id='b', number_processes=processes, iterations=iterations,
                                         data_collection_period=period, max_steps=max_steps, display_progress=False, initial_seed=seed0)
    rows = [dict(run=int(r['RunId']), step=int(r['Step']), vals=params({k: r[k] for k in list(given) + list(fixed) + ['seed']}),
                 metrics=[text(r[m]) for m in metrics]) for r in results]
    return observed(src, str(path), given, fixed, iterations, seed0, period, solo, metrics, scenario, rows, hasfolders)


def observed(src, path, given, fixed, iterations, seed0, period, solo, metrics, scenario, rows=None, hasfolders=True):
    aggs = [f for f in os.listdir(path) if f.startswith('aggregate-results')]
    folders = []
    for f in sorted(os.listdir(path)):
        a = os.path.join(path, f, 'args.json')
        if os.path.isfile(a):
            with open(a) as fh:
                folders.append(params({k: v for k, v in json.load(fh).items() if k in given or k in fixed or k == 'seed'}))
    return dict(t='batch', src=src, params={k: [param(x) for x in v] for k, v in given.items()}, fixed=params(fixed), iterations=iterations,
                seed0=seed0, period=period, solo=solo, rows=rows or [], hasrows=rows is not None, hasfolders=hasfolders, folders=folders,
                agg=table(os.path.join(path, aggs[0])) if aggs else [], aggfiles=len(aggs), metrics=metrics, scenario=scenario)


def combos(given, iterations, seed0):
    import itertools
    for vals in itertools.product(*given.values()):
        for i in range(iterations):
            yield dict(zip(given, vals), seed=seed0 + i)


def gate_batch(order, processes, rnd):
    t = len(order)
    length = rnd.randint(1, 5)
    given, iterations = rnd.choice([({'a': list(range(t))}, 1), ({'a': [7]}, t), ({'a': [3, 1, 2][:1], 'b': list(range(1, t + 1))}, 1)]
                                   + ([({'a': [1, 2], 'b': [5, 6, 7]}, 1), ({'a': [1, 2, 3]}, 2)] if t == 6 else [])
                                   + ([({'a': [1, 2], 'b': [5, 6]}, 1), ({'a': [1, 2]}, 2)] if t == 4 else []))
    seed0 = rnd.randrange(1000)
    gate = os.path.join(os.getcwd(), 'gate')
    shutil.rmtree(gate, ignore_errors=True)
    os.mkdir(gate)
    shutil.rmtree('output', ignore_errors=True)
    period = rnd.choice([-1, -1, 1, 2, 3])
    solo = []
    for c in combos(given, iterations, seed0):
        solo.append(dict(vals=params(c), series=[[text(gate_value(i, c.get('a', 0), c.get('b', 0), c['seed'], s)) for s in range(length)] for i in (1, 2)]))
    p = None
    if processes != 1:
        p = multiprocessing.get_context('fork').Process(target=controller, args=(gate, order))
        p.start()
    try:
        fixed = dict(length=length)
        return observe_batch('order', GateModel, given, dict(fixed, gate=gate if processes != 1 else ''), iterations, seed0, period, processes, solo,
                             ['M1', 'M2'], repr((order, processes, given, iterations, period)), hasfolders=False)
    finally:
        if p:
            p.join(20)
            if p.is_alive():
                p.kill()
        shutil.rmtree('output', ignore_errors=True)
        shutil.rmtree(gate, ignore_errors=True)


def order_shard(orders, seed, path):
    rnd = random.Random(seed)
    out = []
    for order, w in orders:
        try:
            out.append(lib.limited(gate_batch, order, w, rnd, seconds=60))
        except lib.Hang:
            out.append(dict(t='crash', src='batch', err='hang', scenario=repr((order, w))))
        except Exception as e:
            out.append(dict(t='crash', src='batch', err=rec.describe(e), scenario=repr((order, w))))
    obs.write(path, out)


# -- real simulations --------------------------------------------------------------------------------------------------
METRICS = [1, 2, 6, 9, 17, 18, 25]


def solo_of(kw):
    import logic.sim as sim
    with rec.quiet():
        m = sim.Simulation(**kw)
        m.run_model()
    shutil.rmtree(str(m.directory), ignore_errors=True)
    return list(m.datacollector.model_vars), [[text(v) for v in col] for col in m.datacollector.model_vars.values()]


def grid(rnd, script=False):
    base = scen.core(rnd.randrange(10 ** 6), 1)[0]
    fixed = {k: base[k] for k in ('cost_min', 'cost_max', 'pareto_param', 'iterations_after_convergence', 'max_iterations', 'reward_scheme')}
    fixed['stake_distr_source'] = rnd.choice(['pareto', 'flat'] if not script else ['Pareto', 'flat'])
    fixed['max_iterations'] = rnd.choice([3, 6, 12])
    if not script:
        fixed['generate_graphs'] = False
        fixed['agent_activation_order'] = base['agent_activation_order']
    given = dict(n=rnd.sample([5, 7, 8, 10, 12, 15], rnd.choice([1, 1, 2])), k=rnd.sample([1, 2, 3, 4, 5, 8], rnd.choice([1, 2, 3])))
    if rnd.random() < .6:
        given['a0'] = rnd.sample([2.0, 5.0, 20.0] if fixed['reward_scheme'] == 4 else [.1, .3, .5, 1.0, 0.0], rnd.choice([1, 2, 3]))
    elif fixed['reward_scheme'] == 4:
        given['a0'] = [5.0]
    if rnd.random() < .3:
        given['extra_pool_cost_fraction'] = rnd.sample([.1, .4, .8, 1 / 3], rnd.choice([1, 2]))
    if rnd.random() < .2:
        given['inactive_stake_fraction'] = rnd.sample([0, .1, .5, 1 / 7], rnd.choice([1, 2]))
    if not script:
        for name, values in (('pareto_param', [1.2, 2.0, 2.7]), ('stake_distr_source', ['pareto', 'flat', 'disparity']),
                             ('agent_activation_order', scen.ORDERS), ('relative_utility_threshold', [0, .01, .1]), ('max_iterations', [2, 4, 7]),
                             ('iterations_after_convergence', [1, 2]), ('inactive_stake_fraction_known', [True, False]),
                             ('reward_scheme', [0, 1, 2, 3] if fixed['reward_scheme'] != 4 else [4]), ('absolute_utility_threshold', [1e-9, 1e-7, 0])):
            if rnd.random() < .15:
                given[name] = rnd.sample(values, min(len(values), rnd.choice([1, 2, 3])))
                fixed.pop(name, None)
    while len(list(combos(given, 1, 0))) > (4 if script else 8):
        k = max(given, key=lambda k: len(given[k]))
        given[k] = given[k][:-1]
    items = list(given.items())
    rnd.shuffle(items)
    return dict(items), fixed


def real_shard(seed, count, path):
    rnd = random.Random(seed)
    import logic.sim as sim
    out = []
    for _ in range(count):
        given, fixed = grid(rnd)
        iterations = rnd.choice([1, 1, 2, 3])
        seed0 = rnd.choice([0, 42, rnd.randrange(10 ** 6)])
        w = rnd.choice([1, 2, 3, None])
        period = rnd.choice([-1, -1, 1, 2, 5])
        scenario = repr((given, fixed, iterations, seed0, w, period))
        try:
            solo, names = [], None
            for j, c in enumerate(combos(given, iterations, seed0)):
                names, series = solo_of(dict(fixed, seq_id=10 ** 6 + j, execution_id='solo', **c))
                solo.append(dict(vals=params(c), series=series))
            if rnd.random() < .3 and w != 1:
                fixed = dict(fixed)
            out.append(lib.limited(observe_batch, 'simulations', sim.Simulation, given, fixed, iterations, seed0, period, w, solo, names, scenario, 10 ** 6,
                                   seconds=120))
        except lib.Hang:
            out.append(dict(t='crash', src='batch', err='hang', scenario=scenario))
        except Exception as e:
            out.append(dict(t='crash', src='batch', err=rec.describe(e), scenario=scenario))
        shutil.rmtree('output', ignore_errors=True)
    obs.write(path, out)


def script_shard(seed, count, path):
    rnd = random.Random(seed)
    out = []
    for _ in range(count):
        given, fixed = grid(rnd, True)
        # the defaults of the script
        given.setdefault('a0', [.3])
        seeded = rnd.random() < .7
        seed0 = rnd.randrange(10 ** 6)
        argv = []
        for k, v in given.items():
            argv += ['--' + k] + [str(x) for x in v]
        for k, v in fixed.items():
            argv += ['--' + k, str(v)]
        if seeded:
            argv += ['--seed', str(seed0)]
        if rnd.random() < .5:
            argv += ['--execution_id', 'mine']
        scenario = ' '.join(argv)
        shutil.rmtree('output', ignore_errors=True)
        try:
            r = subprocess.run([PY, os.path.join(lib.REPO, 'batch-run.py')] + argv, capture_output=True, text=True, timeout=150,
                               env=dict(os.environ, PYTHONPATH=lib.REPO))
            if r.returncode:
                out.append(dict(t='crash', src='batch', err='batch-run.py: ' + (r.stderr.strip().splitlines() or ['?'])[-1][:200], scenario=scenario))
                continue
            b = [d for d in os.listdir('output') if d != 'experiment-tracker.csv']
            path_ = os.path.join('output', b[0])
            if not seeded:
                for f in sorted(os.listdir(path_)):
                    a = os.path.join(path_, f, 'args.json')
                    if os.path.isfile(a):
                        seed0 = json.load(open(a))['seed']
                        break
            solo, names = [], None
            for j, c in enumerate(combos(given, 1, seed0)):
                names, series = solo_of(dict(fixed, seq_id=10 ** 6 + j, execution_id='solo', generate_graphs=False, **c))
                solo.append(dict(vals=params(c), series=series))
            out.append(observed('script', path_, given, fixed, 1, seed0, -1, solo, names, scenario))
        except Exception as e:
            out.append(dict(t='crash', src='batch', err=rec.describe(e), scenario=scenario))
        shutil.rmtree('output', ignore_errors=True)
    obs.write(path, out)


def run(check):
    global GateModel
    lib.preload()
    GateModel = gate_model()
    GateModel.__qualname__ = 'GateModel'
    sizes = [(4, 2), (5, 2), (5, 3)] if check.quick else [(4, 2), (4, 3), (5, 2), (5, 3), (6, 2), (6, 3), (6, 4)]
    ts = [(w, lib.start_tlc(check, 'MCBatch', CFG % (t, w, 'FALSE', 'TRUE', 'PROPERTY Finishes'), 'batch-%d-%d' % (t, w))) for t, w in sizes]
    td = lib.start_tlc(check, 'MCBatch', CFG % (3, 2, 'TRUE', 'FALSE', ''), 'batch-d')
    orders = []
    for w, t in ts:
        r = lib.end_tlc(t)
        if not r['ok']:
            raise lib.Broken('MCBatch: ' + str(r['error']))
        check.count(r['distinct'], r['generated'])
        check.cover('MCBatch', {'states': r['distinct']})
        orders += [(o, w) for o in lib.tagged(r, 'ORDER')]
    if 'OneHeader is violated' not in lib.end_tlc(td)['text']:
        raise lib.Broken('MCBatch does not notice rows written by the executions')
    orders += [([1, 2, 3], 1), ([1, 2, 3, 4, 5, 6], 1)]
    check.cover('MCBatch', {'orders performed': len(orders), 'deliberate defects noticed': 1})
    rnd = random.Random(check.salt('orders'))
    rnd.shuffle(orders)
    d = check.dir('batch')
    n = lib.CORES
    p1 = [os.path.join(d, 'o%d.ndjson' % j) for j in range(n)]
    p2 = [os.path.join(d, 'r%d.ndjson' % j) for j in range(n)]
    p3 = [os.path.join(d, 's%d.ndjson' % j) for j in range(n)]
    lib.forked(check, order_shard, [(o, check.salt('o%d' % j), p) for j, (o, p) in enumerate(zip(lib.shard(orders, n), p1))], 'orders')
    obs.check_files(check, 'Observed', p1, 'orders')
    for b in range(1 if check.quick else 12):
        lib.forked(check, real_shard, [(check.salt('r%d-%d' % (b, j)), 3 if check.quick else 12, p) for j, p in enumerate(p2)], 'real')
        obs.check_files(check, 'Observed', p2, 'simulations')
        lib.forked(check, script_shard, [(check.salt('s%d-%d' % (b, j)), 1 if check.quick else 4, p) for j, p in enumerate(p3[:5] if check.quick else p3)], 'script')
        obs.check_files(check, 'Observed', [p for p in p3 if os.path.exists(p)], 'script')
    check.count(traces=len(orders))
    check.sample(dict(part='orders', order=orders[0]))
