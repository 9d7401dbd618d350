"""P18: the files that executions write, against the state they describe."""
import csv
import hashlib
import json
import os
import pickle
import random
import shutil

import lib
import metrics
import obs
import rec
import scen
from rec import dbl


def param(v):
    if v is None:
        return dict(k='none', x=0)
    if isinstance(v, bool):
        return dict(k='bool', x=v)
    if isinstance(v, (int, float)):
        return dict(k='number', x=dbl(v))
    if isinstance(v, (list, tuple)):
        return dict(k='list', x=[param(y) for y in v])
    return dict(k='text', x=str(v))


def params(d):
    return {str(k): param(v) for k, v in d.items()}


def descriptors(d):
    """Values of a file of descriptors; numbers may be written as text (numpy integers are)."""
    def f(v):
        try:
            return float(v) if isinstance(v, str) else v
        except ValueError:
            return v
    return params({k: f(v) for k, v in d.items()})


def cell(t):
    try:
        x = float(t)
        return dict(t=t, num=x == x and abs(x) != float('inf'), x=dbl(x) if x == x else [0, 0])
    except ValueError:
        return dict(t=t, num=False, x=[0, 0])


def table(path):
    with open(path, newline='') as f:
        return [[cell(t) for t in row] for row in csv.reader(f)]


def load(path):
    with open(path) as f:
        return json.load(f)


def names_in(d):
    return sorted(n for n in os.listdir(d) if os.path.isfile(os.path.join(d, n)))


def digest_state(m):
    s = rec.project(m)
    return hashlib.sha1(repr((sorted(s.items()), m.schedule.steps, list(m.equilibrium_steps), list(m.pivot_steps), m.execution_id, m.seq_id,
                              [(k, [repr(x) for x in v]) for k, v in m.datacollector.model_vars.items()])).encode()).hexdigest()


def final_state(m):
    st = metrics.state(m, metrics.sc_now(m))
    st['prof'] = [rec.profile_of(a) for a in sorted(m.schedule.agents, key=lambda a: a.unique_id)]
    st['phi'] = dbl(m.extra_pool_cost_fraction)
    st['sck'] = dbl(m.reward_scheme.k)
    for p, o in zip(st['pools'], m.pools.values()):
        p.update(cost=dbl(o.cost), pp=dbl(o.potential_profit), des=dbl(o.desirability))
    return st


class Figures:
    """What is drawn in the figures that are saved."""
    def __init__(self):
        self.seen = []

    def __enter__(self):
        import matplotlib.figure
        self.cls = matplotlib.figure.Figure
        self.inner = inner = self.cls.savefig
        seen = self.seen

        def savefig(fig, fname, *a, **kw):
            lines = []
            for ax in fig.axes:
                for ln in ax.lines:
                    try:
                        lines.append(dict(x=[dbl(v) for v in ln.get_xdata()], y=[dbl(v) for v in ln.get_ydata()]))
                    except (TypeError, ValueError):
                        pass
            out = inner(fig, fname, *a, **kw)
            seen.append((os.path.basename(str(fname)), lines))
            return out
        self.cls.savefig = savefig
        return self

    def __exit__(self, *a):
        self.cls.savefig = self.inner


def tracker_rows():
    p = os.path.join('output', 'experiment-tracker.csv')
    return table(p) if os.path.exists(p) else []


def series_value(v):
    d = metrics.value(v)
    return d if d['kind'] == 'number' else dict(kind='list' if isinstance(v, list) else 'map', text=str(v))


def digest_file(p):
    with open(p, 'rb') as f:
        return hashlib.sha1(f.read()).hexdigest()


def execute(kw, out, stop=None):
    import logic.sim as sim
    before = tracker_rows()
    scenario = repr(kw)
    with rec.quiet():
        m = sim.Simulation(**kw)
    d = str(m.directory)
    st0 = metrics.state(m, metrics.sc_now(m))
    present = names_in(d)
    args = load(os.path.join(d, 'args.json')) if 'args.json' in present else {}
    first = load(os.path.join(d, 'initial-state-descriptors.json')) if 'initial-state-descriptors.json' in present else {}
    out.append(dict(t='start', src='start', names=present, st0=st0, given=params(kw), args=params(args), initial=descriptors(first), scenario=scenario))
    if stop == 0:
        return
    digests = [digest_file(os.path.join(d, n)) for n in present]
    rounds = 0
    seen = set()
    with Figures() as figs, rec.quiet():
        while m.running:
            m.step()
            rounds += 1
            if m.running:
                seen.update(names_in(d))
            if stop is not None and rounds >= stop:
                break
    if m.running:
        out.append(dict(t='running', src='stopped', names=sorted(seen), scenario=scenario))
        return
    out.append(dict(t='running', src='finished', names=sorted(seen), scenario=scenario))
    files = names_in(d)
    vs = m.datacollector.model_vars
    eid = m.execution_id
    after = tracker_rows()
    header = after[0] if after else []
    fd = os.path.join(d, 'figures')
    drawn = {}
    for name, lines in figs.seen:
        drawn[name] = lines
    o = dict(t='output', src='graphs' if m.generate_graphs else 'no graphs', names=files, eid=eid, name=eid[eid.index('-') + 1:], seq=m.seq_id,
             st=final_state(m), idle=m.consecutive_idle_steps, iac=m.iterations_after_convergence, ids=kw['metrics'], rounds=rounds,
             series=[[series_value(v) for v in col] for col in vs.values()], order=m.agent_activation_order, scheme=type(m.reward_scheme).__name__,
             graphs=bool(m.generate_graphs), equilibria=[int(x) for x in m.equilibrium_steps], pivots=[int(x) for x in m.pivot_steps],
             figures=[dict(name=n, bytes=os.path.getsize(os.path.join(fd, n)), lines=drawn.get(n, [])) for n in sorted(os.listdir(fd))] if os.path.isdir(fd) else [],
             tracker=dict(header=header, row=after[-1] if after else [], added=len(after) - len(before) - (0 if before else 1),
                          headers=sum(r == header for r in after)),
             intact=digests == [digest_file(os.path.join(d, n)) for n in present if n in files], state=digest_state(m), scenario=scenario)
    o['files'] = dict(pools=table(os.path.join(d, 'final-state-pools-%s.csv' % eid)) if 'final-state-pools-%s.csv' % eid in files else [],
                      agents=table(os.path.join(d, 'final-state-stakeholders-%s.csv' % eid)) if 'final-state-stakeholders-%s.csv' % eid in files else [],
                      metrics=table(os.path.join(d, 'metrics.csv')) if 'metrics.csv' in files else [])
    o['final'] = descriptors(load(os.path.join(d, 'final-state-descriptors.json'))) if 'final-state-descriptors.json' in files else {}
    o['pickled'] = 'none'
    if 'simulation-object.pkl' in files:
        with open(os.path.join(d, 'simulation-object.pkl'), 'rb') as f:
            o['pickled'] = digest_state(pickle.load(f))
    out.append(o)


def output_shard(scenarios, path):
    out = []
    for kw, stop in scenarios:
        try:
            lib.limited(execute, kw, out, stop)
        except lib.Hang:
            out.append(dict(t='crash', src='output', err='hang', scenario=repr(kw)))
        except Exception as e:
            out.append(dict(t='crash', src='output', err=rec.describe(e), scenario=repr(kw)))
        for n in os.listdir('output') if os.path.isdir('output') else []:
            if n != 'experiment-tracker.csv':
                shutil.rmtree(os.path.join('output', n), ignore_errors=True)
    obs.write(path, out)


def scenarios_for(check, b, count):
    rnd = random.Random(check.salt('o%d' % b))
    out = []
    for i, kw in enumerate(scen.core(check.salt('k%d' % b), count, 'P14' if b % 2 else '')):
        kw['metrics'] = rnd.sample(metrics.ALL, rnd.randint(1, 6))
        kw['seq_id'] = -1 if rnd.random() < .5 else 1000 * (b + 1) + i
        kw['execution_id'] = rnd.choice(['', 'x', 'a-b', 'some name', 'temp'])
        if rnd.random() < .3:
            kw['agent_profile_distr'] = rnd.choice([[1, 0, 1], [0, 1, 2], [0, 0, 1], [1, 1, 1]])
        if rnd.random() < .1:
            kw.update(cost_min=5, cost_max=6)       # nobody opens a pool
        if rnd.random() < .2:
            kw['parent_dir'] = 'sub%d' % rnd.randrange(3)
        if rnd.random() < .3:
            kw['seed'] = None
        kw['generate_graphs'] = i % 5 == 0
        if kw['generate_graphs']:
            kw['metrics'] = kw['metrics'][:3] + ([26] if rnd.random() < .3 and 26 not in kw['metrics'][:3] else [])
            kw['max_iterations'] = min(kw['max_iterations'], 15)
            if i % 30 == 5:                             # a long series
                kw.update(agent_profile_distr=[0, 0, 1], iterations_after_convergence=200, max_iterations=rnd.choice([60, 120]))
        if i % 20 == 7:                                 # many places
            kw.update(n=rnd.randint(5, 9), k=rnd.choice([93, 99, 105, 117, 150]), max_iterations=2)
        stop = None if rnd.random() < .85 else rnd.randrange(3)
        if i % 25 == 24:
            # defaults, only started
            kw = {k: v for k, v in kw.items() if rnd.random() < .3 and k not in ('cost_min', 'cost_max')}
            stop = 0
        else:
            for key in ('relative_utility_threshold', 'extra_pool_cost_fraction', 'pareto_param', 'reward_scheme'):
                if rnd.random() < .1:
                    kw.pop(key, None)
        out.append((kw, stop))
    return out


def run(check):
    lib.preload()
    lib.java_classes(check)
    d = check.dir('outputs')
    for b in range(2 if check.quick else 16):
        scs = scenarios_for(check, b, 120 if check.quick else 400)
        paths = [os.path.join(d, 'o%d-%d.ndjson' % (b, j)) for j in range(lib.CORES)]
        lib.forked(check, output_shard, list(zip(lib.shard(scs, lib.CORES), paths)), 'outputs')
        obs.check_files(check, 'Observed', paths, 'outputs')
        check.count(traces=len(scs))
    import serial
    serial.tracker(check)
    check.sample(dict(part='outputs', scenario=scs[0][0]))
