"""P16: initial populations, for all short stake files (MCPopulation) and for random configurations."""
import os
import random
import shutil

import core
import lib
import obs
import rec
from rec import dbl, undbl

CFG = '''SPECIFICATION Spec
CONSTANTS MaxLen = %d
 MaxValue = %d
 Fs = {%s}
 Emit = %s
 Broken = "%s"
INVARIANTS Proportional AddsUp EqualsStayEqual SampleToo
CHECK_DEADLOCK FALSE
'''


def look(m):
    """The population of a simulation."""
    agents = m.schedule.agents
    st = [a.strategy for a in agents if a.strategy is not None]
    return dict(ids=[a.unique_id for a in agents], stakes=[dbl(a.stake) for a in agents], costs=[dbl(a.cost) for a in agents],
                profs=[rec.profile_of(a) for a in agents], total=dbl(m.total_stake), pools=len(m.pools),
                ranked=sum(p is not None for p in list(m.pool_rankings) + list(m.pool_rankings_myopic)),
                owned=sum(len(s.owned_pools) for s in st), delegated=sum(len(s.stake_allocations) for s in st),
                pending=sum(a.new_strategy is not None for a in agents))


def observe(kw, values, src):
    """Creates a simulation and says what its population is."""
    import logic.sim as sim
    cfg = dict(n=kw['n'], src=kw['stake_distr_source'].lower(), shape=dbl(kw.get('pareto_param', 2)), f=dbl(kw.get('inactive_stake_fraction', 0)),
               cmin=dbl(kw['cost_min']), cmax=dbl(kw['cost_max']), weights=[dbl(w) for w in kw['agent_profile_distr']],
               values=[dbl(v) for v in values])
    try:
        with rec.quiet():
            m = sim.Simulation(**kw)
        o = look(m)
        return dict(t='population', src=src, cfg=cfg, o=o, scenario=repr(kw))
    except Exception as e:
        return dict(t='crash', src='population', err=rec.describe(e), scenario=repr(kw))
    finally:
        shutil.rmtree('output', ignore_errors=True)


def write_file(name, values, rnd):
    """A stake file: values separated by commas, in one line or several."""
    with open(name, 'w') as f:
        if rnd.random() < .5:
            f.write(','.join(map(str, values)) + rnd.choice(['', '\n']))
        else:
            i = 0
            while i < len(values):
                j = i + rnd.randint(1, 4)
                f.write(','.join(map(str, values[i:j])) + '\n')
                i = j


def base(rnd, **kw):
    cmax = rnd.choice([1e-4, 1e-3, 0.05, 1.0, rnd.random()])
    d = dict(k=rnd.choice([1, 2, 5, 20]), a0=.3, seed=rnd.randrange(10 ** 7), cost_min=rnd.choice([0, cmax / 2, cmax, cmax / 10]), cost_max=cmax,
             agent_profile_distr=rnd.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1], [4, 2, 1], [.5, 0, .25], [0, 3, 1], [1e-3, 0, 1e-3]]),
             generate_graphs=False, execution_id='x', seq_id=1, metrics=[1], agent_activation_order=rnd.choice(['random', 'sequential', 'simultaneous', 'semisimultaneous']))
    if rnd.random() < .5:
        d['inactive_stake_fraction'] = rnd.choice([0, .01, .1, .25, .5, .9, rnd.random() * .95, rnd.random() * .95])
        d['inactive_stake_fraction_known'] = rnd.random() < .5
    d.update(kw)
    return d


def observe_shard(files, seed, count, large, path):
    rnd = random.Random(seed)
    out = []
    for x in files:
        vals = x['values']
        name = 'synthetic-stake-distribution-%d-agents.csv' % len(vals)
        write_file(name, vals, rnd)
        out.append(observe(base(rnd, n=len(vals), stake_distr_source=rnd.choice(['file', 'File']), inactive_stake_fraction=undbl(x['f'])), vals, 'file of the model'))
        os.unlink(name)
    for i in range(count):
        src = ['pareto', 'flat', 'disparity', 'file', 'Pareto'][i % 5]
        n = rnd.choice([1, 2, 3, 4, 5, 7, 10, 33, 100, 250])
        vals = []
        kw = base(rnd, n=n, stake_distr_source=src, pareto_param=rnd.choice([.7, 1, 1.2, 2, 2.0, 3, 5, .5 + 3 * rnd.random()]))
        if src == 'disparity' and n < 5:
            kw['n'] = n = n + 4
        if src == 'file':
            # another number of values than agents: sampled; the default file serves if there is none for n
            n = kw['n'] = min(n, 33)
            m = rnd.choice([n, n, 2 * n, n + 1, max(1, n - 1), max(1, n // 2)])
            vals = [rnd.choice([rnd.randint(1, 9), rnd.random() * 1e6, 3]) for _ in range(m)]
            name = 'synthetic-stake-distribution-%d-agents.csv' % (10000 if m != n or rnd.random() < .2 else n)
            write_file(name, vals, rnd)
        out.append(observe(kw, vals, src))
        if src == 'file':
            os.unlink(name)
    for n in large:
        kw = base(rnd, n=n, stake_distr_source='pareto', pareto_param=rnd.choice([1.2, 2.0, 3.0, 1.1 + 2 * rnd.random()]), cost_min=1e-5, cost_max=1e-3)
        if rnd.random() < .5:
            kw['agent_profile_distr'] = rnd.choice([[1, 1, 1], [4, 2, 1], [.7, .3, 0], [8, 0, 2]])
        out.append(observe(kw, [], 'large sample'))
    obs.write(path, out)


def run(check):
    lib.preload()
    ml, mv, fs = (3, 4, '"0","0.1","0.5"') if check.quick else (5, 4, '"0","0.1","0.25","0.5","0.9"')
    t = lib.start_tlc(check, 'MCPopulation', CFG % (ml, mv, fs, 'TRUE', ''), 'population')
    td = lib.start_tlc(check, 'MCPopulation', CFG % (2, 2, '"0.5"', 'FALSE', 'ignores inactive'), 'population-d')
    r, rd = lib.end_tlc(t), lib.end_tlc(td)
    if not r['ok']:
        raise lib.Broken('MCPopulation: ' + str(r['error']))
    if 'is violated' not in rd['text']:
        raise lib.Broken('MCPopulation does not notice its deliberate defect')
    files = lib.tagged(r, 'FILE')
    check.count(r['distinct'], r['generated'])
    check.cover('MCPopulation', {'states': r['distinct'], 'files': len(files), 'deliberate defects noticed': 1})
    d = check.dir('population')
    for b in range(1 if check.quick else 8):
        paths = [os.path.join(d, 'p%d.ndjson' % j) for j in range(lib.CORES)]
        jobs = [(f if b == 0 else [], check.salt('p%d-%d' % (b, j)), 60 if check.quick else 400, [3000] * (2 if check.quick else 6) + [700], p)
                for j, (f, p) in enumerate(zip(lib.shard(files, lib.CORES), paths))]
        lib.forked(check, observe_shard, jobs, 'population')
        obs.check_files(check, 'Observed', paths, 'populations')
    check.count(traces=len(files))
    check.sample(dict(part='MCPopulation', file=files[len(files) // 2]))
