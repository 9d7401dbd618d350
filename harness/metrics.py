"""P17: metrics on all small systems (MCMetrics), on random systems, and in every round of recorded runs."""
import os
import random
import shutil

import core
import lib
import obs
import rec
import scen
from rec import dbl, undbl

CFG = '''SPECIFICATION Spec
CONSTANTS N = %d
 MaxPools = %d
 MaxStake = %d
 Emit = %s
 Broken = ""
INVARIANTS Written NakamotoOK GiniOK EvenOK MiddleOK RanksOK SumOK HomogeneityOK
CHECK_DEADLOCK FALSE
'''
ALL = [i for i in range(1, 31) if i != 11]     # 11: solver-based, not claimed


def value(v, pools=None):
    if isinstance(v, dict):
        if 'pool_id' in v:
            ids, n = v['pool_id'], len(v['pool_id'])
            if not all(len(v.get(c, ())) == n for c in ('x', 'y', 'r', 'owner_id')):
                return dict(kind='uneven', x=[])
            return dict(kind='pairs', x=[[int(ids[j]), int(v['owner_id'][j]), dbl(v['x'][j]), dbl(v['y'][j]), dbl(v['r'][j])] for j in range(n)])
        return dict(kind='map', x=[[int(k), dbl(x)] for k, x in sorted(v.items())])
    if isinstance(v, (list, tuple)):
        return dict(kind='list', x=[dbl(x) for x in v])
    try:
        return dict(kind='number', x=dbl(v))
    except (TypeError, ValueError):
        return dict(kind=type(v).__name__, x=[])


def state(model, sc):
    agents = sorted(model.schedule.agents, key=lambda a: a.unique_id)
    return dict(stakes=[dbl(a.stake) for a in agents], costs=[dbl(a.cost) for a in agents], sc=sc, steps=int(model.schedule.steps),
                pools=[dict(id=i, own=p.owner, pledge=dbl(p.pledge), stake=dbl(p.stake), mar=dbl(p.margin)) for i, p in model.pools.items()])


def row_of(values, ids):
    """values: metric id -> (name, value)"""
    return [dict(id=i, name=values[i][0], v=value(values[i][1])) for i in ids]


def functions(model, ids):
    import logic.model_reporters as mr
    return {i: (mr.REPORTER_IDS[i], mr.ALL_MODEL_REPORTEERS[mr.REPORTER_IDS[i]](model)) for i in ids}


def sc_now(model):
    return rec.j_sc((rec.scheme_id(model.reward_scheme), model.reward_scheme.k, float(model.reward_scheme.a0),
                     float(model.reward_scheme.global_saturation_threshold)))


def put_pools(model, pools):
    from logic.pool import Pool
    model.pools = {}
    for i, own, pledge, stake, mar in pools:
        p = Pool(pool_id=i, cost=0.001, pledge=pledge, owner=own, reward_scheme=model.reward_scheme)
        p.stake, p.margin = stake, mar
        model.pools[i] = p


def new_model(n, k, scheme=0, a0=0.3, seed=1):
    import logic.sim as sim
    with rec.quiet():
        m = sim.Simulation(n=n, k=k, a0=a0, reward_scheme=scheme, seed=seed, execution_id='x', seq_id=1, generate_graphs=False)
    shutil.rmtree('output', ignore_errors=True)
    return m


def state_shard(states, seed, count, path):
    """Metrics on given small systems, then on random ones."""
    out = []
    try:
        models = {}
        for st in states:
            n = len(st['stakes'])
            m = models.get(n) or models.setdefault(n, new_model(n, st['sc']['k']))
            for a, s, c in zip(m.schedule.agents, st['stakes'], st['costs']):
                a.stake, a.cost = undbl(s), undbl(c)
            m.schedule.steps = st['steps']
            put_pools(m, [(p['id'], p['own'], undbl(p['pledge']), undbl(p['stake']), undbl(p['mar'])) for p in st['pools']])
            out.append(dict(t='row', src='of the model', st=state(m, sc_now(m)), row=row_of(functions(m, ALL), ALL)))
        rnd = random.Random(seed)
        for _ in range(count):
            n = rnd.choice([1, 2, 3, 5, 8, 13, 30])
            scheme = rnd.randrange(5)
            a0 = rnd.choice([0, .3, 5, 20] if scheme != 4 else [2, 5, 20])   # (CIP-50 with a0 = 0 has no threshold, and no pools)
            k = rnd.choice([1, 2, 4, 5, 10, 40])
            m = new_model(n, k, scheme, a0, rnd.randrange(10 ** 6))
            dyadic = rnd.random() < .4
            q = rnd.choice([4, 16, 64])
            for a in m.schedule.agents:
                if dyadic:
                    a.stake = rnd.randint(1, q) / 1024
                if rnd.random() < .3:
                    a.cost = rnd.choice([1e-5, 1e-4, 1e-2, 1 / k])
            m.schedule.steps = rnd.randrange(5000)
            pools = []
            for i in range(rnd.choice([0, 1, 2, 3, 4, 5, 6, 9, 20])):
                own = rnd.randrange(n) if rnd.random() < .7 else rnd.randrange(min(n, 2))
                stake = rnd.randint(1, q) / 1024 if dyadic else rnd.random() / 3
                pools.append((i * rnd.choice([1, 3]) + len(pools) * 3 + 1, own, stake * rnd.choice([1, .5, .25]) if dyadic else stake * rnd.random(),
                              stake, rnd.choice([0, 0, 1, .5, rnd.random(), rnd.random()])))
            rnd.shuffle(pools)
            put_pools(m, pools)
            out.append(dict(t='row', src='random', st=state(m, sc_now(m)), row=row_of(functions(m, ALL), ALL)))
    except Exception as e:
        out.append(dict(t='crash', src='functions', err=rec.describe(e)))
    obs.write(path, out)
    return len(out)


def run_shard(scenarios, path):
    out = []
    for kw in scenarios:
        model, rows = [None], []
        last = [None]

        def emit(ev):
            m = model[0]
            if ev['t'] == 'crash':
                out.append(dict(t='crash', src='run', err=ev['err']))
            elif m is None:
                return
            elif ev['t'] == 'round':
                last[0] = state(m, sc_now(m))
            elif ev['t'] == 'end':
                vs = m.datacollector.model_vars
                row = {i: (name, vs[name][-1]) for i, name in zip(kw['metrics'], vs)}
                rows.append([repr(vs[name][-1]) for name in vs])
                out.append(dict(t='row', src='run', st=last[0], row=row_of(row, list(row))))
            elif ev['t'] == 'done':
                vs = m.datacollector.model_vars
                out.append(dict(t='series', src='run', ids=kw['metrics'], names=list(vs), lengths=[len(v) for v in vs.values()], rounds=len(rows),
                                same=[[repr(v[j]) for v in vs.values()] for j in range(min(len(v) for v in vs.values()))] == rows))

        def before(m):
            model[0] = m
        try:
            lib.limited(rec.run_recorded, kw, 0, emit, None, None, before)
        except lib.Hang:
            out.append(dict(t='crash', src='run', err='hang'))
        shutil.rmtree('output', ignore_errors=True)
    obs.write(path, out)
    return len(out)


def run(check):
    lib.preload()
    lib.java_classes(check)
    n, mp, ms = (3, 2, 3) if check.quick else (3, 3, 3)
    t = lib.start_tlc(check, 'MCMetrics', CFG % (n, mp, ms, 'TRUE'), 'metrics', workers=1 if check.quick else 4, heap='8g')
    r = lib.end_tlc(t)
    if not r['ok']:
        raise lib.Broken('MCMetrics: ' + str(r['error']))
    states = lib.tagged(r, 'STATE')
    check.count(r['distinct'], r['generated'])
    rnd = random.Random(check.salt('pick'))
    rnd.shuffle(states)
    used = states[:2500] if check.quick else states[:60000]
    check.cover('MCMetrics', dict(states=r['distinct'], evaluated=len(used)))
    d = check.dir('metrics')
    paths = [os.path.join(d, 's%d.ndjson' % j) for j in range(lib.CORES)]
    lib.forked(check, state_shard, [(s, check.salt('r%d' % j), 60 if check.quick else 1500, p)
                                    for j, (s, p) in enumerate(zip(lib.shard(used, lib.CORES), paths))], 'states')
    obs.check_files(check, 'Observed', paths, 'states')
    for b in range(1 if check.quick else 10):
        scenarios = scen.with_files(check.salt('files%d' % b), scen.core(check.salt('runs%d' % b), 80 if check.quick else 300, 'P14'))
        rnd = random.Random(check.salt('ids%d' % b))
        for kw in scenarios:
            ids = rnd.sample(ALL, rnd.randint(3, len(ALL)))
            kw['metrics'] = ids if rnd.random() < .6 else sorted(ids)
        rpaths = [os.path.join(d, 'r%d.ndjson' % j) for j in range(lib.CORES)]
        lib.forked(check, run_shard, list(zip(lib.shard(scenarios, lib.CORES), rpaths)), 'runs')
        obs.check_files(check, 'Observed', rpaths, 'runs')
        check.count(traces=len(scenarios))
    check.sample(dict(part='states', state=core.readable(used[len(used) // 2])))
    check.sample(dict(part='runs', scenario=scenarios[0]))
