"""P06 and P07: rewards and their split, on the grid of MCRewards, on random and boundary values, and inside running
simulations (with parameters that change while the scheme is in use)."""
import os
import random
import shutil

import core
import lib
import obs
import rec
import scen
from rec import dbl, undbl

CFG = '''SPECIFICATION Spec
CONSTANTS G = %d
 Ks = {%s}
 A0s = {%s}
 Broken = "%s"
 Emit = %s
INVARIANTS WithinPot Monotone NonNegative Split
CHECK_DEADLOCK FALSE
'''


def exhaustive(check):
    """Returns the rewards and splits that the model prints."""
    g, ks, a0s = (6, '1,2,3,5', '"0","0.3","2"') if check.quick else (9, '1,2,3,4,5,7', '"0","0.1","0.3","1","2","10"')
    t = lib.start_tlc(check, 'MCRewards', CFG % (g, ks, a0s, '', 'TRUE'), 'rewards', workers=1 if check.quick else 4, heap='8g')
    broken = [lib.start_tlc(check, 'MCRewards', CFG % (4, '2', '"0.3"', b, 'FALSE'), 'rewards-' + b.replace(' ', '-'))
              for b in ('no cap', 'pledge adds', 'operator skips margin')]
    r = lib.end_tlc(t)
    if not r['ok']:
        raise lib.Broken('MCRewards: ' + str(r['error']))
    check.count(r['distinct'], r['generated'])
    for b in broken:
        x = lib.end_tlc(b)
        if 'is violated' not in x['text']:
            raise lib.Broken('MCRewards does not notice the defect ' + b['name'])
    points, splits = lib.tagged(r, 'REWARD'), lib.tagged(r, 'SPLIT')
    check.cover('MCRewards', dict(states=r['distinct'], rewards=len(points), splits=len(splits), **{'deliberate defects noticed': 3}))
    return points, splits


def scheme(i, k, a0):
    import logic.reward_schemes as rss
    return rss.RSS_MAPPING[i](k, a0)


def sc_of(i, k, a0):
    """The scheme that was asked for."""
    return dict(id=i, k=int(k), a0=dbl(a0), beta=dbl(1 / k))


def reward(rs, pledge, stake):
    import logic.helper as hlp
    return hlp.calculate_pool_reward(reward_scheme=rs, pool_stake=stake, pool_pledge=pledge)


def o_reward(src, sc, rs, pledge, stake):
    return dict(t='reward', src=src, sc=sc, pledge=dbl(pledge), stake=dbl(stake), r=dbl(reward(rs, pledge, stake)),
                thr=dbl(rs.get_pool_saturation_threshold(pledge)))


def o_split(src, sc, rs, pledge, stake, mar, cost, amounts):
    import logic.helper as hlp
    op = hlp.calculate_operator_utility_from_pool(pool_stake=stake, pledge=pledge, margin=mar, cost=cost, reward_scheme=rs)
    ds = [hlp.calculate_delegator_utility_from_pool(stake_allocation=a, pool_stake=stake, pledge=pledge, margin=mar, cost=cost,
                                                    reward_scheme=rs) for a in amounts]
    return dict(t='split', src=src, sc=sc, pledge=dbl(pledge), stake=dbl(stake), mar=dbl(mar), cost=dbl(cost), op=dbl(op),
                amounts=[dbl(a) for a in amounts], shares=[dbl(d) for d in ds])


def grid(points, splits):
    """The printed steps of the model, performed by the code."""
    for p in points:
        rs = scheme(p['id'], p['k'], undbl(p['a0']))
        yield o_reward('of the model', sc_of(p['id'], p['k'], undbl(p['a0'])), rs, undbl(p['pledge']), undbl(p['stake']))
    for s in splits:
        rs = scheme(0, s['k'], undbl(s['a0']))
        u = 2 * s['units']
        yield o_split('of the model', sc_of(0, s['k'], undbl(s['a0'])), rs, s['pl'] / u, 0.5, undbl(s['mar']), undbl(s['cost']),
                      [d / u for d in s['dels']])


def parts(rnd, total, n):
    cuts = sorted(rnd.random() for _ in range(n - 1))
    xs = [b - a for a, b in zip([0] + cuts, cuts + [1])]
    return [max(x, 1e-15) * total * (1 - 1e-12) for x in xs]


def values(seed, count):
    """Random and boundary values; the parameters of a scheme change while it is in use."""
    rnd = random.Random(seed)
    for c in range(count):
        i = rnd.randrange(5)
        k = rnd.choice([1, 2, 3, 5, 7, 10, 49, 100, 150, 500, 1000, 10000, rnd.randint(1, 3000)])
        a0 = rnd.choice([0, 0.0, 0.3, 0.1, 1, 1.0, rnd.random(), rnd.random() * 50, 1000.0, 1e-6])
        rs = scheme(i, k, a0)
        queries = []
        for step in range(rnd.choice([1, 2, 3, 4])):
            if step:
                w = rnd.random()
                if w < 0.4:
                    k = rnd.choice([1, 2, 5, 100, 500, rnd.randint(1, 3000), rnd.randint(2, 500) / (1 - rnd.choice([.1, .25, .5]))])
                    rs.k = k
                elif w < 0.7:
                    a0 = rnd.choice([0, 0.3, 1.0, rnd.random(), rnd.random() * 20])
                    rs.a0 = a0
                else:                # another scheme with the same values
                    i = rnd.randrange(5)
                    rs = scheme(i, k, a0)
            sc, beta = sc_of(i, k, a0), 1 / k
            src = 'after a change of parameters' if step else 'random'
            for _ in range(4):
                st = rnd.choice([beta, beta * 2, beta * rnd.random(), beta * (1 + rnd.random()), 1.0, rnd.random(), beta * 1e-6, 1e-12,
                                 beta * (1 - 1e-7), beta * (1 + 1e-7), beta / 8, beta / 64])
                st = min(st, 1.0)
                pl = st * rnd.choice([0, 1, 1, rnd.random(), rnd.random(), 1e-3, 0.5, 1e-9])
                if rnd.random() < 0.15:
                    pl = min(st, beta)
                queries.append((pl, st))
                if rnd.random() < 0.3:
                    queries.append((pl, min(st * (1 + 1e-6), 1.0)))
            for pl, st in (queries if rnd.random() < .5 else queries[-4:]):
                yield o_reward(src, sc, rs, pl, st)
            pl, st = queries[-1]
            thr = min(a0 * pl, beta) if i == 4 else beta
            sts = sorted([pl, st, thr, 1.0, min(1.0, thr * 1.5), min(1.0, thr * (1 + 1e-9))] + [pl + (1 - pl) * rnd.random() for _ in range(3)]
                         + [min(1.0, pl + thr * rnd.random()) for _ in range(3)])
            sts = [s for s in sts if s >= pl]
            yield dict(t='monotone', src=src, sc=sc, pledge=dbl(pl), stakes=[dbl(s) for s in sts], rs=[dbl(reward(rs, pl, s)) for s in sts])
            n = rnd.choice([1, 2, 3, 5, 10, 40])
            xs = [min(beta, 1.0 / n) * (1 - 1e-12)] * n if rnd.random() < .3 else parts(rnd, 1.0, n)
            ps = [x * rnd.choice([1, 1, rnd.random(), 0]) for x in xs]
            yield dict(t='pot', src=src, sc=sc, stakes=[dbl(x) for x in xs], pledges=[dbl(p) for p in ps], rs=[dbl(reward(rs, p, x)) for p, x in zip(ps, xs)])
            # a pool with members
            for _ in range(3):
                pl, st = rnd.choice(queries)
                rest = st - pl
                amounts = parts(rnd, rest, rnd.choice([1, 1, 2, 3, 6])) if rest > 1e-9 * st else []
                if rest > 0 and not amounts:
                    pl = st
                r = max(reward(rs, pl, st), 0)
                cost = rnd.choice([0, 1e-5, r * rnd.random(), r * rnd.random(), r * (1 + rnd.random()), r * 0.999, 1.0])
                mar = rnd.choice([0, 0, 1, rnd.random(), rnd.random(), 1e-6, 0.999999])
                yield o_split(src, sc, rs, pl, st, mar, cost, amounts)


def value_shard(seed, count, path):
    lib.limited(obs.write, path, values(seed, count))


def run_shard(scenarios, path):
    """Observations inside running simulations: pools as they are, with their actual members."""
    out = []
    rnd = random.Random(len(scenarios))
    for kw in scenarios:
        kws = dict(kw)

        def sc_now(m):
            def at(x, j):
                return x if not isinstance(x, list) else x[j] if j < len(x) else x[-1]
            ph = m.current_phase
            k = at(kws['k'], ph)
            if kws.get('inactive_stake_fraction_known'):
                k = k / (1 - kws.get('inactive_stake_fraction', 0))
            return sc_of(kws['reward_scheme'], k, at(kws['a0'], ph))

        def emit(ev, state={'n': 0}):
            if ev['t'] == 'crash':
                out.append(dict(t='crash', err=ev['err'], scenario=str(kws)))
                return
            m = r_model[0]
            if m is None or not m.pools or ev['t'] not in ('step', 'advance', 'end', 'round'):
                return
            state['n'] += 1
            if state['n'] % 3 and ev['t'] != 'end':
                return
            sc, rs = sc_now(m), m.reward_scheme
            for p in rnd.sample(list(m.pools.values()), min(2, len(m.pools))):
                out.append(o_reward('in a run', sc, rs, p.pledge, p.stake))
                if p.pledge > 0:
                    out.append(o_split('in a run', sc, rs, p.pledge, p.stake, p.margin, p.cost, list(p.delegators.values())))
            ps = list(m.pools.values())
            out.append(dict(t='pot', src='in a run', sc=sc, stakes=[dbl(p.stake) for p in ps], rs=[dbl(reward(rs, p.pledge, p.stake)) for p in ps]))
            if hasattr(ps[0], 'stake') and all(hasattr(a, 'calculate_current_utility') for a in m.schedule.agents):
                us = [a.calculate_current_utility() for a in m.schedule.agents if a.strategy is not None]
                out.append(dict(t='system', src='in a run', sc=sc, utilities=[dbl(u) for u in us],
                                pools=[dict(pledge=dbl(p.pledge), stake=dbl(p.stake), cost=dbl(p.cost)) for p in ps]))
        r_model = [None]

        def before(m):
            r_model[0] = m
        try:
            lib.limited(rec.run_recorded, kws, 0, emit, None, None, before)
        except lib.Hang:
            out.append(dict(t='crash', err='hang', scenario=str(kws)))
        shutil.rmtree('output', ignore_errors=True)
    obs.write(path, out)
    return len(out)


def run(check):
    lib.preload()
    lib.java_classes(check)
    points, splits = exhaustive(check)
    d = check.dir('rewards')
    path = os.path.join(d, 'grid.ndjson')
    shards = lib.CORES
    vpaths = [os.path.join(d, 'v%d.ndjson' % j) for j in range(shards)]
    rpaths = [os.path.join(d, 'r%d.ndjson' % j) for j in range(shards)]
    try:
        obs.write(path, grid(points, splits))
    except Exception as e:
        check.violation('computing a reward crashed: ' + rec.describe(e), part='behaviours of MCRewards')
        return
    obs.check_files(check, 'Rewards', [path], 'behaviours of MCRewards')
    rounds = 1 if check.quick else 12
    for b in range(rounds):
        n = 110 if check.quick else 400
        lib.forked(check, value_shard, [(check.salt('v%d-%d' % (b, j)), n, p) for j, p in enumerate(vpaths)], 'values')
        obs.check_files(check, 'Rewards', vpaths, 'values')
        scenarios = scen.with_files(check.salt('files%d' % b), scen.core(check.salt('runs%d' % b), 48 if check.quick else 200, 'P14'))
        lib.forked(check, run_shard, list(zip(lib.shard(scenarios, shards), rpaths)), 'runs')
        obs.check_files(check, 'Rewards', rpaths, 'runs')
    check.count(traces=rounds * 48)
    check.sample(dict(part='behaviours of MCRewards', reward=core.readable(points[len(points) // 2]), split=core.readable(splits[len(splits) // 3])))
    check.sample(dict(part='runs', scenario=scenarios[0]))
