"""MCRounds: exhaustive check of the small model of rounds and phases, and replay of all its behaviours on the code."""
import json
import os
import shutil

import core
import lib
import rec

CFG = '''SPECIFICATION Spec
CONSTANTS MaxIac = %d
 MaxPhases = %d
 MaxMaxIt = %d
 Emit = %s
INVARIANTS Type EqOK EndOK GoesOn Conv Bound Written
PROPERTIES NoReturn Terminates
CHECK_DEADLOCK FALSE
'''
Scripted = None


def make_scripted():
    """Agents that move exactly in the rounds in which the script says so."""
    global Scripted
    if Scripted is not None:
        return Scripted
    import logic.stakeholder_profiles as profiles
    from logic.pool import Pool
    from logic.strategy import Strategy
    from copy import deepcopy

    class _Scripted(profiles.NonMyopicStakeholder):
        def update_strategy(self):
            sc = self.script
            n = len(self.model.schedule.agents)
            rnd, i = divmod(sc['calls'], n)
            sc['calls'] += 1
            self.new_strategy = None
            if rnd >= len(sc['idle']) or sc['idle'][rnd] or i != (rnd * 5 + sc['salt']) % n:
                return
            rss = self.model.reward_scheme
            pledge = self.stake / 2
            if self.strategy.owned_pools:
                owned = deepcopy(self.strategy.owned_pools)
                for p in owned.values():
                    p.set_profit(reward_scheme=rss)
                    p.margin = 0.1 if p.margin != 0.1 else 0.3
            else:
                i = self.model.get_next_pool_id()
                priv = pledge >= rss.get_pool_saturation_threshold(pledge)
                owned = {i: Pool(pool_id=i, cost=0.001, pledge=pledge, owner=self.unique_id, reward_scheme=rss, is_private=priv)}
                owned[i].margin = 0.2
            others = [i for i, p in self.model.pools.items() if p.owner != self.unique_id and not p.is_private]
            alloc = {others[rnd % len(others)]: self.stake / 4} if others and rnd % 3 else {}
            self.new_strategy = Strategy(stake_allocations=alloc, owned_pools=owned)

    _Scripted.__name__ = _Scripted.__qualname__ = 'Scripted'
    Scripted = _Scripted
    return Scripted


ORDERS = ['sequential', 'random', 'simultaneous', 'semisimultaneous']


def kwargs_of(index, b, salt):
    np = b['nphases']
    n = [3, 4, 7][(index + salt) % 3]
    ks = [[2, 3, 1], [1, 4, 2], [3, 1, 3]][(index // 3 + salt) % 3][:np]
    kw = dict(n=n, k=ks if np > 1 else ks[0], a0=0.3, stake_distr_source=['flat', 'pareto'][index % 2], generate_graphs=False,
              metrics=[1, 2], seed=index + salt, agent_activation_order=ORDERS[(index + salt) % 4], execution_id='x', seq_id=index + 1,
              iterations_after_convergence=b['iac'], max_iterations=b['maxit'] if len(set(b['maxit'])) > 1 else b['maxit'][0],
              reward_scheme=[0, 1, 2, 0, 3][index % 5])
    if index % 4 == 1 and np > 1:
        kw['a0'] = [0.3, 0.7, 0.0][:np]
    if index % 6 == 2:
        kw['inactive_stake_fraction'] = 0.5
        kw['inactive_stake_fraction_known'] = bool(index % 4)
    return kw


def script(b, salt):
    def install(model):
        cls = make_scripted()
        sc = dict(calls=0, idle=b['hist'], salt=salt)
        for a in model.schedule.agents:
            a.__class__ = cls
            a.script = sc
    return install


def replay_shard(jobs, path, salt):
    diffs = []
    with open(path, 'w') as f:
        for index, b in jobs:
            kw = kwargs_of(index, b, salt)
            m = lib.limited(rec.run_recorded, kw, index, lambda ev: f.write(json.dumps(ev, separators=(',', ':')) + '\n'),
                            None, script(b, index), None, bool(index % 5 == 0))
            if m is not None:
                x = b['x']
                got = dict(running=m.running, idle=m.consecutive_idle_steps, piv=list(m.pivot_steps), steps=m.schedule.steps,
                           phase=m.current_phase, eq=list(m.equilibrium_steps), conv=m.has_converged(),
                           rows=max(len(v) for v in m.datacollector.model_vars.values()))
                if got != x:
                    diffs.append((index, dict(expected=x, observed=got, scenario=kw, idle_rounds=b['hist'])))
            shutil.rmtree('output', ignore_errors=True)
    return diffs


def long_runs(check):
    """Many rounds in which nobody moves, to see whether the orders of activation are random."""
    scenarios = []
    for order in ORDERS:
        for n in (11, 13) if check.quick else (7, 8, 9, 10, 11, 12, 13, 14):
            scenarios.append(dict(n=n, k=2, agent_profile_distr=[0, 0, 1], agent_activation_order=order, metrics=[1], generate_graphs=False,
                                  seed=check.salt('long%s%d' % (order, n)) % 10 ** 6, iterations_after_convergence=1000,
                                  max_iterations=180 if check.quick else 600, execution_id='x', seq_id=len(scenarios) + 1))
    core.judge(check, scenarios, {check.prop}, 'long runs')


def run(check):
    if check.prop == 'P12':
        long_runs(check)
    iac, ph, it = (3, 3, 6) if check.quick else (4, 3, 9)
    t = lib.start_tlc(check, 'MCRounds', CFG % (iac, ph, it, 'TRUE'), 'rounds', workers=1)
    r = lib.end_tlc(t)
    if not r['ok']:
        raise lib.Broken('MCRounds: ' + str(r['error']))
    bs = lib.tagged(r, 'BEHAVIOUR')
    check.count(r['distinct'], r['generated'])
    total = len(bs)
    if check.quick:
        bs = bs[check.seed % 2::2]
    check.cover('MCRounds', dict(states=r['distinct'], behaviours=total, replayed=len(bs)))
    lib.preload()
    jobs = lib.shard(list(enumerate(bs)), lib.SHARDS)
    paths = [os.path.join(check.dir('rounds'), 'r%d.ndjson' % i) for i in range(len(jobs))]
    salt = check.salt('rounds') % 1000
    diffs = sum(lib.forked(check, replay_shard, [(j, p, salt) for j, p in zip(jobs, paths)], 'rounds'), [])
    bad = core.check_traces(check, paths, 'replayed behaviours of MCRounds', judge=0)
    seen = set()
    for prop, clause, run_, at in bad:
        if prop in (check.prop, 'CRASH', 'EVAL') and clause not in seen:
            seen.add(clause)
            check.violation(clause, part='replayed behaviour', scenario=kwargs_of(run_, bs[run_], salt), idle_rounds=bs[run_]['hist'],
                            event=core.event(paths, run_, at))
    fields = dict(P13=['running', 'idle', 'steps', 'eq', 'conv'], P14=['phase', 'piv'], P12=[])[check.prop]
    for index, d in diffs:
        f = [k for k in fields if d['expected'][k] != d['observed'][k]]
        if f and tuple(f) not in seen:
            seen.add(tuple(f))
            check.violation('a run ends otherwise than the behaviour that it follows: ' + ', '.join(f), part='replayed behaviour', **d)
    check.sample(dict(part='replayed behaviour of MCRounds', behaviour=bs[len(bs) // 2]))
