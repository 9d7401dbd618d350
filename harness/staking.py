"""MCStaking: exhaustive check of the small model, and replay of its behaviours on the code."""
import json
import os
import random

import core
import lib
import rec

CFG = '''SPECIFICATION Spec
VIEW View
CONSTANTS N = %(n)d
 Wealth <- %(w)s
 Sat = %(sat)d
 MaxId = %(maxid)d
 MaxOwn = %(maxown)d
 GroupSize = %(group)d
 Broken = "%(broken)s"
 Emit = %(emit)s
 Depth = %(depth)d
INVARIANTS P01 P02 P03 P04 PendOK %(inv)s
%(props)s
CHECK_DEADLOCK FALSE
'''
PROPS = 'PROPERTIES FrameProp Ids'


def cfg(n, w, sat, maxid, maxown, group, broken='', emit=False, depth=0):
    return CFG % dict(n=n, w=w, sat=sat, maxid=maxid, maxown=maxown, group=group, broken=broken, depth=depth,
                      emit='TRUE' if emit else 'FALSE', inv='Written' if emit else '', props='' if emit else PROPS)


DEFECTS = ['stale update', 'keeps pending', 'private keeps', 'close keeps']


def exhaustive(check):
    """The small model satisfies its invariants, and each deliberate defect violates one (they are not vacuous)."""
    models = [('W211', 3, 2, 2, 2, 2), ('W32', 2, 2, 2, 2, 2)]
    if not check.quick:
        models = [('W222', 3, 2, 2, 2, 3), ('W221', 3, 2, 3, 2, 3), ('W32', 2, 2, 4, 3, 2), ('W211', 3, 2, 4, 2, 3)]
    for w, n, sat, maxid, maxown, group in models:
        name = 'mc-%s-%d' % (w, maxid)
        t = lib.start_tlc(check, 'MCStaking', cfg(n, w, sat, maxid, maxown, group), name, workers=lib.CORES, heap='8g')
        r = lib.end_tlc(t)
        if not r['ok']:
            raise lib.Broken('the model itself violates its invariants: ' + str(r['error']))
        check.count(r['distinct'], r['generated'])
        check.cover('exhaustive model (MCStaking)', {'%s agents=%d ids<=%d group<=%d' % (w, n, maxid, group): r['distinct']})
    ts = [lib.start_tlc(check, 'MCStaking', cfg(2, 'W32', 2, 2, 2, 2, broken=b), 'mcb-%d' % i) for i, b in enumerate(DEFECTS)]
    for b, t in zip(DEFECTS, ts):
        r = lib.end_tlc(t)
        if 'is violated' not in r['text']:
            raise lib.Broken('the invariants of MCStaking do not notice the defect "%s"' % b)
        check.cover('exhaustive model (MCStaking)', {'deliberate defects noticed': 1})


# Families of behaviours: stakes in units, units that saturate a pool, values of k for which sat units are 1/k of all stake
FAMILIES = dict(W3221=([3, 2, 2, 1], 4, (2,)), W2211=([2, 2, 1, 1], 6, (1,)), W55443=([5, 5, 4, 4, 3], 4, (6, 8, 16)), W33222=([3, 3, 2, 2, 2], 4, (3,)), W6222=([6, 2, 2, 2], 6, (2,)),
                W9543=([9, 5, 4, 3], 4, (6, 9)))


def behaviours(check, count, groups=(1, 2, 5), depth=60):
    """Behaviours of the model, written by TLC in simulation mode: [(family, size of groups, behaviour)]."""
    out = []
    ts = []
    runs = [('W55443', g) for g in groups] + [('W3221', 1), ('W2211', 1), ('W33222', 1), ('W33222', 3), ('W6222', 1), ('W9543', 1)]
    for fam, g in runs:
        wealth, sat, _ = FAMILIES[fam]
        c = cfg(len(wealth), fam, sat, 24, 3, g, emit=True, depth=depth)
        ts.append((fam, g, lib.start_tlc(check, 'MCStaking', c, 'sim-%s-%d' % (fam, g), workers=2, simulate=[
            '-simulate', 'num=%d' % max(1, count // (len(runs) * 2)), '-depth', str(depth + 1),
            '-seed', str(check.salt('sim%s%d' % (fam, g)))])))
    for fam, g, t in ts:
        r = lib.end_tlc(t)
        if r['error']:
            raise lib.Broken('simulation of MCStaking: ' + r['error'])
        check.count(r['distinct'], r['generated'])
        out += [(fam, g, b) for b in lib.tagged(r, 'BEHAVIOUR')]
    return out


class Stage:
    """A real simulation whose agents make the moves of a behaviour; in between, it asks agents what they would do."""

    def __init__(self, index, fam, group, emit):
        import logic.sim as sim
        rec.install()
        self.rnd = rnd = random.Random(index * 31 + group)
        self.wealth, self.sat, ks = FAMILIES[fam]
        k = rnd.choice(ks)
        self.unit = 1 / (self.sat * k)
        self.group = group
        self.n = len(self.wealth)
        self.scheme = index % 5
        self.costs = rnd.choice([(1e-5, 1e-4), (1e-4, 2e-3), (1e-3, 2e-2), (1e-2, 6e-2)])
        self.kw = dict(n=self.n, k=k, a0=rnd.choice([2.0, 5.0] if self.scheme == 4 else [0.3, 0.3, 0.0, 1.0]), reward_scheme=self.scheme,
                       stake_distr_source='flat', generate_graphs=False, metrics=[1], seed=index, cost_min=self.costs[0], cost_max=self.costs[1],
                       agent_profile_distr=rnd.choice([[1, 0, 0], [0, 1, 0], [1, 1, 0]]),
                       extra_pool_cost_fraction=rnd.choice([0.4, 0.4, 0.0, 0.9, 1.1]),
                       relative_utility_threshold=rnd.choice([0, 0, 0.05, 0.3]), absolute_utility_threshold=rnd.choice([0, 1e-9, 1e-9, 1e-4]),
                       agent_activation_order='sequential' if group == 1 else 'simultaneous', execution_id='x', seq_id=index + 1)
        rec.Recorder.current = None
        self.r = rec.Recorder(emit)
        self.emit = emit
        self.model = sim.Simulation(**self.kw)
        for a in self.model.schedule.agents:
            a.stake = self.wealth[a.unique_id] * self.unit
        self.agents = self.model.get_agents_dict()
        self.r.scripted = True
        self.ids, self.turn = {}, index
        rec.Recorder.current = self.r
        self.r.begin(self.model, rec.meta_of(self.kw, index))

    def strategy(self, agent, e):
        """The strategy of a decision of the behaviour (stakes slightly below whole units, so that no two are quite the same)."""
        from copy import deepcopy
        from logic.pool import Pool
        from logic.strategy import Strategy
        self.turn += 1
        turn, rss, owned, unit = self.turn, self.model.reward_scheme, {}, self.unit
        cost = self.costs[0] + (self.costs[1] - self.costs[0]) * (turn % 5) / 4
        margin = ((turn * 7) % 11) / 16
        for j, i in enumerate(e['keep'] + e['new']):
            pledge, m = e['pledge'] * unit, margin if turn % 2 else ((turn * 7 + j * 3) % 11) / 16
            if j < len(e['keep']):
                p = deepcopy(agent.strategy.owned_pools[self.ids[i]])
                p.stake -= p.pledge - pledge
                p.pledge, p.is_private, p.cost = pledge, e['priv'], cost
                p.set_profit(reward_scheme=rss)
            else:
                self.ids[i] = self.model.get_next_pool_id()
                p = Pool(pool_id=self.ids[i], cost=cost, pledge=pledge, owner=agent.unique_id, reward_scheme=rss, is_private=e['priv'])
            p.margin = m
            owned[self.ids[i]] = p
        less = 1 - (0, 0, 1e-9, 1e-7, 1e-5, 1e-4)[turn % 6]
        return Strategy(stake_allocations={self.ids[i]: v * unit * less for i, v in e['alloc']}, owned_pools=owned)

    def perform(self, e):
        agent = self.agents[e['a']]
        if e['t'] in ('decide', 'keep'):
            agent.new_strategy = None if e['t'] == 'keep' else self.strategy(agent, e)
            if self.group == 1:
                self.r.depth += 1
                agent.advance()
                self.r.depth -= 1
            self.r.after(agent, 'step')
        elif e['t'] == 'act' and self.group > 1:
            agent.advance()

    def ask(self, agent, threshold=None, cost=None):
        """What would the agent decide now (with another threshold or cost)?"""
        m = self.model
        saved = agent.new_strategy, m.agent_activation_order, m.absolute_utility_threshold, agent.cost
        agent.new_strategy = None
        m.agent_activation_order = 'simultaneous'     # so that it only decides
        if threshold is not None:
            m.absolute_utility_threshold = threshold
        if cost is not None:
            agent.cost = cost
        self.r.depth += 1
        try:
            agent.step()
            return dict(t='probe', a=agent.unique_id, m=rec.j_pend(rec.proj_pend(agent)),
                        abs=rec.dbl(m.absolute_utility_threshold), cost=rec.dbl(agent.cost))
        finally:
            self.r.depth -= 1
            agent.new_strategy, m.agent_activation_order, m.absolute_utility_threshold, agent.cost = saved

    def probe(self, agent):
        """Asks an agent; some are asked how much better an option has to be for them to leave their present strategy."""
        mode = self.rnd.random()
        cost = self.rnd.choice([0.5, 1e-6]) if mode < 0.15 else None
        if mode < 0.35 or agent.unique_id not in self.alive():
            self.r.record(self.ask(agent, None, cost))
            return
        cost = self.rnd.choice([None, 0.5, 0.5])
        low, high = 1e-13, 2.0
        first = self.ask(agent, low, cost)
        if not first['m']:
            self.r.record(first)
            return
        while high / low > 1 + 1e-6:
            middle = (low * high) ** 0.5
            if self.ask(agent, middle, cost)['m']:
                low = middle
            else:
                high = middle
        self.r.record(self.ask(agent, low, cost))
        self.r.record(self.ask(agent, high, cost))

    def anybody(self):
        some = [a.unique_id for a in self.agents.values() if a.strategy.stake_allocations]
        return self.rnd.choice(some if some and self.rnd.random() < 0.5 else range(self.n))

    def alive(self):
        """The agents that have something to give up."""
        return [a.unique_id for a in self.agents.values() if a.strategy.stake_allocations or a.strategy.owned_pools]


def expected(st, ids, a_pend=True):
    """The state of the behaviour in terms of the code's ids."""
    pools = {ids[p['id']]: (p['own'], p['pledge'], p['stake'], p['priv'], {a: v for a, v in p['dels']}) for p in st['pools']}
    alloc = [{ids[i]: v for i, v in al} for al in st['alloc']]
    owned = [sorted(ids[i] for i in o) for o in st['owned']]
    pend = [None if not q else ({ids[i]: v for i, v in q[0]['alloc']}, {ids[i]: (p, pr) for i, p, pr in q[0]['plan']})
            for q in st['pend']]
    return pools, alloc, owned, pend


def replay_one(index, fam, group, behaviour, emit, probes):
    """Performs the moves of a behaviour in the code.  Returns None, or the first difference."""
    with rec.quiet():
        st = Stage(index, fam, group, emit)
        r, unit, n = st.r, st.unit, st.n

        def units(v):
            x = v / unit
            return round(x) if abs(x - round(x)) < 1e-2 else x

        def actual(state):
            pools = {i: (p[0], units(p[1]), units(p[2]), p[5], {a: units(v) for a, v in p[8]}) for i, p in state['pools'].items()}
            alloc = [{i: units(v) for i, v in state['alloc'][u]} for u in range(n)]
            owned = [sorted(state['owned'][u]) for u in range(n)]
            pend = [None if state['pend'][u] is None else ({i: units(v) for i, v in state['pend'][u][0]},
                                                           {q[0]: (units(q[2]), q[5]) for q in state['pend'][u][1]}) for u in range(n)]
            return pools, alloc, owned, pend
        try:
            for j, x in enumerate(behaviour):
                e = x['e']
                if e['t'] in ('finish', 'group') or (e['t'] == 'act' and group == 1):
                    continue
                st.perform(e)
                state = x['s'] if group > 1 else behaviour_after(behaviour, j)
                if state is None:       # the behaviour ends before the agent acts
                    break
                got, want = actual(r.last), expected(state, st.ids)
                for part, g, w in zip(('pools', 'delegations', 'owners', 'decisions'), got, want):
                    if g != w:
                        return dict(step=j, what=part, expected=w, observed=g, behaviour=[y['e'] for y in behaviour[:j + 1]])
                if st.rnd.random() < probes and j > 4:
                    st.probe(st.agents[st.anybody()])
            r.record(dict(t='cut', x=r.scalars()))
        except Exception as ex:
            emit(dict(t='crash', where='run', a=-1, err=rec.describe(ex)))
            return dict(what='crash', crash=rec.describe(ex), behaviour=[y['e'] for y in behaviour])
        finally:
            rec.Recorder.current = None
    return None


def behaviour_after(behaviour, j):
    """With groups of one, an agent acts as soon as it has decided: the state after its act."""
    for x in behaviour[j:]:
        if x['e']['t'] == 'act':
            return x['s']
    return None


def replay_shard(jobs, path, probes):
    import shutil
    diffs = []
    with open(path, 'w') as f:
        for index, fam, group, b in jobs:
            d = lib.limited(replay_one, index, fam, group, b, lambda ev: f.write(json.dumps(ev, separators=(',', ':')) + '\n'), probes)
            if d:
                diffs.append((index, d))
            shutil.rmtree('output', ignore_errors=True)
    return diffs


def replay(check, count=None):
    judged = check.prop in core.JUDGED
    count = count or (240 if check.quick else 4000)
    bs = behaviours(check, count)
    if len(bs) < count // 4:
        raise lib.Broken('TLC wrote only %d behaviours' % len(bs))
    lib.preload()
    jobs = lib.shard([(i, fam, g, b) for i, (fam, g, b) in enumerate(bs)], lib.SHARDS)
    paths = [os.path.join(check.dir('replay'), 'r%d.ndjson' % i) for i in range(len(jobs))]
    diffs = sum(lib.forked(check, replay_shard, [(j, p, 0.8 if judged else 0.3) for j, p in zip(jobs, paths)], 'replay'), [])
    bad = core.check_traces(check, paths, 'replayed behaviours of MCStaking', judge=judged)
    check.count(traces=len(bs))
    seen = set()
    for prop, clause, run_, at in bad:
        if prop in (check.prop, 'CRASH', 'EVAL') and clause not in seen:
            seen.add(clause)
            check.violation(clause, part='replayed behaviour', behaviour=[x['e'] for x in bs[run_][2]], event=core.event(paths, run_, at))
    if check.prop in ('P02', 'P11'):
        for index, d in diffs[:5]:
            if check.prop == 'P11' or d.get('what') in ('owners', 'delegations', 'crash'):
                check.violation('replaying a behaviour of the specification leads to another state (%s)' % d.get('what', 'crash'),
                                part='replayed behaviour', **d)
    check.sample(dict(part='replayed behaviour of MCStaking', group=bs[0][1], events=[x['e'] for x in bs[0][2]][:12]))
