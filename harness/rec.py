"""Recorder: observes simulations of /repo from outside and writes what happens as trace events (one JSON object per
line).  It wraps the activation protocol (step / advance of agents) and Simulation.step, projects the whole state after
every activation and writes what changed.  It never changes anything in the simulation.

A double is written as the two signed 32-bit halves of its bit pattern (see spec/Doubles.tla)."""
import contextlib
import io
import json
import os
import struct
import sys
import traceback

import lib


def dbl(x):
    x = float(x)
    if x == 0:
        return [0, 0]
    return list(struct.unpack('>ii', struct.pack('>d', x)))


def undbl(p):
    return struct.unpack('>d', struct.pack('>ii', *p))[0]


PROFILES = {'NonMyopicStakeholder': 0, 'MyopicStakeholder': 1, 'Abstainer': 2}


def profile_of(agent):
    for c in type(agent).__mro__:
        if c.__name__ in PROFILES:
            return PROFILES[c.__name__]
    return 9


def scheme_id(scheme):
    import logic.reward_schemes as rss
    for i, c in rss.RSS_MAPPING.items():
        if type(scheme) is c:
            return i
    return -1


def proj_pool(p):
    return (p.owner, float(p.pledge), float(p.stake), float(p.cost), float(p.margin), bool(p.is_private),
            float(p.potential_profit), float(p.desirability),
            tuple((a, float(v)) for a, v in p.delegators.items()))


def same_pool(p, q):
    return p is q or proj_pool(p) == proj_pool(q)


def proj_pend(agent):
    ns = agent.new_strategy
    if ns is None:
        return None
    return (tuple((i, float(v)) for i, v in ns.stake_allocations.items()),
            tuple((i, p.owner, float(p.pledge), float(p.cost), float(p.margin), bool(p.is_private))
                  for i, p in ns.owned_pools.items()))


def project(model):
    """The abstract state of the model."""
    agents = model.schedule.agents
    pools = {i: proj_pool(p) for i, p in model.pools.items()}
    for i, p in model.pools.items():
        if p.id != i:
            pools[i] = proj_pool(p)[:0] + ((-1,) + proj_pool(p)[1:])
    alloc, owned, pend, stake, cost = {}, {}, {}, {}, {}
    for a in agents:
        u = a.unique_id
        st = a.strategy
        if st is None:
            alloc[u], owned[u] = (), ()
        else:
            alloc[u] = tuple((i, float(v)) for i, v in st.stake_allocations.items())
            # the ids of the agent's own pools, negated if its copy differs from the pool in the system
            owned[u] = tuple(i if i in model.pools and same_pool(model.pools[i], p) else -i
                             for i, p in st.owned_pools.items())
        pend[u] = proj_pend(a)
        stake[u] = float(a.stake)
        cost[u] = float(a.cost)

    def ranks(r):
        return tuple(0 if p is None else (p.id if p.id in model.pools and same_pool(model.pools[p.id], p) else -p.id)
                     for p in r)
    rs = model.reward_scheme
    return dict(pools=pools, alloc=alloc, owned=owned, pend=pend, stake=stake, cost=cost, rk=ranks(model.pool_rankings),
                rkm=ranks(model.pool_rankings_myopic),
                sc=(scheme_id(rs), rs.k, float(rs.a0), float(rs.global_saturation_threshold)),
                par=(float(model.relative_utility_threshold), float(model.absolute_utility_threshold),
                     float(model.extra_pool_cost_fraction), int(model.max_iterations)))


def j_pairs(t):
    return [[i, dbl(v)] for i, v in t]


def j_pool(i, p):
    return dict(id=i, own=p[0], pledge=dbl(p[1]), stake=dbl(p[2]), cost=dbl(p[3]), mar=dbl(p[4]), priv=p[5],
                pp=dbl(p[6]), des=dbl(p[7]), dels=j_pairs(p[8]))


def j_pend(p):
    if p is None:
        return []
    return [dict(alloc=j_pairs(p[0]), plan=[dict(id=i, own=o, pledge=dbl(pl), cost=dbl(c), mar=dbl(m), priv=pr)
                                            for i, o, pl, c, m, pr in p[1]])]


def j_sc(s):
    return dict(id=s[0], k=s[1], a0=dbl(s[2]), beta=dbl(s[3]))


def j_par(p):
    return dict(rel=dbl(p[0]), abs=dbl(p[1]), phi=dbl(p[2]), maxit=p[3])


def delta(old, new):
    d = {}
    ch = [j_pool(i, p) for i, p in new['pools'].items() if old['pools'].get(i) != p]
    cl = [i for i in old['pools'] if i not in new['pools']]
    if ch:
        d['pools'] = ch
    if cl:
        d['closed'] = cl
    for key, f in (('alloc', j_pairs), ('owned', list), ('pend', j_pend), ('stake', dbl), ('cost', dbl)):
        c = [[u, f(v)] for u, v in new[key].items() if old[key].get(u) != v]
        if c:
            d[key] = c
    for key in ('rk', 'rkm'):
        if old[key] != new[key]:
            d[key] = list(new[key])
    if old['sc'] != new['sc']:
        d['sc'] = j_sc(new['sc'])
    if old['par'] != new['par']:
        d['par'] = j_par(new['par'])
    return d


def full(state):
    return dict(pools=[j_pool(i, p) for i, p in state['pools'].items()],
                alloc=[j_pairs(state['alloc'][u]) for u in sorted(state['alloc'])],
                owned=[list(state['owned'][u]) for u in sorted(state['owned'])],
                pend=[j_pend(state['pend'][u]) for u in sorted(state['pend'])],
                stake=[dbl(state['stake'][u]) for u in sorted(state['stake'])],
                cost=[dbl(state['cost'][u]) for u in sorted(state['cost'])],
                rk=list(state['rk']), rkm=list(state['rkm']), sc=j_sc(state['sc']), par=j_par(state['par']))


class Recorder:
    """Records one simulation."""
    current = None

    def __init__(self, emit, max_events=10 ** 9):
        self.emit = emit
        self.model = None
        self.depth = 0
        self.in_round = False
        self.events = 0
        self.max_events = max_events
        self.scripted = False

    # -- called by the wrappers -------------------------------------------------------------------------------------
    def begin(self, model, meta):
        self.model = model
        self.last = project(model)
        ev = dict(t='init', meta=meta, s=full(self.last), prof=[profile_of(a) for a in model.schedule.agents],
                  ids=[a.unique_id for a in model.schedule.agents], order=model.agent_activation_order,
                  scripted=self.scripted, x=self.scalars())
        self.put(ev)

    def scalars(self):
        m = self.model
        return dict(steps=m.schedule.steps, idle=m.consecutive_idle_steps, flag=bool(m.current_step_idle),
                    eq=[int(i) for i in m.equilibrium_steps], piv=[int(i) for i in m.pivot_steps],
                    running=bool(m.running), phase=m.current_phase, nphases=m.total_phases,
                    rows=sorted({len(v) for v in m.datacollector.model_vars.values()}), iac=m.iterations_after_convergence,
                    conv=bool(m.has_converged()))

    def put(self, ev):
        self.events += 1
        self.emit(ev)

    def record(self, ev):
        new = project(self.model)
        ev['d'] = delta(self.last, new)
        ev['flag'] = bool(self.model.current_step_idle)
        self.last = new
        self.put(ev)

    def after(self, agent, what):
        self.record(dict(t=what, a=agent.unique_id))


def _wrap_agent(cls, name):
    inner = cls.__dict__[name]

    def wrapped(self, *args, **kwargs):
        r = Recorder.current
        if r is None or r.model is not self.model or r.depth > 0:
            return inner(self, *args, **kwargs)
        r.depth += 1
        try:
            out = inner(self, *args, **kwargs)
        except Exception as e:
            r.put(dict(t='crash', where=name, a=self.unique_id, err=describe(e)))
            raise
        finally:
            r.depth -= 1
        r.after(self, name)
        return out
    wrapped._verif = True
    setattr(cls, name, wrapped)


def _wrap_model(cls):
    inner = cls.step

    def step(self, *args, **kwargs):
        r = Recorder.current
        if r is None or r.model is not self or r.in_round:
            return inner(self, *args, **kwargs)
        r.in_round = True
        r.record(dict(t='round', x=r.scalars()))
        try:
            out = inner(self, *args, **kwargs)
        except Exception as e:
            r.put(dict(t='crash', where='round', a=-1, err=describe(e)))
            raise
        finally:
            r.in_round = False
        r.record(dict(t='end', x=r.scalars()))
        return out
    cls.step = step


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    return '%s: %s @ %s' % (type(e).__name__, str(e)[:120], tb[-1].name if tb else '?')


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import logic.sim as sim
    import logic.stakeholder as stakeholder
    import logic.stakeholder_profiles as profiles
    for c in {stakeholder.Stakeholder, *profiles.PROFILE_MAPPING.values()}:
        for name in ('step', 'advance'):
            if name in c.__dict__:
                _wrap_agent(c, name)
    _wrap_model(sim.Simulation)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def meta_of(kwargs, i):
    """What was asked for, as the specification wants it."""
    def lst(x):
        return list(x) if isinstance(x, (list, tuple)) else [x]
    g = kwargs.get
    f = float(g('inactive_stake_fraction', 0))
    known = bool(g('inactive_stake_fraction_known', False))
    return dict(run=i, n=g('n', 1000), k=lst(g('k', 100)), a0=[dbl(v) for v in lst(g('a0', 0.3))],
                rel=[dbl(v) for v in lst(g('relative_utility_threshold', 0))],
                abs=[dbl(v) for v in lst(g('absolute_utility_threshold', 0))],
                phi=[dbl(v) for v in lst(g('extra_pool_cost_fraction', 0.4))],
                maxit=lst(g('max_iterations', 1000)), iac=g('iterations_after_convergence', 10),
                scheme=g('reward_scheme', 0), inactive=dbl(f), known=known, seed=g('seed'))


def prepared(kwargs):
    """The arguments for the simulation, with the file of stakes that they need (if any) in place."""
    kw = dict(kwargs)
    stakes = kw.pop('_file', None)
    if stakes is not None:
        with open('synthetic-stake-distribution-%d-agents.csv' % kw['n'], 'w') as f:
            f.write(','.join(map(repr, stakes)) + '\n')
    return kw


def stated():
    """What the final descriptors say about the end of the run ("?" if there is nothing that says so)."""
    for root, _, files in os.walk('output'):
        for f in files:
            if f.endswith('final-state-descriptors.json'):
                try:
                    with open(os.path.join(root, f)) as fd:
                        said = json.load(fd).get('Equilibrium reached')
                    return said if said in ('Yes', 'No') else '?'
                except (OSError, ValueError, AttributeError):
                    return '?'
    return '?'


def run_recorded(kwargs, i, emit, steps=None, agent_factory=None, before=None, one_by_one=False):
    """Runs a simulation with the given arguments and records it.  Returns the model, or None if it crashed."""
    import logic.sim as sim
    install()
    r = Recorder(emit)
    Recorder.current = None
    model = None
    with quiet():
        try:
            model = sim.Simulation(**prepared(kwargs))
            if agent_factory is not None:
                agent_factory(model)
                r.scripted = True
            if before is not None:
                before(model)
        except Exception as e:
            emit(dict(t='crash', where='start', a=-1, err=describe(e), meta=meta_of(kwargs, i)))
            return None
        Recorder.current = r
        try:
            r.begin(model, meta_of(kwargs, i))
            if one_by_one:
                n = 0
                while model.running and n < (steps or 10 ** 9):
                    model.step()
                    n += 1
            else:
                model.run_model()
            if steps is None:
                model.run_model()       # there is nothing left to do
            r.record(dict(t='done', x=r.scalars(), stated=stated()))
        except lib.Hang:
            r.depth = 0
            emit(dict(t='crash', where='run', a=-1, err='hang: no result after %d s' % lib.SCENARIO_LIMIT))
            return None
        except Exception as e:
            emit(dict(t='crash', where='run', a=-1, err=describe(e)))
            return None
        finally:
            Recorder.current = None
    return model
