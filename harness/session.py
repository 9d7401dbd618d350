"""P22: sessions of MCSession held with the real interactive server."""
import asyncio
import contextlib
import io
import json
import os
import random
import runpy
import shutil
import warnings

import lib
import obs
import rec
import twins
from rec import dbl, undbl

CFG = '''SPECIFICATION Spec
CONSTANTS DescFile = "%(desc)s"
 Clients = {%(clients)s}
 MaxMsgs = %(msgs)d
 Rich = %(rich)s
 Broken = "%(broken)s"
 Emit = %(emit)s
INVARIANTS Values Count_ Rounds_ InRange Written
%(props)s
CHECK_DEADLOCK FALSE
'''
DEFECTS = ['steps after the end', 'old values', 'no restart', 'fixed edited']
INTS = ['n', 'k', 'seed', 'max_iterations', 'iterations_after_convergence', 'reward_scheme']
NUMBERS = INTS + ['a0', 'cost_min', 'cost_max', 'inactive_stake_fraction', 'extra_pool_cost_fraction', 'pareto_param',
                  'absolute_utility_threshold', 'relative_utility_threshold']
# parameters of the sessions: (kind, lo, hi, value, values to try)
SMALL = dict(n=('slider', 2, 5, 4, [1, 3]), seed=('number', 0, 0, 4, [7]), reward_scheme=('fixed', 0, 0, 0, [2]))
OWN = dict(n=('slider', 2, 12, 6, [0, 2, 3, 5, 7, 9, 12, 40]), k=('slider', 1, 5, 2, [0, 1, 2, 3, 5, 9]), a0=('slider', 0, 1, .3, [-1, 0, .1, .57, 1, 1.5]),
           seed=('number', 0, 0, 42, [0, 1, 7, 123, 99999]), cost_min=('slider', .001, .005, .001, [0, .001, .0022, .004, .3]),
           cost_max=('slider', .005, .02, .01, [.001, .006, .013, .02, 1]), inactive_stake_fraction=('slider', 0, .9, 0, [0, .25, .5, .8, 1]),
           extra_pool_cost_fraction=('slider', 0, 1, .4, [0, .25, .4, 1, 2]), max_iterations=('number', 0, 0, 3, [1, 2, 3, 5]),
           iterations_after_convergence=('number', 0, 0, 4, [1, 2, 4]), reward_scheme=('fixed', 0, 0, 0, [2]), pareto_param=('fixed', 0, 0, 2, [3]))


def cfg(desc, clients, msgs, rich, broken='', emit=False):
    return CFG % dict(desc=desc, clients=', '.join(map(str, range(1, clients + 1))), msgs=msgs, rich=str(rich).upper(), broken=broken,
                      emit=str(emit).upper(), props='' if rich else 'PROPERTIES StaysEnded Counts')


def describe(params, auto, opening=()):
    return dict(params={n: dict(kind=k, lo=dbl(lo), hi=dbl(hi), v=dbl(v), **{'try': [dbl(t) for t in tries]})
                        for n, (k, lo, hi, v, tries) in params.items()},
                auto=auto, opening=[dict(m=m, p=p, v=dbl(v)) for m, p, v in opening])


def number(n, v):
    return int(v) if n in INTS else v


def kinds(elements):
    from interactiveViz.bubbleChartModule import BubbleChartModule
    from interactiveViz.stackedChartModule import StackedChartModule
    return [dict(kind='bubble' if isinstance(e, BubbleChartModule) else 'stacked' if isinstance(e, StackedChartModule) else 'line',
                 series=e.series[0].get('Label', e.series[0].get('label'))) for e in elements]


def own_server(params, orders):
    """A MyModularServer whose page has the given parameters and one chart of each kind."""
    import logic.sim as sim
    from interactiveViz.bubbleChartModule import BubbleChartModule
    from interactiveViz.myChartModule import MyChartModule
    from interactiveViz.myModularVisualization import MyModularServer
    from interactiveViz.stackedChartModule import StackedChartModule
    from mesa.visualization.UserParam import UserSettableParameter as U
    line = lambda name: MyChartModule([{'label': name, 'title': name, 'xLabel': 'Round', 'yLabel': name, 'tooltipText': '', 'color': 'Blue'}])
    charts = [line('Pool count'), StackedChartModule([{'Label': 'Stake per agent id'}]), BubbleChartModule([{'Label': 'StakePairs'}]), line('Mean pledge')]
    charts = [charts[i] for i in orders]
    kw = {}
    for n, (kind, lo, hi, v, _) in params.items():
        kw[n] = v if kind == 'fixed' else U('slider', n, v, lo, hi, 1 if n in INTS else .001) if kind == 'slider' else U('number', n, v)
    kw.update(generate_graphs=False, metrics=[1, 3, 21, 27])
    return MyModularServer(sim.Simulation, charts, 'session', kw)


def viz_server():
    """The server that interactiveViz/runViz.py launches."""
    from interactiveViz.myModularVisualization import MyModularServer
    from mesa.visualization.ModularVisualization import ModularServer
    got = []
    saved = [(c, c.launch) for c in (MyModularServer, ModularServer)]
    for c, _ in saved:
        c.launch = lambda self, *a, **k: got.append(self)
    try:
        runpy.run_module('interactiveViz.runViz', run_name='__main__')
    finally:
        for c, f in saved:
            c.launch = f
    return got[0]


def viz_params(server):
    """Its parameters, with values to try."""
    from mesa.visualization.UserParam import UserSettableParameter
    out = {}
    for n, p in server.model_kwargs.items():
        if n not in NUMBERS:
            continue
        if not isinstance(p, UserSettableParameter):
            out[n] = ('fixed', 0, 0, p, [p])
        elif p.param_type == 'slider':
            lo, hi = p.min_value, p.max_value
            grid = [lo + i * (hi - lo) / 8 for i in range(9)] if n not in INTS else sorted({round(lo + (hi - lo) * f) for f in (0, .01, .02, .05)} | {12, 15})
            if n == 'inactive_stake_fraction':
                grid = [g for g in grid if g < 1]                    # nobody takes part: not claimed
            out[n] = ('slider', lo, hi, p.value, [g for g in grid if n in ('cost_min', 'cost_max') or lo <= g <= hi] +
                      ([lo - 1] if n not in ('inactive_stake_fraction',) else []))
        else:
            out[n] = ('number', 0, 0, p.value, [0, 3, 42, 777])
    return out


def plain(x):
    """JSON data as the specification has it: numbers are doubles."""
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x if isinstance(x, str) else 'none' if x is None else dbl(x)


def recorded(model, chart):
    """The latest value recorded for a chart: [value], or [] as long as there is none."""
    series = model.datacollector.model_vars.get(chart['series'], [])
    if not series:
        return []
    v = series[-1]
    if chart['kind'] == 'stacked':
        return [[[plain(a), plain(b)] for a, b in v.items()]]
    if chart['kind'] == 'bubble':
        return [dict(x=plain(v['x']), y=plain(v['y']), r=plain(v['r']), pool=plain(v['pool_id']), owner=plain(v['owner_id']))]
    return [plain(v)]


def rows(model):
    return max([len(v) for v in model.datacollector.model_vars.values()] or [0])


class Counted:
    """Counts the simulations that are created."""

    def __enter__(self):
        import logic.sim as sim
        self.cls, self.saved, self.n = sim.Simulation, sim.Simulation.__init__, 0
        init, me = self.saved, self

        def counted(s, *a, **k):
            me.n += 1
            init(s, *a, **k)
        self.cls.__init__ = counted
        return self

    def __exit__(self, *a):
        self.cls.__init__ = self.saved


def wire(msg):
    if msg['m'] == 'submit_params':
        v = undbl(msg['v'])
        return json.dumps(dict(type='submit_params', param=msg['p'], value=number(msg['p'], v) if msg['p'] != 'metrics' else [1]))
    return json.dumps(dict(type=msg['m'] if msg['m'] != 'other' else 'pause'))


class Direct:
    """Pages whose messages are handed to the server's handlers without a network."""

    def __init__(self, server, clients):
        import tornado.escape
        base = type(server).socket_handler[1]

        class Page(base):
            def __init__(self, application):
                self.application = application
                self.got = []

            def write_message(self, m, binary=False):
                self.got.append(tornado.escape.json_encode(m) if isinstance(m, dict) else m)
        self.pages = [Page(server) for _ in range(clients)]
        self.page = 0

    def open(self):
        for p in self.pages:
            p.open()
        return [json.loads(p.got.pop(0)) for p in self.pages]

    def send(self, msg, expected):
        self.pages[msg['who'] - 1].on_message(wire(msg))
        out = [(i + 1, json.loads(t)) for i, p in enumerate(self.pages) for t in p.got]
        for p in self.pages:
            p.got.clear()
        return out

    def close(self):
        pass


class Network:
    """The same over the loopback network: the page is fetched, messages go through web sockets."""

    def __init__(self, server, clients):
        import tornado.httpclient
        import tornado.httpserver
        import tornado.testing
        import tornado.websocket
        self.loop = asyncio.new_event_loop()
        asyncio.set_event_loop(self.loop)

        async def start():
            sock, port = tornado.testing.bind_unused_port()
            self.http = tornado.httpserver.HTTPServer(server)
            self.http.add_sockets([sock])
            try:
                r = await tornado.httpclient.AsyncHTTPClient().fetch('http://127.0.0.1:%d/' % port, raise_error=False)
                self.page = r.code
            except Exception:
                self.page = 500
            self.pages = [await tornado.websocket.websocket_connect('ws://127.0.0.1:%d/ws' % port) for _ in range(clients)]
        self.loop.run_until_complete(start())

    def open(self):
        async def first():
            return [json.loads(await asyncio.wait_for(p.read_message(), 60)) for p in self.pages]
        return self.loop.run_until_complete(first())

    def send(self, msg, expected):
        async def exchange():
            out = []
            for i, p in enumerate(self.pages):
                if i + 1 == msg['who']:
                    p.write_message(wire(msg))
            # a page that sends a ping gets its answer after those to everything before
            for i, p in enumerate(self.pages):
                n = 1 if i + 1 == msg['who'] and expected else 0
                while True:
                    try:
                        t = await asyncio.wait_for(p.read_message(), 60 if n > 0 else .05)
                    except asyncio.TimeoutError:
                        break
                    if t is None:
                        raise ConnectionError('the connection was closed')
                    n -= 1
                    out.append((i + 1, json.loads(t)))
            return out
        return self.loop.run_until_complete(exchange())

    def close(self):
        async def stop():
            for p in getattr(self, 'pages', []):
                p.close()
            self.http.stop()
            await self.http.close_all_connections()
            await asyncio.sleep(0)
        self.loop.run_until_complete(stop())
        self.loop.close()


def hold(session, server, desc, via, names, records):
    """Holds a session with the server; adds a record."""
    clients = max(m['who'] for m in session['log'])
    server.verbose = False
    charts = kinds(server.visualization_elements)
    e = dict(t='session', src='%s, %s' % ('a change restarts' if desc['auto'] else 'a change waits', via.__name__.lower()), charts=charts,
             d=dict(params={n: {k: p[k] for k in ('kind', 'lo', 'hi', 'v')} for n, p in desc['params'].items()}, auto=desc['auto']),
             told=[], refs=[], events=[], page=0)
    fixed = {k: v for k, v in server.model_kwargs.items() if k not in names}
    out = io.StringIO()
    with contextlib.redirect_stdout(out), Counted() as made:
        model, ident = server.model, 1
        pages = via(server, clients)
        try:
            for m in pages.open():
                e['told'].append({n: dbl(p['value']) for n, p in m.get('params', {}).items()} if m.get('type') == 'model_params' else {})
            e['page'] = pages.page
            for msg in session['log']:
                before = made.n
                got, err = [], ''
                try:
                    got = pages.send(msg, msg['m'] in ('get_step', 'reset'))
                except Exception as x:
                    err = rec.describe(x)
                if server.model is not model:
                    model, ident = server.model, ident + 1
                data = [m.get('data') for _, m in got if m.get('type') == 'viz_state']
                e['events'].append(dict(m=msg, err=err, made=made.n - before, id=ident, steps=model.schedule.steps, rows=rows(model),
                                        running=bool(model.running), digest=twins.snapshot(model), to=[w for w, _ in got],
                                        answers=[m.get('type', '') for _, m in got], data=plain(data[-1]) if data else [],
                                        latest=[recorded(model, c) for c in charts],
                                        cur={n: dbl(current(server, n)) for n in names}))
                if err:
                    break
        finally:
            pages.close()
    # the same simulations, without a session
    import logic.sim as sim
    most = {}
    for w, x in zip(session['seen'], e['events']):
        k = json.dumps(w, sort_keys=True)
        most[k] = max(most.get(k, 0), x['rows'])
    for k, n in most.items():
        w = json.loads(k)
        values = {p: number(p, undbl(v)) for p, v in w.items()}
        with contextlib.redirect_stdout(out):
            m = sim.Simulation(**dict(fixed, **values))
            log = [twins.snapshot(m)]
            for _ in range(n):
                if m.running:
                    m.step()
                log.append(twins.snapshot(m))
        e['refs'].append({'with': w, 'digests': log})
    records.append(e)


def current(server, n):
    v = server.model_kwargs[n]
    return getattr(v, 'value', v)


def sessions_shard(jobs, seed, path):
    rnd = random.Random(seed)
    records = []
    for i, (kind, session, desc) in enumerate(jobs):
        via = Network if i % 6 == 1 else Direct
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                server = viz_server() if kind == 'viz' else own_server(OWN, rnd.sample(range(4), rnd.choice([3, 4])))
            lib.limited(hold, session, server, desc, via, list(desc['params']), records)
        except lib.Hang:
            records.append(dict(t='crash', src='session', err='hang', session=session['log']))
        except Exception as x:
            records.append(dict(t='crash', src='session', err=rec.describe(x), session=session['log']))
        shutil.rmtree('output', ignore_errors=True)
    obs.write(path, records)


def write_desc(check, name, desc):
    p = os.path.join(check.dir('desc'), name + '.json')
    with open(p, 'w') as f:
        json.dump(desc, f)
    return p


def viz_desc_shard():
    with contextlib.redirect_stdout(io.StringIO()):
        s = viz_server()
    from interactiveViz.myModularVisualization import MyModularServer
    p = viz_params(s)
    opening = [('submit_params', 'n', 10), ('reset', '', 0)] if 'n' in p else []
    return describe(p, isinstance(s, MyModularServer), opening)


def run(check):
    lib.preload()
    warnings.simplefilter('ignore')      # mesa's remarks about its own interface
    import interactiveViz.myModularVisualization    # noqa: F401
    msgs = 4 if check.quick else 6
    ts = [(b, lib.start_tlc(check, 'MCSession', cfg(write_desc(check, 'small-%s' % auto, describe(SMALL, auto)), 2 if not b else 1, msgs, False, broken=b),
                            'session-%d-%s' % (i, auto), workers=2))
          for i, (b, auto) in enumerate([('', True), ('', False)] + [(b, True) for b in DEFECTS])]
    for b, t in ts:
        r = lib.end_tlc(t)
        if b and 'is violated' not in r['text']:
            raise lib.Broken('MCSession does not notice its deliberate defect "%s": %s' % (b, r['error']))
        if not b and not r['ok']:
            raise lib.Broken('MCSession: ' + str(r['error']))
        if not b:
            check.count(r['distinct'], r['generated'])
        check.cover('MCSession', {'deliberate defects noticed': 1} if b else {'states': r['distinct']})
    descs = dict(own=describe(OWN, True), viz=lib.forked(check, viz_desc_shard, [()], 'vizdesc')[0])
    ts = []
    for i, (kind, n, clients, count) in enumerate([('own', 6, 1, 60), ('own', 14, 2, 50), ('own', 24, 1, 30), ('viz', 12, 1, 12), ('viz', 24, 2, 8)]):
        ts.append((kind, lib.start_tlc(check, 'MCSession', cfg(write_desc(check, kind, descs[kind]), clients, n, True, emit=True), 'sessions-%d' % i, workers=2, simulate=[
            '-simulate', 'num=%d' % max(1, count * (1 if check.quick else 16) // 2), '-depth', '40', '-seed', str(check.salt('s%d' % i))])))
    jobs = []
    for kind, t in ts:
        r = lib.end_tlc(t)
        if r['error']:
            raise lib.Broken('simulation of MCSession: ' + r['error'])
        check.count(r['distinct'], r['generated'])
        jobs += [(kind, s, descs[kind]) for s in lib.tagged(r, 'SESSION')]
    random.Random(check.seed).shuffle(jobs)
    d = check.dir('sessions')
    paths = [os.path.join(d, 's%d.ndjson' % j) for j in range(lib.CORES)]
    lib.forked(check, sessions_shard, [(s, check.salt('p%d' % j), p) for j, (s, p) in enumerate(zip(lib.shard(jobs, lib.CORES), paths))], 'sessions')
    obs.check_files(check, 'Observed', paths, 'sessions')
    check.count(traces=len(jobs))
    check.sample(dict(part='session of MCSession', messages=[wire(m) for m in jobs[0][1]['log']]))
