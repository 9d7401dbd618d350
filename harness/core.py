"""Trace validation: records simulations of many configurations and checks each execution against spec/Trace.tla."""
import json
import os
import shutil

import lib
import rec
import scen

CFG = '''SPECIFICATION Spec
VIEW View
CONSTANTS TraceFiles = {%s}
          Judge = %s
CHECK_DEADLOCK FALSE
'''

CORE = ['P01', 'P02', 'P03', 'P04', 'P05', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P23']

JUDGED = ['P08', 'P09', 'P10']     # those that need the choices of the agents to be checked


def record_shard(scenarios, path):
    """scenarios: [(index, kwargs, options)].  Writes the trace; returns the number of events of each scenario."""
    counts = {}
    with open(path, 'w') as f:
        for i, kwargs, options in scenarios:
            n = [0]

            def emit(ev):
                n[0] += 1
                f.write(json.dumps(ev, separators=(',', ':')) + '\n')
            try:
                lib.limited(rec.run_recorded, kwargs, i, emit, **{k: v for k, v in options.items()})
            except lib.Hang:
                emit(dict(t='crash', where='run', a=-1, err='hang'))
            counts[i] = n[0]
            shutil.rmtree('output', ignore_errors=True)
    return counts


def validate(check, scenarios, name='trace', shards=lib.SHARDS, options=None, every=1):
    """Records the scenarios and validates the traces.  Returns failed clauses [(prop, clause, scenario index, event)]."""
    lib.preload()
    lib.java_classes(check)
    opts = options or {}
    jobs = lib.shard([(i, kw, opts) for i, kw in enumerate(scenarios)], min(shards, len(scenarios)))
    paths = [os.path.join(check.dir(name), 't%d.ndjson' % j) for j in range(len(jobs))]
    counts = lib.forked(check, record_shard, list(zip(jobs, paths)), name)
    return check_traces(check, paths, name, every if check.prop in JUDGED else 0), paths, counts


def check_traces(check, paths, name='trace', judge=1):
    """Has TLC check the trace files."""
    bad = []
    results = lib.judge_files(check, 'Trace', lambda files: CFG % (files, int(judge)), paths, name)
    for p, (res, r) in zip(paths, results):
        if not res:
            at = r['distinct'] - 1
            run = run_at(p, at)
            bad.append(('EVAL', 'the specification cannot explain the trace: ' + str(r['error'])[:600], run, at))
            continue
        bad += [tuple(b) for b in res['bad']]
        cov = dict(res['cov'])
        check.count(0, 0, cov.get('complete runs', 0), events=res['events'])
        check.cover(name, cov)
    return bad


def run_at(path, at):
    run = -1
    with open(path) as f:
        for i, line in enumerate(f):
            if i > at:
                break
            if '"t":"init"' in line:
                run = json.loads(line)['meta']['run']
    return run


def readable(o):
    if isinstance(o, list):
        if len(o) == 2 and all(isinstance(v, int) for v in o) and abs(o[0]) > 1000000:
            return rec.undbl(o)
        return [readable(v) for v in o]
    if isinstance(o, dict):
        return {k: readable(v) for k, v in o.items()}
    return o


def event(paths, run, at):
    """The event of a failed clause: line `at` of the shard that has the run."""
    for p in paths:
        with open(p) as f:
            lines = f.readlines()
        if 1 <= at <= len(lines):
            for i in range(at - 1, -1, -1):
                if '"t":"init"' in lines[i]:
                    if json.loads(lines[i])['meta']['run'] == run:
                        return readable(json.loads(lines[at - 1]))
                    break
    return None


def run(check, props=None, count=None):
    """The trace part of the check of one of the core properties."""
    n = count or ((240 if check.prop in JUDGED else 280) if check.quick else 6000)
    wanted = set(props or [check.prop])
    done = 0
    while done < n:
        batch = min(n - done, 1600)
        scenarios = scen.with_files(check.salt('files%d' % done), scen.core(check.salt('core%d' % done), batch, check.prop))
        judge(check, scenarios, wanted, 'trace')
        done += batch
    judge(check, scen.large(check.salt('large'), 12 if check.quick else 120), wanted, 'large', every=2)
    for kw in scenarios[:2]:
        check.sample(dict(part='trace', scenario=kw))


def judge(check, scenarios, wanted, name, options=None, every=1):
    bad, paths, _ = validate(check, scenarios, name, options=options, every=every)
    first = {}
    for prop, clause, run_, at in sorted(bad, key=lambda b: (b[2], b[3])):
        if prop in wanted or prop in ('CRASH', 'EVAL'):
            what = 'a run crashed: ' + clause if prop == 'CRASH' else clause
            if (run_, what) in first or len(first) > 60:
                continue
            first[run_, what] = True
            check.violation(what, part=name, scenario=scenarios[run_] if 0 <= run_ < len(scenarios) else None, event_number=at,
                            event=event(paths, run_, at))
    for p in paths:
        os.unlink(p)
