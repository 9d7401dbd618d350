"""Observations: records (one JSON object per line) that TLC checks one by one against a module of the specification."""
import json
import os

import core
import lib

CFG = '''SPECIFICATION Spec
VIEW View
CONSTANT TraceFiles = {%s}
CHECK_DEADLOCK FALSE
'''


def write(path, records):
    with open(path, 'w') as f:
        for r in records:
            f.write(json.dumps(r, separators=(',', ':')) + '\n')


def check_files(check, module, paths, name, cfg=CFG, props=None, heap='3g'):
    """Checks each file of observations with the module; failed clauses become violations of the property of the check."""
    props = set(props or [check.prop])
    seen = {}
    for p, (res, r) in zip(paths, lib.judge_files(check, module, lambda files: cfg % files, paths, name, heap)):
        if not res and 'ndDeserialize' in r['text']:
            raise lib.Broken('observations cannot be read: ' + str(r['error'])[:600])
        if not res:
            at = r['distinct']
            with open(p) as f:
                lines = f.readlines()
            check.violation('the specification cannot explain what was observed', part=name, error=str(r['error'])[:800],
                            observation=core.readable(json.loads(lines[at - 1])) if 0 < at <= len(lines) else None)
            continue
        check.count(observations=res['events'])
        check.cover(name, dict(res['cov']))
        wanted = [b for b in res['bad'] if b[0] in props or b[0] in ('CRASH', 'EVAL')]
        if wanted:
            with open(p) as f:
                lines = f.readlines()
            for prop, clause, at in sorted(wanted, key=lambda b: b[2]):
                if seen.get(clause, 0) < 3:
                    seen[clause] = seen.get(clause, 0) + 1
                    check.violation(clause if prop != 'CRASH' else 'crashed: ' + clause, part=name,
                                    observation=core.readable(json.loads(lines[at - 1])))
    for p in paths:
        os.unlink(p)
