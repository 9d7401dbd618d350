#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay file]: decides one property on the current tree of /repo."""
import argparse
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
sys.dont_write_bytecode = True
import lib  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true', help='only see whether the tools that the checks need are there')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.selftest:
        return lib.selftest()
    import checks
    recorded = None
    if a.replay:                 # the tier and seed under which the violation was found; its scenarios if it has any
        with open(a.replay) as f:
            recorded = json.load(f)
        a.prop, a.tier, a.seed = recorded['property'], recorded['tier'], recorded['seed']
        a.replay = os.path.abspath(a.replay)
    check = lib.Check(a.prop, a.tier, a.seed, a.replay)
    try:
        os.chdir(check.scratch)
        if not (recorded and checks.replay(check, recorded)):
            checks.CHECKS[a.prop](check)
        return check.finish()
    except lib.Broken as e:
        print('check of %s is broken: %s' % (a.prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        os.chdir('/')
        check.cleanup()


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
