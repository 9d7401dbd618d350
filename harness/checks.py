"""Which machinery decides which property."""
import batch
import config
import core
import metrics
import outputs
import population
import rewards
import rounds
import serial
import session
import staking
import twins

STRUCTURE = ['P01', 'P02', 'P03', 'P04', 'P05', 'P11', 'P23']     # also decided by MCStaking and its replayed behaviours


def structure(check):
    if check.prop in ('P01', 'P02', 'P03', 'P04', 'P11'):
        staking.exhaustive(check)
    staking.replay(check)
    core.run(check)


def choices(check):
    staking.replay(check)
    core.run(check)


def life(check):
    rounds.run(check)
    core.run(check)


CHECKS = {}
for _p in core.CORE:
    CHECKS[_p] = structure if _p in STRUCTURE else life if _p in ('P12', 'P13', 'P14') else choices
CHECKS['P06'] = CHECKS['P07'] = rewards.run
CHECKS['P17'] = metrics.run
CHECKS['P15'] = twins.run
CHECKS['P16'] = population.run
CHECKS['P18'] = outputs.run
CHECKS['P19'] = batch.run
CHECKS['P20'] = serial.run
CHECKS['P21'] = config.run
CHECKS['P22'] = session.run


def replay(check, recorded):
    """Repeats just the recorded scenarios of a violation.  False if it has none: then the whole check is repeated."""
    vs = recorded['violations']
    if not all(v.get('part') in ('trace', 'long runs', 'large') and isinstance(v.get('scenario'), dict) for v in vs) or not vs:
        return False
    scenarios = []
    for v in vs:
        if v['scenario'] not in scenarios:
            scenarios.append(v['scenario'])
    core.judge(check, scenarios, {check.prop}, 'trace')
    return True
