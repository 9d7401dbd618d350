#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run in /verif)."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
STAKING = 'TLA+/TLC: exhaustive check of spec/MCStaking.tla, its behaviours replayed into the real code, and recorded executions validated against spec/Trace.tla'
REPLAYED = 'TLA+/TLC: behaviours of spec/MCStaking.tla replayed into the real code, and recorded executions validated against spec/Trace.tla'
ROUNDS = 'TLA+/TLC: exhaustive check of spec/MCRounds.tla, all its behaviours replayed into the real code, and recorded executions validated against spec/Trace.tla'
REWARDS = 'TLA+/TLC: exhaustive check of spec/MCRewards.tla (formulas of spec/Rewards.tla); values of the real reward functions and of recorded runs judged against it'
METRICS = 'TLA+/TLC: all small states of spec/MCMetrics.tla, random ones and those of recorded runs; the values of the real reporters judged against spec/Metrics.tla'
TWINS = 'TLA+/TLC: all interleavings of spec/MCTwins.tla performed with real simulations; recorded runs compared in spec/Observed.tla'
POPULATION = 'TLA+/TLC: all small stake files of spec/MCPopulation.tla and random configurations; the real initial populations judged against spec/Population.tla'
OUTPUTS = 'TLA+/TLC: the files of recorded executions judged against spec/Outputs.tla; tracker interleavings performed with real processes'
BATCH = 'TLA+/TLC: all orders of completion of spec/MCBatch.tla performed with the real batch runner; real batches judged against spec/Batch.tla'
SERIAL = 'TLA+/TLC: exhaustive check of spec/MCSerial.tla; its interleavings and kills performed with real processes, histories judged against spec/Serial.tla'
CONFIG = 'TLA+/TLC: exhaustive check of spec/MCConfig.tla; its sessions typed into the real main.py, parameters in force judged against spec/Config.tla'
SESSION = 'TLA+/TLC: exhaustive check of spec/MCSession.tla; its sessions held with the real interactive server, answers judged against spec/Session.tla'
OBSERVED = ('Every recorded observation is judged by TLC against the specification. Bounded to the grids, small models and random executions explored '
            '(counts in the evidence file); trusts TLC, the observers in harness/ and Java double arithmetic (Doubles.java).')
NOTE = ('Every state of every recorded execution satisfies the invariant / is a transition of the specification. Bounded to the executions '
        'and small models explored (counts in the evidence file); trusts TLC, the recorder harness/rec.py and Java double arithmetic (Doubles.java).')
CHECKS = [
    ('P01', STAKING, NOTE), ('P02', STAKING, NOTE), ('P03', STAKING, NOTE), ('P04', STAKING, NOTE), ('P05', REPLAYED, NOTE),
    ('P06', REWARDS, OBSERVED), ('P07', REWARDS, OBSERVED), ('P08', REPLAYED, NOTE), ('P09', REPLAYED, NOTE), ('P10', REPLAYED, NOTE), ('P11', STAKING, NOTE),
    ('P12', ROUNDS, NOTE), ('P13', ROUNDS, NOTE), ('P14', ROUNDS, NOTE), ('P15', TWINS, OBSERVED), ('P16', POPULATION, OBSERVED), ('P17', METRICS, OBSERVED),
    ('P18', OUTPUTS, OBSERVED), ('P19', BATCH, OBSERVED), ('P20', SERIAL, OBSERVED), ('P21', CONFIG, OBSERVED), ('P22', SESSION, OBSERVED), ('P23', REPLAYED, NOTE),
]
NOT = {}


def main():
    ids = [json.loads(line)['id'] for line in open('properties.jsonl')]
    claimed = [c[0] for c in CHECKS]
    m = dict(version=1, setup_cmd='/opt/venv/bin/python check.py --selftest',
             checks=[dict(property=p, quick_cmd='/opt/venv/bin/python check.py %s --tier quick' % p,
                          thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % p,
                          evidence_file='evidence/%s.json' % p, technique=t, level='model_checking', level_note=n)
                     for p, t, n in CHECKS],
             not_applicable=[dict(property=p, reason=NOT.get(p, 'specification and check still under construction'))
                             for p in ids if p not in claimed],
             notes='All checks: check.py <property> [--tier quick|thorough] [--seed N]; --replay FILE re-runs the recorded failing case. See DESIGN.md.')
    with open('MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
