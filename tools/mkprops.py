#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, pathlib
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=q), why_tests_cant=why,
        anchors=dict(files=files.split(), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
ST='logic/stakeholder.py'; SIM='logic/sim.py'; H='logic/helper.py'; PR='logic/stakeholder_profiles.py'; PO='logic/pool.py'
RUNQ=('Every configuration (agents, k, a0, reward scheme, profile mix, costs, thresholds, inactive stake, one or more phases), '
      'every activation order and every sequence of moves the agents make, after every single activation and round.')

p('P01','A pool\'s stake is always its pledge plus its recorded delegations',
  'At every moment of a run the total stake of every open pool equals its operator\'s pledge plus the sum of the delegations that it lists, all of which are positive, up to floating-point rounding. This holds through opening, updating, closing, turning private, redelegating and phase changes, in every activation order.',
  'schedules histories configurations', RUNQ,
  'The tests close one pool and run one execute_strategy on hand-built pools; stake is updated incrementally in five places, so only long histories that mix them can show a leak.',
  f'{PO} {ST}', [('update_delegation',PO),('update_pool / find_operator_move / remove_delegations',ST)],
  [('Pool.stake, Pool.pledge, Pool.delegators','the stake of a pool and where it comes from',PO)], ['after each agent step/advance'])
p('P02','All records of who owns and who delegates to which pool agree',
  'A pool is open in the system exactly when its owner\'s strategy lists it, and an agent\'s strategy records a delegation to a pool exactly when that pool lists the agent as a delegator, with the same amount. Pool ids are unique, are never reused for another pool and a pool never changes its owner.',
  'schedules histories configurations', RUNQ,
  'Delegations are stored twice (agent side, pool side), pools three times (system, owner, rankings) and staged decisions hold copies; only interleavings of staged decisions with closings, updates and redelegations can make them diverge.',
  f'{ST} {SIM}', [('execute_strategy / open_pool / close_pool / update_pool / remove_delegations',ST),('get_next_pool_id',SIM)],
  [('Strategy.owned_pools, Strategy.stake_allocations','agent\'s side','logic/strategy.py'),('Simulation.pools, Pool.delegators','system\'s side',SIM)], ['after each agent step/advance'])
p('P03','No agent ever commits more stake than it owns',
  'At every moment the pledges of an agent\'s pools plus its delegations to other pools never exceed the agent\'s own stake (up to rounding), its stake itself never changes during a run, and the stake held by all pools together never exceeds the stake of all agents.',
  'schedules histories configurations', RUNQ,
  'The tests look at single hypothetical moves; over-commitment needs a move that leaves an old commitment behind, i.e. a history.',
  f'{ST} {H}', [('find_delegation_for_operator, determine_pledge_per_pool, execute_strategy',ST),('calculate_pledge_per_pool',H)], (), ['after each agent step/advance'])
p('P04','Pools saturated by their own pledge are private and hold nobody else\'s stake',
  'Whenever an operator opens or updates a pool, the pool is private exactly if its pledge alone reaches its saturation threshold. A private pool never holds stake of other agents: when a pool turns private its delegators immediately get their stake back, including delegations that were decided but not yet executed, and no agent chooses to delegate to a private pool.',
  'schedules histories configurations', RUNQ,
  'No test turns a public pool private; whether delegations race with that depends on the activation order.',
  f'{ST}', [('update_pool, remove_delegations, determine_stake_allocations, find_operator_move',ST)], (), ['after each agent step/advance'])
p('P05','Both rankings list every open pool exactly once, best first',
  'At every moment the non-myopic ranking and the myopic ranking contain each open pool exactly once and no closed or outdated one. The former is ordered by desirability, then potential profit, then age, and the latter by desirability at the pool\'s current stake, then age, for the values in force at that moment; both always offer at least k + 1 places.',
  'schedules histories configurations', RUNQ,
  'Sorted containers silently break when an element\'s key changes in place; the tests never look at the rankings after a sequence of changes.',
  f'{ST} {SIM} {H}', [('remove/add around every stake change',ST),('change_phase, pool_comparison_key_myopic',SIM),('pool_comparison_key',H)], (), ['after each agent step/advance and phase change'])
p('P06','Pool rewards follow the selected scheme and stay within the pot',
  'For every selectable reward scheme the reward of a pool is the published formula of that scheme (Cardano, simplified, flat pledge benefit, CIP-7 curve, CIP-50) of its stake, its pledge, k and a0, with stake (and pledge) counting only up to saturation. Stake beyond saturation adds nothing, more stake never lowers the reward, and for any set of pools whose stake adds up to at most the total stake the rewards add up to at most the epoch\'s pot.',
  'inputs configurations', 'All stakes and pledges between 0 and 1, all k and a0, all five schemes, also after k or a0 have been changed during a run.',
  'The tests evaluate three of the schemes at a few points and with one k.',
  f'logic/reward_schemes.py {H}', [('calculate_pool_reward, get_pool_saturation_threshold, RSS_MAPPING','logic/reward_schemes.py')], (), ['calculate_pool_reward of a scheme taken from RSS_MAPPING'])
p('P07','A pool\'s profit is split completely and fairly between operator and delegators',
  'If a pool makes a profit, the operator receives the margin plus the pledge\'s proportional share of the rest and every delegator receives its proportional share of the rest, so that the shares of all members add up to exactly the profit. If it makes a loss, the operator bears it alone and delegators receive nothing, never a negative amount.',
  'inputs histories', 'All stakes, pledges, delegations, margins in [0,1], costs, schemes; and every pool in every state of a run.',
  'No test checks the split (the calculation of the operator\'s utility is only tested by an unfinished stub).',
  f'{H} {ST}', [('calculate_operator_reward_from_pool, calculate_delegator_reward_from_pool, calculate_*_utility_from_pool',H),('calculate_current_utility',ST)], (), ['utility functions', 'Stakeholder.calculate_current_utility'])
p('P08','Agents move exactly when a better option exceeds the thresholds',
  'When activated, an agent compares keeping its strategy, whose present and expected utility are both raised by the relative and the absolute threshold, with its best pure delegation and its best pool operation; it adopts the option with the highest utility, on ties the earliest of keep, delegate, operate. Non-myopic agents value pools at the stake they will attract given their rank, myopic ones at the stake they have now, and abstainers never act.',
  'histories configurations inputs', RUNQ,
  'test_stakeholder covers one delegation move; the comparison of the options is not tested at all and depends on the whole state of the system.',
  f'{ST} {PR} {H}', [('update_strategy, calculate_current_utility, calculate_expected_utility',ST),('calculate_operator_utility_from_strategy, calculate_delegator_utility_from_pool',PR),('calculate_non_myopic_pool_stake',H)], (), ['before/after Stakeholder.step'])
p('P09','Delegation follows the agent\'s ranking and only oversaturates as a last resort',
  'A delegating agent fills the public pools of others in the order of its own ranking, each up to saturation (not counting its own present delegation), and only if no room is left gives the rest to the best already saturated pool; it never delegates to its own or to private pools. A pool operator applies the same rule to exactly the stake that it cannot pledge.',
  'histories configurations', RUNQ,
  'One test with a handful of pools and unchanged ranking; private pools, own pools, redelegation and operators\' leftovers are not covered.',
  f'{ST}', [('determine_stake_allocations, find_delegation_move, find_delegation_for_operator',ST)], (), ['before/after Stakeholder.step'])
p('P10','Operators set number, pledge, cost, margins and kept pools by the rules',
  'An operator\'s plan has the number of pools at which its utility peaks in the documented search, pledges an equal share of its stake up to saturation in each, charges the average cost under economies of scale, and sets margins that just beat the competitor that each pool has to displace (zero where this is impossible). If it needs fewer pools it keeps its best ones, and it opens new pools only beyond those that it already has.',
  'histories configurations inputs', RUNQ,
  'Tests cover the cost formula and keeping pools on hand-made data; margins, pledge, number of pools and their combination over time are not checked.',
  f'{ST} {PR} {H}', [('choose_pool_strategy, determine_pools_to_keep, find_operator_move',ST),('calculate_margins_and_utility',PR),('calculate_cost_per_pool, calculate_pledge_per_pool, calculate_suitable_margin',H)], (), ['before/after Stakeholder.step'])
p('P11','Weighing options changes nothing until a decision is executed',
  'While an agent considers hypothetical moves, and whenever it decides to keep its strategy, pools, delegations, strategies and rankings of the system stay as they were (up to rounding); hypothetical pools never become visible to anyone. Executing a decision changes exactly what the decision says: pools and delegations of others are untouched, apart from delegations to pools that are closed or made private.',
  'schedules histories', RUNQ,
  'The code temporarily withdraws delegations, deep-copies own pools and creates draft pools while deciding; the tests do not compare the system before and after.',
  f'{ST}', [('determine_stake_allocations, determine_pools_to_keep (deepcopy), find_operator_move, execute_strategy',ST)], (), ['before/after Stakeholder.step and advance'])
p('P12','Every round activates every agent exactly once, in the configured order',
  'In each round every agent decides exactly once and acts on its decision exactly once: one by one in id order (sequential) or in a fresh random order (random), all deciding before any acts (simultaneous), or in fresh random groups of five in which all decide before any acts (semisimultaneous).',
  'schedules configurations', 'All four activation orders, all numbers of agents (also not divisible by five), all seeds, every round.',
  'No test runs a scheduler.',
  f'logic/activations.py {SIM} {ST}', [('SemiSimultaneousActivation.step','logic/activations.py'),('step / advance',ST),('agent_activation_orders',SIM)], (), ['sequence of step/advance calls'])
p('P13','Convergence and termination are declared exactly when due',
  'A round is idle if no agent changed its strategy; equilibrium is declared in a phase exactly when the configured number of consecutive idle rounds has been reached, and reported as the round in which that phase\'s last move was made. A run ends at the equilibrium of its last phase or after the configured maximum of rounds, whichever comes first, and then reports truthfully whether it converged; it never continues afterwards and never ends earlier.',
  'histories configurations', 'All patterns of idle and active rounds, all numbers of phases, idle rounds required and maximal rounds; batch, interactive and single runs.',
  'No test runs a simulation to its end.',
  f'{SIM}', [('step, run_model, has_converged',SIM)], [('consecutive_idle_steps, equilibrium_steps, running','progress of the run',SIM)], ['Simulation.step'])
p('P14','A phase change takes full effect at once and nothing else changes',
  'When a phase reaches equilibrium and another one is left, every parameter with a value for the new phase takes it (the others keep theirs), including k adjusted for known inactive stake and the saturation threshold that follows from it; potential profits, desirabilities and both rankings reflect the new parameters before the next agent acts, and counting of idle rounds starts anew. Pools, owners, pledges, margins and delegations are carried over unchanged, and the change is recorded at its round.',
  'histories configurations', 'All sequences of k, a0 and other parameters over phases (growing, shrinking, shorter lists than phases), all schemes, all states in which a phase may end.',
  'No test has more than one phase.',
  f'{SIM} logic/reward_schemes.py', [('change_phase',SIM),('k setter','logic/reward_schemes.py')], (), ['before/after the round in which a phase ends'])
p('P15','The same seed and parameters always give the same run',
  'Two executions with the same parameters and seed produce the same population, moves, metrics and final state, regardless of other simulations run before, after or in between in the same process, of the output location and identifier, of whether the run is made in one go or round by round, and of whether parameters come from arguments or from a file. An execution without a seed records the one that it chose, with which it can be repeated, and different seeds give different populations.',
  'histories configurations inputs', 'All configurations and seeds, all interleavings of several simulations in one process.',
  'No test repeats a run.',
  f'{SIM} {H}', [('seed handling in __init__, initialize_agents',SIM),('generate_* / read_stake_distr_from_file',H)], (), ['recorded runs'])
p('P16','The initial population matches the configuration',
  'A new simulation has exactly n agents with positive stakes proportional to the configured distribution (Pareto with the given shape, flat, disparity, or the given file), which add up to the active fraction of a total stake of one; costs lie between the given minimum and maximum and are spread over that range. Only profiles with positive weight occur, in proportion to the weights, and there are no pools or strategies in place.',
  'configurations inputs', 'All n, all distributions and parameters, inactive fractions, profile weights and seeds.',
  'Tests check the lengths of generated lists and the file reader.',
  f'{SIM} {H}', [('initialize_agents, normalize_agent_stake',SIM),('generate_stake_distr_*, generate_cost_distr_unfrm, read_stake_distr_from_file',H)], (), ['after construction'])
p('P17','Every tracked metric equals its definition on the state it is taken from',
  'In every round each selected metric (all documented ones except the solver-based minimum aggregate pledge) equals its documented definition evaluated on the pools and agents at the beginning of that round; without any pools the metrics have their neutral values. The series has exactly one entry per metric and round, under the metric\'s documented name and id.',
  'histories inputs configurations', 'All states reachable in runs and synthetic ones (ties, single operators, equal stakes, more or fewer operators than k), all subsets of metrics.',
  'A few metrics are tested on one or two mocked states.',
  f'logic/model_reporters.py {SIM} {H}', [('REPORTER_IDS, ALL_MODEL_REPORTEERS, get_*','logic/model_reporters.py'),('datacollector',SIM),('calculate_ranks',H)], (), ['datacollector after each round'])
p('P18','The output files describe the run faithfully',
  'Upon termination the run\'s folder contains the documented files, and every value in them (parameters, seed and initial descriptors, metrics per round, final pools, stakeholders with their status, final descriptors, pickled object, tracker row, one figure per plottable metric, showing its series, if graphs are on) equals the corresponding value of the simulation. A run that has not terminated has written no final-state files.',
  'configurations histories', 'All configurations, converged and unconverged runs, runs with abstainers, without pools, with several phases.',
  'No test looks at any output file.',
  f'{SIM} {H}', [('export_*, append_to_experiment_tracker, save_model_state_pkl, wrap_up_execution',SIM),('export_csv_file, export_json_file, write_to_csv',H)], (), ['output folder'])
p('P19','A batch run covers every combination exactly once and reports it faithfully',
  'A batch run executes exactly one simulation per combination of the given values and iteration, with the seeds counted from the initial seed, each in its own folder below the batch folder. The returned results and the single aggregate file have one row per execution (under one header) that holds its varied parameters and the metrics of its last recorded round, regardless of the number of processes and the order in which they finish.',
  'configurations schedules', 'All parameter grids, iterations, collection periods and numbers of processes; all orders of completion.',
  'No test makes a batch run.',
  f'custom_batchrunner.py batch-run.py', [('custom_batch_run, _make_model_kwargs, _model_run_func','custom_batchrunner.py')], (), ['custom_batch_run results and files'])
p('P20','Every execution gets a fresh serial number and folder, even after crashes',
  'Each execution that is not given a serial number gets one greater than any handed out before in that working directory and creates a new folder of its own, never writing into an existing one. If an execution is killed at any point, later executions still start and still get a fresh number.',
  'crash_points schedules histories', 'All sequences of single and batch executions, all points at which one can be interrupted; overlapping executions.',
  'One test writes and reads back one number.',
  f'{H} {SIM} custom_batchrunner.py', [('read_seq_id, write_seq_id',H),('directory creation in __init__',SIM)], [('sequence.dat','last serial number handed out',H)], ['file system operations of start-up'])
p('P21','Command line and file parameters reach the simulation unchanged',
  'Every documented command-line option of main.py, given or left at its documented default, takes effect in the simulation with exactly that value; values outside the documented ranges are rejected before anything is run or written. With input from file, the simulation takes all its parameters from args.json instead, and the args.json that an execution with a seed exports leads to the same execution again.',
  'inputs configurations', 'All combinations of options and values, valid and invalid; all exported parameter files.',
  'No test runs the command line or reads parameters from a file.',
  f'main.py {H} {SIM}', [('add_script_arguments, positive_int, non_negative_*, fraction, read_args_from_file',H),('main','main.py'),('__init__',SIM)], (), ['main.py with Simulation observed'])
p('P22','An interactive session steps, ends and resets the simulation on request',
  'Each step request advances the current simulation by exactly one round and answers with the charts of its latest recorded round, until it has ended, after which the answer is the end message and nothing advances. A reset, and with the server class of the repository every submitted value of an editable parameter, starts a new simulation with the current values of all parameters (the last submitted ones, sliders within their range); other messages change nothing, and every chart has data once a round was recorded.',
  'histories', 'All sequences of messages, all parameter values, sessions that reach the end of the simulation.',
  'No test touches the interactive part.',
  'interactiveViz/runViz.py interactiveViz/myModularVisualization.py interactiveViz/myChartModule.py interactiveViz/bubbleChartModule.py interactiveViz/stackedChartModule.py', [('MySocketHandler.on_message, reset_model, render_model','interactiveViz/myModularVisualization.py'),('render','interactiveViz/*ChartModule.py')], (), ['messages and replies'])
p('P23','Each pool\'s advertised profitability is always up to date',
  'At every moment the potential profit of every open pool equals the reward that it would get at saturation under the parameters in force minus its cost, and its desirability equals that profit less the margin (never negative). All pools of one operator that were set up together have the same pledge and cost, and margins always lie between zero and one.',
  'histories configurations', RUNQ,
  'Derived values are stored on the pool and refreshed by hand in several places; tests build pools directly and never change them afterwards.',
  f'{PO} {ST} {SIM} {H}', [('margin setter, set_profit, set_desirability',PO),('find_operator_move',ST),('change_phase',SIM),('calculate_potential_profit, calculate_pool_desirability',H)], (), ['after each agent step/advance and phase change'])
out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(x, ensure_ascii=False) + '\n' for x in P))
import sys
for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
print(len(P))
