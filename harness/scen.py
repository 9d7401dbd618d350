"""Scenarios: configurations of the simulation to be run and recorded."""
import random


def near(rnd, x, chance=0.3):
    """x, or now and then some number near it that is not round."""
    return x * (0.9 + 0.2 * rnd.random()) if x and rnd.random() < chance else x


ORDERS = ['random', 'sequential', 'simultaneous', 'semisimultaneous']


def core(seed, count, focus=''):
    """Configurations that together reach all branches of the decision making: few agents with large stakes compared to
    the saturation threshold, so that saturation, private pools, splitting, closing and redelegation are common."""
    rnd = random.Random(seed * 7919 + 17)
    out = []
    for i in range(count):
        scheme = rnd.choice([0, 0, 0, 1, 2, 3, 4])
        n = rnd.choice([4, 5, 6, 7, 8, 9, 10, 12, 15, 20])
        k = rnd.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
        if rnd.random() < 0.04:
            k = rnd.choice([20, 30, 49, 93, 98, 99])
            n = min(n, 200 // k + 2)
        a0 = rnd.choice([0.0, 0.1, 0.3, 0.3, 0.5, 1.0, 2.0])
        if scheme == 4:
            a0 = rnd.choice([2.0, 5.0, 20.0, 50.0])
        mix = rnd.choice([[1, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0], [2, 1, 1], [1, 0, 1]])
        cmax = rnd.choice([1e-4, 1e-3, 5e-3, 2e-2, 5e-2])
        kw = dict(
            n=n, k=k, a0=near(rnd, a0), reward_scheme=scheme, agent_profile_distr=mix, seed=rnd.randrange(10 ** 6),
            cost_min=rnd.choice([cmax / 10, cmax / 2, 1e-5]), cost_max=near(rnd, cmax),
            extra_pool_cost_fraction=near(rnd, rnd.choice([0.4, 0.4, 0.1, 0.8, 1.2, 0.0])),
            pareto_param=near(rnd, rnd.choice([1.2, 2.0, 2.0, 3.0])),
            stake_distr_source=rnd.choice(['pareto', 'pareto', 'pareto', 'flat', 'disparity']),
            agent_activation_order=ORDERS[i % 4],
            relative_utility_threshold=near(rnd, rnd.choice([0, 0, 0, 0.01, 0.1])),
            absolute_utility_threshold=near(rnd, rnd.choice([1e-9, 1e-9, 1e-6, 1e-4, 0])),
            iterations_after_convergence=rnd.choice([1, 2, 3]), max_iterations=rnd.choice([8, 12, 16, 24]),
            generate_graphs=False, execution_id='x', seq_id=i + 1, metrics=[1, 2])
        if kw['stake_distr_source'] == 'disparity' and n < 5:
            kw['n'] = 6
        if rnd.random() < 0.25:
            kw['inactive_stake_fraction'] = near(rnd, rnd.choice([0.1, 0.25, 0.5]))
            kw['inactive_stake_fraction_known'] = rnd.random() < 0.5
        if rnd.random() < (0.8 if focus == 'P14' else 0.35):
            phases = rnd.choice([2, 2, 3, 3, 4])
            if rnd.random() < 0.7:
                kw['k'] = [k] + [rnd.choice([1, 2, 3, 5, 8, 12]) for _ in range(rnd.choice([phases - 1, phases - 1, 1]))]
            if rnd.random() < 0.5 or not isinstance(kw['k'], list):
                kw['a0'] = [a0] + [near(rnd, rnd.choice([2.0, 10.0, 30.0] if scheme == 4 else [0.0, 0.2, 0.5, 1.5]))
                                   for _ in range(rnd.choice([1, phases - 1]))]
            if rnd.random() < 0.2:
                kw['absolute_utility_threshold'] = [kw['absolute_utility_threshold'], 1e-5, 0][:rnd.choice([2, phases])]
            if rnd.random() < 0.2:
                kw['relative_utility_threshold'] = [kw['relative_utility_threshold'], 0.05, 0][:rnd.choice([2, phases])]
            if rnd.random() < 0.2:
                kw['extra_pool_cost_fraction'] = [kw['extra_pool_cost_fraction'], 0.6, 0.2][:rnd.choice([2, phases])]
            kw['max_iterations'] = rnd.choice([20, 30, 40])
            if focus == 'P14' and rnd.random() < 0.6:      # more phases are reached
                kw['iterations_after_convergence'] = 1
                kw['max_iterations'] = 60
        out.append(kw)
    return out


def large(seed, count):
    """Configurations with more agents and pools, for a few rounds."""
    rnd = random.Random(seed * 7877 + 5)
    out = []
    for i in range(count):
        k = rnd.choice([10, 15, 20, 30, 49])
        n = rnd.choice([30, 40, 50, 60]) if k < 49 else 30
        cmax = rnd.choice([1e-4, 1e-3, 3e-3])
        out.append(dict(
            n=n, k=k, a0=rnd.choice([0.0, 0.3, 0.3, 1.0]), reward_scheme=rnd.choice([0, 0, 0, 1, 2, 3]),
            agent_profile_distr=rnd.choice([[1, 0, 0], [5, 1, 0], [5, 3, 1]]), seed=rnd.randrange(10 ** 6), cost_min=cmax / 10, cost_max=cmax,
            extra_pool_cost_fraction=rnd.choice([0.4, 0.1, 0.8]), pareto_param=rnd.choice([1.2, 2.0]), stake_distr_source=rnd.choice(['pareto', 'pareto', 'flat']),
            agent_activation_order=ORDERS[i % 4], absolute_utility_threshold=rnd.choice([1e-9, 1e-6]), iterations_after_convergence=2,
            max_iterations=rnd.choice([4, 6, 8]), generate_graphs=False, execution_id='x', seq_id=i + 1, metrics=[1, 2]))
    return out


def listed(rnd, n):
    """Stakes of n agents for a file: equal or related by simple fractions, far apart, or tiny next to others."""
    kind = rnd.randrange(5)
    if kind == 0:
        return [rnd.choice([1, 1, 2, 4]) for _ in range(n)]
    if kind == 1:
        v = [rnd.choice([0.125, 0.25, 0.5]) for _ in range(n)]
        return v if rnd.random() < 0.5 else [x + 0.0625 * rnd.randrange(2) for x in v]
    if kind == 2:
        return [10.0 ** -rnd.choice([0, 0, 1, 3, 6, 7, 8]) * rnd.randint(1, 9) for _ in range(n)]
    if kind == 3:
        return [1000.0] + [rnd.randint(1, 5) for _ in range(n - 1)]
    tiny = rnd.choice([3e-7, 3e-8, 1e-9])
    return [rnd.choice([1.0, 1.0, 3.0, tiny, 2 * tiny]) for _ in range(n)]


def with_files(seed, scenarios, chance=0.08):
    """Some of the scenarios with stakes read from a file."""
    rnd = random.Random(seed)
    for kw in scenarios:
        if rnd.random() < chance:
            kw['stake_distr_source'] = 'file'
            kw['_file'] = listed(rnd, kw['n'])
    return scenarios
