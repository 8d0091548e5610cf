"""Robustness."""
import csv
import json
import math
import os

from hypothesis import strategies as st

from harness import drive, gen
from harness.core import Experiment, require

PROPERTY = 'C24'
RULE = ('runs: one simulation with any admissible parameters, run to its end, whose recorded values are examined; wide: '
        'the same with extreme parameters; graphs: the same with graphs. Non-trivial: more than one round passed. '
        'Distinct by case.')
ASSUMPTIONS = ['not covered: a completely inactive system, CIP-50 without pledge leverage together with the average '
               'saturation rate (undefined), Pareto shapes below 0.1, the slow min-aggregate pledge metric (see C18)',
               'a run counts as endless after 90 s of CPU time (normal: well below 2 s)']


def finite(v):
    if isinstance(v, bool) or v is None:
        return True
    if isinstance(v, dict):
        return all(finite(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return all(finite(x) for x in v)
    if isinstance(v, str):
        return True
    return math.isfinite(v)


def run(cfg, ctx):
    directory = ctx.fresh_dir()
    sim = drive.make_sim(cfg)
    calls = 0
    while sim.running:
        sim.step()
        calls += 1
        require(calls <= cfg['max_iterations'] + 1, 'still running after %d rounds', calls)
    for name, values in sim.datacollector.model_vars.items():
        require(finite(drive.plain(values)), 'metric %s has the values %r', name, values)
    for p in sim.pools.values():
        require(finite([p.stake, p.pledge, p.cost, p.margin, p.potential_profit, p.desirability]),
                'pool %s has stake %r, pledge %r, cost %r, margin %r, potential profit %r, desirability %r', p.id,
                p.stake, p.pledge, p.cost, p.margin, p.potential_profit, p.desirability)
    out = os.path.join(directory, 'output', sim.execution_id)
    for name in os.listdir(out):
        path = os.path.join(out, name)
        if name.endswith('.csv'):
            with open(path, newline='') as f:
                for row in csv.reader(f):
                    for cell in row:
                        require(cell.strip().lower() not in ('nan', 'inf', '-inf'), '%s contains %r', name, row)
        elif name.endswith('.json'):
            with open(path) as f:
                require(finite(json.load(f)), '%s contains numbers that are not finite', name)
    ctx.label('scheme=%d' % cfg['reward_scheme'], 'source=' + cfg['stake_distr_source'],
              'order=' + cfg['agent_activation_order'])
    if not sim.pools:
        ctx.label('no pools in the end')
    if cfg['n'] == 1:
        ctx.label('one stakeholder')
    ctx.nontrivial(sim.schedule.steps > 1)
    return out, sim


def check(cfg, ctx):
    run(cfg, ctx)


@st.composite
def wide_cases(draw):
    cfg = draw(gen.configs(n_min=1, n_max=12, k_max=6, metrics=True, max_rounds=8))
    scheme = cfg['reward_scheme']
    cfg['n'] = n = draw(gen.mix((st.integers(1, 3), 3), (st.integers(1, 60), 2)))
    if cfg['stake_distr_source'] == 'disparity' and n < 4:
        cfg['stake_distr_source'] = 'flat'
    if cfg['stake_distr_source'] == 'file':
        cfg['file_stakes'] = draw(st.lists(gen.mix((gen.log_float(-12, 12), 1), (st.just(1), 1)), min_size=n,
                                           max_size=n))
    if cfg['stake_distr_source'] == 'pareto':
        cfg['pareto_param'] = draw(st.sampled_from([0.1, 0.2, 0.5, 1, 2, 10, 100]))
    k = gen.mix((st.integers(1, 4), 2), (st.integers(1, 40), 2))
    cfg['k'] = draw(gen.phases(k, draw(st.booleans()), 4))
    a0 = gen.mix((st.sampled_from([0, 1e-6, 0.001, 1, 10, 1000]), 3), (gen.dec(0, 1, 2), 1))
    cfg['a0'] = draw(gen.phases(a0, draw(st.booleans()), 4))
    if scheme == 4 and 8 in cfg['metrics']:
        cfg['metrics'] = [m for m in cfg['metrics'] if m != 8] or [1]
    lo = draw(st.sampled_from([0, 0, 1e-12, 1e-6, 1e-3, 0.1, 1, 50]))
    cfg['cost_min'], cfg['cost_max'] = lo, draw(st.sampled_from([lo, lo * 2, lo + 1e-6, lo + 1]))
    cfg['extra_pool_cost_fraction'] = draw(st.sampled_from([0, 0.4, 1, 3, 100]))
    cfg['agent_profile_distr'] = draw(gen.mix((st.just([0, 0, 1]), 1), (gen.profile_weights(), 5)))
    cfg['absolute_utility_threshold'] = draw(st.sampled_from([0, 1e-9, 1e-3, 10]))
    cfg['relative_utility_threshold'] = draw(st.sampled_from([0, 0.1, 10]))
    cfg['inactive_stake_fraction'] = draw(st.sampled_from([0, 0, 0.5, 0.99]))
    most = max(cfg['k']) if isinstance(cfg['k'], list) else cfg['k']
    if most / (1 - cfg['inactive_stake_fraction']) <= 200:  # a known fraction multiplies the number of pools
        cfg['inactive_stake_fraction_known'] = draw(st.booleans())
    else:
        cfg['inactive_stake_fraction_known'] = False
    return cfg


@st.composite
def many_cases(draw):
    """many pools: the decision procedures with a large k"""
    n = draw(st.integers(10, 80))
    return {'n': n, 'k': draw(st.integers(20, 150)), 'a0': draw(gen.dec(0, 1, 1)), 'reward_scheme':
            draw(st.sampled_from([0, 0, 1, 2, 3])), 'stake_distr_source': draw(st.sampled_from(['pareto', 'flat'])),
            'seed': draw(gen.seeds), 'max_iterations': 2, 'agent_activation_order': draw(st.sampled_from(gen.ORDERS)),
            'agent_profile_distr': draw(gen.profile_weights()), 'extra_pool_cost_fraction': draw(gen.dec(0, 1, 1)),
            'cost_min': draw(st.sampled_from([0, 1e-6, 1e-4])), 'cost_max': draw(st.sampled_from([1e-4, 1e-3])),
            'metrics': [1, 9]}


def run_cases():
    return gen.configs(n_min=1, n_max=25, k_max=10, metrics=True, max_rounds=10,
                       profiles=gen.mix((gen.profile_weights(), 9), (st.just([0, 0, 1]), 1)))


def check_runs(cfg, ctx):
    if cfg['reward_scheme'] == 4:
        cfg = dict(cfg, metrics=[m for m in cfg['metrics'] if m != 8] or [1])
    run(cfg, ctx)


@st.composite
def graph_cases(draw):
    cfg = draw(gen.configs(n_min=1, n_max=10, k_max=5, metrics=True, max_rounds=6,
                           schemes=(0, 1, 2, 3)))
    cfg['metrics'] = draw(st.lists(st.sampled_from([i for i in range(1, 31) if i != 11]), min_size=1, max_size=4,
                                   unique=True))
    return cfg


def check_graphs(cfg, ctx):
    out, sim = run(dict(cfg, generate_graphs=True), ctx)
    figures = os.listdir(os.path.join(out, 'figures'))
    for name, values in sim.datacollector.model_vars.items():
        value = drive.plain(values[0])
        if isinstance(value, dict):
            continue
        want = 'poolDynamics-' if isinstance(value, list) else name + '.png'
        require(any(want in f for f in figures), 'no graph of %s among %r', name, figures)
    for f in figures:
        require(os.path.getsize(os.path.join(out, 'figures', f)) > 0, 'graph %s is empty', f)


EXPERIMENTS = [
    Experiment('runs', run_cases, check_runs, 1200, 30000),
    Experiment('wide', wide_cases, check, 1200, 30000),
    Experiment('many pools', many_cases, check, 48, 1500),
    Experiment('graphs', graph_cases, check_graphs, 32, 1000),
]
