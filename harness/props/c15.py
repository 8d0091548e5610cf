"""Reproducibility."""
import json
import os
import random
import subprocess
import sys

import numpy
from hypothesis import strategies as st

from harness import drive, gen
from harness.core import Experiment, HYPOTHESIS_SITE, REPO, VERIF, require

PROPERTY = 'C15'
RULE = ('long: as the rest, with hundreds of rounds of few stakeholders; large: as the rest, with 60 to 220 stakeholders and k up to 130; '
        'interleaved: two generated simulations; the first is run alone and again in alternation with the second; '
        'recorded: a generated simulation without a seed and its replay with the recorded seed; processes: several '
        'generated simulations run here and in another process. Non-trivial: pools were opened and more than 3 rounds '
        'passed. Distinct by case.')
ASSUMPTIONS = ['states are compared exactly']


def base(**kw):
    return gen.configs(n_max=16, k_max=6, max_rounds=10, metrics=True, **kw)


def fresh(cfg, n, **extra):
    return drive.make_sim(cfg, execution_id='run%d' % n, **extra)


@st.composite
def pair_cases(draw):
    # a stake file in the directory would serve both
    return {'a': draw(base()), 'b': draw(base(sources=('pareto', 'flat'))),
            'noise': draw(st.integers(0, 1000)), 'head_start': draw(st.integers(0, 4)),
            'alone_first': draw(st.booleans())}


def check_pair(case, ctx):
    ctx.fresh_dir()
    results = []
    for alone in ([True, False] if case['alone_first'] else [False, True]):
        if alone:
            sim = fresh(case['a'], 1)
            states = drive.course(sim)
        else:
            random.seed(case['noise'])
            numpy.random.seed(case['noise'])
            other = None
            if case['head_start'] % 2:
                other = fresh(case['b'], 2)
            sim = fresh(case['a'], 3)
            if other is None:
                other = fresh(case['b'], 2)
            for _ in range(case['head_start']):
                if other.running:
                    other.step()

            def between(_):
                if other.running:
                    other.step()

            states = drive.course(sim, between=between)
        results.append((states, drive.outcome(sim)))
    drive.require_same_course(results[0][0], results[1][0], 'the same simulation, alone and in alternation with another')
    d = drive.difference(results[0][1], results[1][1])
    require(d is None, 'the same simulation, alone and in alternation with another: results differ at %s', d)
    ctx.label('order=' + case['a']['agent_activation_order'], 'source=' + case['a']['stake_distr_source'])
    ctx.nontrivial(len(results[0][0]) > 3 and bool(results[0][0][-1][0]))


def check_recorded(cfg, ctx):
    directory = ctx.fresh_dir()
    cfg = dict(cfg)
    random.seed(cfg.pop('seed'))
    sim = fresh(cfg, 1, seed=None)
    with open(os.path.join(directory, 'output', sim.execution_id, 'initial-state-descriptors.json')) as f:
        seed = json.load(f)['Randomness seed']
    require(isinstance(seed, int) and seed >= 0, 'the recorded seed is %r', seed)
    first = drive.course(sim)
    random.seed(12345)
    again = fresh(cfg, 2, seed=seed)
    drive.require_same_course(first, drive.course(again), 'a simulation without a seed and with the recorded seed %d', seed)
    d = drive.difference(drive.outcome(sim), drive.outcome(again))
    require(d is None, 'a simulation without a seed and with the recorded seed %d: results differ at %s', seed, d)
    ctx.label('order=' + cfg['agent_activation_order'])
    ctx.nontrivial(len(first) > 3 and bool(first[-1][0]))


@st.composite
def different_cases(draw):
    n = draw(st.integers(12, 30))
    return {'cfg': {'n': n, 'k': draw(st.integers(2, 6)), 'agent_profile_distr': [1, 1, 1],
                    'stake_distr_source': 'pareto', 'agent_activation_order': 'random', 'max_iterations': 3},
            'seeds': draw(st.lists(st.integers(0, 9999999), min_size=2, max_size=4, unique=True))}


def check_different(case, ctx):
    """different seeds lead to different populations and activation orders"""
    ctx.fresh_dir()
    seen = []
    for i, seed in enumerate(case['seeds']):
        sim = fresh(dict(case['cfg'], seed=seed), i)
        log = []

        class Order(drive.Observer):
            def before_step(self, agent):
                log.append(agent.unique_id)

        with drive.observed(sim, Order()):
            sim.step()
        stakes = tuple(a.stake for a in sorted(sim.schedule.agents, key=lambda a: a.unique_id))
        costs = tuple(a.cost for a in sorted(sim.schedule.agents, key=lambda a: a.unique_id))
        for s, c, o in seen:
            require(s != stakes and c != costs, 'seeds %r lead to the same endowments', case['seeds'])
            require(o != log, 'seeds %r lead to the same activation order', case['seeds'])
        seen.append((stakes, costs, log))
    ctx.nontrivial()


WORKER = '''
import sys, json, io, os
sys.dont_write_bytecode = True
sys.path[:0] = [%r, %r]
sys.path.append(%r)
import warnings; warnings.simplefilter('ignore')
from harness import drive
out = sys.stdout
cfgs = json.load(sys.stdin)
answer = []
for i, cfg in enumerate(cfgs):
    sys.stdout = open(os.devnull, 'w')
    sim = drive.make_sim(cfg, execution_id='p%%d' %% i)
    states = drive.course(sim)
    answer.append(repr((states, drive.outcome(sim))))
sys.stdout = out
print(json.dumps(answer))
''' % (VERIF, REPO, HYPOTHESIS_SITE)


@st.composite
def process_cases(draw):
    return {'cfgs': draw(st.lists(base(), min_size=6, max_size=6)), 'hash_seed': draw(st.integers(1, 1000)),
            'reverse': draw(st.booleans())}


def check_processes(case, ctx):
    directory = ctx.fresh_dir()
    cfgs = case['cfgs']
    order = list(range(len(cfgs)))
    if case['reverse']:
        order.reverse()
    env = dict(os.environ, PYTHONHASHSEED=str(case['hash_seed']))
    other = os.path.join(directory, 'other')
    os.mkdir(other)
    p = subprocess.run([sys.executable, '-c', WORKER], input=json.dumps([cfgs[i] for i in order]), cwd=other, env=env,
                       capture_output=True, text=True)
    require(p.returncode == 0, 'the simulations failed in another process: %s', p.stderr[-600:])
    there = dict(zip(order, json.loads(p.stdout.strip().splitlines()[-1])))
    for i, cfg in enumerate(cfgs):
        sim = drive.make_sim(cfg, execution_id='q%d' % i)
        states = drive.course(sim)
        here = repr((states, drive.outcome(sim)))
        if here != there[i]:
            pos = next((j for j, (x, y) in enumerate(zip(here, there[i])) if x != y), min(len(here), len(there[i])))
            require(False, 'simulation %r ends differently in another process: ...%s / ...%s', cfg,
                    here[max(0, pos - 60):pos + 60], there[i][max(0, pos - 60):pos + 60])
        ctx.nontrivial(len(states) > 3)


EXPERIMENTS = [
    Experiment('interleaved', pair_cases, check_pair, 500, 15000),
    Experiment('recorded', lambda: gen.configs(n_max=16, k_max=6, max_rounds=10, metrics=True), check_recorded, 500,
               15000),
    Experiment('different', different_cases, check_different, 120, 3000),
    Experiment('processes', process_cases, check_processes, 16, 300),
    Experiment('long', lambda: gen.prolonged(gen.configs(metrics=True)), check_recorded, 40, 1200),
    Experiment('large', lambda: gen.large_configs(metrics=True), check_recorded, 64, 1500),
]
