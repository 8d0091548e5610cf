"""Activation orders."""
import itertools
import math

from hypothesis import strategies as st

from harness import drive, gen
from harness.core import Experiment, require

PROPERTY = 'C14'
RULE = ('large: rounds, with up to 400 stakeholders; crowd: with up to 2500 stakeholders who all abstain; '
        'rounds: one generated simulation whose activations are recorded and parsed; uniform: one simulation of idle '
        'stakeholders over hundreds of rounds whose orders are compared with a uniform distribution. Non-trivial: '
        '(rounds) more than 5 stakeholders and a move, (uniform) always. Distinct by case.')
ASSUMPTIONS = ['statistical deviations count only if their probability is below 1e-9 per test']


class Log(drive.Observer):
    def __init__(self):
        self.events = []
        self.rounds = []
        self.planned = self.executed = 0

    def before_round(self, sim):
        self.events = []

    def before_step(self, agent):
        self.events.append(('step', agent.unique_id))

    def before_advance(self, agent):
        self.events.append(('advance', agent.unique_id))
        self.before = agent.strategy
        self.plan = agent.new_strategy
        if self.plan is not None:
            self.planned += 1

    def after_advance(self, agent):
        require(agent.new_strategy is None, 'the plan of agent %s is still pending after it was executed',
                agent.unique_id)
        if self.plan is not None:
            require(agent.strategy is self.plan or (agent.strategy.stake_allocations == self.plan.stake_allocations and
                                                    set(agent.strategy.owned_pools) == set(self.plan.owned_pools)),
                    'agent %s executed something else than its plan', agent.unique_id)
        else:
            require(agent.strategy is self.before, 'agent %s changed its strategy without a plan', agent.unique_id)

    def after_round(self, sim):
        if self.events:
            self.rounds.append(self.events)
        for agent in sim.schedule.agents:
            require(agent.new_strategy is None, 'a plan of agent %s is pending after the round', agent.unique_id)


def check_round(order, events, ids):
    steps = [i for e, i in events if e == 'step']
    advances = [i for e, i in events if e == 'advance']
    require(sorted(steps) == ids, '%s: agents activated in a round: %r instead of each of %d once', order, steps, len(ids))
    require(sorted(advances) == ids, '%s: agents executed their plans: %r instead of each of %d once', order, advances,
            len(ids))
    if order in ('sequential', 'random'):
        for i in range(0, len(events), 2):
            require(events[i][0] == 'step' and events[i + 1] == ('advance', events[i][1]),
                    '%s: agent %s did not execute its plan at once: %r', order, events[i][1], events)
        if order == 'sequential':
            require(steps == ids, 'sequential: the order is %r', steps)
    elif order == 'simultaneous':
        require([e for e, _ in events] == ['step'] * len(ids) + ['advance'] * len(ids),
                'simultaneous: planning and executing are mixed: %r', events)
    else:
        left = len(ids)
        pos = 0
        while left:
            g = min(5, left)
            block = events[pos:pos + 2 * g]
            require([e for e, _ in block] == ['step'] * g + ['advance'] * g,
                    'semisimultaneous: a group of %d agents is expected, found %r', g, events)
            require(sorted(i for e, i in block if e == 'step') == sorted(i for e, i in block if e == 'advance'),
                    'semisimultaneous: a group plans and another one executes: %r', block)
            pos += 2 * g
            left -= g
    return steps


@st.composite
def round_cases(draw):
    return draw(gen.configs(n_max=26, k_max=6))


def check_rounds(cfg, ctx):
    ctx.fresh_dir()
    sim = drive.make_sim(cfg)
    log = Log()
    drive.run_rounds(sim, log, limit=300)
    order = cfg['agent_activation_order']
    ids = list(range(cfg['n']))
    orders = [check_round(order, events, ids) for events in log.rounds]
    require(len(orders) == sim.schedule.steps, 'there were %d rounds of activity, but %d are counted', len(orders),
            sim.schedule.steps)
    ctx.label('order=' + order)
    ctx.nontrivial(cfg['n'] > 5 and log.planned > 0)
    if order in ('random', 'semisimultaneous') and len(orders) >= 2 and cfg['n'] >= 14:
        # 14! orders: a repetition cannot happen by chance
        require(len({tuple(o) for o in orders}) == len(orders), '%s: the order of a round was repeated', order)
        require(orders[0] != ids, '%s: the first order is that of the ids', order)


@st.composite
def uniform_cases(draw):
    return {'n': draw(st.sampled_from([2, 3, 4, 6, 7, 10, 11, 13])), 'seed': draw(st.integers(0, 9999999)),
            'order': draw(st.sampled_from(['random', 'random', 'semisimultaneous'])), 'rounds': 600}


def chi2_limit(df):
    """the value a chi-square variable exceeds with a probability of less than 1e-9"""
    # Laurent-Massart: P(X >= df + 2 sqrt(df x) + 2x) <= exp(-x)
    x = math.log(1e9)
    return (df + 2 * math.sqrt(df * x) + 2 * x) * 1.15


def chi2(counts, expected):
    return sum((c - expected) ** 2 / expected for c in counts)


def check_uniform(case, ctx):
    ctx.fresh_dir()
    n, rounds = case['n'], case['rounds']
    cfg = {'n': n, 'k': 2, 'seed': case['seed'], 'agent_profile_distr': [0, 0, 1], 'max_iterations': rounds,
           'iterations_after_convergence': rounds + 1, 'agent_activation_order': case['order']}
    sim = drive.make_sim(cfg)
    log = Log()
    drive.run_rounds(sim, log, limit=rounds + 2)
    ids = list(range(n))
    orders = [check_round(case['order'], events, ids) for events in log.rounds]
    require(len(orders) == rounds, '%d rounds instead of %d', len(orders), rounds)
    # every agent is at every place equally often
    count = [[0] * n for _ in range(n)]
    for o in orders:
        for place, agent in enumerate(o):
            count[place][agent] += 1
    for place in range(n):
        x = chi2(count[place], rounds / n)
        require(x <= chi2_limit(n - 1), '%s: agents at place %d over %d rounds: %r', case['order'], place, rounds,
                count[place])
    # every agent precedes every other half of the time, and the order of a round tells nothing about the next
    for a, b in itertools.combinations(ids, 2):
        c = sum(1 for o in orders if o.index(a) < o.index(b))
        require(chi2([c, rounds - c], rounds / 2) <= chi2_limit(1), '%s: agent %d precedes agent %d in %d of %d rounds',
                case['order'], a, b, c, rounds)
        same = sum(1 for o, p in zip(orders, orders[1:]) if (o.index(a) < o.index(b)) == (p.index(a) < p.index(b)))
        require(chi2([same, rounds - 1 - same], (rounds - 1) / 2) <= chi2_limit(1),
                '%s: agents %d and %d keep their relative order in %d of %d rounds', case['order'], a, b, same,
                rounds - 1)
    if n <= 4:
        perms = {p: 0 for p in itertools.permutations(ids)}
        for o in orders:
            perms[tuple(o)] += 1
        x = chi2(perms.values(), rounds / len(perms))
        require(x <= chi2_limit(len(perms) - 1), '%s: orders over %d rounds: %r', case['order'], rounds, perms)
    if case['order'] == 'semisimultaneous' and n > 5:
        for a, b in itertools.combinations(ids, 2):
            c = sum(1 for o in orders if o.index(a) < 5 and o.index(b) < 5)
            p = 5 * 4 / (n * (n - 1))
            require((c - rounds * p) ** 2 / (rounds * p * (1 - p)) <= chi2_limit(1),
                    'agents %d and %d are together in the first group in %d of %d rounds, %.1f expected', a, b, c, rounds,
                    rounds * p)
    ctx.label('order=' + case['order'])
    ctx.nontrivial()


@st.composite
def crowd_cases(draw):
    return {'n': draw(gen.mix((st.integers(27, 400), 2), (st.integers(400, 2500), 2))), 'k': 5, 'seed': draw(gen.seeds),
            'agent_profile_distr': [0, 0, 1], 'max_iterations': 3, 'iterations_after_convergence': 9,
            'agent_activation_order': draw(st.sampled_from(gen.ORDERS + ['semisimultaneous']))}


def check_crowd(cfg, ctx):
    check_rounds(cfg, ctx)
    ctx.nontrivial()


EXPERIMENTS = [
    Experiment('crowd', crowd_cases, check_crowd, 64, 1500),
    Experiment('rounds', round_cases, check_rounds, 1200, 30000),
    Experiment('uniform', uniform_cases, check_uniform, 80, 2000),
    Experiment('large', lambda: gen.large_configs(n=(27, 400), max_rounds=5, multi_phase=False), check_rounds, 48, 2000),
]
