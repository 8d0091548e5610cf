"""Building blocks that variants of the simulation are made of."""
import math
import re
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from harness import drive, gen, histories, inv
from harness.core import Experiment, Skip, require
from harness.drive import need
from harness.props import c16

PROPERTY = 'C32'
RULE = ('distributions: generated numbers of agents, bounds, numbers of bands, means, deviations, truncation factors and '
        'seeds; states: histories of generated strategies, followed by revisions of the perceived active stake, drafts of '
        'strategies without given margins that are discarded, and searches for target pools; notation: generated numbers '
        'and digits. Non-trivial: (distributions) at least 4 agents and distinct bounds, (states) at least two pools, '
        '(notation) a number that is not a power of 10; groups: generated numbers of agents, sizes of groups and rounds, '
        'non-trivial if there is more than one group of more than one. Distinct by case.')
ASSUMPTIONS = ['truncation factors are at most a third of the number of agents, as no sample satisfies others',
               'the margin for pools of no given margin aims at the pool at place k of the ranking of the agent',
               'shares of samples within parts of the range may deviate by 8 standard deviations']


# ------------------------------------------------------------------------------------------------------ distributions
@st.composite
def distribution_cases(draw):
    low = draw(gen.mix((gen.log_float(-6, 0), 3), (gen.dec(0, 1, 3), 2), (st.just(0), 1)))
    width = draw(gen.mix((gen.log_float(-6, 0), 4), (gen.dec(0, 1, 2), 1), (st.just(0), 1)))
    return {'n': draw(gen.mix((st.integers(3, 12), 2), (st.integers(3, 200), 2))), 'low': low, 'high': low + width,
            'bands': draw(gen.mix((st.integers(1, 5), 3), (st.integers(1, 40), 1))),
            'c': draw(gen.mix((st.integers(0, 10), 3), (st.integers(0, 200), 1))),
            'mean': draw(gen.mix((gen.dec(0, 1, 2), 4), (gen.dec(-1, 2, 1), 1))),
            'stddev': draw(gen.mix((gen.log_float(-2, 1), 3), (gen.dec(0.1, 1, 1), 2))),
            'shape': draw(gen.mix((gen.dec(0.5, 5, 1), 3), (st.integers(1, 10), 1))),
            'factor_share': draw(gen.mix((gen.dec(0.05, 1, 2), 5), (st.just(0), 1))),
            'seed': draw(st.integers(0, 9999999))}


def floats(values, n, what):
    values = [float(x) for x in values]
    require(len(values) == n, '%s: %d values instead of %d', what, len(values), n)
    return values


def within(values, low, high, what):
    slack = 1e-12 * max(abs(low), abs(high))
    for x in values:
        require(low - slack <= x <= high + slack, '%s: the value %r is outside of [%r, %r]', what, x, low, high)


def phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def check_distributions(case, ctx):
    bands_fn, manual, disparity, normal, pareto = need(
        'logic.helper', 'generate_cost_distr_bands', 'generate_cost_distr_bands_manual', 'generate_cost_distr_disparity',
        'generate_cost_distr_nrm', 'generate_stake_distr_pareto')
    n, low, high, bands, seed = case['n'], case['low'], case['high'], case['bands'], case['seed']
    what = 'costs in %d bands of [%r, %r], seed %r' % (bands, low, high, seed)
    got = floats(bands_fn(num_agents=n, low=low, high=high, num_bands=bands, seed=seed), n, what)
    within(got, low, high, what)
    require(len(set(got)) <= bands, '%s: %d distinct values', what, len(set(got)))
    again = floats(bands_fn(num_agents=n, low=low, high=high, num_bands=bands, seed=seed), n, what)
    require(again == got, '%s: differs the second time', what)
    if bands > 1 and n >= 40 and high > low * 1.001:
        require(len(set(got)) > 1, '%s: a single value for %d agents', what, n)

    what = 'manual costs within [%r, %r]' % (low, high)
    got = floats(manual(num_agents=n, low=low, high=high, num_bands=bands, seed=seed), n, what)
    within(got, low, high, what)
    require(floats(manual(num_agents=n, low=low, high=high, num_bands=bands, seed=seed), n, what) == got,
            '%s: differs the second time', what)

    c = case['c'] % (n + 1)
    what = 'costs of %d agents, of which %d have high ones, of %r and %r' % (n, c, low, high)
    got = floats(disparity(n=n, low=low, high=high, c=c), n, what)
    require(sorted(got) == [low] * (n - c) + [high] * c, '%s: %r', what, got)

    if high > low:
        width = high - low
        mean, stddev = low + case['mean'] * width, case['stddev'] * width
        a, b = (low - mean) / stddev, (high - mean) / stddev
        if abs(a) < 6 or abs(b) < 6 or a * b < 0:  # otherwise the whole range is far off the bell
            what = 'costs of a normal distribution with mean %r and deviation %r on [%r, %r]' % (mean, stddev, low, high)
            np.random.seed(seed)
            m = max(n, 100)
            got = floats(normal(num_agents=m, low=low, high=high, mean=mean, stddev=stddev), m, what)
            within(got, low, high, what)
            mass = phi(b) - phi(a)
            if mass > 1e-3:
                for part in (0.25, 0.5, 0.75):
                    p = (phi(a + part * (b - a)) - phi(a)) / mass
                    count = sum(x <= low + part * width for x in got)
                    limit = 8 * math.sqrt(m * max(p * (1 - p), 0)) + 8
                    require(abs(count - m * p) <= limit, '%s: %d of %d values are below %r, where %.1f are expected',
                            what, count, m, low + part * width, m * p)
                ctx.label('normal, in part beyond the bounds' if mass < 0.99 else 'normal')
        for fn in (bands_fn, manual):
            rejected(fn, num_agents=n, low=high, high=low, num_bands=bands)
        rejected(disparity, n=n, low=high, high=low, c=c)
        rejected(normal, num_agents=n, low=high, high=low, mean=mean, stddev=stddev)

    shape = case['shape']
    factor = case['factor_share'] * n / (3 if shape > 1.5 else 5) or -1
    if shape >= 1 or factor < 2:
        what = '%d stakes of a Pareto distribution with parameter %r, truncation factor %r' % (n, shape, factor)
        got = floats(pareto(num_agents=n, pareto_param=shape, seed=seed, truncation_factor=factor), n, what)
        again = floats(pareto(num_agents=n, pareto_param=shape, seed=seed, truncation_factor=factor), n, what)
        require(got == again, '%s: differs the second time', what)
        require(min(got) >= 1 - 1e-12, '%s: the value %r', what, min(got))
        free = floats(pareto(num_agents=n, pareto_param=shape, seed=seed), n, what)
        if factor > 0:
            require(max(got) <= sum(got) / factor * (1 + 1e-12), '%s: a value of %r, while their sum is %r', what, max(got),
                    sum(got))
            if max(free) > sum(free) / factor:
                ctx.label('truncated')
        if factor <= 0 or max(free) <= sum(free) / factor:
            require(sorted(free) == sorted(got), '%s: differs from the distribution without truncation, which respects it',
                    what)
    ctx.nontrivial(n >= 4 and high > low)


def rejected(fn, **kwargs):
    try:
        fn(**kwargs)
    except ValueError:
        return
    require(False, '%s accepts the reversed bounds %r', fn.__name__, kwargs)


# -------------------------------------------------------------------------------------------------------------- states
@st.composite
def state_cases(draw):
    cfg = draw(histories.scripts())
    n = cfg['n']
    cfg['driver']['drafts'] = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, 4)), min_size=1, max_size=5))
    cfg['driver']['targets'] = draw(st.lists(st.one_of(gen.dec(0, 1.2, 2), st.floats(0, 1.2)), min_size=1, max_size=4))
    cfg['driver']['revise_at'] = draw(st.lists(st.integers(0, len(cfg['driver']['script'])), max_size=2))
    return cfg


def check_states(cfg, ctx):
    ctx.fresh_dir()
    Strategy = need('logic.strategy', 'Strategy')
    sim = drive.make_sim(cfg)
    agents = drive.agents_of(sim)
    for m in ('determine_pools_to_keep', 'find_operator_move', 'advance', 'new_strategy'):
        if not all(hasattr(a, m) for a in agents.values()):
            raise Skip('agents have no ' + m)
    scheme = sim.reward_scheme
    script = cfg['driver']['script']
    for i in range(len(script) + 1):
        if i in cfg['driver']['revise_at']:
            # the agents learn about the active stake in between; what the system rewards remains the same
            revise(sim, cfg, ctx)
        if i == len(script):
            break
        staged = []
        for agent_id, op in script[i]:
            if not drive.is_abstainer(agents[agent_id]):
                agents[agent_id].new_strategy = histories._stage(sim, agents[agent_id], op, Strategy)
                staged.append(agents[agent_id])
        for agent in staged:
            agent.advance()
    for agent_id, t in cfg['driver']['drafts']:
        if not drive.is_abstainer(agents[agent_id]):
            draft(sim, agents[agent_id], t, ctx)
    targets(sim, cfg, scheme, ctx)
    revise(sim, cfg, ctx)
    if len(sim.pools) > 1:
        ctx.label('several pools')
    ctx.nontrivial(len(sim.pools) > 1)


def revise(sim, cfg, ctx):
    if not hasattr(sim, 'revise_beliefs'):
        return
    scheme = sim.reward_scheme
    total = float(sum(Fraction(p.stake) for p in sim.pools.values()))
    if total < 1e-6:
        return
    z0, a0 = scheme.global_saturation_threshold, scheme.a0
    quotient = total / z0
    rewards = {pid: scheme.calculate_pool_reward(p.pledge, p.stake) for pid, p in sim.pools.items()}
    saturation = {pid: scheme.get_pool_saturation_threshold(p.pledge) for pid, p in sim.pools.items()}
    sim.revise_beliefs()
    scheme = sim.reward_scheme
    require(abs(sim.perceived_active_stake - total) <= 1e-9, 'with %r staked in the pools, the perceived active stake is %r',
            total, sim.perceived_active_stake)
    if abs(quotient - round(quotient)) > 1e-9 or quotient == round(quotient):
        require(scheme.k == math.ceil(quotient), 'with %r staked and pools being saturated at %r, %r pools are expected '
                'instead of %r', total, z0, scheme.k, math.ceil(quotient))
    require(abs(scheme.global_saturation_threshold - z0) <= 1e-12 and scheme.a0 == a0, 'revising the beliefs (total stake of the '
            'pools %r, k %r) changes the saturation threshold from %r to %r', total, scheme.k, z0,
            scheme.global_saturation_threshold)
    for pid, p in sim.pools.items():
        r, s = scheme.calculate_pool_reward(p.pledge, p.stake), scheme.get_pool_saturation_threshold(p.pledge)
        require(abs(r - rewards[pid]) <= 1e-12 and abs(s - saturation[pid]) <= 1e-12, 'revising the beliefs changes the '
                'reward of pool %r from %r to %r, its saturation point from %r to %r', pid, rewards[pid], r, saturation[pid], s)
    if scheme.k != cfg['k']:
        ctx.label('fewer pools expected')


def draft(sim, agent, t, ctx):
    if not hasattr(agent, 'rankings') or not hasattr(sim, 'rewind_pool_id_seq'):
        return
    first = sim.get_next_pool_id()
    sim.rewind_pool_id_seq()
    require(sim.get_next_pool_id() == first, 'the identifier %r is not handed out again after it was given back', first)
    sim.rewind_pool_id_seq()
    before = drive.state_digest(sim)
    margin_fn = getattr(agent, 'calculate_margin', None)
    scheme = sim.reward_scheme
    places = list(agent.rankings)
    reference = places[scheme.k - 1]
    target = reference.potential_profit if reference is not None else 0
    plan = agent.find_operator_move(t, agent.determine_pools_to_keep(t))
    require(len(plan.owned_pools) == t, 'a draft for %d pools has %d', t, len(plan.owned_pools))
    ref = inv.scheme_of(sim)
    for pid, p in sorted(plan.owned_pools.items()):
        profit = ref.potential_profit(p.pledge, p.cost)
        private = p.pledge >= scheme.get_pool_saturation_threshold(p.pledge)
        expected = 0 if private or profit <= 0 else max(1 - target / profit, 0)
        if target <= 0 and not private:
            ctx.label('no pool at place k')
        if target < 0 or abs(profit) < 1e-9 or abs(p.pledge - scheme.get_pool_saturation_threshold(p.pledge)) < 1e-12:
            continue
        require(abs(p.margin - expected) <= 1e-7, 'a draft of pool %r with pledge %r and potential profit %r, while the pool '
                'at place %d has potential profit %r: margin %r instead of %r', pid, p.pledge, profit, scheme.k, target,
                p.margin, expected)
        if margin_fn:
            again = margin_fn(p)
            require(abs(again - p.margin) <= 1e-12, 'the margin of pool %r is %r and then %r', pid, p.margin, again)
        if 0 < expected < 1 and target > 0:
            ctx.label('margin to match place k')
    if hasattr(agent, 'discard_draft_pools'):
        new = len(set(plan.owned_pools) - set(agent.strategy.owned_pools))
        agent.discard_draft_pools(plan)
        got = sim.get_next_pool_id()
        sim.rewind_pool_id_seq()
        require(got == first, 'after discarding a draft with %d new pools, the next identifier is %r instead of %r', new, got,
                first)
        if new and new < t:
            ctx.label('draft with old and new pools')
        after = drive.state_digest(sim)
        # (planning takes the stakeholder's delegations out and puts them back, which may leave rounding errors behind)
        require(c16.close_states(before, after), 'planning and discarding a draft changes the state: %s',
                drive.difference(before, after))


def targets(sim, cfg, scheme, ctx):
    fn = need('logic.helper', 'find_target_pool')
    ranked = [p for p in sim.pool_rankings]
    pools_only = [p for p in ranked if p is not None]
    for target in cfg['driver']['targets']:
        for places in (ranked, pools_only):
            got = fn(places, target, scheme)
            if target == 0 or not places:
                require(got is None, 'pool %r is required to cover a stake of %r', got and got.id, target)
                continue
            covered, expected, close = Fraction(0), None, False
            for p in places:
                missing = Fraction(target) - covered
                close = close or abs(missing) < Fraction(1, 10 ** 11)
                if missing <= 0:
                    break
                expected = p
                if p is None:
                    break
                covered += Fraction(scheme.get_pool_saturation_threshold(p.pledge))
            if close:
                continue
            if expected is not None and covered < target:
                continue  # not even all pools cover it
            require(got is expected, 'pool %r is given as the worst pool that is needed to cover %r instead of %r, with '
                    'saturation points %r', got and got.id, target, expected and expected.id,
                    [p and scheme.get_pool_saturation_threshold(p.pledge) for p in places])
            if expected is not None and expected is not places[0]:
                ctx.label('several pools needed')


# ------------------------------------------------------------------------------------------------------------ notation
@st.composite
def notation_cases(draw):
    return {'numbers': draw(st.lists(gen.mix((gen.log_float(-12, 6), 3), (st.integers(1, 9999), 1),
                                             (st.integers(-9, 9).map(lambda e: 10.0 ** e), 1)), min_size=1, max_size=10)),
            'digits': draw(st.integers(0, 5))}


def check_notation(case, ctx):
    fn = need('logic.helper', 'sci_notation')
    digits = case['digits']
    for x in case['numbers']:
        text = fn(x, digits)
        m = re.fullmatch(r'\$(?:(\d+(?:\.\d+)?)\\cdot)?10\^\{(-?\d+)\}\$', text)
        require(m, 'the notation of %r is %r', x, text)
        value = Fraction(m.group(1) or 1) * Fraction(10) ** int(m.group(2))
        unit = Fraction(10) ** (int(m.group(2)) - digits)
        require(abs(value - Fraction(x)) <= unit * Fraction(501, 1000), 'the notation of %r with %d digits is %s', x, digits,
                text)
        require((value / Fraction(x)) < 10 and Fraction(x) / Fraction(10) ** int(m.group(2)) >= Fraction(99, 100),
                'the notation of %r is %s', x, text)
    ctx.nontrivial(any(math.log10(x) % 1 for x in case['numbers']))


# -------------------------------------------------------------------------------------------------------------- groups
@st.composite
def group_cases(draw):
    return {'n': draw(gen.mix((st.integers(0, 12), 2), (st.integers(0, 60), 1))),
            'size': draw(gen.mix((st.integers(1, 8), 3), (st.integers(1, 80), 1))),
            'all': draw(st.booleans()), 'rounds': draw(st.integers(1, 4)), 'seed': draw(st.integers(0, 10 ** 6)),
            'gaps': draw(st.booleans())}


def check_groups(case, ctx):
    """Semi-simultaneous activation with groups of any size, of which all or only one act in a round."""
    activation = need('logic.activations', 'SemiSimultaneousActivation')
    import mesa
    import random as random_module

    class Stub(mesa.Agent):
        def __init__(self, unique_id, model, trace):
            super().__init__(unique_id, model)
            self.trace = trace

        def step(self):
            self.trace.append(('plan', self.unique_id))

        def advance(self):
            self.trace.append(('execute', self.unique_id))

    model = mesa.Model()
    model.random = random_module.Random(case['seed'])
    trace = []
    schedule = activation(model, simultaneous_moves=case['size'], all_agents_move=case['all'])
    ids = [i * 7 + 3 if case['gaps'] else i for i in range(case['n'])]
    for i in ids:
        schedule.add(Stub(i, model, trace))
    size, n = case['size'], case['n']
    for number in range(case['rounds']):
        del trace[:]
        schedule.step()
        require(schedule.steps == number + 1 and schedule.time == number + 1, 'after %d rounds the schedule counts %r', number + 1,
                schedule.steps)
        groups, i = [], 0
        while i < len(trace):
            planned = []
            while i < len(trace) and trace[i][0] == 'plan':
                planned.append(trace[i][1])
                i += 1
            executed = []
            while i < len(trace) and trace[i][0] == 'execute' and len(executed) < len(planned):
                executed.append(trace[i][1])
                i += 1
            require(planned and sorted(planned) == sorted(executed), 'groups of %d of %d agents: %r plan, %r execute', size, n,
                    planned, executed)
            groups.append(planned)
        acted = [x for group in groups for x in group]
        require(len(set(acted)) == len(acted), 'groups of %d of %d agents: some act more than once: %r', size, n, groups)
        sizes = [len(g) for g in groups]
        if case['all']:
            expected = [size] * (n // size) + ([n % size] if n % size else [])
            require(sorted(acted) == ids, 'groups of %d of %d agents: not everybody acts: %r', size, n, groups)
        else:
            expected = [min(size, n)] if n else []
        require(sizes == expected, 'groups of %d of %d agents, %s: sizes %r', size, n,
                'all act' if case['all'] else 'one group acts', sizes)
    ctx.nontrivial(n > size > 1)
    ctx.label('all' if case['all'] else 'one group', 'exact' if n % size == 0 else 'incomplete group')


EXPERIMENTS = [Experiment('distributions', distribution_cases, check_distributions, 3000, 60000),
               Experiment('states', state_cases, check_states, 700, 12000),
               Experiment('notation', notation_cases, check_notation, 1500, 30000),
               Experiment('groups', group_cases, check_groups, 1200, 30000)]
