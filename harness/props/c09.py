"""Non-myopic valuation of ranked pools."""
from fractions import Fraction

from hypothesis import strategies as st

from harness import decisions, gen, histories, inv, refs, schemes
from harness.core import Experiment, Skip, require
from harness.drive import need, profile_of

PROPERTY = 'C09'
RULE = ('large: as the rest, with 60 to 220 stakeholders and k up to 130; '
        'positions: a scheme with k between 1 and 1000 and a ranking of up to k+4 generated pools (with empty places), '
        'valued at positions around k; target: lists of pools and target stakes; states: expected utility of the '
        'current strategy of every non-myopic stakeholder in reachable states. hypothetical: after a generated history, the '
        'expected utility of generated strategies, also of delegations beyond the saturation point. Non-trivial: (positions, '
        'target) more than one pool, (states) at least 3 moves and a delegation, (hypothetical) a '
        'strategy with a pool or delegation was valued. Distinct by case.')
ASSUMPTIONS = ['for CIP-50, whose saturation points differ by pool, rankings that cover the total stake to within 1e-9 '
               'are not judged']


@st.composite
def position_cases(draw):
    k = draw(gen.mix((st.integers(1, 12), 3), (st.integers(13, 130), 3), (st.integers(131, 1000), 1)))
    kind = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4]))
    m = draw(gen.mix((st.integers(max(1, k - 2), k + 4), 4), (st.integers(1, k + 4), 1)))
    distinct = draw(st.integers(1, 6))
    return {'k': k, 'kind': kind, 'm': m, 'a0': draw(gen.dec(0.1, 3, 1)) if kind != 4 else draw(gen.dec(0.5, 20, 1)),
            'nones': draw(st.sampled_from([0, 1, 5])),
            'pledges': [draw(gen.dec(0, 1, 2)) for _ in range(distinct)],
            'costs': [draw(gen.dec(0, 1.2, 2)) for _ in range(distinct)],
            'margins': [draw(gen.dec(0, 1, 2)) for _ in range(distinct)],
            'extra': [draw(gen.dec(0, 2, 2)) for _ in range(distinct)],
            'positions': draw(st.lists(st.integers(-3, 3), min_size=1, max_size=3)),
            'any_position': draw(st.integers(0, 1000))}


def build(case):
    mapping = need('logic.reward_schemes', 'RSS_MAPPING')
    Pool = need('logic.pool', 'Pool')
    key, = [need('logic.helper', 'pool_comparison_key')]
    from sortedcontainers import SortedList
    scheme = mapping[case['kind']](k=case['k'], a0=case['a0'])
    z0 = 1 / case['k']
    d = len(case['pledges'])
    pools = []
    for i in range(case['m']):
        p = Pool(pool_id=i + 1, cost=case['costs'][i % d] * z0, pledge=case['pledges'][(i // 2) % d] * z0, owner=i,
                 reward_scheme=scheme, margin=case['margins'][(i // 3) % d])
        p.stake = p.pledge + case['extra'][i % d] * z0
        pools.append(p)
    ranking = SortedList(pools + [None] * case.get('nones', 0), key=key)
    return scheme, z0, pools, ranking


def check_positions(case, ctx):
    value = need('logic.helper', 'calculate_non_myopic_pool_stake')
    scheme, z0, pools, ranking = build(case)
    ref = refs.Scheme(case['kind'], case['k'], case['a0'], z0)
    ordered = [p for p in ranking if p is not None]
    require(len(ordered) == len(pools), 'ranking lost pools')
    spots = {case['k'] + d for d in case['positions']} | {case['any_position'] % case['m']}
    for i in sorted(spots):
        if not 0 <= i < len(ordered):
            continue
        pool = ordered[i]
        if case['kind'] == 4:
            covered = sum(Fraction(ref.saturation(p.pledge)) for p in ordered[:i])
            if abs(covered - 1) < Fraction(1, 10 ** 9):
                ctx.label('too close to judge')
                continue
            counts = covered < 1
        else:
            counts = i < case['k']
        sat = ref.saturation(pool.pledge)
        expected = max(sat, pool.stake) if counts else pool.pledge
        got = value(pool=pool, pool_rankings=ranking, reward_scheme=scheme, total_stake=1)
        require(abs(got - expected) <= 1e-12, 'k=%d, scheme %d: the pool at position %d (stake %r, pledge %r, '
                'saturation %r) is expected to have %r instead of %r', case['k'], case['kind'], i + 1, pool.stake,
                pool.pledge, sat, got, expected)
        ctx.label('counts' if counts else 'does not count')
    ctx.nontrivial(len(pools) > 1)


@st.composite
def target_cases(draw):
    case = draw(position_cases())
    case['needed'] = draw(gen.mix((st.just(case['k']), 3), (st.integers(0, case['k'] + 2), 2)))
    case['fraction'] = draw(st.sampled_from([0, 0, 0.3, 0.3, 1e-3, 0.999999, 1e-8, 1 - 1e-8]))
    case['trailing_none'] = draw(st.booleans())
    return case


def check_target(case, ctx):
    find = need('logic.helper', 'find_target_pool')
    case = dict(case, nones=0)
    scheme, z0, pools, ranking = build(case)
    ref = refs.Scheme(case['kind'], case['k'], case['a0'], z0)
    ordered = list(ranking)
    target = case['needed'] / case['k'] - case['fraction'] * z0
    exact_target = (Fraction(case['needed']) - Fraction(case['fraction'])) / case['k']
    if target <= 0:
        exact_target = Fraction(0)
        target = 0
    need_m = None
    covered = Fraction(0)
    for m in range(len(ordered) + 1):
        gap = exact_target - covered
        if 0 < abs(gap) < (Fraction(1, 10 ** 9) if case['kind'] == 4 else Fraction(2, 10 ** 12)):
            ctx.label('too close to judge')
            return
        if gap <= 0:
            need_m = m
            break
        if m < len(ordered):
            covered += Fraction(ref.saturation(ordered[m].pledge)) if case['kind'] == 4 else Fraction(1, case['k'])
    entries = ordered + [None] if case['trailing_none'] else ordered
    got = find(entries, target, scheme)
    if need_m is None:
        expected = None if case['trailing_none'] else ordered[-1]
        ctx.label('not coverable')
    elif need_m == 0:
        expected = None
    else:
        expected = ordered[need_m - 1]
        ctx.label('coverable')
    name = lambda p: 'none' if p is None else 'pool at position %d' % (ordered.index(p) + 1)
    require(got is expected, 'k=%d: to cover %r the %s is named instead of the %s', case['k'], target, name(got),
            name(expected))
    ctx.nontrivial(len(pools) > 1)


def expected_utility(sim, sch, agent, pools_of_agent, allocations, total_stake=1.0):
    """Reference: (low, high) bounds of the expected utility of a non-myopic strategy (ties in coverage widen them)."""
    others = [p for p in sim.pools.values() if p.owner != agent.unique_id]
    key = lambda p: (-p.desirability, -p.potential_profit, p.id)
    utility = 0.0
    ranked = sorted(others + list(pools_of_agent), key=key)

    def counts(ranking, pool):
        i = next(j for j, p in enumerate(ranking) if p is pool)
        if sch.kind != 4:
            covered = i * sch.z0
        else:
            covered = sum(sch.saturation(p.pledge) for p in ranking[:i])
        return covered < total_stake - 1e-12

    for p in pools_of_agent:
        stake = max(sch.saturation(p.pledge), p.stake) if counts(ranked, p) else p.pledge
        utility += refs.operator_share(sch, stake, p.pledge, p.margin, p.cost)
    everything = sorted(sim.pools.values(), key=key)
    for pid, a in allocations.items():
        p = sim.pools[pid]
        current = p.stake - inv.allocations(agent).get(pid, 0.0) + a
        stake = max(sch.saturation(p.pledge), p.stake) if counts(everything, p) else p.pledge
        utility += refs.delegator_share(sch, a, max(stake, current), p.pledge, p.margin, p.cost)
    return utility


class States(histories.History):
    def start(self, sim, cfg):
        if not all(a.strategy is None or hasattr(a, 'calculate_expected_utility') for a in sim.schedule.agents):
            raise Skip('agents have no expected utility')

    every = 1

    def on_state(self, sim, when):
        sch = inv.scheme_of(sim)
        self.calls = getattr(self, 'calls', 0) + 1
        for agent in list(sim.schedule.agents)[self.calls % self.every::self.every]:
            if profile_of(agent) != 'nonmyopic':
                continue
            got = agent.calculate_expected_utility(agent.strategy)
            mine = [p for p in sim.pools.values() if p.owner == agent.unique_id]
            expected = expected_utility(sim, sch, agent, mine, inv.allocations(agent))
            require(abs(got - expected) <= 1e-9, '%s: agent %s expects %r from its strategy instead of %r', when,
                    agent.unique_id, got, expected)


class Sampled(States):
    every = 11


class AddedSchemes(States):
    """pools may be private although their pledge is larger than their saturation point, etc."""

    def on_state(self, sim, when):
        points = sorted(inv.scheme_of(sim).saturation(p.pledge) for p in sim.pools.values())
        if not near_one(points):
            super().on_state(sim, when)


def near_one(points):
    """may some of the saturation points add up to the whole stake, but for rounding errors?"""
    if len(set(points)) == 1:
        return False
    sums = {0.0}
    for x in points:
        sums |= {round(s + x, 10) for s in sums if s + x < 1.1}
        if len(sums) > 3000:
            return True
    return any(abs(s - 1) < 1e-9 for s in sums)


EXPERIMENTS = [
    Experiment('positions', position_cases, check_positions, 2500, 60000),
    Experiment('target', target_cases, check_target, 2500, 60000),
    histories.engine_experiment('states', States, 700, 20000,
                                profiles=st.sampled_from([[1, 0, 0], [2, 1, 0], [2, 1, 1]])),
    schemes.wrapped(histories.engine_experiment('added schemes', AddedSchemes, 1, 1), 350, 9000),
    decisions.hypothetical_experiment('hypothetical', ['nonmyopic'], 1200, 30000),
    histories.large_experiment('large', Sampled, 72, 1500, n=(50, 140), k=(10, 60), profiles=st.sampled_from([[1, 0, 0], [2, 1, 0], [2, 1, 1]])),
]
