"""Generated stakeholder profiles that are registered next to those of the engine."""
from hypothesis import strategies as st

from harness import decide, drive, inv, refs
from harness.core import Experiment, Skip


def cost_per_pool(shape, t, cost, phi):
    kind = shape['cost']
    if kind == 'flat':
        return shape['factor'] * cost
    if kind == 'steep':
        return cost * (1 + shape['factor'] * (t - 1))
    return refs.cost_per_pool(cost, t, phi)


def pledge_per_pool(shape, t, stake, z0):
    kind = shape['pledge']
    if kind == 'part':
        return min(shape['part'] * stake / t, z0)
    if kind == 'low':
        return min(stake / t, z0 * shape['part'])
    return refs.pledge_per_pool(stake, t, z0)


def weight(shape, pool):
    """what the profile with views of its own thinks of a pool"""
    if shape['taste'] == 'cheap':
        return (1 - pool.margin) * 0.2
    if shape['taste'] == 'pledged':
        return pool.pledge
    if shape['taste'] == 'old':
        return 1 / (20 + pool.id)
    return pool.stake / 10  # popular


class Situation(decide.Situation):
    """the situation as the generated profile sees it"""

    def __init__(self, sim, agent):
        super().__init__(sim, agent)
        self.shape = shape = type(agent).shape
        if shape['kind'] == 'own':
            self.profile = 'own'
            self.ranking = [p.id for p in sorted(self.pools.values(), key=lambda p: (-weight(shape, p), p.id))]

    def terms(self, t):
        return (pledge_per_pool(self.shape, t, self.stake, self.sch.z0),
                cost_per_pool(self.shape, t, self.cost, self.phi))

    def delegator_utility(self, pid, a):
        if self.profile != 'own':
            return super().delegator_utility(pid, a)
        return a * weight(self.shape, self.pools[pid])

    def margins(self, t):
        if self.profile != 'own':
            return super().margins(t)
        pledge, cost = self.terms(t)
        m = self.shape['margin']
        return [m] * t, t * refs.operator_share(self.sch, pledge, pledge, m, cost), False


def register(shape):
    """Add the profile to those of the engine; returns its number."""
    if shape['kind'] == 'own':
        base, mapping = drive.need('logic.stakeholder', 'Stakeholder'), drive.need('logic.stakeholder_profiles',
                                                                                   'PROFILE_MAPPING')
    else:
        base, mapping = drive.need('logic.stakeholder_profiles', 'NonMyopicStakeholder' if shape['kind'] == 'nonmyopic'
                                   else 'MyopicStakeholder', 'PROFILE_MAPPING')
    for method in ('calculate_cost_per_pool', 'determine_pledge_per_pool', 'calculate_operator_utility_from_strategy',
                   'calculate_delegator_utility_from_pool', 'calculate_margins_and_utility'):
        if not hasattr(base, method):
            raise Skip('profiles have no ' + method)

    class GeneratedProfile(base):
        situation = Situation

        def calculate_cost_per_pool(self, num_pools):
            return cost_per_pool(shape, num_pools, self.cost, self.model.extra_pool_cost_fraction)

        def determine_pledge_per_pool(self, num_pools):
            return pledge_per_pool(shape, num_pools, self.stake, self.model.reward_scheme.global_saturation_threshold)

        def reference_terms(self, num_pools):
            return self.determine_pledge_per_pool(num_pools), self.calculate_cost_per_pool(num_pools)

    if shape['kind'] == 'own':
        def scheme(self):
            return inv.scheme_of(self.model)

        def rankings(self):
            return sorted(self.model.pools.values(), key=lambda p: (-weight(shape, p), p.id))

        def operator_utility(self, strategy):
            return sum(refs.operator_share(scheme(self), p.stake, p.pledge, p.margin, p.cost)
                       for p in strategy.owned_pools.values())

        def delegator_utility(self, pool, stake_allocation):
            return stake_allocation * weight(shape, pool)

        def margins_and_utility(self, num_pools):
            pledge, cost = self.reference_terms(num_pools)
            m = shape['margin']
            return [m] * num_pools, num_pools * refs.operator_share(scheme(self), pledge, pledge, m, cost)

        GeneratedProfile.rankings = property(rankings, lambda self, value: None)
        GeneratedProfile.calculate_operator_utility_from_strategy = operator_utility
        GeneratedProfile.calculate_delegator_utility_from_pool = delegator_utility
        GeneratedProfile.calculate_margins_and_utility = margins_and_utility
    GeneratedProfile.shape = shape
    GeneratedProfile.reference_profile = shape['kind']
    # instances of it can be saved
    GeneratedProfile.__qualname__ = 'GeneratedProfile'
    globals()['GeneratedProfile'] = GeneratedProfile
    mapping[3] = GeneratedProfile
    return 3


shapes = st.fixed_dictionaries({
    'kind': st.sampled_from(['nonmyopic', 'nonmyopic', 'myopic', 'own', 'own']),
    'cost': st.sampled_from(['standard', 'flat', 'flat', 'steep']),
    'factor': st.sampled_from([0.25, 0.7, 1, 3]),
    'pledge': st.sampled_from(['standard', 'part', 'part', 'low']),
    'part': st.sampled_from([0.1, 0.35, 0.8]),
    'taste': st.sampled_from(['cheap', 'pledged', 'old', 'popular']),
    'margin': st.sampled_from([0, 0.1, 0.5]),
})
WEIGHTS = st.sampled_from([[0, 0, 0, 1], [1, 0, 0, 1], [1, 0, 0, 2], [0, 1, 0, 2], [1, 1, 0, 2], [2, 1, 1, 4]])


@st.composite
def with_profile(draw, strategy):
    cfg = draw(strategy)
    cfg['driver'] = dict(cfg.get('driver') or {}, profile=draw(shapes))
    cfg['agent_profile_distr'] = draw(WEIGHTS)
    return cfg


def wrapped(experiment, quick, thorough):
    strategy = experiment.strategy

    def check(cfg, ctx):
        shape = cfg['driver']['profile']
        register(shape)
        ctx.label('kind=' + shape['kind'], 'cost=' + shape['cost'], 'pledge=' + shape['pledge'])
        experiment.check(cfg, ctx)

    return Experiment(experiment.name, lambda: with_profile(strategy()), check, quick, thorough)
