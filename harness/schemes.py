"""Generated reward schemes that are registered next to those of the engine."""
from hypothesis import strategies as st

from harness import drive, refs
from harness.core import Experiment, Skip


class Reference(refs.Scheme):
    """what the generated scheme pays, computed apart from the class that the engine is given"""

    def __init__(self, shape, k, a0, z0):
        # saturation points of different sizes may add up to the whole stake by chance, as in scheme 4
        super().__init__(0 if shape['saturation'] == 'uniform' else 4, k, a0, z0)
        self.shape = shape

    def saturation(self, pledge):
        return saturation_point(self.shape, self.z0, pledge)

    def reward(self, pledge, stake):
        return reward(self.shape, self.k, self.a0, self.z0, pledge, stake)


def saturation_point(shape, z0, pledge):
    if shape['saturation'] == 'uniform':
        return z0
    if shape['saturation'] == 'lower':
        return z0 * shape['base']
    if shape['saturation'] == 'higher':
        return z0 * (2 - shape['base'])
    share = min(pledge / z0, 1.0)
    if shape['saturation'] == 'falling':
        share = 1 - share
    return z0 * (shape['base'] + (1 - shape['base']) * share)


def reward(shape, k, a0, z0, pledge, stake):
    point = saturation_point(shape, z0, pledge)
    s = min(max(stake, 0.0), point)  # sums of floats may end up just below 0
    if shape['curve'] == 'sqrt':
        s = (s * point) ** 0.5
    elif shape['curve'] == 'square':
        s = s * s / point
    extra = shape['beyond'] * max(stake - point, 0.0)
    share = min(pledge / z0, 1.0)
    if shape['pledge'] == 'factor':
        s = s * (1 + a0 * share) / (1 + a0)
    elif shape['pledge'] == 'bonus':
        s = (s + a0 * share * z0 * min(max(stake, 0.0) / z0, 1.0)) / (1 + a0)
    return shape['generosity'] * (s + extra)


def register(shape):
    """Add the scheme to those of the engine; returns its number."""
    base, mapping = drive.need('logic.reward_schemes', 'RSS', 'RSS_MAPPING')
    for method in ('calculate_pool_reward', 'get_pool_saturation_threshold'):
        if not hasattr(base, method):
            raise Skip('reward schemes have no ' + method)

    class GeneratedScheme(base):
        def calculate_pool_reward(self, pool_pledge, pool_stake):
            return reward(shape, self.k, self.a0, self.global_saturation_threshold, pool_pledge, pool_stake)

        def reference(self):
            return Reference(shape, self.k, self.a0, self.global_saturation_threshold)

    if shape['saturation'] != 'uniform':
        def get_pool_saturation_threshold(self, pool_pledge):
            return saturation_point(shape, self.global_saturation_threshold, pool_pledge)

        GeneratedScheme.get_pool_saturation_threshold = get_pool_saturation_threshold
    # instances of it can be saved
    GeneratedScheme.__qualname__ = 'GeneratedScheme'
    globals()['GeneratedScheme'] = GeneratedScheme
    mapping[5] = GeneratedScheme
    return 5


shapes = st.fixed_dictionaries({
    'curve': st.sampled_from(['linear', 'linear', 'sqrt', 'square']),
    'pledge': st.sampled_from(['none', 'factor', 'bonus']),
    'saturation': st.sampled_from(['uniform', 'lower', 'higher', 'pledge', 'pledge', 'falling']),
    'base': st.sampled_from([0.93, 0.57, 0.31, 0.13]),
    'beyond': st.sampled_from([0, 0, 0, 0.1]),
    'generosity': st.sampled_from([1, 1, 0.5, 2]),
})


@st.composite
def with_shape(draw, strategy):
    cfg = draw(strategy)
    cfg['driver'] = dict(cfg.get('driver') or {}, shape=draw(shapes))
    cfg['reward_scheme'] = 5
    return cfg


def wrapped(experiment, quick, thorough):
    strategy = experiment.strategy

    def check(cfg, ctx):
        shape = cfg['driver']['shape']
        register(shape)
        ctx.label('saturation=' + shape['saturation'], 'curve=' + shape['curve'])
        experiment.check(cfg, ctx)

    return Experiment(experiment.name, lambda: with_shape(strategy()), check, quick, thorough)
