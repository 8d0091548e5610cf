"""Hypothesis strategies for engine configurations. Every drawn case is JSON-serialisable."""
from hypothesis import strategies as st

ORDERS = ['random', 'sequential', 'simultaneous', 'semisimultaneous']


def weighted(*pairs):
    """sampled_from with integer weights (shrinks towards the first)."""
    pool = []
    for value, weight in pairs:
        pool.extend([value] * weight)
    return st.sampled_from(pool)


def mix(*pairs):
    """one_of with integer weights over strategies."""
    pool = []
    for strategy, weight in pairs:
        pool.extend([strategy] * weight)
    return st.sampled_from(range(len(pool))).flatmap(lambda i: pool[i])


def dec(lo, hi, digits):
    """decimal numbers in [lo, hi] with the given number of digits"""
    scale = 10 ** digits
    return st.integers(int(round(lo * scale)), int(round(hi * scale))).map(lambda i: i / scale)


def log_float(lo_exp, hi_exp):
    """m * 10**e, e in [lo_exp, hi_exp)"""
    return st.tuples(st.integers(10, 99), st.integers(lo_exp, hi_exp - 1)).map(
        lambda t: float('%de%d' % (t[0], t[1] - 1)))


seeds = mix((st.integers(0, 40), 3), (st.integers(0, 9999999), 4), (st.just(0), 1))


def profile_weights():
    return mix(
        (st.just([1, 0, 0]), 5), (st.just([0, 1, 0]), 2), (st.just([1, 1, 0]), 3), (st.just([2, 1, 1]), 3),
        (st.just([1, 0, 1]), 1), (st.just([0, 1, 1]), 1),
        (st.tuples(dec(0, 3, 1), dec(0, 3, 1), dec(0, 3, 1)).filter(lambda t: sum(t) > 0).map(list), 2),
        (st.sampled_from([[0.01, 0.02, 0], [0.96, 0.04, 0], [1e-4, 0, 1e-5], [0.003, 0.001, 0.001], [95, 4, 1]]), 1))


def phases(strategy, allow, max_len=3):
    """a single value, or (if allowed) a list of values, one per phase"""
    if not allow:
        return strategy
    return mix((strategy, 3), (st.lists(strategy, min_size=2, max_size=max_len), 2))


@st.composite
def nearly(draw, stakes, target=1.0):
    """the same distribution in a unit in which it adds up to almost, but not exactly, the target"""
    off = draw(st.sampled_from([1e-2, 1e-3, -1e-3, 1e-4, -1e-5, 1e-6, 1e-7, -5e-8]))
    total = sum(stakes)
    return [float('%.12g' % (s / total * target * (1 + off))) for s in stakes]


@st.composite
def stakes_list(draw, n):
    kind = draw(st.sampled_from(['ints', 'equal', 'whale', 'decimals', 'tiny', 'zeros', 'near one']))
    if kind == 'near one':
        return draw(nearly([draw(st.integers(1, 30)) for _ in range(n)]))
    if kind == 'equal':
        v = draw(st.sampled_from([1, 0.1, 3, 1e6]))
        return [v] * n
    if kind == 'ints':
        return [draw(st.integers(1, 50)) for _ in range(n)]
    if kind == 'whale':
        return [draw(st.integers(1, 10)) for _ in range(n - 1)] + [draw(st.integers(20, 2000))]
    if kind == 'zeros':
        # some stakeholders own nothing
        stakes = [draw(st.sampled_from([0, 0, 1, 2, 7])) for _ in range(n)]
        return stakes if any(stakes) else stakes[:-1] + [1]
    if kind == 'tiny':
        return [draw(st.sampled_from([1, 1e-6, 1e-3, 1e3])) for _ in range(n)]
    return [draw(dec(0.01, 9.99, 2)) for _ in range(n)]


@st.composite
def border_stakes(draw, n):
    """stakes that are almost, but not exactly, small multiples of the same amount; and how many of these there are"""
    units = [draw(st.sampled_from([1, 1, 1, 2, 3])) for _ in range(n)]
    off = draw(st.sampled_from([1e-5, 1e-7, 1e-8, 1e-9]))
    return [u * (1 + off * draw(st.sampled_from([0, 1, -1, -2]))) for u in units], sum(units)


@st.composite
def configs(draw, n_min=1, n_max=30, k_max=12, multi_phase=True, orders=ORDERS, schemes=(0, 0, 0, 1, 2, 3, 4),
            profiles=None, max_rounds=12, sources=('pareto', 'pareto', 'pareto', 'flat', 'file', 'disparity'),
            inactive=True, metrics=False, small_bias=True):
    """Keyword arguments of a simulation, plus 'file_stakes' for the stake file if the source is a file."""
    cfg = {}
    if small_bias:
        n = draw(mix((st.integers(n_min, min(n_max, max(n_min, 8))), 2), (st.integers(n_min, min(n_max, 18)), 4),
                     (st.integers(n_min, n_max), 2)))
    else:
        n = draw(st.integers(n_min, n_max))
    cfg['n'] = n
    scheme = draw(st.sampled_from(list(schemes)))
    cfg['reward_scheme'] = scheme
    multi = multi_phase and draw(weighted((False, 5), (True, 2)))
    k_strategy = mix((st.integers(1, min(k_max, 5)), 3), (st.integers(1, k_max), 2))
    cfg['k'] = draw(phases(k_strategy, multi))
    if scheme == 4:
        # CIP-50 without pledge leverage saturates every pool at zero stake; leave it to dedicated experiments
        a0_strategy = mix((dec(0.1, 3, 1), 2), (st.integers(2, 30), 3))
    else:
        a0_strategy = mix((dec(0, 1, 2), 4), (st.just(0), 1), (dec(0, 5, 1), 1), (st.just(0.3), 2))
    cfg['a0'] = draw(phases(a0_strategy, multi))
    source = draw(st.sampled_from([s for s in sources if s != 'disparity' or n >= 5]))
    cfg['stake_distr_source'] = source
    if source == 'pareto':
        cfg['pareto_param'] = draw(mix((st.just(2.0), 2), (dec(0.5, 5, 1), 3)))
    elif source == 'file':
        if n <= 12 and not isinstance(cfg['k'], list) and draw(weighted((False, 3), (True, 1))):
            # stakes near the saturation point of the pools
            cfg['file_stakes'], units = draw(border_stakes(n))
            cfg['k'] = units * draw(st.sampled_from([1, 1, 2]))
        else:
            cfg['file_stakes'] = draw(stakes_list(n))
    kmax = max(cfg['k']) if isinstance(cfg['k'], list) else cfg['k']
    # costs relative to the reward of a saturated pool (about 1/k), so that all regimes occur
    lo = draw(mix((st.just(1e-5), 2), (log_float(-5, -1), 3), (st.just(0), 1)))
    span = draw(mix((st.just(10), 3), (st.sampled_from([1, 1.5, 3, 50, 400]), 3)))
    hi = lo * span if lo > 0 else draw(log_float(-5, -1))
    scale = draw(weighted((1, 3), (1 / kmax, 2)))
    cfg['cost_min'], cfg['cost_max'] = lo * scale, min(hi * scale, 5.0)
    if cfg['cost_max'] < cfg['cost_min']:
        cfg['cost_max'] = cfg['cost_min']
    cfg['extra_pool_cost_fraction'] = draw(phases(mix((st.just(0.4), 3), (dec(0, 1.5, 2), 3), (st.just(0), 1),
                                                      (st.just(1), 1)), multi, 2))
    cfg['agent_profile_distr'] = draw(profiles if profiles is not None else profile_weights())
    if inactive:
        cfg['inactive_stake_fraction'] = draw(mix((st.just(0), 3), (dec(0, 0.9, 2), 2)))
        cfg['inactive_stake_fraction_known'] = draw(st.booleans()) if cfg['inactive_stake_fraction'] else False
    cfg['agent_activation_order'] = draw(st.sampled_from(list(orders)))
    cfg['absolute_utility_threshold'] = draw(phases(
        mix((st.just(1e-9), 3), (st.just(0), 2), (log_float(-8, -2), 4)), multi, 2))
    cfg['relative_utility_threshold'] = draw(phases(
        mix((st.just(0), 4), (st.sampled_from([0.01, 0.05, 0.1, 0.5, 2]), 3)), multi, 2))
    cfg['iterations_after_convergence'] = draw(st.integers(1, 4))
    cfg['max_iterations'] = draw(mix((st.integers(3, max_rounds), 4), (st.integers(1, max_rounds), 1)))
    cfg['seed'] = draw(seeds)
    if metrics:
        cfg['metrics'] = draw(st.lists(st.sampled_from([i for i in range(1, 31) if i != 11]), min_size=1, max_size=30,
                                       unique=True))
    return cfg


def enlarge(draw, cfg, n=(60, 220), k=(12, 130)):
    """the configuration in a realistic size"""
    cfg = dict(cfg)
    crowd = draw(weighted((False, 7), (True, 1)))
    cfg['n'] = draw(st.integers(500, 1000)) if crowd else draw(st.integers(*n))
    if cfg['stake_distr_source'] == 'file':
        cfg['stake_distr_source'], cfg['pareto_param'] = 'pareto', draw(dec(1, 3, 1))
        cfg['file_stakes'] = None
    small = cfg['k'] if isinstance(cfg['k'], list) else [cfg['k']]
    # everybody may operate up to k pools, while a round of a simulation should take a few seconds at most
    most = 3000 if cfg.get('agent_activation_order') == 'simultaneous' else 6000
    large = [min(draw(st.integers(*k)), max(most // cfg['n'], k[0])) for _ in small]

    if cfg.get('inactive_stake_fraction_known') and cfg.get('inactive_stake_fraction', 0) > 0.4:
        cfg['inactive_stake_fraction'] = 0.4  # k is adjusted for known inactive stake

    def least(name, default):
        value = cfg.get(name, default)
        return min(value) if isinstance(value, list) else value

    if least('extra_pool_cost_fraction', 0.4) < 0.3 or least('cost_min', 1e-5) == 0:
        # further pools cost next to nothing: everybody may operate up to k of them
        cfg['n'], large = min(cfg['n'], 100), [min(x, 25) for x in large]
    if crowd and cfg['n'] > 100:
        large = [draw(st.integers(2, 5)) for _ in small]
        cfg['max_iterations'] = min(cfg['max_iterations'], draw(st.integers(2, 4)))
    cfg['k'] = large if isinstance(cfg['k'], list) else large[0]
    if draw(st.booleans()) and 'cost_min' in cfg and 'cost_max' in cfg:
        # the rewards of a saturated pool are smaller, and so are the costs
        ratio = max(small) / max(large)
        cfg['cost_min'], cfg['cost_max'] = cfg['cost_min'] * ratio, cfg['cost_max'] * ratio
    return cfg


@st.composite
def enlarged(draw, strategy, n=(60, 220), k=(12, 130)):
    return enlarge(draw, draw(strategy), n, k)


@st.composite
def large_configs(draw, n=(60, 220), k=(12, 130), max_rounds=7, **kw):
    return enlarge(draw, draw(configs(max_rounds=max_rounds, sources=('pareto', 'pareto', 'pareto', 'flat', 'disparity'),
                                      **kw)), n, k)


@st.composite
def prolonged(draw, strategy):
    """the configuration with few stakeholders and hundreds of rounds"""
    cfg = dict(draw(strategy))
    cfg['n'] = min(cfg['n'], draw(st.integers(1, 4)))
    if cfg['stake_distr_source'] == 'disparity':
        cfg['stake_distr_source'] = 'flat'
    if cfg.get('file_stakes'):
        stakes = cfg['file_stakes'][:cfg['n']]
        cfg['file_stakes'] = stakes if any(stakes) else [1] * cfg['n']
    cfg['k'] = [min(k, 3) for k in cfg['k']] if isinstance(cfg['k'], list) else min(cfg['k'], 3)
    if cfg.get('inactive_stake_fraction_known') and cfg.get('inactive_stake_fraction', 0) > 0.4:
        cfg['inactive_stake_fraction'] = 0.4
    if cfg.get('metrics'):
        # without the one that needs a solver in every round
        cfg['metrics'] = [m for m in cfg['metrics'] if m != 11] or [1]
    window = draw(mix((st.integers(90, 140), 3), (st.integers(240, 300), 1)))
    cfg['iterations_after_convergence'] = window
    cfg['max_iterations'] = window + draw(st.integers(-40, 60))
    return cfg
