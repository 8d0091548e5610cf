"""Arbitrary sets of pools inside a real simulation, for the metrics."""
import random

from hypothesis import strategies as st

from harness import drive, gen


@st.composite
def pool_sets(draw, max_pools=14, min_pools=0, min_pledge=None):
    n = draw(gen.mix((st.integers(1, 8), 3), (st.integers(1, 25), 1)))
    scheme = draw(st.sampled_from([0, 0, 1, 2, 3, 4]))
    k = draw(gen.mix((st.integers(1, 6), 3), (st.integers(1, 30), 1)))
    cfg = {'n': n, 'k': k, 'a0': draw(gen.dec(0, 2, 1) if scheme != 4 else gen.dec(0.1, 20, 1)), 'reward_scheme': scheme,
           'stake_distr_source': 'flat', 'agent_profile_distr': draw(gen.profile_weights()), 'seed': draw(gen.seeds),
           'max_iterations': 3}
    coarse = st.sampled_from([0.01, 0.02, 0.05, 0.1, 0.1, 0.25, 0.5, 1])
    fine = gen.dec(0.001, 1, 6)
    dyadic = st.sampled_from([0.0625, 0.125, 0.125, 0.25, 0.5])  # exact sums, so that ties are ties
    amount = draw(st.sampled_from([coarse, fine, dyadic]))
    cfg['driver'] = {
        'stakes': [draw(amount) for _ in range(n)],
        'costs': [draw(gen.mix((st.sampled_from([0, 1e-5, 1e-4, 0.01, 0.1]), 2), (gen.dec(0, 0.5, 4), 1)))
                  for _ in range(n)],
    }
    if draw(gen.weighted((False, 6), (True, 1))):
        # costs that use up the whole reward of a saturated pool
        cfg['a0'], cfg['reward_scheme'], cfg['k'] = 0, scheme % 4, draw(st.sampled_from([1, 2, 4, 8]))
        cfg['driver']['costs'] = [draw(st.sampled_from([1 / cfg['k'], 1 / cfg['k'], 0.1])) for _ in range(n)]
    owners = draw(st.sampled_from(['few', 'any']))
    pools = []
    ids = draw(st.lists(st.integers(1, 60), min_size=min_pools, max_size=max_pools, unique=True))
    tiny = min_pledge is None and draw(st.booleans())
    for pool_id in ids:
        pledge = draw(gen.mix((amount, 3), (st.just(0) if tiny and scheme != 4 else st.just(0.015625), 1)))
        delegated = draw(gen.mix((st.just(0), 1), (amount, 2), (st.just(2), 1)))
        pools.append({'id': pool_id, 'owner': draw(st.integers(0, min(n - 1, 2) if owners == 'few' else n - 1)),
                      'pledge': max(pledge, min_pledge or 0), 'delegated': delegated,
                      'margin': draw(gen.mix((st.sampled_from([0, 0.1, 1]), 1), (gen.dec(0, 1, 4), 1))),
                      'cost': draw(gen.dec(0, 0.1, 4)), 'private': draw(gen.weighted((False, 4), (True, 1)))})
    cfg['driver']['pools'] = pools
    return cfg


@st.composite
def crowds(draw):
    """hundreds of pools, given by a few numbers (expanded by `expand`)"""
    n = draw(st.integers(100, 1300))
    scheme = draw(st.sampled_from([0, 1, 2, 3, 4]))
    cfg = {'n': n, 'k': draw(st.integers(20, 500)), 'a0': draw(gen.dec(0.1, 1, 1)), 'reward_scheme': scheme,
           'stake_distr_source': 'flat', 'seed': draw(gen.seeds), 'max_iterations': 2}
    cfg['crowd'] = {'pools': draw(st.integers(60, 1200)), 'seed': draw(st.integers(0, 2 ** 32 - 1)),
                    'stakes': draw(st.sampled_from(['equal', 'similar', 'skewed', 'one big'])),
                    'owners': draw(st.sampled_from(['each', 'each', 'any', 'few'])),
                    'private': draw(st.sampled_from([0, 0, 0.2])), 'costs': draw(st.sampled_from(['equal', 'different']))}
    return cfg


def expand(cfg):
    crowd, n = cfg['crowd'], cfg['n']
    rng = random.Random(crowd['seed'])
    size = {'equal': lambda: 1.0, 'similar': lambda: rng.uniform(0.9, 1.1), 'skewed': lambda: rng.paretovariate(1.2),
            'one big': lambda: rng.uniform(0.9, 1.1)}[crowd['stakes']]
    stakes = [size() for _ in range(n)]
    total = sum(stakes)
    stakes = [s / total for s in stakes]
    cost = (lambda: 0.25 / n) if crowd['costs'] == 'equal' else (lambda: rng.choice([0, 0.1, 0.5, 1, 3]) / n)
    m = min(crowd['pools'], n) if crowd['owners'] == 'each' else crowd['pools']
    ids = rng.sample(range(1, 5000), m)
    owners = rng.sample(range(n), m) if crowd['owners'] == 'each' else \
        [rng.randrange(n if crowd['owners'] == 'any' else 40) for _ in range(m)]
    sizes = [size() for _ in range(m)]
    if crowd['stakes'] == 'one big':
        sizes[rng.randrange(m)] = float(m // 3)
    whole = sum(sizes)
    pools = []
    for pool_id, owner, part in zip(ids, owners, sizes):
        stake = part / whole
        pledge = min(stakes[owner], stake / 2)
        pools.append({'id': pool_id, 'owner': owner, 'pledge': pledge, 'delegated': stake - pledge,
                      'margin': rng.choice([0, 0.1, rng.random()]), 'cost': cost(),
                      'private': rng.random() < crowd['private']})
    return dict(cfg, driver={'stakes': stakes, 'costs': [cost() for _ in range(n)], 'pools': pools})


def build(cfg, ctx, pools=None, scale=1.0, relabel=None):
    """A simulation whose state has been replaced by the given agents and pools."""
    ctx.fresh_dir()
    if 'crowd' in cfg:
        cfg = expand(cfg)
        simulated = {key: cfg[key] for key in cfg if key != 'crowd'}
    else:
        simulated = cfg
    Pool = drive.need('logic.pool', 'Pool')
    sim = drive.make_sim(simulated)
    d = cfg['driver']
    for a in sim.schedule.agents:
        a.stake = d['stakes'][a.unique_id] * scale
        a.cost = d['costs'][a.unique_id]
    sim.pools = {}
    for p in (d['pools'] if pools is None else pools):
        pid = p['id'] if relabel is None else relabel[p['id']]
        pool = Pool(pool_id=pid, cost=p['cost'], pledge=p['pledge'] * scale, owner=p['owner'],
                    reward_scheme=sim.reward_scheme, margin=p['margin'], is_private=p['private'])
        pool.stake = (p['pledge'] + p['delegated']) * scale
        sim.pools[pid] = pool
    return sim
