"""Initial population."""
import math

from hypothesis import strategies as st

from harness import drive, gen, inv
from harness.core import Experiment, require

PROPERTY = 'C06'
RULE = ('population: one generated configuration whose initial state is examined; large: populations of 1500 whose '
        'stakes, costs and profiles are compared with their distributions; files: populations drawn from files with '
        'another number of values; sampling: the sampling functions themselves. Non-trivial: more than one stakeholder. '
        'Distinct by case.')
ASSUMPTIONS = ['statistical deviations count only if their probability is below 1e-9 per test',
               'Pareto shapes from 0.1, below which the samples exceed the range of floating point numbers']


def population(sim, n, when):
    agents = sorted(sim.schedule.agents, key=lambda a: a.unique_id)
    require([a.unique_id for a in agents] == list(range(n)), '%s: stakeholders %r instead of %d', when,
            [a.unique_id for a in agents][:20], n)
    return agents


def check_common(sim, cfg):
    n = cfg['n']
    agents = population(sim, n, 'initially')
    f = cfg.get('inactive_stake_fraction', 0)
    total = math.fsum(a.stake for a in agents)
    require(abs(total - (1 - f)) <= 1e-9, 'the stakes add up to %r, the inactive fraction is %r', total, f)
    least = 0 if 0 in (cfg.get('file_stakes') or ()) else 1e-300
    require(all(a.stake >= least for a in agents), 'a stakeholder has stake %r', min(a.stake for a in agents))
    lo, hi = cfg.get('cost_min', 1e-5), cfg.get('cost_max', 1e-4)
    for a in agents:
        require(lo - 1e-15 <= a.cost <= hi + 1e-15, 'agent %s has cost %r, the interval is [%r, %r]', a.unique_id, a.cost,
                lo, hi)
        require(a.strategy is None or (not inv.owned(a) and not inv.allocations(a)),
                'agent %s starts with a strategy', a.unique_id)
        require(a.new_strategy is None, 'agent %s starts with a plan', a.unique_id)
    require(not sim.pools, 'the simulation starts with pools')
    require(sim.running and sim.schedule.steps == 0, 'the simulation starts at round %r', sim.schedule.steps)
    weights = cfg.get('agent_profile_distr') or [1, 0, 0]
    names = ['nonmyopic', 'myopic', 'abstainer']
    for a in agents:
        p = drive.profile_of(a)
        require(weights[names.index(p)] > 0, 'agent %s is %s, the weights are %r', a.unique_id, p, weights)
    k = cfg['k'][0] if isinstance(cfg['k'], list) else cfg['k']
    if cfg.get('inactive_stake_fraction_known'):
        k = k / (1 - f)
    require(sim.reward_scheme.k == int(k) and abs(sim.reward_scheme.global_saturation_threshold - 1 / k) <= 1e-12,
            'k = %r and saturation point %r are in force instead of %r and %r', sim.reward_scheme.k,
            sim.reward_scheme.global_saturation_threshold, int(k), 1 / k)
    a0 = cfg['a0'][0] if isinstance(cfg['a0'], list) else cfg['a0']
    require(sim.reward_scheme.a0 == a0, 'a0 is %r instead of %r', sim.reward_scheme.a0, a0)
    require(type(sim.reward_scheme).__name__ in inv.refs.SCHEME_KIND and
            inv.refs.SCHEME_KIND[type(sim.reward_scheme).__name__] == cfg.get('reward_scheme', 0),
            'reward scheme %r is in force, %r was chosen', type(sim.reward_scheme).__name__, cfg.get('reward_scheme', 0))
    return agents, 1 - f


@st.composite
def population_cases(draw):
    cfg = draw(gen.configs(n_max=60, k_max=40))
    if cfg['stake_distr_source'] == 'pareto':
        cfg['pareto_param'] = draw(gen.mix((gen.dec(0.1, 5, 1), 2), (st.integers(1, 30), 1)))
    cfg['inactive_stake_fraction'] = draw(gen.mix((gen.dec(0, 0.99, 2), 3), (st.just(0), 1)))
    cfg['inactive_stake_fraction_known'] = draw(st.booleans())
    if cfg['stake_distr_source'] == 'file' and draw(st.booleans()):
        cfg['file_stakes'] = draw(gen.nearly(cfg['file_stakes'], 1 - cfg['inactive_stake_fraction']))
    cfg['driver'] = {'per_line': draw(st.integers(1, 7)), 'spaces': draw(st.booleans())}
    return cfg


def check_population(cfg, ctx):
    ctx.fresh_dir()
    if cfg['stake_distr_source'] == 'file':
        write(cfg['n'], cfg['file_stakes'], cfg['driver']['per_line'], cfg['driver']['spaces'])
    sim = drive.make_sim(dict(cfg, file_stakes=None))
    agents, active = check_common(sim, cfg)
    source = cfg['stake_distr_source']
    if source == 'flat':
        want = [active / cfg['n']] * cfg['n']
    elif source == 'file':
        total = math.fsum(cfg['file_stakes'])
        want = [s / total * active for s in cfg['file_stakes']]
    elif source == 'disparity':
        want = [0.1 * active] * 3 + [0.7 / (cfg['n'] - 3) * active] * (cfg['n'] - 3)
    else:
        want = None
        if cfg['n'] > 2:
            # a sample of a continuous distribution has no ties (unless rounded to equal numbers)
            require(len({a.stake for a in agents}) > 1, 'all stakes sampled from a Pareto distribution are equal')
    if want:
        for a, w in zip(agents, want):
            require(abs(a.stake - w) <= 1e-12, 'source %s: agent %s has stake %r instead of %r', source, a.unique_id,
                    a.stake, w)
    ctx.label('source=' + source, 'inactive' if active < 1 else 'all active')
    ctx.nontrivial(cfg['n'] > 1)


def write(n, stakes, per_line=1, spaces=False):
    if not spaces:
        return drive.write_stake_file(n, stakes, per_line)
    with open('synthetic-stake-distribution-%d-agents.csv' % n, 'w') as f:
        for i in range(0, len(stakes), per_line):
            # as spreadsheets do: incomplete rows have empty cells
            cells = [repr(float(x)) for x in stakes[i:i + per_line]]
            f.write(', '.join(cells + [''] * (per_line - len(cells))) + (',' if per_line > 1 else '') + '\n')
        f.write('\n')


def ks_ok(sample, cdf):
    """Kolmogorov-Smirnov with a bound (DKW) that is exceeded with a probability below 1e-9"""
    xs = sorted(sample)
    m = len(xs)
    d = max(max(abs(cdf(x) - i / m), abs(cdf(x) - (i + 1) / m)) for i, x in enumerate(xs))
    return d, math.sqrt(math.log(2 / 1e-9) / (2 * m))


@st.composite
def rare_weights(draw):
    """weights of different magnitudes and units"""
    unit = draw(st.sampled_from([1, 1, 1e-2, 1e-3, 1e3]))
    weights = [w * unit for w in (1, draw(st.sampled_from([0, 1, 0.3, 0.1])), draw(gen.dec(0.03, 0.1, 3)))]
    return draw(st.permutations(weights))


def plausible(count, n, p):
    """Chernoff bounds that are exceeded with a probability below 1e-9"""
    q = count / n
    if p in (0, 1):
        return q == p
    divergence = (q * math.log(q / p) if q else 0) + ((1 - q) * math.log((1 - q) / (1 - p)) if q < 1 else 0)
    return n * divergence <= math.log(2 / 1e-9)


@st.composite
def large_cases(draw):
    lo = draw(gen.log_float(-6, -2))
    return {'n': 1500, 'k': draw(st.integers(1, 200)), 'a0': 0.3,
            'pareto_param': draw(gen.dec(0.3, 6, 1)), 'cost_min': lo, 'cost_max': lo * draw(st.integers(2, 100)),
            'agent_profile_distr': draw(gen.mix((gen.profile_weights(), 1), (st.tuples(*[st.integers(0, 5)] * 3).filter(
                lambda t: sum(t) > 0).map(list), 2), (rare_weights(), 3))),
            'inactive_stake_fraction': draw(gen.mix((gen.dec(0, 0.9, 1), 1), (st.just(0), 1))),
            'stake_distr_source': 'pareto', 'seed': draw(st.integers(0, 9999999))}


def check_large(cfg, ctx):
    ctx.fresh_dir()
    sim = drive.make_sim(cfg)
    agents, active = check_common(sim, cfg)
    n = cfg['n']
    smallest = min(a.stake for a in agents)
    richest = max(agents, key=lambda a: a.stake)
    logs = sorted(math.log(a.stake / smallest) for a in agents)[1:]
    a = cfg['pareto_param']
    d, limit = ks_ok(logs, lambda x: 1 - math.exp(-a * x))
    require(d <= limit, 'stakes deviate from a Pareto distribution with shape %r by %.3f (limit %.3f)', a, d, limit)
    lo, hi = cfg['cost_min'], cfg['cost_max']
    d, limit = ks_ok([x.cost for x in agents], lambda x: (x - lo) / (hi - lo))
    require(d <= limit, 'costs deviate from the uniform distribution on [%r, %r] by %.3f (limit %.3f)', lo, hi, d, limit)
    weights = cfg['agent_profile_distr']
    for name, w in zip(['nonmyopic', 'myopic', 'abstainer'], weights):
        p = w / sum(weights)
        count = sum(1 for x in agents if drive.profile_of(x) == name)
        require(plausible(count, n, p), '%d of %d stakeholders are %s, the weights are %r', count, n, name, weights)
    # being rich has nothing to do with the position or the profile: the richest half is spread over the ids
    half = sorted(x.stake for x in agents)[n // 2]
    first = sum(1 for x in agents if x.unique_id < n // 2 and x.stake >= half)
    require(abs(first - n / 4) <= math.sqrt(n / 2 * math.log(2 / 1e-9) / 2), 'the richest half of %d stakeholders '
            'contains %d of those with the lower ids', n, first)
    middle = sorted(x.cost for x in agents)[n // 2]
    first = sum(1 for x in agents if x.unique_id < n // 2 and x.cost >= middle)
    require(abs(first - n / 4) <= math.sqrt(n / 2 * math.log(2 / 1e-9) / 2), 'the half of %d stakeholders with the higher costs '
            'contains %d of those with the lower ids', n, first)
    # the profile has nothing to do with the position, the stake or the costs
    by_stake = {x.unique_id for x in agents if x.stake >= half}
    for name in ('nonmyopic', 'myopic', 'abstainer'):
        of_kind = {x.unique_id for x in agents if drive.profile_of(x) == name}
        slack = math.sqrt(min(len(of_kind), n / 2) * math.log(2 / 1e-9) / 2) + 1
        for what, part in (('lower ids', {x.unique_id for x in agents if x.unique_id < n // 2}), ('larger stakes', by_stake),
                           ('higher costs', {x.unique_id for x in agents if x.cost >= middle})):
            share = len(of_kind) * len(part) / n
            require(abs(len(of_kind & part) - share) <= slack, 'of %d stakeholders that are %s, %d are among the %d (of %d) with '
                    'the %s', len(of_kind), name, len(of_kind & part), len(part), n, what)
    kinds = [drive.profile_of(x) for x in sorted(agents, key=lambda x: x.unique_id)]
    same = sum(1 for x, y in zip(kinds, kinds[1:]) if x == y)
    expected = (n - 1) * sum((w / sum(weights)) ** 2 for w in weights)
    require(abs(same - expected) <= math.sqrt(2 * n * math.log(2 / 1e-9)), '%d of %d stakeholders have the profile of the one '
            'before, %.0f are expected with the weights %r', same, n - 1, expected, weights)
    ctx.label('shape<1' if a < 1 else 'shape>=1')
    ctx.nontrivial(richest.stake > smallest)


@st.composite
def file_cases(draw):
    m = draw(st.integers(1, 12))
    # products of values identify the values
    values = draw(st.lists(st.integers(1, 400), min_size=m, max_size=m))
    n = draw(gen.mix((st.integers(1, m), 3), (st.integers(m + 1, 20), 2)))
    return {'values': values, 'n': n, 'per_line': draw(st.integers(1, 5)), 'own': draw(st.booleans()),
            'f': draw(st.sampled_from([0, 0.25, 0.5]))}


def check_files(case, ctx):
    ctx.fresh_dir()
    values, n = case['values'], case['n']
    # either the file for n stakeholders or the default file
    write(n if case['own'] else 10000, values, case['per_line'])
    sim = drive.make_sim({'n': n, 'k': 3, 'a0': 0.3, 'stake_distr_source': 'file', 'seed': 1,
                          'inactive_stake_fraction': case['f']})
    agents, active = check_common(sim, {'n': n, 'k': 3, 'a0': 0.3, 'inactive_stake_fraction': case['f']})
    stakes = [a.stake for a in agents]
    matches = []
    for v0 in sorted(set(values)):
        guess = [s / stakes[0] * v0 for s in stakes]
        rounded = [round(g) for g in guess]
        if all(abs(g - r) <= 1e-6 * max(1, r) for g, r in zip(guess, rounded)):
            matches.append(rounded)

    def admissible(sample):
        if n == len(values):
            return sample == values
        if n < len(values):
            left = list(values)
            for s in sample:
                if s not in left:
                    return False
                left.remove(s)
            return True
        return set(sample) <= set(values)

    require(any(admissible(m) for m in matches), '%d stakes relative to the first %r are not drawn from the values %r', n,
            [s / stakes[0] for s in stakes], values)
    ctx.label('fewer' if n < len(values) else 'more' if n > len(values) else 'equal')
    ctx.nontrivial(n > 1 and len(set(values)) > 1)


@st.composite
def sampling_cases(draw):
    return {'a': draw(gen.dec(0.3, 6, 1)), 'seed': draw(st.integers(0, 9999999)), 'n': draw(st.integers(1, 3000)),
            'lo': draw(gen.dec(0, 1, 3)), 'span': draw(gen.mix((gen.dec(0, 5, 3), 4), (st.just(0), 1))),
            'bad': draw(gen.dec(0.001, 1, 3)), 'c': draw(st.integers(1, 5))}


def check_sampling(case, ctx):
    pareto, flat, unfrm, disparity = drive.need(
        'logic.helper', 'generate_stake_distr_pareto', 'generate_stake_distr_flat', 'generate_cost_distr_unfrm',
        'generate_stake_distr_disparity')
    n, a = case['n'], case['a']
    sample = [float(x) for x in pareto(num_agents=n, pareto_param=a, seed=case['seed'])]
    require(len(sample) == n and all(x >= 1 for x in sample), 'a Pareto sample of %d values with minimum %r', len(sample),
            min(sample))
    if n >= 100:
        d, limit = ks_ok(sample, lambda x: 1 - x ** -a)
        require(d <= limit, 'sample of %d values deviates from the Pareto distribution with shape %r by %.3f', n, a, d)
    again = [float(x) for x in pareto(num_agents=n, pareto_param=a, seed=case['seed'])]
    require(again == sample, 'two Pareto samples with the same seed differ')
    if n > 1:
        other = [float(x) for x in pareto(num_agents=n, pareto_param=a, seed=case['seed'] + 1)]
        require(other != sample, 'Pareto samples with different seeds are equal')
    lo, hi = case['lo'], case['lo'] + case['span']
    costs = [float(x) for x in unfrm(num_agents=n, low=lo, high=hi, seed=case['seed'])]
    require(len(costs) == n and all(lo <= x <= hi for x in costs), '%d costs between %r and %r from [%r, %r]', len(costs),
            min(costs), max(costs), lo, hi)
    if n >= 100 and hi > lo:
        d, limit = ks_ok(costs, lambda x: (x - lo) / (hi - lo))
        require(d <= limit, 'a sample of %d costs deviates from the uniform distribution on [%r, %r] by %.3f', n, lo, hi,
                d)
    try:
        unfrm(num_agents=n, low=lo + case['bad'], high=lo, seed=case['seed'])
        refused = False
    except ValueError:
        refused = True
    require(refused, 'costs are drawn from an empty interval')
    equal = flat(num_agents=n)
    require(len(equal) == n and all(abs(x - 1 / n) <= 1e-15 for x in equal), 'equal stakes of %d: %r', n, equal[:5])
    c = case['c']
    if n > c:
        ds = disparity(n=n, x=0.3, c=c)
        require(len(ds) == n and abs(math.fsum(ds) - 1) <= 1e-9 and all(abs(x - 0.3 / c) <= 1e-12 for x in ds[:c]) and
                all(abs(x - 0.7 / (n - c)) <= 1e-12 for x in ds[c:]), 'disparity among %d with %d privileged: %r', n, c,
                ds[:8])
    ctx.nontrivial(n > 1)


EXPERIMENTS = [
    Experiment('population', population_cases, check_population, 2500, 60000),
    Experiment('large', large_cases, check_large, 150, 4000),
    Experiment('files', file_cases, check_files, 1200, 20000),
    Experiment('sampling', sampling_cases, check_sampling, 1500, 30000),
]
