"""Decentralisation metrics."""
from hypothesis import strategies as st

from harness import drive, gen, metric_cases, metrics_ref
from harness.core import Experiment, require
from harness.props import c17

PROPERTY = 'C18'
RULE = ('crowds: as sets, with 60 to 1200 pools of up to 1300 stakeholders; large: as the rest, with 60 to 220 stakeholders and k up to 130; '
        'sets: a generated set of pools compared with the definitions; laws: the same set with reordered and renumbered '
        'pools, another unit, and an additional monopolist; solver: the min-aggregate pledge against exhaustive search; '
        'runs: the states of a simulation. Non-trivial: at least 3 pools of at least 2 owners. Distinct by case.')
ASSUMPTIONS = ['the min-aggregate pledge comes from a numerical solver: it has to lie within 3 % below and 8 % above the '
               'true optimum, with up to 12 pools; Gini coefficients without any pool are not judged',
               'exactly one half of the stake may count as a majority or not if the sums are subject to rounding']
NAMES = metrics_ref.DECENTRALISATION
SCALE_FREE = ['Nakamoto coefficient', 'Pledge rate', 'Pool homogeneity factor', 'Gini-id', 'Gini-id stake', 'Gini-id (k)',
              'Gini-id stake (k)']


def check_sets(cfg, ctx):
    c17.check_sets(cfg, ctx, NAMES)


def check_runs(cfg, ctx):
    c17.check_runs(cfg, ctx, NAMES)


def values(sim, names):
    return {name: drive.plain(c17.reporter(name)(sim)) for name in names}


@st.composite
def law_cases(draw):
    cfg = draw(metric_cases.pool_sets(min_pools=1))
    m = len(cfg['driver']['pools'])
    cfg['driver']['order'] = draw(st.permutations(range(m)))
    cfg['driver']['ids'] = draw(st.lists(st.integers(1, 500), min_size=m, max_size=m, unique=True))
    cfg['driver']['unit'] = draw(st.integers(-20, 20))
    return cfg


def compare(a, b, what):
    for name in a:
        require(metrics_ref.near(a[name], b[name], 1e-8, 1e-10), '%s is %r, but %r with %s', name, a[name], b[name], what)


def check_laws(cfg, ctx):
    d = cfg['driver']
    base_sim = metric_cases.build(cfg, ctx)
    base = values(base_sim, NAMES)
    total = sum(p.stake for p in base_sim.pools.values())
    if total <= 0:
        return
    per = metrics_ref.Snapshot(base_sim).per_operator('stake')
    tie = metrics_ref.nakamoto_bounds(list(per.values()))
    names = NAMES if tie[0] == tie[1] else [x for x in NAMES if not x.startswith('Nakamoto')]
    base = {name: base[name] for name in names}
    shuffled = [d['pools'][i] for i in d['order']]
    relabel = {p['id']: new for p, new in zip(d['pools'], d['ids'])}
    compare(base, values(metric_cases.build(cfg, ctx, shuffled, relabel=relabel), names),
            'the same pools in another order and under other ids')
    free = [name for name in SCALE_FREE if name in names]
    compare({name: base[name] for name in free},
            values(metric_cases.build(cfg, ctx, scale=2.0 ** d['unit']), free), 'another unit of stake')
    # an operator that takes over more than half of the stake controls a majority on its own
    top = dict(d['pools'][0], id=999, delegated=3 * total + 1)
    got = values(metric_cases.build(cfg, ctx, d['pools'] + [top]), ['Nakamoto coefficient'])['Nakamoto coefficient']
    require(got == 1, 'the Nakamoto coefficient is %r although one operator controls most of the stake', got)
    classify = metrics_ref.Snapshot(base_sim)
    c17.classify(classify, ctx)


def solver_cases():
    return metric_cases.pool_sets(max_pools=9, min_pledge=0.02)


def check_solver(cfg, ctx):
    sim = metric_cases.build(cfg, ctx)
    c17.classify(c17.judge_all(sim, ['Min-aggregate pledge']), ctx)


EXPERIMENTS = [
    Experiment('sets', metric_cases.pool_sets, check_sets, 1600, 60000),
    Experiment('laws', law_cases, check_laws, 600, 20000),
    Experiment('solver', solver_cases, check_solver, 400, 8000),
    Experiment('runs', c17.run_cases, check_runs, 250, 8000),
    Experiment('large', lambda: gen.large_configs(n=(50, 160), k=(12, 80), max_rounds=5), check_runs, 64, 1500),
    Experiment('crowds', metric_cases.crowds, check_sets, 160, 5000),
]
