"""Ranks and elementary calculations."""
from fractions import Fraction

from hypothesis import strategies as st

from harness import gen
from harness.core import Experiment, require
from harness.drive import need

PROPERTY = 'C25'
RULE = ('ranks: dictionaries of up to 30 values with many ties, up to two tie-breaking dictionaries, in generated '
        'insertion orders, with and without ids as the last tie-breaker; many: the same with 61 to 1500 items; terms: cost, stake, factor, k, number of pools, margin and profit. Non-trivial: (ranks) at least 3 items '
        'and one tie, (terms) more than one pool and a positive cost. Distinct by case.')
ASSUMPTIONS = ['tie-breakers prefer higher values, as the main values do', 'values are compared with a relative '
               'tolerance of 1e-9']


@st.composite
def rank_cases(draw):
    value = draw(st.sampled_from([
        st.sampled_from([0, 1, 2, -1, 0.5, 1e-17, 3.25]), gen.mix((st.integers(-3, 3), 2), (gen.dec(-1, 1, 2), 1)),
        # values that differ by next to nothing
        st.integers(0, 6).map(lambda j: 0.125 + j * 2 ** -51), st.integers(-5, 5).map(lambda j: j * 1e-13)]))
    ids = draw(st.lists(st.integers(0, 40), min_size=0, max_size=30, unique=True))
    case = {'items': [[i, draw(value)] for i in ids], 'ties': [], 'without_ids': draw(st.booleans())}
    for _ in range(draw(st.integers(0, 2))):
        case['ties'].append([[i, draw(st.integers(0, 2))] for i in ids])
    return case


def check_ranks(case, ctx):
    ranks_fn = need('logic.helper', 'calculate_ranks')
    values = {i: v for i, v in case['items']}
    ties = [{i: v for i, v in t} for t in case['ties']]
    ranks = ranks_fn(dict(values), *[dict(t) for t in ties])
    n = len(values)
    require(set(ranks) == set(values), 'ranks are given to %r instead of %r', sorted(ranks), sorted(values))
    require(sorted(ranks.values()) == list(range(1, n + 1)), 'the ranks are %r', sorted(ranks.values()))
    # explicit quadratic definition
    for i in values if n <= 60 else ():
        before = 0
        for j in values:
            if i == j:
                continue
            key_i = [values[i]] + [t[i] for t in ties] + [-i]
            key_j = [values[j]] + [t[j] for t in ties] + [-j]
            before += key_j > key_i
        require(ranks[i] == before + 1, 'item %d with value %r has rank %d instead of %d', i, values[i], ranks[i],
                before + 1)
    if n > 60:
        order = sorted(values, key=lambda i: [values[i]] + [t[i] for t in ties] + [-i], reverse=True)
        wrong = [i for place, i in enumerate(order, 1) if ranks[i] != place]
        require(not wrong, 'of %d items, item %r has rank %r instead of %r', n, wrong and wrong[0], wrong and ranks[wrong[0]],
                wrong and order.index(wrong[0]) + 1)
        ctx.label('hundreds of items')
    if case.get('without_ids'):
        loose = ranks_fn(dict(values), *[dict(t) for t in ties], rank_ids=False)
        require(set(loose) == set(values) and sorted(loose.values()) == list(range(1, n + 1)),
                'without the ids, the ranks are %r', loose)
        order = sorted(values, key=loose.get)
        for i, j in zip(order, order[1:]):
            require([values[i]] + [t[i] for t in ties] >= [values[j]] + [t[j] for t in ties],
                    'without the ids, item %r with value %r precedes item %r with value %r', i, values[i], j, values[j])
    again = ranks_fn(dict(sorted(values.items(), key=lambda x: (x[1], x[0]))),
                     *[dict(sorted(t.items(), reverse=True)) for t in ties])
    require(again == ranks, 'the ranks depend on the order of insertion: %r / %r', again, ranks)
    tied = len(set(values.values())) < n
    if tied:
        ctx.label('ties')
    if ties:
        ctx.label('tie-breakers')
    ctx.nontrivial(n >= 3 and tied)


@st.composite
def many_rank_cases(draw):
    return {'n': draw(st.integers(61, 1500)), 'step': draw(st.integers(1, 1499)), 'values': draw(st.integers(1, 2000)),
            'scale': draw(st.sampled_from([1, 0.01, 1e-5, -1])), 'tie': draw(st.integers(0, 5)),
            'without_ids': draw(st.booleans())}


def check_many_ranks(case, ctx):
    ids = sorted(range(case['n']), key=lambda i: (i * case['step']) % 1511)
    items = [[i, (i * i + case['step'] * i) % case['values'] * case['scale']] for i in ids]
    ties = [[[i, i % case['tie']] for i in ids]] if case['tie'] else []
    check_ranks({'items': items, 'ties': ties, 'without_ids': case['without_ids']}, ctx)


@st.composite
def term_cases(draw):
    return {
        'cost': draw(gen.mix((gen.log_float(-7, 1), 3), (st.just(0), 1))), 'phi': draw(gen.dec(0, 2, 2)),
        't': draw(gen.mix((st.integers(1, 5), 2), (st.integers(1, 300), 1))),
        'stake': draw(gen.mix((gen.log_float(-8, 0), 3), (gen.dec(0, 1, 3), 2))),
        'k': draw(st.integers(1, 500)),
        'margin': draw(gen.mix((gen.dec(0, 1, 3), 2), (st.floats(0, 1), 1), (gen.log_float(-9, 0), 1))),
        'profit': draw(gen.mix((gen.log_float(-7, 0), 3), (gen.log_float(-15, -7), 1), (st.just(0), 1), (gen.log_float(-7, 0).map(lambda x: -x), 1))),
        'share': draw(gen.mix((gen.dec(0, 2, 3), 3), (st.just(1), 1), (st.floats(0, 1.2), 3),
                              (gen.log_float(-9, 0).map(lambda x: 1 - x), 2), (gen.log_float(-9, 0), 1))),
    }


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-15


def check_terms(case, ctx):
    cost_fn, pledge_fn, margin_fn, des_fn, mdes_fn, split_fn = need(
        'logic.helper', 'calculate_cost_per_pool', 'calculate_pledge_per_pool', 'calculate_suitable_margin',
        'calculate_pool_desirability', 'calculate_myopic_pool_desirability', 'calculate_pool_splitting_profit')
    c, phi, t, stake, z0 = case['cost'], case['phi'], case['t'], case['stake'], 1 / case['k']
    per_pool = cost_fn(num_pools=t, initial_cost=c, extra_pool_cost_fraction=phi)
    total = float(Fraction(c) + (t - 1) * Fraction(phi) * Fraction(c))
    require(near(per_pool * t, total), '%d pools cost %r each, which is not %r in total', t, per_pool, total)
    nxt = cost_fn(num_pools=t + 1, initial_cost=c, extra_pool_cost_fraction=phi)
    if phi <= 1:
        require(nxt <= per_pool * (1 + 1e-12), 'average cost rises from %r to %r although extra pools are cheaper',
                per_pool, nxt)
    else:
        require(nxt >= per_pool * (1 - 1e-12), 'average cost falls from %r to %r although extra pools cost more',
                per_pool, nxt)
    slack = 1e-12 * (t + 1) * max(nxt, per_pool)  # what is left of a difference of nearly equal numbers
    require(abs((t + 1) * nxt - t * per_pool - phi * c) <= slack + 1e-7 * phi * c + 1e-15, 'pool number %d costs %r instead of %r', t + 1,
            (t + 1) * nxt - t * per_pool, phi * c)

    pledge = pledge_fn(agent_stake=stake, global_saturation_threshold=z0, num_pools=t)
    require(near(pledge, min(stake / t, z0)), 'stake %r over %d pools with saturation %r: pledge %r', stake, t, z0, pledge)
    for bad in (0, -1):
        try:
            pledge_fn(agent_stake=stake, global_saturation_threshold=z0, num_pools=bad)
        except ValueError:
            pass
        else:
            require(False, 'a pledge for %d pools was calculated', bad)

    m, pp = case['margin'], case['profit']
    tolerance = min(1e-12, 1e-9 * abs(pp))
    for fn in (des_fn, mdes_fn):
        d = fn(m, pp)
        expected = (1 - m) * pp if pp > 0 else 0
        require(abs(d - expected) <= tolerance, 'margin %r of profit %r leaves desirability %r', m, pp, d)
    target = case['share'] * abs(pp)
    margin = margin_fn(potential_profit=pp, target_desirability=target)
    if pp > 0:
        expected = max(1 - target / pp, 0)
        require(near(margin, expected, 1e-9), 'margin %r for target %r of profit %r', margin, target, pp)
        require(0 <= margin <= 1, 'margin %r', margin)
        if target <= pp:
            require(abs(des_fn(margin, pp) - target) <= tolerance, 'margin %r was to leave %r of %r but leaves %r', margin,
                    target, pp, des_fn(margin, pp))
            ctx.label('reachable target')
    else:
        require(margin == 0, 'margin %r without profit', margin)
        ctx.label('no profit')
    a0 = case['share']
    gain = split_fn(a0, phi, c, stake)
    require(abs(gain - ((1 + a0) * (1 - phi) * c - stake * a0)) <= 1e-12, 'pool splitting profit is %r', gain)
    ctx.nontrivial(t > 1 and c > 0)


EXPERIMENTS = [
    Experiment('ranks', rank_cases, check_ranks, 8000, 200000),
    Experiment('many', many_rank_cases, check_many_ranks, 300, 6000),
    Experiment('terms', term_cases, check_terms, 12000, 300000),
]
