"""Reward formulas against exact rational arithmetic, laws, and changes of parameters on a live scheme object."""
from fractions import Fraction

from hypothesis import strategies as st

from harness import gen, refs
from harness.core import Experiment, Skip, require
from harness.drive import need

PROPERTY = 'C07'
RULE = ('Sequences of operations on one reward scheme object (set k, set a0, query a reward at a pledge and stake) with '
        'values spread over orders of magnitude and placed on and around the saturation point. Non-trivial: at least '
        'one query with 0 < pledge < stake, and one after a change of a parameter or on both sides of saturation. '
        'Distinct by case.')
ASSUMPTIONS = ['pledge <= stake (the stake of a pool includes its pledge)',
               'rewards are compared with a tolerance of 1e-12 plus 1e-9 relative',
               'non-negativity is not claimed for the curved scheme (CIP-7), whose published formula is negative for '
               'tiny pools']

amount = gen.mix((gen.log_float(-9, 1), 4), (gen.dec(0, 1, 4), 3), (st.just(0), 1))


@st.composite
def query(draw):
    mode = draw(st.sampled_from(['free', 'rel', 'rel', 'sat']))
    if mode == 'free':
        a, b = draw(amount), draw(amount)
        return {'op': 'query', 'abs': True, 'pledge': min(a, b), 'stake': max(a, b)}
    # relative to the saturation point
    if mode == 'sat':
        return {'op': 'query', 'abs': False, 'pledge': draw(gen.dec(0, 0.99, 2)),
                'stake': draw(st.sampled_from([1, 1, 1.0000001, 0.9999999]))}
    a, b = draw(gen.dec(0, 1.2, 2)), draw(gen.dec(0, 1.6, 2))
    return {'op': 'query', 'abs': False, 'pledge': min(a, b), 'stake': max(a, b)}


@st.composite
def cases(draw):
    k_values = gen.mix((st.integers(1, 12), 4), (st.integers(1, 1000), 3), (st.tuples(
        st.integers(1, 500), gen.dec(0.01, 0.9, 2)).map(lambda t: t[0] / (1 - t[1])), 2))
    a0_values = gen.mix((gen.dec(0, 1, 2), 4), (st.just(0), 1), (gen.dec(0, 40, 1), 2), (gen.log_float(-4, 3), 1))
    kind = draw(st.sampled_from([0, 1, 2, 3, 4]))
    case = {'kind': kind, 'k': draw(k_values), 'a0': draw(a0_values)}
    if kind == 3:
        case['curve'] = draw(st.none() | st.tuples(st.sampled_from([1, 2, 8, 20]), st.sampled_from([1, 2, 3, 5])).map(
            list))
    op = st.one_of(query(), query(), query(), st.fixed_dictionaries({'op': st.just('k'), 'value': k_values}),
                   st.fixed_dictionaries({'op': st.just('a0'), 'value': a0_values}))
    case['ops'] = draw(st.lists(op, min_size=2, max_size=10))
    return case


def make_scheme(case):
    mapping = need('logic.reward_schemes', 'RSS_MAPPING')
    cls = mapping[case['kind']]
    if case['kind'] == 3 and case.get('curve'):
        return cls(k=case['k'], a0=case['a0'], crossover_factor=case['curve'][0], curve_root=case['curve'][1])
    return cls(k=case['k'], a0=case['a0'])


def check(case, ctx):
    hlp = need('logic.helper', 'calculate_pool_reward', 'calculate_potential_profit', 'calculate_current_profit')
    reward_fn, potential_fn, current_fn = hlp
    scheme = make_scheme(case)
    kind, k, a0 = case['kind'], case['k'], case['a0']
    crossover, root = case['curve'] if case.get('curve') else (8, 3)
    ctx.label('scheme %d' % kind)
    changed = False
    inner = sides = 0
    for op in case['ops']:
        if op['op'] == 'k':
            k = op['value']
            scheme.k = k
            changed = True
            continue
        if op['op'] == 'a0':
            a0 = op['value']
            scheme.a0 = a0
            changed = True
            continue
        z0 = 1 / Fraction(k)
        factor = 1.0 if op['abs'] else float(z0)
        pledge, stake = op['pledge'] * factor, op['stake'] * factor
        what = 'scheme %d, k=%r, a0=%r, pledge %r, stake %r' % (kind, k, a0, pledge, stake)
        require(abs(scheme.k - int(k)) <= 1 and abs(scheme.global_saturation_threshold - float(z0)) <= 1e-12,
                '%s: k is %r, saturation point %r', what, scheme.k, scheme.global_saturation_threshold)
        sat = scheme.get_pool_saturation_threshold(pledge)
        exact_sat = min(Fraction(a0) * Fraction(pledge), z0) if kind == 4 else z0
        require(abs(Fraction(float(sat)) - exact_sat) <= Fraction(1, 10 ** 12), '%s: saturation at %r instead of %r',
                what, sat, float(exact_sat))

        def reward(p, s):
            r1 = float(scheme.calculate_pool_reward(pool_pledge=p, pool_stake=s))
            r2 = float(reward_fn(reward_scheme=scheme, pool_pledge=p, pool_stake=s))
            require(r1 == r2, '%s: two entry points pay %r and %r', what, r1, r2)
            return r1

        r = reward(pledge, stake)
        exact = refs.exact_reward(kind, Fraction(k), a0, pledge, stake, crossover, root)
        tol = Fraction(1, 10 ** 12) + abs(exact) * Fraction(1, 10 ** 9)
        require(abs(Fraction(r) - exact) <= tol, '%s: pays %r instead of %r', what, r, float(exact))
        if kind != 3:
            require(r >= -1e-12, '%s: pays a negative reward %r', what, r)
        require(r <= float(z0) + 1e-12 and r <= stake + 1e-12, '%s: pays %r, more than the stake or 1/k', what, r)
        if a0 == 0 and kind != 4:
            require(abs(r - min(stake, float(z0))) <= 1e-12, '%s: pays %r instead of min(stake, 1/k)', what, r)
        # saturation and monotonicity in the stake
        at_sat = reward(pledge, max(float(sat), pledge))
        require(r <= at_sat + 1e-12, '%s: pays %r, but at saturation %r', what, r, at_sat)
        more = reward(pledge, stake * 1.25 + 1e-6)
        require(more >= r - 1e-12, '%s: pays %r, with more stake only %r', what, r, more)
        if stake >= sat:
            require(abs(more - r) <= 1e-12, '%s: pays %r, with more stake than saturation %r', what, r, more)
        # profits are defined through rewards
        cost = 0.37 * float(z0)
        pp = float(potential_fn(reward_scheme=scheme, pledge=pledge, cost=cost))
        exact_pp = refs.exact_reward(kind, Fraction(k), a0, pledge, exact_sat, crossover, root) - Fraction(cost)
        require(abs(Fraction(pp) - exact_pp) <= Fraction(1, 10 ** 10), '%s, cost %r: potential profit %r instead of %r',
                what, cost, pp, float(exact_pp))
        cp = float(current_fn(stake=stake, pledge=pledge, cost=cost, reward_scheme=scheme))
        require(abs(cp - (r - cost)) <= 1e-12, '%s, cost %r: current profit %r, reward %r', what, cost, cp, r)
        if changed:
            ctx.label('query after change of parameters')
        if 0 < pledge < stake:
            inner += 1
            sides |= 1 if stake < sat else 2
            ctx.label('below saturation' if stake < sat else 'at or above saturation')
    ctx.nontrivial(inner > 0 and (changed or sides == 3))


EXPERIMENTS = [Experiment('formula', cases, check, 12000, 400000)]
