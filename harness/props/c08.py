"""Reward split: conservation, on generated pools and in reachable states."""
import math

from hypothesis import strategies as st

from harness import gen, histories, inv, refs
from harness.core import Experiment, Skip, require
from harness.drive import need, agents_of

PROPERTY = 'C08'
RULE = ('split: one generated pool (scheme, pledge, margin, cost, up to 12 delegations); states: every state of generated '
        'simulations, where the current utilities of all stakeholders are added up. Non-trivial: (split) at least two '
        'delegations, a pledge and a non-zero profit, (states) at least 3 moves and a delegation. Distinct by case.')
ASSUMPTIONS = ['amounts are compared with a tolerance of 1e-12 plus 1e-9 relative']


@st.composite
def split_cases(draw):
    kind = draw(st.sampled_from([0, 1, 2, 3, 4]))
    return {
        'kind': kind, 'k': draw(st.integers(1, 200)),
        'a0': draw(gen.mix((gen.dec(0, 2, 2), 3), (gen.dec(0, 30, 1), 1 if kind != 4 else 4))),
        'pledge': draw(gen.mix((gen.dec(0, 1.5, 2), 4), (st.just(0), 1))),  # relative to 1/k
        'delegations': draw(st.lists(gen.dec(0, 1, 2), max_size=12)),  # relative to 1/k
        'margin': draw(gen.mix((gen.dec(0, 1, 2), 4), (st.sampled_from([0, 1]), 1))),
        'cost': draw(gen.mix((gen.dec(0, 1.3, 3), 4), (st.just(0), 1))),  # relative to 1/k
    }


def check_split(case, ctx):
    mapping = need('logic.reward_schemes', 'RSS_MAPPING')
    op_fn, del_fn, op_r, del_r = need('logic.helper', 'calculate_operator_utility_from_pool',
                                      'calculate_delegator_utility_from_pool', 'calculate_operator_reward_from_pool',
                                      'calculate_delegator_reward_from_pool')
    scheme = mapping[case['kind']](k=case['k'], a0=case['a0'])
    z0 = 1 / case['k']
    pledge = case['pledge'] * z0
    delegations = [d * z0 for d in case['delegations'] if d > 0]
    stake = math.fsum([pledge] + delegations)
    if stake <= 0:
        return
    cost, margin = case['cost'] * z0, case['margin']
    ref = refs.Scheme(case['kind'], case['k'], case['a0'], z0)
    profit = ref.reward(pledge, stake) - cost
    if abs(profit) < 1e-15:
        return
    operator = op_fn(pool_stake=stake, pledge=pledge, margin=margin, cost=cost, reward_scheme=scheme)
    shares = [del_fn(stake_allocation=d, pool_stake=stake, pledge=pledge, margin=margin, cost=cost,
                     reward_scheme=scheme) for d in delegations]
    what = 'pool with pledge %r, delegations %r, margin %r, cost %r, profit %r' % (pledge, delegations, margin, cost,
                                                                                   profit)
    tol = 1e-12 + 1e-9 * abs(profit)
    for d, s in zip(delegations, shares):
        require(s >= 0, '%s: a delegator earns %r', what, s)
        expected = max(profit, 0) * (1 - margin) * d / stake
        require(abs(s - expected) <= tol, '%s: delegator of %r earns %r instead of %r', what, d, s, expected)
    if profit > 0:
        require(abs(operator + math.fsum(shares) - profit) <= tol, '%s: operator earns %r and delegators %r', what,
                operator, math.fsum(shares))
        expected = profit * (margin + (1 - margin) * pledge / stake)
        require(abs(operator - expected) <= tol, '%s: operator earns %r instead of %r', what, operator, expected)
        ctx.label('profit')
    else:
        require(abs(operator - profit) <= tol, '%s: the operator bears %r', what, operator)
        require(not any(shares), '%s: delegators earn %r', what, shares)
        ctx.label('loss')
    # the functions on rewards
    r = profit + cost
    o = op_r(pool_margin=margin, pool_cost=cost, pool_reward=r, operator_stake_fraction=pledge / stake)
    ds = [del_r(pool_margin=margin, pool_cost=cost, pool_reward=r, delegator_stake_fraction=d / stake)
          for d in delegations]
    require(abs(o + math.fsum(ds) - profit) <= tol, '%s: rewards %r for the operator, %r for delegators', what, o, ds)
    ctx.nontrivial(len(delegations) >= 2 and pledge > 0)


class States(histories.History):
    def start(self, sim, cfg):
        for a in sim.schedule.agents:
            if a.strategy is not None and not hasattr(a, 'calculate_current_utility'):
                raise Skip('agents have no current utility')
        self.checked = 0

    def on_state(self, sim, when):
        sch = inv.scheme_of(sim)
        rewards = math.fsum(sch.reward(p.pledge, p.stake) for p in sim.pools.values())
        require(rewards <= 1 + 1e-9, '%s: the pools are paid %r in total', when, rewards)
        profit = math.fsum(sch.reward(p.pledge, p.stake) - p.cost for p in sim.pools.values())
        earned = 0.0
        for agent in sim.schedule.agents:
            if agent.strategy is None:
                continue
            utility = agent.calculate_current_utility()
            expected = 0.0
            for p in sim.pools.values():
                if p.owner == agent.unique_id:
                    expected += refs.operator_share(sch, p.stake, p.pledge, p.margin, p.cost)
                if agent.unique_id in p.delegators:
                    expected += refs.delegator_share(sch, p.delegators[agent.unique_id], p.stake, p.pledge, p.margin,
                                                     p.cost)
            require(abs(utility - expected) <= 1e-9, '%s: agent %s earns %r according to its own calculation, but %r '
                    'according to the pools', when, agent.unique_id, utility, expected)
            earned += utility
        require(abs(earned - profit) <= 1e-8, '%s: stakeholders earn %r in total but the pools make %r', when, earned,
                profit)


EXPERIMENTS = [
    Experiment('split', split_cases, check_split, 12000, 400000),
    histories.engine_experiment('states', States, 700, 20000),
    histories.scripted_experiment('scripted', States, 1000, 20000),
]
