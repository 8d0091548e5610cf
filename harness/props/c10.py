"""Inertia and best response, for every decision of generated simulations."""
from hypothesis import strategies as st

from harness import decisions, drive, inv
from harness.core import Experiment, Skip, require
from harness.decide import Plan, Situation

PROPERTY = 'C10'
RULE = ('large: as the rest, with 60 to 220 stakeholders and k up to 130; '
        'one generated simulation; every decision of every participating stakeholder is compared with a reference model '
        'of its options; hypothetical: after a generated history, the expected utility of generated strategies; ties: '
        'populations without costs in which every option promises exactly the same, in values that binary fractions '
        'represent exactly. Non-trivial: at least 3 moves, one of which opens or changes pools (hypothetical: a strategy was valued). Distinct '
        'by case.')
ASSUMPTIONS = ['utilities are compared with a tolerance of 1e-10 plus 1e-9 relative; outcomes that depend on the '
               'resolution of ties at floating point level are all accepted',
               'a plan to operate pools is judged against any locally optimal number of pools']


def tol(u):
    return 1e-10 + 1e-9 * abs(u)


def snapshot(sim):
    return ({pid: (p.owner, p.pledge, p.cost, p.margin, bool(p.is_private), p.stake, dict(p.delegators))
             for pid, p in sim.pools.items()},
            {a.unique_id: (inv.allocations(a), sorted(inv.owned(a)), a.stake, a.cost) for a in sim.schedule.agents},
            sorted(p.id for p in sim.pool_rankings if p is not None),
            sorted(p.id for p in sim.pool_rankings_myopic if p is not None))


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[key], b[key]) for key in a)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= 1e-12
    return a == b


class Inertia(decisions.Judge):
    def start(self, sim, cfg):
        self.before = snapshot(sim)

    def judge(self, sim, agent, s, plan, when, ctx):
        bar = s.threshold()
        d_low, d_high, _, _, _ = s.delegation_utility(s.stake)
        optima = [t for t in s.estimates() if s.is_local_optimum(t)]
        ops = [s.operation_utility(t) for t in optima]
        ambiguous = any(e[2] for e in s.estimates().values())
        o_low = min(o[0] for o in ops)
        if plan is None:
            require(d_low <= bar + tol(bar), '%s: stays at %r although delegating yields %r', when, bar, d_low)
            if not ambiguous:
                require(o_low <= bar + tol(bar), '%s: stays at %r although operating pools yields at least %r', when, bar,
                        o_low)
            ctx.label('stays')
            return
        u = s.expected_utility(list(plan.own.values()), plan.alloc)
        require(u > bar - tol(bar), '%s: moves although this promises %r, while %r (current utilities %r and %r plus '
                'thresholds) is the bar', when, u, bar, s.current_utility(),
                s.expected_utility(list(s.mine.values()), s.alloc))
        require(u >= d_low - tol(u), '%s: chooses a move that promises %r although delegating promises %r', when, u,
                d_low)
        if not plan.own:
            ctx.label('delegates')
            if not ambiguous:
                require(o_low <= u + tol(u), '%s: delegates for %r although operating pools yields at least %r', when, u,
                        o_low)
        else:
            ctx.label('operates')
            require(u > d_low - tol(u), '%s: operates pools for %r although delegating promises %r', when, u, d_low)
        if s.rel:
            ctx.label('relative threshold')


class Quiet(Inertia):
    """planning changes nothing"""

    def judge(self, sim, agent, s, plan, when, ctx):
        now = snapshot(sim)
        pools = {pid: (p.owner, p.pledge, p.cost, p.margin, p.private, p.stake, s.delegators[pid])
                 for pid, p in s.pools.items()}
        require(same(now[0], pools), '%s: pools changed while it was planning: %r became %r', when,
                *first_difference(pools, now[0]))
        ids = sorted(pools)
        require(now[2] == ids and now[3] == ids, '%s: the rankings changed while it was planning', when)
        alloc, own, stake, cost = now[1][agent.unique_id]
        require(same(alloc, s.alloc) and own == sorted(s.mine) and stake == s.stake and cost == s.cost,
                '%s: its own strategy or endowment changed while it was planning', when)


def first_difference(a, b):
    for key in sorted(set(a) | set(b)):
        if key not in a or key not in b or not same(a[key], b[key]):
            return (key, a.get(key)), (key, b.get(key))
    return None, None


# --------------------------------------------------------------------------------------------------------------- ties
@st.composite
def tie_cases(draw):
    n = draw(st.sampled_from([4, 8, 16]))
    k = draw(st.sampled_from([1, 2]))
    # pools of one, two or four stakeholders with equal stakes, in some order of opening and joining
    sizes = draw(st.lists(st.sampled_from([1, 2, 2, 4, 4, 8]), min_size=max(2, k), max_size=6))
    return {'n': n, 'k': k, 'sizes': sizes, 'scheme': draw(st.sampled_from([0, 0, 1, 2])), 'seed': draw(st.integers(0, 999)),
            'profiles': draw(st.sampled_from([[1, 0, 0], [0, 1, 0], [1, 1, 0]])),
            'agents': draw(st.permutations(range(n))), 'deciders': draw(st.integers(1, n)), 'phi': draw(st.sampled_from([0, .5, 1])),
            'order': draw(st.booleans())}


def check_ties(case, ctx):
    """Without costs and pledge influence, and with margins of zero, everybody earns its stake in every public pool that is
    not over-saturated and by operating pools: whoever has that stays, whoever has not delegates."""
    ctx.fresh_dir()
    Strategy = drive.need('logic.strategy', 'Strategy')
    n, k = case['n'], case['k']
    sim = drive.make_sim({
        'n': n, 'k': k, 'a0': 0, 'stake_distr_source': 'flat', 'cost_min': 0, 'cost_max': 0, 'seed': case['seed'],
        'agent_profile_distr': case['profiles'], 'relative_utility_threshold': 0, 'absolute_utility_threshold': 0,
        'reward_scheme': case['scheme'], 'extra_pool_cost_fraction': case['phi'], 'max_iterations': 5,
        'agent_activation_order': 'simultaneous'})
    agents = drive.agents_of(sim)
    for m in ('find_operator_move', 'advance', 'new_strategy'):
        if not all(hasattr(a, m) for a in agents.values()):
            raise Skip('agents have no ' + m)
    free = [agents[i] for i in case['agents']]
    require(all(a.stake == 1 / n for a in free), 'equal stakes of %d agents are %r', n, [a.stake for a in free])
    for size in case['sizes']:
        if size > len(free) - 1:
            continue
        owner, members = free[0], free[1:size]
        free = free[size:]
        owner.new_strategy = owner.find_operator_move(1, {}, [0])
        owner.advance()
        pool_id = max(sim.pools)
        for member in members:
            member.new_strategy = Strategy(stake_allocations={pool_id: member.stake}, owned_pools={})
            member.advance()
    if len(sim.pools) <= k:
        ctx.label('too few pools')
        return
    order = sorted(agents) if case['order'] else sorted(agents, reverse=True)
    judged = 0
    for agent_id in order[:case['deciders']]:
        agent = agents[agent_id]
        s = Situation(sim, agent)
        agent.step()
        plan = None if agent.new_strategy is None else Plan(agent.new_strategy)
        agent.new_strategy = None
        when = 'agent %d (%s) of %d with equal stakes and pools %r, k = %d' % (
            agent_id, s.profile, n, {i: (p.owner, p.stake) for i, p in s.pools.items()}, k)
        require(all(p.margin == 0 and p.cost == 0 for p in s.pools.values()), 'the pools have margins or costs: %r',
                [(p.margin, p.cost) for p in s.pools.values()])
        mine = list(s.mine.values())
        involved = [s.pools[i].stake for i in s.alloc] + [p.stake for p in mine]
        fits = [p for p in s.pools.values() if p.owner != agent_id and p.stake - s.alloc.get(p.id, 0) + s.stake <= 1 / k]
        if any(x > 1 / k for x in involved):
            continue
        if s.profile == 'myopic' and any(p.stake > s.stake for p in mine):
            continue  # could do better with a margin, as long as its delegators stay
        if involved:
            # earns its stake already
            require(plan is None, '%s: moves to %r although nothing pays more than what it has', when,
                    plan and (plan.alloc, sorted(plan.own)))
            ctx.label('content operator' if mine else 'content delegator')
        elif s.profile == 'nonmyopic' and fits or \
                s.profile == 'myopic' and fits and all(p.stake + s.stake in (2 / n, 1 / k) for p in fits):
            require(plan is not None, '%s: stays idle', when)
            require(not plan.own and plan.alloc, '%s: operates pools although delegating pays the same', when)
            ctx.label('newcomer')
        else:
            continue
        judged += 1
    ctx.nontrivial(judged > 1)


EXPERIMENTS = [
    decisions.decision_experiment('choices', Inertia, 900, 20000, n_max=20, k_max=8),
    decisions.decision_experiment('planning', Quiet, 500, 10000, n_max=20, k_max=8),
    decisions.scripted_decision_experiment('scripted', Inertia, 900, 20000),
    decisions.scripted_decision_experiment('planning scripted', Quiet, 500, 10000),
    Experiment('ties', tie_cases, check_ties, 500, 10000),
    decisions.hypothetical_experiment('hypothetical', ['nonmyopic', 'myopic'], 700, 20000),
    decisions.large_decision_experiment('large', Inertia, 128, 3000, n=(40, 120), k=(10, 40), max_rounds=5, every=(17, 31)),
]
