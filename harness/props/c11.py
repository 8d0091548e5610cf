"""Delegation plans, for every decision of generated simulations and for generated situations."""
from hypothesis import strategies as st

from harness import decisions, drive, gen, histories
from harness.core import Experiment, Skip, require
from harness.decide import Situation

PROPERTY = 'C11'
RULE = ('rooms: 12 to 160 generated pools and a stakeholder with much more to delegate than fits into one of them '
        '(non-trivial: its stake goes to more than 4 pools); large: as the rest, with 60 to 220 stakeholders and k up to 130; '
        'one generated simulation; every planned delegation is compared with a reference model of the greedy rule. '
        'direct: in generated histories of admissible strategies every stakeholder is asked for a delegation plan after '
        'every move. Non-trivial: at least 3 moves, one of which opens or changes pools. Distinct by case.')
ASSUMPTIONS = ['amounts are compared with a tolerance of 1e-11; if a pool is saturated up to 1e-12, both ways of '
               'treating it are accepted']
TOL = 1e-11


def check_allocations(s, amount, alloc, when, ctx):
    expected, left, places = s.delegation(amount)
    for pid, a in alloc.items():
        require(pid in s.pools, '%s: delegates to pool %s, which does not exist', when, pid)
        p = s.pools[pid]
        require(a >= 0, '%s: delegates %r to pool %s', when, a, pid)
        require(p.owner != s.agent_id, '%s: delegates to its own pool %s', when, pid)
        require(not p.private, '%s: delegates to the private pool %s', when, pid)
    require(sum(alloc.values()) <= amount + TOL, '%s: delegates %r out of %r', when, sum(alloc.values()), amount)
    if not expected and not places:
        require(sum(alloc.values()) <= TOL, '%s: delegates %r although no pool accepts it', when, alloc)
        ctx.label('nothing to delegate to')
        return
    options = []
    for place in (places if left else [None]):
        option = dict(expected)
        if place is not None and left:
            option[place] = option.get(place, 0.0) + left
        options.append(option)
    for option in options:
        if all(abs(option.get(pid, 0.0) - alloc.get(pid, 0.0)) <= TOL for pid in set(option) | set(alloc)):
            break
    else:
        require(False, '%s: has %r to delegate and plans %r instead of %r (ranking %r)', when, amount, alloc,
                options[0], [(pid, s.pools[pid].stake, s.sch.saturation(s.pools[pid].pledge)) for pid in s.ranking
                             if pid is not None])
    if left:
        ctx.label('overflow' if places != [None] else 'overflow with no saturated pool')
    if len(expected) > 1:
        ctx.label('several pools')
    if any(s.pools[p].private for p in s.pools):
        ctx.label('private pools around')
    if s.alloc:
        ctx.label('redelegation')


class Delegation(decisions.Judge):
    def judge(self, sim, agent, s, plan, when, ctx):
        if plan is None:
            return
        amount = s.stake
        if plan.own:
            amount = s.stake - sum(p.pledge for p in plan.own.values())
            if amount <= TOL:
                require(sum(plan.alloc.values()) <= 2 * TOL, '%s: operates with all its stake but delegates %r', when,
                        plan.alloc)
                return
            ctx.label('operator delegates')
        check_allocations(s, amount, plan.alloc, when, ctx)


class Direct(histories.History):
    """every stakeholder is asked for a delegation plan in every scripted state"""

    def start(self, sim, cfg):
        for a in sim.schedule.agents:
            if a.strategy is not None and not hasattr(a, 'find_delegation_move'):
                raise Skip('agents have no find_delegation_move')
        self.labels = set()

    def label(self, *names):
        self.labels.update(names)

    def on_round(self, sim, when):
        for agent in sim.schedule.agents:
            if agent.strategy is None:
                continue
            for part in (1, 0.37):
                s = Situation(sim, agent)
                plan = agent.find_delegation_move(stake_to_delegate=agent.stake * part)
                check_allocations(s, agent.stake * part, dict(plan.stake_allocations or {}),
                                  '%s, agent %s (%s) asked to delegate %r' % (when, agent.unique_id, s.profile,
                                                                              agent.stake * part), self)
                require(not plan.owned_pools, '%s: a delegation plan with pools', when)

    def end(self, sim, ctx):
        ctx.label(*self.labels)


@st.composite
def room_cases(draw):
    """many pools with little room each, and a stakeholder with a lot to delegate"""
    m = draw(gen.mix((st.integers(12, 60), 3), (st.integers(60, 160), 1)))
    weights = draw(st.lists(st.integers(1, 20), min_size=3, max_size=12))
    share = draw(gen.dec(0.2, 0.95, 2))
    cfg = draw(gen.configs(n_min=3, n_max=3, k_max=3, multi_phase=False, orders=('sequential',), sources=('flat',),
                           profiles=st.sampled_from([[1, 0, 0], [1, 1, 0], [0, 1, 0]])))
    small = [weights[i % len(weights)] for i in range(m)]
    cfg['n'], cfg['stake_distr_source'] = m + 1, 'file'
    cfg['file_stakes'] = small + [sum(small) * share / (1 - share)]
    cfg['k'] = draw(st.integers(max(2, m // 3), 2 * m))
    cfg['driver'] = {'margins': draw(st.lists(gen.dec(0, 1, 2), min_size=1, max_size=9)),
                     'parts': draw(st.lists(gen.dec(0.01, 1, 2), min_size=1, max_size=4)),
                     'members': draw(st.lists(st.tuples(st.integers(0, m - 1), st.integers(0, m - 1)), max_size=8))}
    return cfg


def check_rooms(cfg, ctx):
    ctx.fresh_dir()
    Strategy = drive.need('logic.strategy', 'Strategy')
    sim = drive.make_sim(cfg)
    agents = drive.agents_of(sim)
    whale = max(agents)
    driver = cfg['driver']
    members = dict(driver['members'])
    for a, agent in agents.items():
        if a == whale or a in members:
            continue
        agent.new_strategy = agent.find_operator_move(1, {}, [driver['margins'][a % len(driver['margins'])]])
        agent.advance()
    open_to_all = sorted(p.id for p in sim.pools.values() if not p.is_private)
    for a, b in members.items():
        if open_to_all:
            agents[a].new_strategy = Strategy(stake_allocations={open_to_all[b % len(open_to_all)]: agents[a].stake})
            agents[a].advance()
    most = 0
    for part in driver['parts'] + [1]:
        s = Situation(sim, agents[whale])
        amount = agents[whale].stake * part
        plan = agents[whale].find_delegation_move(stake_to_delegate=amount)
        alloc = dict(plan.stake_allocations or {})
        check_allocations(s, amount, alloc, '%d pools, stakeholder asked to delegate %r' % (len(sim.pools), amount), ctx)
        most = max(most, len(alloc))
        agents[whale].new_strategy = plan
        agents[whale].advance()
    ctx.label('more than %d pools' % (64 if most > 64 else 16 if most > 16 else 4 if most > 4 else 0))
    ctx.nontrivial(most > 4)


EXPERIMENTS = [
    Experiment('rooms', room_cases, check_rooms, 160, 3000),
    histories.scripted_experiment('direct', Direct, 1200, 30000),
    decisions.decision_experiment('plans', Delegation, 900, 20000, n_max=24, k_max=8),
    decisions.scripted_decision_experiment('scripted', Delegation, 1500, 20000),
    decisions.large_decision_experiment('large', Delegation, 96, 1500),
]
