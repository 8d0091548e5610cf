"""Experiments that look at every single decision: the situation before it and the plan that results."""
from hypothesis import strategies as st

from harness import drive, gen, histories, inv
from harness.core import Experiment, Skip, require
from harness.decide import Plan, Situation


def situation_of(sim, agent):
    return getattr(type(agent), 'situation', Situation)(sim, agent)


class Judge:
    """judge(sim, agent, situation, plan or None, when, ctx) is called once per decision."""

    def start(self, sim, cfg): pass

    def judge(self, sim, agent, situation, plan, when, ctx): pass


class _Observer(drive.Observer):
    def __init__(self, sim, judge, ctx, every=1):
        self.sim, self.judge_, self.ctx, self.every = sim, judge, ctx, every
        self.seen = 0
        self.open = {}
        self.round = 0
        self.counts = {'moves': 0, 'decisions': 0, 'operate': 0, 'delegate': 0, 'multi': 0, 'both': 0, 'shrink': 0}

    def before_step(self, agent):
        if drive.is_abstainer(agent):
            return
        self.seen += 1
        if self.every > 1 and self.seen % (self.every if len(self.sim.pools) < 500 else 25 * self.every):
            return
        self.open[agent.unique_id] = situation_of(self.sim, agent)

    def settle(self, agent):
        situation = self.open.pop(agent.unique_id, None)
        if situation is None:
            return
        c = self.counts
        c['decisions'] += 1
        plan = None
        if agent.new_strategy is not None:
            plan = Plan(agent.new_strategy)
            c['moves'] += 1
            c['operate'] += bool(plan.own)
            c['delegate'] += bool(plan.alloc)
            c['multi'] += len(plan.own) > 1
            c['both'] += bool(plan.own) and bool(plan.alloc)
            c['shrink'] += len(plan.own) < len(situation.mine)
        self.judge_.judge(self.sim, agent, situation, plan, 'round %d, decision of agent %s (%s)' % (
            self.round, agent.unique_id, situation.profile), self.ctx)

    def before_advance(self, agent):
        self.settle(agent)

    def after_step(self, agent):
        self.settle(agent)

    def after_round(self, sim):
        self.round += 1


def decision_experiment(name, judge_factory, quick, thorough=None, **gen_kw):
    def check(cfg, ctx):
        ctx.fresh_dir()
        sim = drive.make_sim(cfg)
        for a in sim.schedule.agents:
            if not hasattr(a, 'new_strategy'):
                raise Skip('agents do not stage their plans')
        for attr in ('pool_rankings', 'pool_rankings_myopic'):
            if not hasattr(sim, attr):
                raise Skip('no ' + attr)
        judge = judge_factory()
        judge.start(sim, cfg)
        obs = _Observer(sim, judge, ctx, cfg['driver'].get('every', 1))
        drive.run_rounds(sim, obs, limit=300)
        c = obs.counts
        ctx.label(*['%s: some' % key for key in c if c[key]])
        ctx.nontrivial(c['moves'] >= 3 and c['operate'] > 0)

    return Experiment(name, lambda: histories.engine_cases(**gen_kw), check, quick, thorough)


def large_decision_experiment(name, judge_factory, quick, thorough=None, **gen_kw):
    """simulations of a realistic size, in which one of about ten decisions is judged"""
    experiment = decision_experiment(name, judge_factory, quick, thorough)
    return Experiment(name, lambda: histories.large_cases(**gen_kw), experiment.check, quick, thorough)


def scripted_decision_experiment(name, judge_factory, quick, thorough=None, rounds=3):
    """A generated history of admissible strategies leads to a state that the stakeholders then react to."""

    def check(cfg, ctx):
        ctx.fresh_dir()
        Strategy = drive.need('logic.strategy', 'Strategy')
        sim = drive.make_sim(cfg)
        agents = drive.agents_of(sim)
        for m in ('determine_pools_to_keep', 'find_operator_move', 'advance', 'new_strategy'):
            if not all(hasattr(a, m) for a in agents.values()):
                raise Skip('agents have no ' + m)
        for group in cfg['driver']['script']:
            staged = []
            for agent_id, op in group:
                if not drive.is_abstainer(agents[agent_id]):
                    agents[agent_id].new_strategy = histories._stage(sim, agents[agent_id], op, Strategy)
                    staged.append(agents[agent_id])
            for agent in staged:
                agent.advance()
        judge = judge_factory()
        judge.start(sim, cfg)
        obs = _Observer(sim, judge, ctx)
        with drive.observed(sim, obs):
            for _ in range(rounds):
                if sim.running:
                    sim.step()
                    obs.after_round(sim)
        c = obs.counts
        ctx.label(*['%s: some' % key for key in c if c[key]])
        ctx.nontrivial(c['moves'] >= 2 and len(cfg['driver']['script']) >= 3)

    return Experiment(name, histories.scripts, check, quick, thorough)


# ------------------------------------------------------------------------------------------ hypothetical strategies
@st.composite
def hypothetical_cases(draw):
    cfg = draw(histories.scripts())
    n = cfg['n']
    cfg['driver']['queries'] = draw(st.lists(st.tuples(
        st.integers(0, n - 1),
        st.lists(st.tuples(st.integers(0, 9), st.sampled_from([1e-6, 0.01, 0.1, 0.25, 0.5, 1])), max_size=3),
        st.one_of(st.none(), st.tuples(st.integers(1, 4), gen.dec(0, 1, 1)))), min_size=1, max_size=6))
    return cfg


def hypothetical_experiment(name, profiles, quick, thorough=None):
    """After a generated history, stakeholders value generated strategies, reasonable or not."""

    def check(cfg, ctx):
        ctx.fresh_dir()
        Strategy = drive.need('logic.strategy', 'Strategy')
        sim = drive.make_sim(cfg)
        agents = drive.agents_of(sim)
        for m in ('determine_pools_to_keep', 'find_operator_move', 'advance', 'new_strategy', 'calculate_expected_utility'):
            if not all(hasattr(a, m) for a in agents.values()):
                raise Skip('agents have no ' + m)
        for group in cfg['driver']['script']:
            staged = []
            for agent_id, op in group:
                if not drive.is_abstainer(agents[agent_id]):
                    agents[agent_id].new_strategy = histories._stage(sim, agents[agent_id], op, Strategy)
                    staged.append(agents[agent_id])
            for agent in staged:
                agent.advance()
        judged = 0
        for agent_id, shares, operate in cfg['driver']['queries']:
            agent = agents[agent_id]
            if drive.profile_of(agent) not in profiles:
                continue
            eligible = [p for p in sorted(sim.pools.values(), key=lambda p: p.id)
                        if p.owner != agent.unique_id and not p.is_private]
            alloc = {}
            for index, share in shares:
                if eligible:
                    pool = eligible[index % len(eligible)]
                    alloc[pool.id] = alloc.get(pool.id, 0.0) + share * agent.stake
            own = {}
            if operate:
                t, margin = operate
                own = agent.find_operator_move(t, agent.determine_pools_to_keep(t), [margin] * t).owned_pools
            s = situation_of(sim, agent)
            plan = Plan(Strategy(stake_allocations=alloc, owned_pools=own))
            if s.too_close(list(plan.own.values())):
                ctx.label('too close to judge')
                continue
            expected = s.expected_utility(list(plan.own.values()), alloc)
            got = agent.calculate_expected_utility(Strategy(stake_allocations=alloc, owned_pools=own))
            require(abs(got - expected) <= 1e-9, 'agent %s (%s) with stake %r values delegations %r and pools %r at %r '
                    'instead of %r, when the pools are %r', agent_id, s.profile, s.stake, alloc,
                    [(p.id, p.pledge, p.cost, p.margin, p.stake) for p in plan.own.values()], got, expected,
                    [(p.id, p.owner, p.stake, p.pledge, p.cost, p.margin) for p in s.pools.values()])
            judged += bool(alloc or own)
            over = any(s.pools[pid].stake - s.alloc.get(pid, 0.0) + a > s.sch.saturation(s.pools[pid].pledge) + 1e-9
                       for pid, a in alloc.items())
            ctx.label(*[text for text, holds in (('delegates', alloc), ('operates', own), ('beyond saturation', over),
                                                 ('delegation to top pool', alloc and any(map(s.nm_counts, alloc)))) if holds])
        ctx.nontrivial(judged > 0)

    return Experiment(name, hypothetical_cases, check, quick, thorough)
