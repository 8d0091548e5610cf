"""Reward schemes that are added to the existing ones."""
from harness import decisions, extended, histories, inv
from harness.core import Experiment
from harness.props import c10, c11, c12, c17, c20
from harness.schemes import wrapped

PROPERTY = 'C34'
RULE = ('one generated reward scheme (shape of the reward in the stake, influence of the pledge, saturation points that are '
        'uniform or depend on the pledge, rewards beyond saturation) is registered next to the documented ones, and one '
        'generated simulation or history uses it; states: every state is checked against the invariants of C01 to C05; '
        'decisions: every decision is compared with the reference models of C10 to C12; results: metrics in every round '
        'and files are compared with the final state (C17, C20). Non-trivial: at least 3 moves and a delegation (decisions: '
        'one that opens pools). Distinct by case.')
ASSUMPTIONS = ['schemes extend the base class, and give rewards that grow with the stake up to the saturation point',
               'saturation points are positive, and grow or fall with the pledge']


class States(histories.History):
    def start(self, sim, cfg):
        self.inactive = cfg.get('inactive_stake_fraction', 0)
        self.initial = inv.initial_endowment(sim)

    def on_state(self, sim, when):
        inv.ledger(sim, when)
        inv.budget(sim, self.inactive, self.initial, when)
        inv.registry(sim, when)
        inv.rankings(sim, when)
        inv.derived(sim, when)

    def on_move(self, sim, agent, when):
        inv.own_pools_terms(sim, agent, when)


class Decisions(decisions.Judge):
    def __init__(self):
        self.judges = [c10.Inertia(), c11.Delegation(), c12.Operation()]

    def start(self, sim, cfg):
        for judge in self.judges:
            judge.start(sim, cfg)

    def judge(self, sim, agent, s, plan, when, ctx):
        own = list(plan.own.values()) if plan else []
        if s.too_close(own) or s.too_close(list(s.mine.values())):
            ctx.label('too close to judge')
            return
        for judge in self.judges:
            judge.judge(sim, agent, s, plan, when, ctx)


NO_SCHEME = {'schemes': (0,)}

EXPERIMENTS = [
    wrapped(histories.engine_experiment('states', States, 1, 1, **NO_SCHEME), 500, 12000),
    wrapped(histories.scripted_experiment('scripted', States, 1, 1), 400, 12000),
    wrapped(decisions.decision_experiment('decisions', Decisions, 1, 1, n_max=16, k_max=6, **NO_SCHEME), 500, 12000),
    wrapped(decisions.scripted_decision_experiment('scripted decisions', Decisions, 1, 1), 500, 12000),
    wrapped(Experiment('metrics', c17.run_cases, c17.check_runs, 1, 1), 200, 5000),
    wrapped(extended.experiment(), 200, 5000),
    wrapped(Experiment('files', c20.cases, c20.check, 1, 1), 250, 6000),
]
