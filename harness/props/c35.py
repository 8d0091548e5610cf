"""Stakeholder profiles that are added to the existing ones."""
from harness import decisions, drive, extended, histories
from harness.core import Experiment, require
from harness.profiles import wrapped
from harness.props import c17, c20
from harness.props.c34 import Decisions, States

PROPERTY = 'C35'
RULE = ('one generated profile (costs and pledges of pools of its own, on top of the non-myopic or myopic profile or with '
        'its own order of pools, utilities and margins) is registered next to the existing ones, and one generated '
        'simulation or history has stakeholders of it; states: every state is checked against the invariants of C01 to '
        'C05; decisions: every decision is compared with the reference models of C10 to C12, with the costs, pledges, '
        'order and utilities of the profile; valuations: generated strategies are valued; metrics and files as in C17 and '
        'C20. Non-trivial: at least 3 moves and a delegation (decisions: one that opens pools). Distinct by case.')
ASSUMPTIONS = ['profiles extend the base class or an existing profile by overriding the methods that are meant for it']



class Assigned(States):
    """stakeholders have the profiles that the weights name"""
    def start(self, sim, cfg):
        super().start(sim, cfg)
        weights, mapping = cfg['agent_profile_distr'], drive.need('logic.stakeholder_profiles', 'PROFILE_MAPPING')
        types = [type(a) for a in drive.agents_of(sim).values()]
        wanted = [mapping[i] for i, w in enumerate(weights) if w]
        for t in types:
            require(issubclass(t, tuple(wanted)), 'a stakeholder is a %s although profiles are weighted %r', t.__name__, weights)
        total = sum(weights)
        for i, w in enumerate(weights):
            # by chance once in more than 1e12 cases
            if w and (1 - w / total) ** len(types) < 1e-12:
                require(any(issubclass(t, mapping[i]) for t in types), 'none of %d stakeholders is a %s, although profiles are weighted %r',
                        len(types), mapping[i].__name__, weights)


EXPERIMENTS = [
    wrapped(histories.engine_experiment('states', Assigned, 1, 1), 450, 12000),
    wrapped(histories.scripted_experiment('scripted', Assigned, 1, 1), 350, 12000),
    wrapped(decisions.decision_experiment('decisions', Decisions, 1, 1, n_max=16, k_max=6), 500, 12000),
    wrapped(decisions.scripted_decision_experiment('scripted decisions', Decisions, 1, 1), 500, 12000),
    wrapped(decisions.hypothetical_experiment('valuations', ['nonmyopic', 'myopic', 'own'], 1, 1), 400, 12000),
    wrapped(Experiment('metrics', c17.run_cases, c17.check_runs, 1, 1), 150, 5000),
    wrapped(extended.experiment(), 200, 5000),
    wrapped(Experiment('files', c20.cases, c20.check, 1, 1), 200, 6000),
]
