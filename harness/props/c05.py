from harness import histories, inv

PROPERTY = 'C05'
RULE = histories.HISTORY_RULE
ASSUMPTIONS = ['values are compared with an absolute tolerance of 1e-9',
               'cost, pledge and privacy of the pools of an operator are judged right after each move of the operator']


class Derived(histories.History):
    def on_state(self, sim, when):
        inv.derived(sim, when)

    def on_move(self, sim, agent, when):
        inv.own_pools_terms(sim, agent, when)


EXPERIMENTS = [
    histories.engine_experiment('engine', Derived, 1400, 40000),
    histories.scripted_experiment('scripted', Derived, 1600, 40000),
    histories.large_experiment('large', Derived, 72, 1500),
]
