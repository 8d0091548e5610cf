from harness import histories, inv
from harness.core import require

PROPERTY = 'C03'
RULE = histories.HISTORY_RULE
ASSUMPTIONS = []


class Registry(histories.History):
    def start(self, sim, cfg):
        self.ids = inv.IdHistory()

    def new_group(self, sim):
        self.ids.new_round(sim)

    def on_state(self, sim, when):
        inv.registry(sim, when)
        self.ids.observe(sim, when)

    def on_round(self, sim, when):
        for agent in sim.schedule.agents:
            require(agent.new_strategy is None, '%s: agent %s still has a planned but unexecuted strategy', when,
                    agent.unique_id)


EXPERIMENTS = [
    histories.engine_experiment('engine', Registry, 1400, 40000),
    histories.scripted_experiment('scripted', Registry, 1600, 40000),
    histories.large_experiment('large', Registry, 72, 1500),
]
