from harness import histories, inv

PROPERTY = 'C02'
RULE = histories.HISTORY_RULE
ASSUMPTIONS = ['amounts are compared with an absolute tolerance of 1e-9 of the total stake']


class Budget(histories.History):
    def start(self, sim, cfg):
        self.inactive = cfg.get('inactive_stake_fraction', 0)
        self.initial = inv.initial_endowment(sim)

    def on_state(self, sim, when):
        inv.budget(sim, self.inactive, self.initial, when)

    def end(self, sim, ctx):
        if any(v[2] == 'abstainer' for v in self.initial.values()):
            ctx.label('has abstainers')
        if self.inactive:
            ctx.label('has inactive stake')
        if any(inv.owned(a) and inv.allocations(a) for a in sim.schedule.agents):
            ctx.label('operator that also delegates')


EXPERIMENTS = [
    histories.engine_experiment('engine', Budget, 1400, 40000),
    histories.scripted_experiment('scripted', Budget, 1600, 40000),
    histories.large_experiment('large', Budget, 72, 1500),
]
