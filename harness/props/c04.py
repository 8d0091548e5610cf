from harness import histories, inv

PROPERTY = 'C04'
RULE = histories.HISTORY_RULE
ASSUMPTIONS = ['desirabilities that differ by less than 1e-14 of the rewards and costs may be ranked either way unless the pools are identical']


class Rankings(histories.History):
    def on_state(self, sim, when):
        inv.rankings(sim, when)

    def end(self, sim, ctx):
        if len(sim.pools) > 1:
            ctx.label('several pools at the end')


EXPERIMENTS = [
    histories.engine_experiment('engine', Rankings, 1400, 40000),
    histories.scripted_experiment('scripted', Rankings, 1600, 40000),
    histories.large_experiment('large', Rankings, 72, 1500),
]
