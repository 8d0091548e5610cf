from harness import histories, inv

PROPERTY = 'C01'
RULE = histories.HISTORY_RULE
ASSUMPTIONS = ['amounts are compared with an absolute tolerance of 1e-9 of the total stake',
               'a delegation below 2.2e-17 of the total stake may be dropped by the pool']


class Ledger(histories.History):
    def on_state(self, sim, when):
        inv.ledger(sim, when)


EXPERIMENTS = [
    histories.engine_experiment('engine', Ledger, 1400, 40000),
    histories.scripted_experiment('scripted', Ledger, 2400, 60000),
    histories.large_experiment('large', Ledger, 72, 1500),
]
