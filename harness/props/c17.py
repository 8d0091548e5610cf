"""Metrics about pools and operators."""
from harness import drive, gen, metric_cases, metrics_ref
from harness.core import Experiment, Skip, require

PROPERTY = 'C17'
RULE = ('crowds: as sets, with 60 to 1200 pools of up to 1300 stakeholders; large: as the rest, with 60 to 220 stakeholders and k up to 130; '
        'sets: a generated set of pools and stakeholders placed in a simulation, every metric compared with its documented '
        'definition; registry: the documented identifiers; runs: a generated simulation whose metrics are compared after '
        'every round. Non-trivial: at least 3 pools of at least 2 owners. Distinct by case.')
ASSUMPTIONS = ['mean and median ranks are judged up to rounding to integers; saturation rates are not judged for pools '
               'whose saturation point is zero; stakeholders whose possible profit is within 1e-12 of zero may count '
               'either way']
NAMES = metrics_ref.BASIC

# docs/metrics.md
DOCUMENTED = ['Pool count', 'Total pledge', 'Mean pledge', 'Median pledge', 'Average pools per operator',
              'Max pools per operator', 'Median pools per operator', 'Average saturation rate', 'Nakamoto coefficient',
              'Statistical distance', 'Min-aggregate pledge', 'Pledge rate', 'Pool homogeneity factor', 'Iterations',
              'Mean stake rank', 'Mean cost rank', 'Median stake rank', 'Median cost rank', 'Number of pool splitters',
              'Cost efficient stakeholders', 'StakePairs', 'Gini-id', 'Gini-id stake', 'Mean margin', 'Median margin',
              'Stake per agent', 'Stake per agent id', 'Total delegated stake', 'Total agent stake', 'Operator count']


def reporter(name):
    """the function behind a documented name"""
    reporters = drive.need('logic.model_reporters', 'ALL_MODEL_REPORTEERS')
    if name not in reporters and name not in DOCUMENTED:
        raise Skip('no metric ' + name)
    require(name in reporters, 'there is no metric called %s', name)
    return reporters[name]


def full_state(sim):
    return drive.state_digest(sim), tuple(sim.pools), [None if p is None else p.id for p in sim.pool_rankings], \
        [None if p is None else p.id for p in sim.pool_rankings_myopic], sim.running, sim.consecutive_idle_steps, \
        sim.current_step_idle, sim.random.getstate()


def judge_all(sim, names, when=''):
    snap = metrics_ref.Snapshot(sim)
    before = full_state(sim)
    for name in names:
        fn = reporter(name)
        if name == 'Average saturation rate' and any(snap.scheme.saturation(p['pledge']) <= 0 for p in snap.pools):
            continue
        value = fn(sim)
        metrics_ref.judge(name, snap, value)
        require(full_state(sim) == before, 'evaluating %s changed the state of the simulation', name)
    return snap


def classify(snap, ctx):
    owners = set(snap.column('owner'))
    ctx.label('%s pools' % ('no' if not snap.pools else 'some' if len(snap.pools) < 6 else 'many'))
    if len(owners) < len(snap.pools):
        ctx.label('pool splitting')
    ctx.nontrivial(len(snap.pools) >= 3 and len(owners) >= 2)


def check_sets(cfg, ctx, names=NAMES):
    sim = metric_cases.build(cfg, ctx)
    classify(judge_all(sim, names), ctx)


def check_registry(cfg, ctx):
    """identifiers as documented: each one collects the metric of that name"""
    ctx.fresh_dir()
    sim = drive.make_sim(cfg)
    want = [DOCUMENTED[i - 1] for i in cfg['metrics']]
    require(sorted(sim.datacollector.model_vars) == sorted(want), 'metrics %r collect %r instead of %r', cfg['metrics'],
            sorted(sim.datacollector.model_vars), sorted(want))
    for _ in range(2):
        if sim.running:
            snap = metrics_ref.Snapshot(sim)
            sim.step()
            for name, values in sim.datacollector.model_vars.items():
                metrics_ref.judge(name, snap, values[-1])
    classify(metrics_ref.Snapshot(sim), ctx)


def check_runs(cfg, ctx, names=NAMES):
    ctx.fresh_dir()
    sim = drive.make_sim(cfg)
    snap = judge_all(sim, names)
    while sim.running:
        sim.step()
        snap = judge_all(sim, names)
    classify(snap, ctx)
    ctx.label('order=' + cfg['agent_activation_order'])


def run_cases():
    return gen.configs(n_max=20, k_max=8, max_rounds=8)


def registry_cases():
    return gen.configs(n_max=12, k_max=5, max_rounds=6, metrics=True, schemes=(0, 1, 2, 3))


EXPERIMENTS = [
    Experiment('sets', metric_cases.pool_sets, check_sets, 1600, 60000),
    Experiment('registry', registry_cases, check_registry, 300, 8000),
    Experiment('runs', run_cases, check_runs, 350, 9000),
    Experiment('large', lambda: gen.large_configs(n=(50, 160), k=(12, 80), max_rounds=5), check_runs, 64, 1500),
    Experiment('crowds', metric_cases.crowds, check_sets, 160, 5000),
]
