"""Time series of metrics."""
import os

from hypothesis import strategies as st

from harness import drive, gen, metrics_ref, outputs
from harness.core import Experiment, require
from harness.props import c17

PROPERTY = 'C19'
RULE = ('long: as the rest, with hundreds of rounds of few stakeholders; large: as the rest, with 60 to 220 stakeholders and k up to 130; '
        'series: one simulation with generated metrics; before every round each metric is evaluated, in the end the '
        'recorded series and the metrics file are compared with these values; influence: the same simulation with two '
        'different selections of metrics. Non-trivial: pools existed and at least 4 rounds were recorded. Distinct by '
        'case.')
ASSUMPTIONS = ['values are compared exactly with the metric functions (judged in C17, C18) evaluated by the check itself '
               'and, for all but the solver based one, with the reference definitions']


def series_cases():
    return st.tuples(gen.configs(n_max=16, k_max=7, max_rounds=9, metrics=True, schemes=(0, 0, 1, 2, 3)),
                     gen.weighted(('step', 3), ('run', 1))).map(
        lambda t: dict(t[0], driver={'mode': t[1]}))


def check_series(cfg, ctx):
    ctx.fresh_dir()
    sim = drive.make_sim(cfg)
    names = [c17.DOCUMENTED[i - 1] for i in cfg['metrics']]
    expected = {name: [] for name in names}
    pools_seen = [False]

    def evaluate():
        snap = metrics_ref.Snapshot(sim)
        pools_seen[0] = pools_seen[0] or bool(snap.pools)
        for name in names:
            value = drive.plain(c17.reporter(name)(sim))
            metrics_ref.judge(name, snap, value)
            expected[name].append(value)

    rounds = 0
    if cfg['driver']['mode'] == 'run':
        # the engine's own loop; each round is observed through step()
        cls = type(sim)
        original = cls.step

        def step(self):
            if self is sim:
                evaluate()
            original(self)

        cls.step = step
        try:
            sim.run_model()
        finally:
            cls.step = original
        rounds = len(expected[names[0]])
    else:
        while sim.running:
            evaluate()
            sim.step()
            rounds += 1
            require(rounds <= cfg['max_iterations'] + 1, 'still running after %d rounds', rounds)
    recorded = {name: [drive.plain(v) for v in values] for name, values in sim.datacollector.model_vars.items()}
    require(sorted(recorded) == sorted(names), 'the series %r are recorded instead of %r', sorted(recorded),
            sorted(names))
    for name in names:
        require(len(recorded[name]) == rounds, '%s has %d values after %d rounds', name, len(recorded[name]), rounds)
        for i, (got, want) in enumerate(zip(recorded[name], expected[name])):
            require(outputs.same_value(got, want), '%s of round %d is recorded as %.500r, but was %.500r', name, i, got,
                    want)
    if 'Iterations' in names:
        require(recorded['Iterations'] == list(range(rounds)), 'the recorded rounds are %r', recorded['Iterations'])
    header, rows = outputs.read_csv(os.path.join(outputs.folder(sim), 'metrics.csv'))
    require(sorted(header[1:]) == sorted(names), 'the metrics file has the columns %r instead of %r', header, names)
    require(len(rows) == rounds, 'the metrics file has %d rows after %d rounds', len(rows), rounds)
    for i, row in enumerate(rows):
        require(outputs.same_value(outputs.parse_cell(row[header[0]]), i), 'row %d of the metrics file is labelled %r', i,
                row[header[0]])
        for name in names:
            require(outputs.same_value(outputs.parse_cell(row[name]), expected[name][i], 1e-12),
                    'the metrics file has %.300r as %s of round %d instead of %.300r', row[name], name, i,
                    expected[name][i])
    ctx.label('%d metrics' % (len(names) // 10 * 10), 'phases' if sim.current_phase else 'one phase')
    ctx.nontrivial(rounds >= 4 and pools_seen[0])


@st.composite
def influence_cases(draw):
    cfg = draw(gen.configs(n_max=16, k_max=7, max_rounds=9))
    ids = st.sampled_from([i for i in range(1, 31) if i != 11 and (i != 8 or cfg['reward_scheme'] != 4)])
    cfg['driver'] = {'first': draw(st.lists(ids, min_size=1, max_size=4, unique=True)),
                     'second': draw(st.lists(ids, min_size=5, max_size=27, unique=True))}
    return cfg


def check_influence(cfg, ctx):
    ctx.fresh_dir()
    first, second = cfg['driver']['first'], cfg['driver']['second']
    sims = [drive.make_sim(cfg, metrics=m) for m in (first, second)]
    courses = [drive.course(s) for s in sims]
    drive.require_same_course(courses[0], courses[1], 'metrics %r and %r', first, second)
    for name in {c17.DOCUMENTED[i - 1] for i in set(first) & set(second)}:
        a, b = (drive.plain(s.datacollector.model_vars[name]) for s in sims)
        require(outputs.same_value(a, b), '%s is recorded as %.300r with metrics %r and as %.300r with %r', name, a, first,
                b, second)
    ctx.nontrivial(len(courses[0]) > 4 and bool(courses[0][-1][0]))


EXPERIMENTS = [
    Experiment('series', series_cases, check_series, 600, 20000),
    Experiment('influence', influence_cases, check_influence, 400, 10000),
    Experiment('long', lambda: gen.prolonged(series_cases()), check_series, 48, 1500),
    Experiment('large', lambda: gen.enlarged(series_cases()), check_series, 64, 1500),
]
