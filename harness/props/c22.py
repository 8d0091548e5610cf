"""Batch runs."""
import itertools
import os
import pickle
import subprocess
import sys

from hypothesis import strategies as st

from harness import core, drive, gen, outputs
from harness.core import Experiment, require
from harness.props import c17

PROPERTY = 'C22'
RULE = ('serial / parallel: a generated grid of parameters is run as a batch in one / several processes and every instance '
        'compared with a simulation of its own; racing: batches of many short instances in 8 processes; detailed: long values; repeated: '
        'batches with the same parameters in one directory, with a limit for the steps; script: grids given to'
        ' batch-run.py on its command line. Non-trivial: at least 2 instances, at least one of which has pools in the '
        'end. Distinct by case.')
ASSUMPTIONS = ['metrics of an instance are those recorded for its last round', 'the order of rows is not judged']

VALUES = {
    'n': st.integers(2, 9),
    'k': st.integers(1, 6),
    'a0': gen.mix((gen.dec(0, 1, 2), 3), (st.just(1 / 3), 1)),
    'inactive_stake_fraction': gen.dec(0, 0.6, 1),
    'pareto_param': gen.mix((gen.dec(0.5, 4, 1), 3), (st.just(7 / 3), 1)),
    'cost_min': gen.mix((st.sampled_from([0.0, 1e-5, 1e-4]), 2), (st.just(1e-5 / 3), 1)),
    'cost_max': gen.mix((st.sampled_from([1e-3, 1e-2]), 2), (st.just(0.01 / 3), 1)),
    'extra_pool_cost_fraction': gen.mix((gen.dec(0, 1, 1), 3), (st.just(1 / 3), 1)),
    'relative_utility_threshold': st.sampled_from([0, 0.01, 0.1]),
    'absolute_utility_threshold': st.sampled_from([0, 1e-9, 1e-4]),
    'reward_scheme': st.sampled_from([0, 1, 2, 3]),
    'agent_activation_order': st.sampled_from(gen.ORDERS),
    'iterations_after_convergence': st.integers(1, 3),
    'inactive_stake_fraction_known': st.booleans(),
    'stake_distr_source': st.sampled_from(['pareto', 'flat']),
    'metrics': st.lists(st.sampled_from([i for i in range(1, 31) if i not in (8, 11)]), min_size=1, max_size=6,
                        unique=True),
    'agent_profile_distr': gen.profile_weights(),
}
TUPLES = ('metrics', 'agent_profile_distr')


@st.composite
def grids(draw, limit=8, processes=(1,)):
    names = draw(st.lists(st.sampled_from(sorted(VALUES)), min_size=1, max_size=9, unique=True))
    varying, fixed, size = {}, {'max_iterations': draw(st.integers(1, 8)), 'generate_graphs': False}, 1
    for name in names:
        if name in TUPLES or draw(st.booleans()):
            values = draw(st.lists(VALUES[name], min_size=1, max_size=3, unique_by=repr))
            while size * len(values) > limit:
                values.pop()
            size *= len(values)
            varying[name] = values
        else:
            fixed[name] = draw(VALUES[name])
    if 'n' not in fixed and 'n' not in varying:
        fixed['n'] = draw(VALUES['n'])
    if 'k' not in fixed and 'k' not in varying:
        fixed['k'] = draw(VALUES['k'])
    if 'cost_max' not in fixed and 'cost_max' not in varying:
        fixed['cost_max'] = 1e-3
    return {'varying': varying, 'fixed': fixed, 'iterations': draw(st.integers(1, 2)) if size <= limit // 2 else 1,
            'seed': draw(gen.seeds), 'processes': draw(st.sampled_from(processes)),
            'id': draw(st.sampled_from(['b', 'batch-run', 'a b', 'x.y'])),
            'period': draw(gen.mix((st.none(), 3), (st.integers(1, 4), 1)))}


def expected_instances(varying, fixed, iterations, seed):
    names = sorted(varying)
    return [dict(fixed, **dict(zip(names, values)), seed=seed + i)
            for values in itertools.product(*(varying[name] for name in names)) for i in range(iterations)]


def as_given(name, value):
    return tuple(value) if name in TUPLES else value


def plain_args(d):
    return {key: list(v) if isinstance(v, tuple) else v for key, v in d.items()}


def lower(value):
    return value.lower() if isinstance(value, str) else value


def identify(instances, args, what):
    """the instances whose parameters are the given ones"""
    args = plain_args(args)
    found = [i for i, inst in enumerate(instances) if all(
        key in args and outputs.same_value(lower(args[key]), lower(value)) for key, value in inst.items())]
    require(len(found) == 1, '%s describe %d of the expected instances: %r', what, len(found), args)
    return found[0]


def judge_batch(path, instances, varying, ctx, results=None, period=None):
    """folder of the batch and returned results against simulations run on their own"""
    entries = sorted(os.listdir(path))
    folders = [e for e in entries if os.path.isdir(os.path.join(path, e)) and e != 'figures']
    require(len(folders) == len(instances), '%d instances were expected, but there are the folders %r', len(instances),
            folders)
    by_instance = {}
    for folder in folders:
        args = outputs.read_json(os.path.join(path, folder, 'args.json'))
        i = identify(instances, args, 'the arguments of %s' % folder)
        require(i not in by_instance, 'the folders %s and %s are of the same instance', by_instance.get(i), folder)
        by_instance[i] = folder
    # simulations of their own
    here = os.getcwd()
    solos = []
    os.makedirs('solo')
    os.chdir('solo')
    try:
        for inst in instances:
            sim = drive.engine().Simulation(**dict(plain_args(inst), execution_id='solo', generate_graphs=False))
            drive.run_rounds(sim)
            solos.append(sim)
    finally:
        os.chdir(here)
    interesting = False
    for i, folder in sorted(by_instance.items()):
        saved = os.path.join(path, folder, 'simulation-object.pkl')
        require(os.path.isfile(saved), 'instance %s has left no saved simulation', folder)
        with open(saved, 'rb') as f:
            sim = pickle.load(f)
        d = drive.difference(drive.state_digest(sim), drive.state_digest(solos[i]))
        require(d is None, 'instance %s ended in another state than a run of its own: %s', folder, d)
        d = drive.difference(drive.outcome(sim), drive.outcome(solos[i]))
        require(d is None, 'instance %s recorded other results than a run of its own: %s', folder, d)
        solo_path = os.path.join('solo', outputs.folder(solos[i], os.path.join('solo', 'output'))[len('solo/'):])
        for name in ('metrics', 'final-state-pools', 'final-state-stakeholders', 'final-state-descriptors'):
            suffix = '.json' if 'descriptors' in name else '.csv'
            with open(outputs.the_file(os.path.join(path, folder), name, suffix)) as f, \
                    open(outputs.the_file(solo_path, name, suffix)) as g:
                require(f.read() == g.read(), '%s of instance %s differ from those of a run of its own', name, folder)
        interesting = interesting or bool(sim.pools)
    last = [{name: drive.plain(values[-1]) for name, values in s.datacollector.model_vars.items()}
            for s in solos]
    if results is not None:
        period = period or 0
        if period:
            # every so many rounds, and at the end
            kept = []
            for i, inst in enumerate(instances):
                mine = [row for row in results if identify(instances, row, 'returned results') == i]
                rounds = len(next(iter(solos[i].datacollector.model_vars.values())))
                want = sorted(set(range(0, rounds, period)) | {rounds - 1})
                require(sorted(row['Step'] for row in mine) == want, 'with the collection period %d and %d recorded rounds, '
                        'the rounds %r of an instance are returned', period, rounds, sorted(row['Step'] for row in mine))
                for row in mine:
                    for name, values in solos[i].datacollector.model_vars.items():
                        require(name in row and outputs.same_value(drive.plain(row[name]), drive.plain(values[row['Step']])),
                                '%s in round %d is returned as %.200r instead of %.200r', name, row['Step'],
                                row.get(name), values[row['Step']])
                    if row['Step'] == rounds - 1:
                        kept.append(row)
            results = kept
            ctx.label('period')
        require(len(results) == len(instances), '%d results were returned for %d instances', len(results), len(instances))
        seen = [identify(instances, row, 'returned results') for row in results]
        require(len(set(seen)) == len(seen), 'an instance was returned more than once: %r', seen)
        for i, row in zip(seen, results):
            for name, value in last[i].items():
                require(name in row and outputs.same_value(drive.plain(row[name]), value),
                        '%s of instance %r is returned as %.200r instead of %.200r', name, plain_args(instances[i]),
                        row.get(name), value)
    with open(outputs.the_file(path, 'aggregate-results', '.csv')) as f:
        require(len({i for inst in instances for i in inst}) == 0 or f.read().strip(), 'the aggregate file is empty')
    if all(sorted(values) == sorted(last[0]) for values in last):
        header, rows = outputs.read_csv(outputs.the_file(path, 'aggregate-results', '.csv'))
        require(len(rows) == len(instances), 'the aggregate file has %d rows for %d instances', len(rows), len(instances))
        seen = []
        for row in rows:
            found = [i for i, inst in enumerate(instances) if i not in seen and all(
                name in row and (row[name] == str(as_given(name, inst[name])) or outputs.same_value(
                    outputs.parse_cell(row[name]), inst[name])) for name in list(varying) + ['seed'])]
            require(found, 'a row of the aggregate file belongs to none of the instances: %r', row)
            i = found[0]
            seen.append(i)
            for name, value in last[i].items():
                require(name in row, 'the aggregate file has no column %s', name)
                require(outputs.same_value(outputs.parse_cell(row[name]), value, 1e-12),
                        '%s of instance %r is %.200r in the aggregate file instead of %.200r', name,
                        plain_args(instances[i]), row[name], value)
    ctx.nontrivial(len(instances) >= 2 and interesting)
    ctx.label('%s instances' % ('1' if len(instances) == 1 else '2-4' if len(instances) < 5 else '5+'),
              '%d varying parameters' % len(varying))


def check_batch(case, ctx):
    ctx.fresh_dir()
    batch = drive.need('custom_batchrunner', 'custom_batch_run')
    model = drive.engine().Simulation
    varying, fixed = case['varying'], case['fixed']
    fixed = {name: value for name, value in fixed.items()}
    parameters = dict(fixed, **{name: [as_given(name, v) for v in values] for name, values in varying.items()})
    results, path = batch(model, parameters=parameters, batch_run_id=case['id'], number_processes=case['processes'],
                          iterations=case['iterations'], display_progress=False, initial_seed=case['seed'],
                          **({'data_collection_period': case['period']} if case.get('period') else {}))
    require(os.path.isdir(path) and os.path.dirname(os.path.abspath(path)) == os.path.abspath('output') and
            case['id'] in os.path.basename(path), 'batch %s is in the folder %s', case['id'], path)
    instances = expected_instances(varying, fixed, case['iterations'], case['seed'])
    judge_batch(str(path), instances, varying, ctx, results, case.get('period'))
    header, rows = outputs.read_csv(os.path.join('output', 'experiment-tracker.csv'))
    require(len(rows) == len(instances), 'the tracker has %d rows after a batch of %d instances', len(rows),
            len(instances))
    ctx.label('processes=%d' % case['processes'])


def racing_cases():
    return st.fixed_dictionaries({
        'varying': st.fixed_dictionaries({'k': st.just([1, 2, 3, 4]), 'a0': st.just([0.1, 0.2])}),
        'fixed': st.fixed_dictionaries({'n': st.integers(2, 4), 'max_iterations': st.integers(1, 3),
                                        'generate_graphs': st.just(False)}),
        'iterations': st.integers(1, 2), 'seed': gen.seeds, 'processes': st.just(8), 'id': st.just('race')})


@st.composite
def detailed_cases(draw):
    """many varying parameters whose values have many digits"""
    case = draw(grids(limit=2))
    third = st.integers(1, 200).map(lambda i: i / 300)
    for name, factor in (('a0', 1), ('inactive_stake_fraction', 1), ('pareto_param', 3), ('cost_min', 1e-4),
                         ('cost_max', 1e-2), ('extra_pool_cost_fraction', 1), ('relative_utility_threshold', 0.1),
                         ('absolute_utility_threshold', 1e-4)):
        case['fixed'].pop(name, None)
        case['varying'][name] = [draw(third) * factor + {'cost_max': 1e-4, 'pareto_param': 0.5}.get(name, 0)]
    return case


@st.composite
def repeated_cases(draw):
    case = draw(grids(limit=4, processes=(1, 2, None)))
    case['period'] = None
    case['steps'] = draw(gen.mix((st.none(), 1), (st.integers(0, 9), 3)))  # relative to the maximum of iterations
    case['seeds'] = draw(st.lists(gen.seeds, min_size=1, max_size=2))
    return case


def check_repeated(case, ctx):
    """the same parameters for several batches, with a limit for the steps of a batch"""
    ctx.fresh_dir()
    base = os.getcwd()
    batch = drive.need('custom_batchrunner', 'custom_batch_run')
    model = drive.engine().Simulation
    varying, fixed = case['varying'], dict(case['fixed'])
    parameters = dict(fixed, **{name: [as_given(name, v) for v in values] for name, values in varying.items()})
    limit = None if case['steps'] is None else case['steps']
    paths = []
    for turn, seed in enumerate(case['seeds']):
        os.makedirs('turn%d' % turn, exist_ok=True)
        extra = {} if limit is None else {'max_steps': limit}
        results, path = batch(model, parameters=parameters, batch_run_id=case['id'], number_processes=case['processes'],
                              iterations=case['iterations'], display_progress=False, initial_seed=seed, **extra)
        require(str(path) not in paths, 'two batches have the folder %s', path)
        paths.append(str(path))
        instances = expected_instances(varying, fixed, case['iterations'], seed)
        os.chdir('turn%d' % turn)
        if limit is None or limit >= fixed['max_iterations']:
            judge_batch(str(path), instances, varying, ctx, results)
            ctx.label('complete')
        else:
            judge_halted(results, instances, limit, ctx)
        os.chdir(base)
    ctx.label('%d batches' % len(paths), 'processes=%s' % case['processes'])


def judge_halted(results, instances, limit, ctx):
    """the instances go no further than the limit, and what is returned is what is the case there"""
    require(len(results) == len(instances), '%d results were returned for %d instances', len(results), len(instances))
    seen = [identify(instances, row, 'returned results') for row in results]
    require(len(set(seen)) == len(seen), 'an instance was returned more than once: %r', seen)
    for i, row in zip(seen, results):
        sim = drive.engine().Simulation(**dict(plain_args(instances[i]), execution_id='solo%d' % i, generate_graphs=False))
        drive.run_rounds(sim)
        series = sim.datacollector.model_vars
        rounds = len(next(iter(series.values())))
        # whether the limit counts the last step is left open
        possible = {min(rounds, limit) - 1, min(rounds, limit + 1) - 1}
        require(row['Step'] in possible, 'with a limit of %d steps and %d recorded rounds, round %r is returned', limit, rounds,
                row['Step'])
        for name, values in series.items():
            require(name in row and outputs.same_value(drive.plain(row[name]), drive.plain(values[row['Step']])),
                    '%s in round %d is returned as %.200r instead of %.200r', name, row['Step'], row.get(name),
                    values[row['Step']])
        if rounds > limit + 1:
            ctx.label('halted')
            ctx.nontrivial(len(instances) >= 2)


@st.composite
def script_cases(draw):
    names = draw(st.lists(st.sampled_from(['a0', 'inactive_stake_fraction', 'pareto_param', 'cost_min', 'cost_max',
                                           'extra_pool_cost_fraction', 'relative_utility_threshold',
                                           'absolute_utility_threshold']), max_size=3, unique=True))
    given = {'n': draw(st.lists(st.integers(3, 7), min_size=1, max_size=2, unique=True)),
             'k': draw(st.lists(st.integers(1, 4), min_size=1, max_size=3, unique=True))}
    size = len(given['n']) * len(given['k'])
    for name in names:
        values = draw(st.lists(VALUES[name], min_size=1, max_size=2, unique=True))
        if size * len(values) > 8:
            values = values[:1]
        size *= len(values)
        given[name] = [float(v) for v in values]
    single = {'max_iterations': draw(st.integers(2, 6)), 'seed': draw(gen.seeds)}
    if draw(st.booleans()):
        single['reward_scheme'] = draw(st.integers(0, 3))
    if draw(st.booleans()):
        single['iterations_after_convergence'] = draw(st.integers(1, 3))
    if draw(st.booleans()):
        single['stake_distr_source'] = draw(st.sampled_from(['pareto', 'flat', 'Flat']))
    if draw(st.booleans()):
        single['execution_id'] = draw(st.sampled_from(['exp', 'my-batch']))
    return {'given': given, 'single': single, 'known': draw(st.sampled_from([None, True, False]))}


SCRIPT_DEFAULTS = {'a0': 0.3, 'inactive_stake_fraction': 0, 'pareto_param': 2.0, 'cost_min': 1e-5, 'cost_max': 1e-4,
                   'extra_pool_cost_fraction': 0.4, 'reward_scheme': 0, 'relative_utility_threshold': 0,
                   'absolute_utility_threshold': 1e-9, 'iterations_after_convergence': 10,
                   'inactive_stake_fraction_known': False, 'agent_activation_order': 'random'}


def check_script(case, ctx):
    ctx.fresh_dir()
    argv = []
    for name, values in case['given'].items():
        argv += ['--' + name] + [repr(v) for v in values]
    for name, value in case['single'].items():
        argv += ['--' + name, str(value)]
    if case['known'] is not None:
        argv.append('--inactive_stake_fraction_known' if case['known'] else '--no-inactive_stake_fraction_known')
    script = os.path.join(core.REPO, 'batch-run.py')
    result = subprocess.run([sys.executable, '-B', script] + argv, capture_output=True, text=True, timeout=400,
                            env=dict(os.environ, PYTHONPATH=core.REPO))
    require(result.returncode == 0, 'batch-run.py %s failed: %s', ' '.join(argv), result.stderr[-700:])
    single = {name: v for name, v in case['single'].items() if name not in ('seed', 'execution_id')}
    fixed = dict(SCRIPT_DEFAULTS, **single)
    if case['known'] is not None:
        fixed['inactive_stake_fraction_known'] = case['known']
    for name in case['given']:
        fixed.pop(name, None)
    found = [f for f in os.listdir('output') if os.path.isdir(os.path.join('output', f))]
    want = case['single'].get('execution_id', 'batch-run')
    require(len(found) == 1 and want in found[0], 'the batch run called %s left the folders %r', want, found)
    path = os.path.join('output', found[0])
    instances = expected_instances(case['given'], fixed, 1, case['single']['seed'])
    judge_batch(path, instances, case['given'], ctx)
    several = [name for name, values in case['given'].items() if len(values) > 1]
    if several:
        figures = os.listdir(os.path.join(path, 'figures')) if os.path.isdir(os.path.join(path, 'figures')) else []
        for name in several:
            require(any(name in f for f in figures), 'there is no figure about the influence of %s among %r', name, figures)
        ctx.label('figures')


EXPERIMENTS = [
    Experiment('serial', grids, check_batch, 160, 5000),
    Experiment('parallel', lambda: grids(limit=12, processes=(2, 3, 8)), check_batch, 64, 1500),
    Experiment('racing', racing_cases, check_batch, 64, 1500),
    Experiment('detailed', detailed_cases, check_batch, 80, 2000),
    Experiment('repeated', repeated_cases, check_repeated, 72, 2000),
    Experiment('script', script_cases, check_script, 16, 400),
]
