"""Command line."""
import argparse
import os
import runpy
import subprocess
import sys

from hypothesis import strategies as st

from harness import core, drive, gen, outputs
from harness.core import Experiment, Skip, require

PROPERTY = 'C23'
RULE = ('parser: a generated command line, valid or with one or more values outside their documented domain, is parsed; '
        'main: a generated command line is given to main(), whose run is compared with it; script: the same in a process '
        'of its own; batch: a generated command line is given to batch-run.py, and what it hands to the batch runner is '
        'compared. Non-trivial: at least two options were given, or a bad value was rejected. Distinct by case.')
ASSUMPTIONS = ['domains and defaults are those of docs/configuration.md; the default of --metrics is not judged, as the '
               'documentation contradicts itself', 'unusual spellings of numbers (underscores, spaces, other scripts) are '
               'not judged', 'for an option whose value is left out both an error and its default are accepted']


# ------------------------------------------------------------------------------------------------ documented domains
def naturals(hi=100000):
    return st.integers(1, hi).map(str)


def real(lo, hi):
    return gen.mix(
        (st.integers(int(lo * 1000), int(hi * 1000)).map(lambda i: repr(i / 1000)), 4),
        (st.integers(int(lo + 0.999), int(hi)).map(str), 1),
        (st.tuples(st.integers(1, 9), st.integers(1, 9)).map(lambda t: '%de-%d' % t).filter(
            lambda s: lo <= float(s) <= hi), 1),
        (st.sampled_from(['.5', '0.50', '5E-1']), 1))


BAD_WORDS = ['abc', '', 'nan', 'inf', '-inf', '1e999', '0,3', '1/2', 'None', 'True', '1.2.3', '--', '1 2']
BAD_NATURAL = ['0', '-1', '-17', '1.5', '2.0', '1e3', '0x10', '-0'] + BAD_WORDS
BAD_NON_NEGATIVE = ['-1', '-0.1', '-5', '-.5'] + BAD_WORDS
BAD_POSITIVE = ['0', '0.0', '-0.5', '-2'] + BAD_WORDS
BAD_FRACTION = ['1.1', '2', '-0.1', '1.0001', '-1'] + BAD_WORDS
BAD_SEED = ['-1', '-5', '1.5', '0.0', '1e3'] + BAD_WORDS


def any_case(words):
    return st.tuples(st.sampled_from(words), st.sampled_from([str.lower, str.upper, str.capitalize, str])).map(
        lambda t: t[1](t[0]))


# name: (how many values, valid texts, bad texts, conversion, documented default)
OPTIONS = {
    'n': ('1', naturals(), BAD_NATURAL, int, 1000),
    'k': ('+', naturals(), BAD_NATURAL, int, 100),
    'a0': ('+', real(0, 20), BAD_NON_NEGATIVE, float, 0.3),
    'reward_scheme': ('1', st.integers(0, 4).map(str), ['-1', '5', '99', 'x', '0.5', '', 'CardanoRSS'], int, 0),
    'agent_profile_distr': ('3', real(0, 9), BAD_NON_NEGATIVE, float, [1, 0, 0]),
    'cost_min': ('1', real(0, 2), BAD_NON_NEGATIVE, float, 1e-5),
    'cost_max': ('1', real(0, 2), BAD_NON_NEGATIVE, float, 1e-4),
    'extra_pool_cost_fraction': ('1', real(0, 3), BAD_NON_NEGATIVE, float, 0.4),
    'agent_activation_order': ('1', any_case(['random', 'sequential', 'simultaneous', 'semisimultaneous']),
                               ['fifo', '', 'randomly', '0', 'parallel'], str.lower, 'random'),
    'absolute_utility_threshold': ('1', real(0, 3), BAD_NON_NEGATIVE, float, 1e-9),
    'relative_utility_threshold': ('1', real(0, 3), BAD_NON_NEGATIVE, float, 0),
    'stake_distr_source': ('1', any_case(['pareto', 'flat', 'file']), ['normal', '', 'uniform', '1'], str.lower,
                           'pareto'),
    'pareto_param': ('1', real(0.001, 9), BAD_POSITIVE, float, 2.0),
    'inactive_stake_fraction': ('1', real(0, 1), BAD_FRACTION, float, 0),
    'inactive_stake_fraction_known': ('flag', None, None, None, False),
    'iterations_after_convergence': ('1', naturals(50), BAD_NATURAL, int, 10),
    'max_iterations': ('1', naturals(5000), BAD_NATURAL, int, 2000),
    'metrics': ('+', st.integers(1, 30).map(str), ['0', '31', '-1', '100', 'x', '1.5', ''], int, Ellipsis),
    'generate_graphs': ('flag', None, None, None, True),
    'seed': ('1', gen.seeds.map(str), BAD_SEED, int, None),
    'execution_id': ('1', st.text('abcXYZ019_.=+', min_size=1, max_size=12), [], str, ''),
    'input_from_file': ('flag', None, None, None, False),
}
BATCH = {  # options of batch-run.py, and how many values they take
    'execution_id': '1', 'seed': '1', 'max_iterations': '1', 'n': '+', 'k': '+', 'a0': '+',
    'inactive_stake_fraction': '+', 'inactive_stake_fraction_known': 'flag', 'pareto_param': '+', 'cost_min': '+',
    'cost_max': '+', 'extra_pool_cost_fraction': '+', 'stake_distr_source': '1', 'reward_scheme': '1',
    'relative_utility_threshold': '+', 'absolute_utility_threshold': '+', 'iterations_after_convergence': '1',
    'agent_profile_distr': '3'}
BATCH_DEFAULTS = {name: OPTIONS[name][4] for name in BATCH}
del BATCH_DEFAULTS['k'], BATCH_DEFAULTS['execution_id']  # batch runs have their own ones


@st.composite
def command_lines(draw, options=None, fixed=(), bad=True, max_options=6):
    """{'given': [[option, texts]], 'bad': None or a description}"""
    options = options or {name: spec[0] for name, spec in OPTIONS.items()}
    names = draw(st.lists(st.sampled_from(sorted(set(options) - set(fixed))), min_size=1, max_size=max_options,
                          unique=True))
    given, faults = [], []
    spoil = draw(st.sampled_from(names)) if bad and draw(st.booleans()) else None
    for name in names:
        many, (_, good, wrong, _, _) = options[name], OPTIONS[name]
        if many == 'flag':
            given.append([name, [draw(st.booleans())]])
            continue
        count = {'1': 1, '3': 3}.get(many) or draw(st.integers(1, 4))
        texts = [draw(good) for _ in range(count)]
        if name == spoil:
            fault = draw(gen.weighted(('value', 5), ('count', 1)))
            if fault == 'count' and many == '3':
                texts = draw(st.sampled_from([texts[:2], texts[:1], texts + ['1'], []]))
                faults.append('number of values of ' + name)
            elif fault == 'count' and many == '1':
                texts = texts + [draw(good)]
                faults.append('number of values of ' + name)
            elif fault == 'count':
                texts = []
                faults.append('number of values of ' + name)
            elif wrong:
                texts[draw(st.integers(0, count - 1))] = draw(st.sampled_from(wrong))
                faults.append('value of ' + name)
        given.append([name, texts])
    return {'given': given, 'bad': faults, 'equals': draw(st.booleans())}


def argv_of(case):
    argv = []
    for name, texts in case['given']:
        if texts in ([True], [False]):
            argv.append('--' + name if texts[0] else '--no-' + name)
        elif len(texts) == 1 and case['equals']:
            argv.append('--%s=%s' % (name, texts[0]))
        else:
            argv += ['--' + name] + texts
    return argv


def meant(name, texts, many=None):
    if texts in ([True], [False]):
        return texts[0]
    values = [OPTIONS[name][3](t) for t in texts]
    return values[0] if (many or OPTIONS[name][0]) == '1' else values


def matches(got, want):
    """a single value may be kept as a list of one"""
    if isinstance(got, tuple):
        got = list(got)
    if outputs.same_value(got, want):
        return True
    return isinstance(want, list) and len(want) == 1 and outputs.same_value(got, want[0]) or \
        isinstance(got, list) and len(got) == 1 and outputs.same_value(got[0], want)


def quietly(fn):
    """(result, exit status)"""
    try:
        return fn(), None
    except SystemExit as e:
        return None, e.code


def classify(case, ctx):
    ctx.label('rejected' if case['bad'] else 'accepted')
    for f in case['bad']:
        ctx.label('bad ' + f)
    ctx.nontrivial(bool(case['bad']) or len(case['given']) >= 2)


def check_parser(case, ctx):
    ctx.fresh_dir()
    add = drive.need('logic.helper', 'add_script_arguments')
    parser = argparse.ArgumentParser()
    add(parser)
    argv = argv_of(case)
    args, status = quietly(lambda: parser.parse_args(argv))
    if case['bad']:
        require(status not in (None, 0), 'the command line %r is accepted despite the %s', argv, case['bad'][0])
    else:
        require(status is None, 'the command line %r is rejected', argv)
        given = {name: meant(name, texts) for name, texts in case['given']}
        for name, spec in OPTIONS.items():
            want = given.get(name, spec[4])
            if want is not Ellipsis:
                require(matches(getattr(args, name), want), '--%s is %r instead of %r with the command line %r', name,
                        getattr(args, name), want, argv)
    classify(case, ctx)


def missing_cases():
    return st.fixed_dictionaries({'option': st.sampled_from(sorted(n for n in OPTIONS if OPTIONS[n][0] != 'flag')),
                                  'last': st.booleans()})


def check_missing(case, ctx):
    """an option without a value"""
    ctx.fresh_dir()
    add = drive.need('logic.helper', 'add_script_arguments')
    parser = argparse.ArgumentParser()
    add(parser)
    name = case['option']
    other = ['--seed', '5'] if name != 'seed' else ['--n', '5']
    argv = other + ['--' + name] if case['last'] else ['--' + name] + other
    args, status = quietly(lambda: parser.parse_args(argv))
    if status is None:
        default = OPTIONS[name][4]
        require(default is Ellipsis or matches(getattr(args, name), default),
                '--%s without a value is accepted and taken as %r', name, getattr(args, name))
        ctx.label('default')
    else:
        ctx.label('rejected')
    ctx.nontrivial()


# ------------------------------------------------------------------------------------------------ whole runs
@st.composite
def runs(draw):
    """small simulations, valid or with one bad value"""
    case = draw(command_lines(max_options=7))
    small = {'n': naturals(9), 'k': naturals(6), 'max_iterations': naturals(4), 'pareto_param': real(0.5, 5),
             'inactive_stake_fraction': real(0, 0.9), 'seed': gen.seeds.map(str)}
    given = [g for g in case['given'] if g[0] not in ('input_from_file', 'generate_graphs')]
    for g in given:
        if g[0] in small and not any(f.endswith(' ' + g[0]) for f in case['bad']):
            g[1] = [draw(small[g[0]]) for _ in g[1]]
        if g[0] == 'metrics' and not any(f.endswith(' metrics') for f in case['bad']):
            g[1] = [t for t in g[1] if t not in ('8', '11')] or ['1']
    if not given:
        case['bad'] = []
    names = [g[0] for g in given]
    for name in ('n', 'k', 'max_iterations'):
        if name not in names:
            given.append([name, [draw(small[name])]])
    if 'cost_min' in names or 'cost_max' in names:
        # keep the interval of costs valid
        given = [g for g in given if g[0] not in ('cost_min', 'cost_max') or any(f.endswith(g[0]) for f in case['bad'])]
        if not any(f.endswith(('cost_min', 'cost_max')) for f in case['bad']):
            lo, width = draw(st.integers(0, 50)) / 1e4, draw(st.integers(0, 50)) / 1e4
            given += [['cost_min', [repr(lo)]], ['cost_max', [repr(lo + width)]]]
    if not any(f.endswith('agent_profile_distr') for f in case['bad']):
        for g in given:
            if g[0] == 'agent_profile_distr' and not any(float(t) for t in g[1]):
                g[1][0] = '1'
    case['bad'] = [f for f in case['bad'] if f.split()[-1] in [g[0] for g in given]]
    given.append(['generate_graphs', [draw(gen.weighted((False, 9), (True, 1)))]])
    case['given'] = draw(st.permutations(given))
    case['given'] = [list(g) for g in case['given']]
    return case


def judge_run(case, argv, status):
    given = {name: meant(name, texts) for name, texts in case['given']} if not case['bad'] else None
    folders = [f for f in os.listdir('output') if os.path.isdir(os.path.join('output', f))] \
        if os.path.isdir('output') else []
    if case['bad']:
        require(status not in (None, 0), 'main.py %s was run despite the %s', ' '.join(argv), case['bad'][0])
        require(not folders, 'main.py %s started a simulation despite the %s', ' '.join(argv), case['bad'][0])
        return
    require(status in (None, 0), 'main.py %s ended with status %r', ' '.join(argv), status)
    require(len(folders) == 1, 'main.py %s left the folders %r', ' '.join(argv), folders)
    path = os.path.join('output', folders[0])
    args = outputs.read_json(os.path.join(path, 'args.json'))
    for name, spec in OPTIONS.items():
        if name == 'input_from_file':
            continue
        want = given.get(name, spec[4])
        if want is not Ellipsis:
            require(name in args and matches(args[name], want), 'main.py %s ran a simulation with %s = %r instead of %r',
                    ' '.join(argv), name, args.get(name), want)
    if 'execution_id' in given:
        require(folders[0].endswith('-' + given['execution_id']), 'the execution %r got the folder %s',
                given['execution_id'], folders[0])
    if 'seed' in given:
        d = outputs.read_json(os.path.join(path, 'initial-state-descriptors.json'))
        require(d['Randomness seed'] == given['seed'], 'seed %r was given but %r used', given['seed'],
                d['Randomness seed'])
    header, rows = outputs.read_csv(outputs.the_file(path, 'final-state-stakeholders', '.csv'))
    require(len(rows) == given['n'], '%d stakeholders were asked for but %d simulated', given['n'], len(rows))
    header, rows = outputs.read_csv(os.path.join(path, 'metrics.csv'))
    require(len(rows) <= given['max_iterations'] + 1, '%d rounds were recorded although at most %d were asked for',
            len(rows), given['max_iterations'])
    figures = os.path.isdir(os.path.join(path, 'figures'))
    require(figures == given['generate_graphs'], 'graphs are %s', 'there' if figures else 'missing')


def prepare(case, ctx):
    ctx.fresh_dir()
    given = dict((name, texts) for name, texts in case['given'])
    if given.get('stake_distr_source', [''])[0] in ('file', 'File', 'FILE') and given['n'][0].isdigit():
        drive.write_stake_file(int(given['n'][0]), [1 + i for i in range(int(given['n'][0]))])


def check_main(case, ctx):
    prepare(case, ctx)
    main = drive.need('main', 'main')
    argv = argv_of(case)
    old = sys.argv
    sys.argv = ['main.py'] + argv
    try:
        _, status = quietly(main)
    finally:
        sys.argv = old
    judge_run(case, argv, status)
    classify(case, ctx)


def check_script(case, ctx):
    prepare(case, ctx)
    argv = argv_of(case)
    result = subprocess.run([sys.executable, '-B', os.path.join(core.REPO, 'main.py')] + argv, capture_output=True,
                            text=True, timeout=300, env=dict(os.environ, PYTHONPATH=core.REPO))
    require('Traceback' not in result.stderr, 'main.py %s failed: %s', ' '.join(argv), result.stderr[-500:])
    judge_run(case, argv, result.returncode)
    classify(case, ctx)


# ------------------------------------------------------------------------------------------------ batch runs
class HandedOver(BaseException):
    pass


def batch_call(argv):
    """what batch-run.py hands to the batch runner: ((args, kwargs) or None, exit status)"""
    drive.engine()
    module = drive.need('custom_batchrunner', '__name__') and sys.modules['custom_batchrunner']
    if not hasattr(module, 'custom_batch_run'):
        raise Skip('no custom_batch_run')
    script = os.path.join(core.REPO, 'batch-run.py')
    if not os.path.exists(script):
        raise Skip('no batch-run.py')
    calls = []
    original = module.custom_batch_run

    def stub(*args, **kwargs):
        calls.append((args, kwargs))
        raise HandedOver()

    module.custom_batch_run = stub
    old = sys.argv
    sys.argv = ['batch-run.py'] + argv
    try:
        try:
            _, status = quietly(lambda: runpy.run_path(script, run_name='__main__'))
        except HandedOver:
            status = None
    finally:
        sys.argv = old
        module.custom_batch_run = original
    return (calls[0] if calls else None), status


def check_batch(case, ctx):
    ctx.fresh_dir()
    argv = argv_of(case)
    call, status = batch_call(argv)
    if case['bad']:
        require(status not in (None, 0) and call is None, 'batch-run.py %s was run despite the %s', ' '.join(argv),
                case['bad'][0])
        classify(case, ctx)
        return
    require(status is None, 'batch-run.py %s is rejected', ' '.join(argv))
    if call is None or 'parameters' not in call[1] or 'batch_run_id' not in call[1] or 'initial_seed' not in call[1]:
        raise Skip('batch-run.py does not use the batch runner in the known way')
    kwargs = call[1]
    given = {name: meant(name, texts, BATCH[name]) for name, texts in case['given']}
    parameters = dict(kwargs['parameters'])
    for name, default in BATCH_DEFAULTS.items():
        want = given.get(name, default)
        if name == 'seed':
            require(want is None or kwargs['initial_seed'] == want, 'seed %r was given, but the batch starts with %r',
                    want, kwargs['initial_seed'])
            require(isinstance(kwargs['initial_seed'], int), 'the batch starts with seed %r', kwargs['initial_seed'])
        elif name == 'agent_profile_distr':
            value = parameters.get(name, [1, 0, 0])
            if isinstance(value, (list, tuple)) and len(value) == 1 and isinstance(value[0], (list, tuple)):
                value = value[0]
            require(matches(value, want), 'batch-run.py %s runs simulations with %s = %r instead of %r', ' '.join(argv),
                    name, parameters.get(name), want)
        else:
            require(name in parameters and matches(parameters[name], want),
                    'batch-run.py %s runs simulations with %s = %r instead of %r', ' '.join(argv), name,
                    parameters.get(name), want)
    if 'k' in given:
        require(matches(parameters.get('k'), given['k']), 'batch-run.py %s runs simulations with k = %r', ' '.join(argv),
                parameters.get('k'))
    if 'execution_id' in given:
        require(kwargs['batch_run_id'] == given['execution_id'], 'the batch %r is called %r', given['execution_id'],
                kwargs['batch_run_id'])
    classify(case, ctx)


EXPERIMENTS = [
    Experiment('parser', command_lines, check_parser, 1600, 60000),
    Experiment('missing values', missing_cases, check_missing, 80, 400),
    Experiment('main', runs, check_main, 400, 10000),
    Experiment('script', runs, check_script, 24, 600),
    Experiment('batch', lambda: command_lines(options=BATCH), check_batch, 500, 15000),
]
