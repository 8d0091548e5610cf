"""Argument files."""
import inspect
import json
import os
import shutil
import sys

from hypothesis import strategies as st

from harness import drive, gen, outputs
from harness.core import Experiment, require

PROPERTY = 'C29'
RULE = ('replay: a generated simulation is run to its end, its recorded argument file is read by a new simulation that is '
        'given different arguments as well, and courses, parameters and recorded results are compared; main: the same with '
        'main() and overriding options; edited: values in the file are changed and the simulation is compared with one that '
        'is given these values directly; malformed: missing, truncated and otherwise broken files. Non-trivial: at least '
        'one pool was active in the end, or a broken file was refused. Distinct by case.')
ASSUMPTIONS = ['argument files are those of single runs (an argument file of an instance of a batch names the folder of '
               'that instance, which exists)']


def digest_of_settings(sim):
    rs = sim.reward_scheme
    names = ['n', 'max_iterations', 'extra_pool_cost_fraction', 'agent_activation_order', 'absolute_utility_threshold',
             'relative_utility_threshold', 'iterations_after_convergence', 'inactive_stake_fraction',
             'inactive_stake_fraction_known', 'generate_graphs', 'total_phases', 'multi_phase_params']
    out = {name: getattr(sim, name) for name in names if hasattr(sim, name)}
    out.update(scheme=type(rs).__name__, k=rs.k, a0=rs.a0, z0=rs.global_saturation_threshold,
               order=type(sim.schedule).__name__, metrics=sorted(sim.datacollector.model_vars))
    return out


def run(sim):
    states = drive.course(sim)
    return states, drive.outcome(sim)


RESULTS = [('metrics', '.csv'), ('final-state-pools', '.csv'), ('final-state-stakeholders', '.csv')]


def same_results(a, b):
    """the recorded results of two simulations"""
    fa, fb = outputs.folder(a), outputs.folder(b)
    for prefix, suffix in RESULTS:
        with open(outputs.the_file(fa, prefix, suffix)) as f, open(outputs.the_file(fb, prefix, suffix)) as g:
            require(f.read() == g.read(), 'the replayed simulation leaves a different %s file', prefix)
    for name in ('final-state-descriptors.json', 'initial-state-descriptors.json'):
        x, y = outputs.read_json(os.path.join(fa, name)), outputs.read_json(os.path.join(fb, name))
        require(x == y, 'the replayed simulation leaves different %s: %r and %r', name, x, y)
    x, y = (outputs.read_json(os.path.join(f, 'args.json')) for f in (fa, fb))
    for key in x:
        if key not in ('seq_id', 'seed'):
            require(outputs.same_value(x[key], y.get(key, '(missing)')), '%s is recorded as %r for the replayed simulation '
                    'instead of %r', key, y.get(key), x[key])


def compare(original, states, result, replayed, settings):
    again = digest_of_settings(replayed)
    for key in settings:
        require(settings[key] == again.get(key), 'the replayed simulation has %s = %r instead of %r', key, again.get(key),
                settings[key])
    states2, result2 = run(replayed)
    drive.require_same_course(states, states2, 'replayed from the argument file')
    require(result == result2, 'the replayed simulation records different series: %.300r and %.300r', result, result2)
    same_results(original, replayed)


def take_file(sim, seed_given):
    """puts the recorded file in place, with the seed that was recorded"""
    folder = outputs.folder(sim)
    shutil.copy(os.path.join(folder, 'args.json'), 'args.json')
    if not seed_given:
        args = outputs.read_json('args.json')
        require('seed' in args, 'the recorded arguments have no seed')
        args['seed'] = outputs.read_json(os.path.join(folder, 'initial-state-descriptors.json'))['Randomness seed']
        with open('args.json', 'w') as f:
            json.dump(args, f)


OTHER = {
    'n': st.integers(2, 15), 'k': st.integers(1, 9), 'a0': gen.dec(0, 2, 1), 'seed': st.integers(0, 99),
    'reward_scheme': st.integers(0, 3), 'agent_activation_order': st.sampled_from(gen.ORDERS),
    'max_iterations': st.integers(1, 9), 'stake_distr_source': st.sampled_from(['pareto', 'flat']),
    'pareto_param': gen.dec(0.5, 4, 1), 'inactive_stake_fraction': gen.dec(0, 0.5, 1),
    'inactive_stake_fraction_known': st.booleans(), 'relative_utility_threshold': gen.dec(0, 1, 2),
    'absolute_utility_threshold': gen.dec(0, 0.1, 4), 'cost_min': gen.dec(0, 0.01, 4), 'cost_max': gen.dec(0.01, 0.1, 3),
    'extra_pool_cost_fraction': gen.dec(0, 1, 1), 'iterations_after_convergence': st.integers(1, 4),
    'agent_profile_distr': gen.profile_weights(), 'metrics': st.lists(st.integers(1, 7), min_size=1, max_size=3),
    'execution_id': st.sampled_from(['other', 'x']),
}


@st.composite
def others(draw, most=8):
    names = draw(st.lists(st.sampled_from(sorted(OTHER)), max_size=most, unique=True))
    return {name: draw(OTHER[name]) for name in names}


@st.composite
def cases(draw):
    cfg = draw(gen.configs(n_max=16, k_max=8, max_rounds=10, metrics=True))
    if cfg['reward_scheme'] == 4:
        cfg['metrics'] = [m for m in cfg['metrics'] if m != 8] or [1]
    return {'cfg': cfg, 'seed given': draw(gen.weighted((True, 3), (False, 1))),
            'id': draw(st.sampled_from(['case', 'case', '', 'temp', 'ü-1'])), 'others': draw(others()),
            'left out': draw(st.lists(st.sampled_from(['metrics', 'agent_profile_distr', 'absolute_utility_threshold',
                                                       'cost_min', 'extra_pool_cost_fraction']), max_size=2,
                                      unique=True)),
            'times': draw(gen.weighted((1, 3), (2, 1)))}


def original_of(case):
    cfg = {name: v for name, v in case['cfg'].items() if name not in case['left out']}
    if cfg['n'] and 'cost_min' in case['left out'] and cfg.get('cost_max', 1) < 1e-5:
        cfg['cost_max'] = 1e-4
    if not case['seed given']:
        cfg['seed'] = None
    kwargs = dict(drive.sim_kwargs(cfg), generate_graphs=False)
    if case['id']:
        kwargs['execution_id'] = case['id']
    if cfg.get('file_stakes') is not None:
        drive.write_stake_file(cfg['n'], cfg['file_stakes'])
    return drive.engine().Simulation(**kwargs)


def classify(case, sim, ctx):
    ctx.nontrivial(bool(sim.pools))
    ctx.label('seed %s' % ('given' if case['seed given'] else 'recorded'), 'scheme=%d' % case['cfg']['reward_scheme'],
              'order=' + case['cfg']['agent_activation_order'], 'source=' + case['cfg']['stake_distr_source'])
    if sim.total_phases > 1:
        ctx.label('phases')


def check_replay(case, ctx):
    ctx.fresh_dir()
    original = original_of(case)
    settings = digest_of_settings(original)
    states, result = run(original)
    take_file(original, case['seed given'])
    for _ in range(case['times']):
        replayed = drive.engine().Simulation(input_from_file=True, **case['others'])
        compare(original, states, result, replayed, settings)
        take_file(replayed, True)  # the file of the replayed simulation replays it once more
    classify(case, original, ctx)


def option(name, value):
    if isinstance(value, bool):
        return ['--' + name if value else '--no-' + name]
    return ['--' + name] + [str(v) for v in (value if isinstance(value, list) else [value])]


def main_cases():
    return cases()


def check_main(case, ctx):
    ctx.fresh_dir()
    main = drive.need('main', 'main')
    original = original_of(case)
    settings = digest_of_settings(original)
    states, result = run(original)
    take_file(original, case['seed given'])
    sim_module = drive.engine()
    made = []

    class Recording(sim_module.Simulation):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            made.append(self)
            self.seen = [drive.state_digest(self)]
            self.settings = digest_of_settings(self)

        def step(self):
            super().step()
            self.seen.append(drive.state_digest(self))

        def __reduce__(self):
            return (dict, ())

    argv = []
    for name, value in case['others'].items():
        argv += option(name, value)
    saved, saved_argv = sim_module.Simulation, sys.argv
    sim_module.Simulation, sys.argv = Recording, ['main.py', '--input_from_file'] + argv
    try:
        main()
    finally:
        sim_module.Simulation, sys.argv = saved, saved_argv
    require(len(made) == 1, 'main() made %d simulations', len(made))
    replayed = made[0]
    for key in settings:
        require(settings[key] == replayed.settings.get(key), 'main() reading the argument file has %s = %r instead of %r',
                key, replayed.settings.get(key), settings[key])
    drive.require_same_course(states, replayed.seen, 'replayed by main() from the argument file')
    require(result == drive.outcome(replayed), 'main() records different series')
    same_results(original, replayed)
    classify(case, original, ctx)


@st.composite
def edited_cases(draw):
    case = draw(cases())
    case['edit'] = draw(others(most=5))
    case['edit'].pop('execution_id', None)
    if draw(gen.weighted((False, 3), (True, 1))):
        case['edit']['metrics'] = None  # the default metrics
        case['others'].setdefault('metrics', [3])
    if case['cfg'].get('file_stakes') is not None or case['cfg']['stake_distr_source'] == 'disparity':
        case['edit'].pop('n', None)
    case['seed given'] = True
    return case


def check_edited(case, ctx):
    """the values in the file, not those of the run that recorded it, are what counts"""
    ctx.fresh_dir()
    original = original_of(case)
    take_file(original, True)
    args = outputs.read_json('args.json')
    edit = dict(case['edit'])
    if edit.get('cost_min', args['cost_min']) > edit.get('cost_max', args['cost_max']):
        edit['cost_min'] = 0
    if edit.get('reward_scheme', args['reward_scheme']) == 4 or args['reward_scheme'] == 4:
        edit.pop('a0', None)
        edit.pop('metrics', None)
    direct = dict(args, **edit)
    with open('args.json', 'w') as f:
        json.dump(direct, f)
    replayed = drive.engine().Simulation(input_from_file=True, **case['others'])
    settings = digest_of_settings(replayed)
    direct.pop('seq_id')
    engine = drive.engine()
    known = inspect.signature(engine.Simulation.__init__).parameters  # the file may tell more than that
    twin = engine.Simulation(**{key: value for key, value in direct.items() if key in known and key != 'self'})
    compare(replayed, *run(replayed), twin, settings)
    classify(case, replayed, ctx)
    ctx.label('%d edited' % len(edit))


@st.composite
def malformed_cases(draw):
    kind = draw(st.sampled_from(['missing', 'cut', 'cut', 'text', 'bytes', 'inserted', 'inserted', 'not an object',
                                 'incomplete']))
    out = {'kind': kind, 'others': draw(others(4)), 'main': draw(st.booleans())}
    if kind in ('cut', 'inserted'):
        out['at'] = draw(st.floats(0, 0.999))
        out['what'] = draw(st.sampled_from(['{', '}', '"', ',,', ':', 'x', ']', '\\']))
    elif kind == 'text':
        out['text'] = draw(gen.mix((st.text(max_size=20), 2), (st.sampled_from(
            ['', ' ', 'n=10', '{', "{'n': 10}", '{"n": 10,}', '{"n": }', 'null null', '[1, 2']), 3)))
    elif kind == 'bytes':
        out['bytes'] = draw(st.lists(st.integers(128, 255), min_size=1, max_size=8))
    elif kind == 'not an object':
        out['value'] = draw(st.sampled_from([None, 3, 'n', [], [1, 2], True, 0.5]))
    elif kind == 'incomplete':
        out['without'] = draw(st.sampled_from(['n', 'k', 'a0', 'seed', 'reward_scheme', 'max_iterations', 'metrics',
                                               'stake_distr_source', 'cost_max', 'agent_profile_distr']))
    return out


def is_json_object(text):
    try:
        return isinstance(json.loads(text), dict)
    except ValueError:
        return False


def check_malformed(case, ctx):
    ctx.fresh_dir()
    kind = case['kind']
    Simulation = drive.engine().Simulation
    original = Simulation(n=5, k=2, seed=1, max_iterations=3, execution_id='case', generate_graphs=False)
    if kind != 'missing':
        take_file(original, True)
        with open('args.json', encoding='utf-8') as f:
            text = f.read()
        data = None
        if kind == 'cut':
            text = text[:int(len(text.rstrip()) * case['at'])]
        elif kind == 'inserted':
            at = int(len(text) * case['at'])
            text = text[:at] + case['what'] + text[at:]
        elif kind == 'text':
            text = case['text']
        elif kind == 'bytes':
            data = b'{"n": "' + bytes(case['bytes']) + b'"}'
        elif kind == 'not an object':
            text = json.dumps(case['value'])
        elif kind == 'incomplete':
            args = json.loads(text)
            args.pop(case['without'])
            text = json.dumps(args)
        if data is None:
            data = text.encode('utf-8', 'surrogatepass')
        try:
            data.decode('utf-8')
            broken = kind == 'incomplete' or not is_json_object(text)
        except UnicodeDecodeError:
            broken = True
        if not broken:
            ctx.label('not broken after all')
            return
        with open('args.json', 'wb') as f:
            f.write(data)
    before = sorted(os.listdir('output'))
    with open('sequence.dat') as f:
        serial = f.read()
    rounds = []
    saved = Simulation.step
    Simulation.step = lambda sim: rounds.append(sim) or saved(sim)
    error = None
    try:
        if case['main']:
            argv, sys.argv = sys.argv, ['main.py', '--input_from_file'] + [
                a for name, value in case['others'].items() for a in option(name, value)]
            try:
                drive.need('main', 'main')()
            finally:
                sys.argv = argv
        else:
            Simulation(input_from_file=True, **case['others'])
    except SystemExit as e:
        error = e if e.code not in (None, 0) else None
    except Exception as e:
        error = e
    finally:
        Simulation.step = saved
    require(error is not None, 'an argument file that is %s is accepted', kind)
    require(not rounds, 'rounds were simulated despite an argument file that is %s', kind)
    if kind == 'missing':
        require(isinstance(error, (FileNotFoundError, SystemExit)), 'a missing argument file leads to %r', error)
    elif kind not in ('incomplete', 'not an object'):
        require(isinstance(error, (ValueError, SystemExit)), 'an argument file that is broken (%s) leads to %r', kind, error)
    if kind != 'incomplete':
        require(sorted(os.listdir('output')) == before, 'a folder was made for a broken argument file (%s)', kind)
        with open('sequence.dat') as f:
            require(f.read() == serial, 'a serial number was used for a broken argument file (%s)', kind)
    ctx.nontrivial(True)
    ctx.label(kind)


EXPERIMENTS = [
    Experiment('replay', cases, check_replay, 400, 12000),
    Experiment('main', main_cases, check_main, 160, 4000),
    Experiment('edited', edited_cases, check_edited, 240, 6000),
    Experiment('malformed', malformed_cases, check_malformed, 400, 6000),
]
