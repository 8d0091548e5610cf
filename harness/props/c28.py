"""Output folders over sequences of executions in one directory."""
import hashlib
import os
import re
import runpy
import subprocess
import sys

from hypothesis import strategies as st

from harness import core, drive, gen, outputs
from harness.core import Experiment, require

PROPERTY = 'C28'
RULE = ('histories: a generated sequence of executions in one directory (single runs that finish, are left after some '
        'rounds, are never run or are refused, runs of main(), batch runs, runs that are open at the same time, lost serial '
        'numbers), all files compared before and after each; processes: the same with executions in processes of their '
        'own. Non-trivial: at least 3 executions finished. Distinct by case.')
ASSUMPTIONS = ['executions do not overlap in time, except simulations of one process and the instances of one batch',
               'identifiers do not contain slashes and have at most 100 characters',
               'an execution that is refused may use up a serial number or not']

TRACKER = os.path.join('output', 'experiment-tracker.csv')


def files():
    """path: digest of everything below the current directory; folders are listed with None"""
    out = {}
    for folder, subfolders, names in os.walk('.'):
        for name in subfolders:
            out[os.path.normpath(os.path.join(folder, name)) + os.sep] = None
        for name in names:
            path = os.path.normpath(os.path.join(folder, name))
            with open(path, 'rb') as f:
                out[path] = hashlib.sha256(f.read()).hexdigest()
    return out


def tracker_rows():
    if not os.path.exists(TRACKER):
        return None, []
    return outputs.read_csv(TRACKER)


identifiers = gen.mix(
    (st.sampled_from(['exp', 'a', 'baseline', 'n-3K-k-500', '1', '12-3', '..', '.hidden', 'x y', 'metrics.csv', 'ünï',
                      'figures', 'args.json']), 4),
    (st.text('abcAZ019 _.=+-é', min_size=1, max_size=20).map(str.strip).filter(lambda s: s and s not in ('temp',)), 2),
    (st.text('xyz', min_size=90, max_size=100), 1),
    (st.sampled_from(['', '', 'temp', None]), 3))


@st.composite
def settings(draw):
    cfg = {'n': draw(st.integers(2, 7)), 'k': draw(gen.mix((st.integers(1, 4), 4), (st.lists(
        st.integers(1, 4), min_size=2, max_size=3), 1))), 'a0': draw(gen.dec(0, 1, 1)),
        'max_iterations': draw(st.integers(1, 5)), 'iterations_after_convergence': draw(st.integers(1, 2)),
        'seed': draw(st.integers(0, 50)), 'reward_scheme': draw(st.integers(0, 3))}
    if draw(st.integers(0, 5)) == 0:
        # an identifier that is generated from these cannot be kept in full
        cfg['k'] = [draw(st.integers(1, 4)) for _ in range(draw(st.integers(20, 40)))]
        cfg['a0'] = [draw(gen.dec(0, 1, 1)) for _ in range(draw(st.integers(20, 40)))]
    return cfg


@st.composite
def executions(draw, processes=False):
    kind = draw(gen.weighted(('run', 6), ('main', 1), ('left', 2), ('unused', 2), ('refused', 2), ('batch', 3),
                             ('open', 2), ('lost', 1), ('restored', 1)))
    out = {'kind': kind, 'cfg': draw(settings()), 'id': draw(identifiers)}
    if kind == 'left':
        out['rounds'] = draw(st.integers(1, 2))
    elif kind == 'refused':
        out['wrong'] = draw(st.sampled_from([{'reward_scheme': 9}, {'cost_min': 0.2, 'cost_max': 0.1},
                                             {'stake_distr_source': 'file'}, {'metrics': [0]},
                                             {'agent_activation_order': 'none'}]))
    elif kind == 'batch':
        out['ks'] = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3, unique=True))
        out['processes'] = draw(st.sampled_from([1, 1, 1, 2]))
    elif kind == 'open':
        out['other'] = draw(settings())
        out['other id'] = draw(identifiers)
        out['order'] = draw(st.permutations([0, 1]))
        out['alternate'] = draw(st.booleans())
    elif kind == 'main':
        out['graphs'] = draw(st.booleans())
    if processes:
        out['own process'] = kind in ('run', 'main', 'batch') and draw(st.booleans())
    return out


@st.composite
def histories(draw, processes=False, most=8):
    return {'start': draw(st.sampled_from([None, None, '0', '7', '41\n', '123456'])),
            'executions': draw(st.lists(executions(processes), min_size=2, max_size=most))}


class Ledger:
    """what has to be true of the directory after each execution"""

    def __init__(self, start):
        self.serial = int(start or 0)
        self.known = True  # whether the next serial number is known
        self.highest = self.serial
        self.tracked = []

    def may_clash(self):
        """numbers start again after they were lost, so that a folder of that name may be there"""
        return not self.known or self.serial < self.highest

    def new_folder(self, before, what):
        after = files()
        new = [f for f in after if f not in before and f.endswith(os.sep) and f.count(os.sep) == 2
               and f.startswith('output' + os.sep)]
        require(len(new) == 1, '%s added the folders %r to the output', what, new)
        return new[0].split(os.sep)[1]

    def unchanged(self, before, what, own=()):
        after = files()
        for path, digest in before.items():
            if path in ('sequence.dat', TRACKER) or any(path.startswith(o) for o in own):
                continue
            require(path in after, '%s removed %s of an earlier execution', what, path)
            require(after[path] == digest, '%s changed %s of an earlier execution', what, path)
        for path in after:
            if path not in before and path not in ('sequence.dat', TRACKER, 'output' + os.sep):
                require(any(path.startswith(o) for o in own), '%s left %s outside its folder', what, path)

    def numbered(self, folder, identifier, what, cfg=None):
        m = re.match(r'(\d+)-(.*)$', folder, re.S)
        require(m is not None, 'the folder of %s is called %r', what, folder)
        serial, name = int(m.group(1)), m.group(2)
        if self.known:
            require(serial == self.serial + 1, '%s got the serial number %d after %d', what, serial, self.serial)
        if identifier is not None:
            require(name == identifier, 'the folder of %s is called %r although its identifier is %r', what, folder,
                    identifier)
        else:
            require(name and len(name) <= 200, 'the folder of %s is called %r', what, folder)
            if cfg is not None:
                require(re.search(r'(?<!\d)%d(?!\d)' % cfg['n'], name), 'the identifier %r of %s has nothing of its '
                        'parameters', name, what)
        self.serial, self.known = serial, True
        self.highest = max(self.highest, serial)
        return serial

    def finished(self, serials, what):
        """serials: (number, identifier or None) of the simulations that finished now, in their order, or a set"""
        header, rows = tracker_rows()
        old, new = rows[:len(self.tracked)], rows[len(self.tracked):]
        require(old == self.tracked, 'earlier rows of the tracker changed with %s', what)
        require(len(new) == len(serials), 'the tracker got %d rows with %s, in which %d simulations finished', len(new),
                what, len(serials))
        if isinstance(serials, list):
            for row, (serial, name) in zip(new, serials):
                require(list(row.values())[0] == str(serial), 'the tracker has %r for the simulation with serial number %d',
                        row, serial)
                require(name is None or name in row.values(), 'the tracker has %r for the simulation called %r', row, name)
        else:
            require(sorted(list(row.values())[0] for row in new) == sorted(str(s) for s, _ in serials),
                    'the tracker has the rows %r for the instances %r', new, serials)
        self.tracked = rows


def kwargs_of(cfg, identifier):
    out = dict(cfg, generate_graphs=False)
    if identifier is not None:
        out['execution_id'] = identifier
    return out


def argv_of(step):
    cfg = step['cfg']
    argv = []
    for name, value in cfg.items():
        argv += ['--' + name] + [str(v) for v in (value if isinstance(value, list) else [value])]
    if step['id'] is not None and not step['id'].startswith('-'):
        argv += ['--execution_id=' + step['id']]
    return argv + ['--no-generate_graphs' if not step.get('graphs') else '--generate_graphs']


CHILD = r'''
import json, sys
sys.path.insert(0, sys.argv[1]); sys.path.append(sys.argv[2]); sys.path.append(sys.argv[4])
from harness.props import c28
c28.perform(json.loads(sys.argv[3]))
'''


def perform(step):
    kind = step['kind']
    if kind == 'main':
        argv, sys.argv = sys.argv, ['main.py'] + argv_of(step)
        try:
            drive.need('main', 'main')()
        finally:
            sys.argv = argv
    elif kind == 'run':
        drive.engine().Simulation(**kwargs_of(step['cfg'], step['id'])).run_model()
    elif kind == 'batch':
        batch = drive.need('custom_batchrunner', 'custom_batch_run')
        parameters = {name: tuple(v) if isinstance(v, list) else v for name, v in step['cfg'].items()
                      if name not in ('seed', 'k')}
        parameters = {name: v[0] if isinstance(v, tuple) else v for name, v in parameters.items()}
        parameters.update(k=step['ks'], generate_graphs=False)
        batch(drive.engine().Simulation, parameters=parameters, batch_run_id=step['id'] or 'batch',
              number_processes=step['processes'], iterations=1, display_progress=False, initial_seed=step['cfg']['seed'])


def execute(step):
    if step.get('own process'):
        import json
        done = subprocess.run([sys.executable, '-B', '-c', CHILD, core.REPO, core.VERIF, json.dumps(step),
                               core.HYPOTHESIS_SITE], capture_output=True, text=True, timeout=300)
        require(done.returncode == 0, 'an execution failed: %s', done.stderr[-600:])
    else:
        perform(step)


def check(case, ctx):
    ctx.fresh_dir()
    if case['start'] is not None:
        with open('sequence.dat', 'w') as f:
            f.write(case['start'])
    ledger = Ledger(case['start'])
    done, saved = 0, None
    Simulation = drive.engine().Simulation
    for number, step in enumerate(case['executions']):
        kind, identifier = step['kind'], step['id']
        generated = identifier in ('', 'temp', None)
        what = 'execution %d (%s)' % (number + 1, kind)
        before = files()
        ctx.label(kind)
        if kind == 'lost':
            # without its file the numbers start again; what is there must survive
            if os.path.exists('sequence.dat'):
                os.remove('sequence.dat')
                ledger.known = False
            continue
        if kind == 'restored':
            if saved is not None:
                with open('sequence.dat', 'w') as f:
                    f.write(saved)
                ledger.known = False
            continue
        if kind == 'refused':
            try:
                Simulation(**dict(kwargs_of(step['cfg'], identifier), **step['wrong']))
                require(False, 'a simulation with %r is accepted', step['wrong'])
            except (ValueError, KeyError, IndexError, FileNotFoundError, OSError, TypeError, OverflowError):
                pass
            after = files()
            ledger.unchanged(before, what, own=[f for f in after if f not in before and f.startswith('output' + os.sep)])
            ledger.finished([], what)
            ledger.known = False
            continue
        first = None
        try:
            if kind in ('run', 'main', 'batch'):
                execute(step)
            else:
                first = Simulation(**kwargs_of(step['cfg'], identifier))
        except FileExistsError:
            # only after serial numbers were lost
            require(ledger.may_clash(), '%s is refused although its serial number is new', what)
            after = files()
            ledger.unchanged(before, what, own=())
            ledger.finished([], what)
            ledger.known = False
            ctx.label('folder taken')
            continue
        except core.PropertyViolation as e:
            if 'FileExistsError' in str(e) and ledger.may_clash():
                ledger.unchanged(before, what, own=())
                ledger.known = False
                continue
            raise
        if kind == 'batch':
            folder = ledger.new_folder(before, what)
            serial = ledger.numbered(folder, identifier or None if not generated else identifier or 'batch', what)
            own = 'output' + os.sep + folder + os.sep
            ledger.unchanged(before, what, own=[own])
            instances = [f for f in os.listdir(own) if os.path.isdir(os.path.join(own, f))]
            require(sorted(int(f.split('-')[0]) for f in instances) == list(range(1, len(step['ks']) + 1)),
                    'the instances of %s are called %r', what, instances)
            for f in instances:
                require('metrics.csv' in os.listdir(os.path.join(own, f)), 'an instance of %s left no metrics', what)
            ledger.finished({(i + 1, None) for i in range(len(step['ks']))}, what)
            done += len(step['ks'])
        else:
            folder = ledger.new_folder(before, what)
            main_id = identifier if not generated and not (kind == 'main' and identifier.startswith('-')) else None
            serial = ledger.numbered(folder, main_id, what, step['cfg'])
            own = 'output' + os.sep + folder + os.sep
            ledger.unchanged(before, what, own=[own])
            require('args.json' in os.listdir(own), '%s did not record its arguments', what)
            if kind == 'left':
                for _ in range(step['rounds']):
                    if first.running:
                        first.step()
                ledger.finished([(serial, main_id)] if not first.running else [], what)
                ledger.unchanged(before, what, own=[own])
            elif kind == 'unused':
                ledger.finished([], what)
            elif kind in ('run', 'main'):
                ledger.finished([(serial, main_id)], what)
                done += 1
            elif kind == 'open':
                inner = files()
                sid2 = step['other id'] if step['other id'] not in ('', 'temp', None) else None
                ledger2 = 'the simulation opened during ' + what
                try:
                    second = Simulation(**kwargs_of(step['other'], step['other id']))
                except FileExistsError:
                    require(ledger.may_clash(), '%s is refused although its serial number is new', ledger2)
                    ledger.known = False
                    continue
                folder2 = ledger.new_folder(inner, ledger2)
                serial2 = ledger.numbered(folder2, sid2, ledger2, step['other'])
                own2 = 'output' + os.sep + folder2 + os.sep
                ledger.unchanged(inner, ledger2, own=[own2])
                sims = [(first, serial, main_id, own), (second, serial2, sid2, own2)]
                if step['alternate']:
                    finished = []
                    while len(finished) < 2:
                        for entry in sims:
                            if entry[0].running:
                                entry[0].step()
                                if not entry[0].running:
                                    finished.append(entry)
                                    ledger.finished([(entry[1], entry[2])], what)
                else:
                    for i in step['order']:
                        sim, number2, name, folder3 = sims[i]
                        now = files()
                        sim.run_model()
                        ledger.finished([(number2, name)], what)
                        ledger.unchanged(now, what, own=[folder3])
                ledger.unchanged(before, what, own=[own, own2])
                done += 2
        if os.path.exists('sequence.dat') and saved is None:
            with open('sequence.dat') as f:
                saved = f.read()
    ctx.nontrivial(done >= 3)
    ctx.label('%s finished' % (done if done < 3 else '3-6' if done < 7 else '7+'))


EXPERIMENTS = [
    Experiment('histories', histories, check, 280, 12000),
    Experiment('processes', lambda: histories(True, 5), check, 24, 800),
]
