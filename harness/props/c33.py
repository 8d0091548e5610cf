"""Executions that are interrupted, and what becomes of the others."""
import json
import os
import re
import shutil
import signal
import sys
import time
import traceback

from hypothesis import strategies as st

from harness import core, gen, outputs
from harness.core import Experiment, require
from harness.props import c28
from harness.props.c28 import TRACKER, files

PROPERTY = 'C33'
RULE = ('interruptions: executions (single runs, main(), batch runs) of which one is killed right before the Nth line of the '
        'engine that it executes (its process disappears, with everything that is not on the disk), stopped there by an '
        'exception (Ctrl-C), or denied the Nth operation of it that changes the file system (disk full); N is drawn next to '
        'such operations (also between the opening of a file and the writing to it) or anywhere; then it is repeated and '
        'others are run, in the same process if it still exists, and compared with an undisturbed execution. Non-trivial: '
        'the interruption took place after the execution had changed the file system. Distinct by case.')
ASSUMPTIONS = ['the operating system does not lose or reorder writes that it acknowledged, and renames files atomically',
               'an interrupted execution may use up a serial number and leave an incomplete folder and temporary files',
               'lines of other libraries are not interrupted, but the files they open are denied']

KILLED = 77
CHILD_SECONDS = 240
TOOL = 4


@st.composite
def small_settings(draw):
    cfg = {'n': draw(st.integers(2, 6)), 'k': draw(gen.mix((st.integers(1, 4), 4), (st.lists(
        st.integers(1, 4), min_size=2, max_size=2), 1))), 'a0': draw(gen.dec(0, 1, 1)),
        'max_iterations': draw(st.integers(1, 4)), 'iterations_after_convergence': draw(st.integers(1, 2)),
        'seed': draw(st.integers(0, 50)), 'reward_scheme': draw(st.integers(0, 4))}
    return cfg


@st.composite
def executions(draw):
    kind = draw(gen.weighted(('run', 5), ('main', 2), ('batch', 2)))
    out = {'kind': kind, 'cfg': draw(small_settings()),
           'id': draw(st.sampled_from(['exp', 'exp', 'a', 'baseline', 'x y', None]))}
    if kind == 'batch':
        out['ks'] = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3, unique=True))
        out['processes'] = 1
    elif kind == 'main':
        out['graphs'] = draw(st.integers(0, 3)) == 0
    return out


@st.composite
def cases(draw):
    mode = draw(gen.weighted(('kill', 5), ('exception', 3), ('denied', 3)))
    point = {'anywhere': draw(st.floats(0, 1))} if mode != 'denied' and draw(st.integers(0, 3)) == 0 else \
        {'operation': draw(st.integers(0, 400)), 'after': draw(st.integers(0, 3)) if mode != 'denied' else 0}
    return {'start': draw(st.sampled_from([None, '0', '7', '41'])), 'earlier': draw(st.lists(executions(), max_size=2)),
            'victim': draw(executions()), 'mode': mode, 'point': point,
            'later': draw(st.lists(executions(), max_size=1))}


# ------------------------------------------------------------------------------------------------------ interruptions
WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class Tracer:
    """counts the lines of the engine that are executed, and the operations that change the current directory"""

    def __init__(self):
        self.lines = 0
        self.operations = []  # the number of lines executed before each
        self.stop_line = self.stop_operation = None
        self.action = None
        self.active = True
        self.root = os.getcwd() + os.sep
        self.repo = os.path.realpath(core.REPO) + os.sep
        monitoring = sys.monitoring
        monitoring.use_tool_id(TOOL, 'interruptions')
        monitoring.register_callback(TOOL, monitoring.events.LINE, self.on_line)
        monitoring.set_events(TOOL, monitoring.events.LINE)
        sys.addaudithook(self.on_event)

    def on_line(self, code, line):
        if not self.active:
            return None
        if not os.path.abspath(code.co_filename).startswith(self.repo):
            return sys.monitoring.DISABLE
        self.lines += 1
        if self.stop_line is not None and self.lines >= self.stop_line:
            self.strike()

    def on_event(self, event, args):
        if not self.active:
            return
        if event == 'open':
            path, _, flags = args
            if not isinstance(flags, int) or not flags & WRITING:
                return
        elif event in ('os.mkdir', 'os.rename', 'os.remove', 'os.link', 'os.symlink', 'os.truncate', 'os.rmdir'):
            path = args[0]
        else:
            return
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not isinstance(path, (str, os.PathLike)) or not os.path.abspath(path).startswith(self.root):
            return
        self.operations.append(self.lines)
        if self.stop_operation is not None and len(self.operations) >= self.stop_operation:
            self.strike()

    def strike(self):
        self.active = False
        self.action()

    def finish(self):
        self.active = False
        sys.monitoring.set_events(TOOL, 0)
        sys.monitoring.free_tool_id(TOOL)


class Interruption(KeyboardInterrupt):
    pass


class DiskFull(OSError):
    pass


def kill():
    os._exit(KILLED)


def interrupt():
    raise Interruption()


def deny():
    raise DiskFull(28, 'No space left on device')


def in_child(function, outcome_path):
    """Run the function in a forked process; returns (exit code, what it returned or None)."""
    if os.path.exists(outcome_path):
        os.remove(outcome_path)
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            result = function()
            with open(outcome_path, 'w') as f:
                json.dump(result, f)
            code = 0
        except BaseException:
            with open(outcome_path, 'w') as f:
                json.dump({'crash': traceback.format_exc()[-1500:]}, f)
        finally:
            os._exit(code)
    end = time.time() + CHILD_SECONDS
    while True:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            break
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            require(False, 'the process did not end within %d s', CHILD_SECONDS)
        time.sleep(0.01)
    result = None
    if os.path.exists(outcome_path):
        with open(outcome_path) as f:
            result = json.load(f)
    return os.waitstatus_to_exitcode(status), result


# ---------------------------------------------------------------------------------------------------- the observations
def folders():
    return sorted(os.listdir('output')) if os.path.isdir('output') else []


def run_folders():
    return [f for f in folders() if os.path.isdir(os.path.join('output', f)) and re.match(r'\d+-', f)]


def contents(folder):
    """what a finished execution left, without what tells executions apart"""
    out = {}
    base = os.path.join('output', folder)
    for where, _, names in os.walk(base):
        for name in names:
            path = os.path.join(where, name)
            inner = os.path.relpath(path, base)
            inner = re.sub(re.escape(folder), '<id>', inner)
            if name.endswith(('.pkl', '.png')):
                out[inner] = os.path.getsize(path) > 0
                continue
            with open(path, encoding='utf-8') as f:
                text = f.read()
            out[inner] = text.replace(folder, '<id>').replace(os.getcwd(), '<here>')
    return out


def compare(mine, reference, what):
    require(set(mine) == set(reference), '%s left the files %r instead of %r', what, sorted(mine), sorted(reference))
    for name in mine:
        if name.endswith('args.json'):
            # the arguments contain the serial number or not, depending on the kind of execution
            a, b = json.loads(mine[name]), json.loads(reference[name])
            a, b = ({k: v for k, v in x.items() if k != 'seq_id'} for x in (a, b))
            require(a == b, '%s recorded other arguments: %r instead of %r', what, a, b)
        else:
            require(mine[name] == reference[name], '%s left other contents in %s than an undisturbed execution: %s', what,
                    name, difference(mine[name], reference[name]))


def difference(a, b):
    if not isinstance(a, str) or not isinstance(b, str):
        return '%r instead of %r' % (a, b)
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return '...%r instead of ...%r' % (a[max(0, i - 20):i + 40], b[max(0, i - 20):i + 40])
    return '%d instead of %d characters' % (len(a), len(b))


def instances_of(step):
    return len(step['ks']) if step['kind'] == 'batch' else 1


def tracker_text():
    if not os.path.exists(TRACKER):
        return ''
    with open(TRACKER, encoding='utf-8', newline='') as f:
        return f.read()


def perform_checked(step, reference, what, lasting=None):
    """an undisturbed execution after an interruption (or before); returns its folder

    `lasting`: the files from before the interruption, which have to stay as they are; of the others only those in the
    folders of executions have to (an interruption may leave a temporary file behind, which is nobody's result, and which
    may even be another name of the tracker)
    """
    before, old_folders, old_text = files(), run_folders(), tracker_text()
    rows = len(c28.tracker_rows()[1])
    try:
        c28.perform(step)
    except Exception as e:
        if isinstance(e, core.PropertyViolation):
            raise
        frames = traceback.extract_tb(e.__traceback__)
        require(False, '%s fails with %s: %s (%s:%d)', what, type(e).__name__, e, os.path.basename(frames[-1].filename),
                frames[-1].lineno)
    new = [f for f in run_folders() if f not in old_folders]
    require(len(new) == 1, '%s added the folders %r', what, new)
    serials = [int(f.split('-')[0]) for f in old_folders]
    require(int(new[0].split('-')[0]) > max(serials, default=0), '%s got the folder %r after %r', what, new[0],
            sorted(old_folders))
    after = files()
    folders = set(old_folders)
    for path, digest in before.items():
        if path in ('sequence.dat', TRACKER):
            continue
        if lasting is None or path in lasting or folders & set(path.split(os.sep)[:-1]):
            require(after.get(path, 'gone') == digest, '%s changed or removed %s', what, path)
    require(tracker_text().startswith(old_text), '%s changed earlier rows of the tracker', what)
    require(len(c28.tracker_rows()[1]) == rows + instances_of(step), '%s added %d rows to the tracker', what,
            len(c28.tracker_rows()[1]) - rows)
    if reference is not None:
        compare(contents(new[0]), reference, what)
    return new[0]


def seeded(step):
    return dict(step, cfg=dict(step['cfg']))


def check(case, ctx):
    base = ctx.fresh_dir()
    mode, victim = case['mode'], seeded(case['victim'])
    outcome = os.path.join(base, 'outcome.json')
    place, dry = os.path.join(base, 'place'), os.path.join(base, 'dry')
    os.mkdir(place)
    c28.drive.engine()  # imported before anything is counted
    c28.drive.need('main', 'main'), c28.drive.need('custom_batchrunner', 'custom_batch_run')

    def earlier():
        os.chdir(place)
        if case['start'] is not None:
            with open('sequence.dat', 'w') as f:
                f.write(case['start'])
        for i, step in enumerate(case['earlier']):
            perform_checked(seeded(step), None, 'execution %d (%s)' % (i + 1, step['kind']))
        return True

    def run(function, what):
        code, result = in_child(function, outcome)
        if isinstance(result, dict) and 'crash' in result:
            lines = result['crash'].strip().splitlines()
            last = [x for x in lines if x.startswith(('harness.core.PropertyViolation', 'Prop'))]
            if last:
                require(False, '%s', last[-1].split(': ', 1)[-1])
            require('harness' not in lines[-3] if len(lines) > 2 else True, '%s: %s', what, result['crash'])
            raise core.PropertyViolation('%s: %s' % (what, ' / '.join(lines[-3:])))
        require(code in (0, KILLED), '%s ended with exit code %r', what, code)
        return code, result

    run(earlier, 'the executions before the interruption')
    shutil.copytree(place, dry)

    def undisturbed():
        os.chdir(dry)
        old = run_folders()
        tracer = Tracer()
        c28.perform(victim)
        tracer.finish()
        new = [f for f in run_folders() if f not in old]
        require(len(new) == 1, 'an execution added the folders %r', new)
        return {'lines': tracer.lines, 'operations': tracer.operations, 'contents': contents(new[0])}

    _, plan = run(undisturbed, 'an undisturbed execution')
    reference = plan['contents']
    require(plan['lines'] and plan['operations'], 'the execution has no effects: %r', plan['lines'])
    point, operations = case['point'], plan['operations']
    if 'anywhere' in point:
        stop = 1 + int(point['anywhere'] * (plan['lines'] - 1))
    else:
        nth = point['operation'] % len(operations)
        stop = operations[nth] + point['after']
    what = '%s of a %s at %s' % ({'kill': 'after a kill', 'exception': 'after an interruption',
                                  'denied': 'after a failure'}[mode], victim['kind'],
                                 'line %d of %d' % (stop, plan['lines']) if mode != 'denied'
                                 else 'operation %d of %d' % (nth + 1, len(operations)))
    ctx.label(mode, victim['kind'])

    def later():
        folder_before = run_folders()
        perform_checked(victim, reference, 'the same execution again, %s,' % what, before)
        for step in case['later']:
            perform_checked(seeded(step), None, 'another execution, %s,' % what, before)
        return folder_before

    def disturbed():
        os.chdir(place)
        text, before, old = tracker_text(), files(), run_folders()
        tracer = Tracer()
        if mode == 'denied':
            tracer.stop_operation, tracer.action = nth + 1, deny
        else:
            tracer.stop_line, tracer.action = stop, kill if mode == 'kill' else interrupt
        ended = None
        try:
            c28.perform(victim)
        except (Interruption, DiskFull):
            ended = 'stopped'
        except BaseException as e:
            ended = 'stopped with %s' % type(e).__name__
        struck = not tracer.active
        tracer.finish()
        inspect(text, before, old)
        if ended is None:
            # nothing was lost although the execution did not notice, or did not mind
            new = [f for f in run_folders() if f not in old]
            require(len(new) == 1, 'an execution that ended as if nothing had happened, %s, added the folders %r', what, new)
            compare(contents(new[0]), reference, 'an execution that ended as if nothing had happened, %s,' % what)
        later()
        return {'struck': struck, 'changed': tracer.operations and True}

    def inspect(text, before, old):
        after = files()
        for path, digest in before.items():
            if path not in ('sequence.dat', TRACKER):
                require(after.get(path, 'gone') == digest, '%s: %s of an earlier execution changed or disappeared', what,
                        path)
        now = tracker_text()
        require(now.startswith(text), '%s: earlier rows of the tracker changed', what)
        rows = c28.tracker_rows()[1] if now else []
        old_rows = max(0, len(text.splitlines()) - 1)
        require(len(rows) - old_rows <= instances_of(victim), '%s: the tracker has %d more rows', what,
                len(rows) - old_rows)
        new = [f for f in run_folders() if f not in old]
        require(len(new) <= 1, '%s: there are the new folders %r', what, new)
        serials = [int(f.split('-')[0]) for f in old]
        for f in new:
            require(int(f.split('-')[0]) > max(serials, default=0), '%s: it had the folder %r after %r', what, f, old)

    os.chdir(place)
    text, before, old = tracker_text(), files(), run_folders()
    code, result = run(disturbed, 'the executions %s' % what)
    os.chdir(place)
    if code == KILLED:
        inspect(text, before, old)
        ctx.nontrivial(files() != before)
        ctx.label('files changed' if files() != before else 'nothing changed yet')

        def resumed():
            os.chdir(place)
            later()
            return True

        run(resumed, 'the executions %s' % what)
    else:
        require(mode != 'kill' or not result['struck'], 'the killed process went on')
        ctx.label('interrupted' if result['struck'] else 'not reached')
        ctx.nontrivial(result['struck'] and result['changed'])
    os.chdir(base)


EXPERIMENTS = [
    Experiment('interruptions', cases, check, 320, 9000),
]
