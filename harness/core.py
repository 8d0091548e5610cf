"""Runner: drives Hypothesis over the experiments of one property, in parallel shards, and reports.

A property module (harness/props/cXX.py) defines
    PROPERTY = 'CXX', RULE = text, ASSUMPTIONS = [...], EXPERIMENTS = [Experiment(...), ...]
An experiment is a strategy that draws JSON-serialisable cases and a check(case, ctx) function which raises
PropertyViolation, or returns normally after having classified the case through ctx (ctx.label / ctx.nontrivial).
"""
import argparse
import csv
import hashlib
import importlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import collections

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
HYPOTHESIS_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
CASE_CPU_LIMIT = 90  # CPU seconds for one case that normally takes well below a few seconds
WALL_LIMIT = {'quick': 600, 'thorough': 6 * 3600}  # no new cases are started after this
SHRINK_SECONDS = 45


class PropertyViolation(Exception):
    pass


class Skip(Exception):
    """The experiment cannot be run against this version of the code (e.g. an entry point it drives is gone)."""


class CaseHang(BaseException):
    pass


class AbortSearch(BaseException):
    pass


class Experiment:
    def __init__(self, name, strategy, check, quick, thorough=None, weight=1):
        """strategy: a zero-argument callable that returns a Hypothesis strategy (built lazily)
        quick / thorough: total number of generated cases (over all shards)"""
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25


class Ctx:
    """Collects the classification of one case."""

    def __init__(self, scratch):
        self.labels = []
        self.is_nontrivial = False
        self.scratch = scratch
        self.excluded = False

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def fresh_dir(self):
        """A fresh directory inside the scratch area, made the current working directory."""
        os.chdir(self.scratch)
        d = tempfile.mkdtemp(prefix='case-', dir=self.scratch)
        os.chdir(d)
        return d


def fail(message):
    raise PropertyViolation(message)


def require(cond, message, *args):
    if not cond:
        raise PropertyViolation(message % args if args else message)


def bootstrap():
    """Make the engine (from REPO's working tree) and Hypothesis importable."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if HYPOTHESIS_SITE not in sys.path:
        sys.path.append(HYPOTHESIS_SITE)
    import warnings
    warnings.simplefilter('ignore')


def blame(exc):
    """'repo' if the exception came out of the engine's code, 'harness' otherwise."""
    tb = exc.__traceback__
    last = 'harness'
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(os.path.realpath(REPO) + os.sep):
            last = 'repo'
        elif fn.startswith(VERIF + os.sep):
            # observers of the harness that run inside the engine's call stack mark themselves
            last = 'harness'
        tb = tb.tb_next
    return last


def senseless(exc):
    """Whether an exception in the harness tells of missing or unreadable results (files, columns, values, numbers) rather
    than of an entry point that the engine no longer has in this form."""
    text = str(exc)
    if isinstance(exc, TypeError):
        return 'argument' not in text
    if isinstance(exc, AttributeError):
        return "'NoneType'" in text
    return isinstance(exc, (FileNotFoundError, FileExistsError, NotADirectoryError, LookupError, ValueError, EOFError,
                            ArithmeticError, csv.Error, pickle.UnpicklingError)) and not isinstance(exc, ImportError)


def _on_cpu_limit(signum, frame):
    raise CaseHang()


def run_case(exp, case, scratch, hang_limit=None):
    """Run one case. Returns (ctx, violation message or None); harness errors propagate."""
    ctx = Ctx(scratch)
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_PROF, hang_limit or CASE_CPU_LIMIT)
    try:
        exp.check(case, ctx)
        return ctx, None
    except PropertyViolation as e:
        return ctx, str(e)
    except Skip:
        raise
    except CaseHang:
        return ctx, 'HANG: the case did not finish within %d s of CPU time' % (hang_limit or CASE_CPU_LIMIT)
    except RecursionError as e:
        return ctx, 'unbounded recursion: %r' % (e,)
    except Exception as e:
        if blame(e) == 'repo':
            frames = [f for f in traceback.extract_tb(e.__traceback__)
                      if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
            where = '%s:%d in %s' % (os.path.relpath(frames[-1].filename, REPO), frames[-1].lineno, frames[-1].name)
            return ctx, 'unexpected %s: %s (%s)' % (type(e).__name__, str(e)[:300], where)
        if senseless(e):
            frame = traceback.extract_tb(e.__traceback__)[-1]
            return ctx, 'what the engine left cannot be made sense of: %s: %s (%s:%d)' % (
                type(e).__name__, str(e)[:300], os.path.basename(frame.filename), frame.lineno)
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(scratch)
        for d in os.listdir(scratch):
            if d.startswith('case-'):
                shutil.rmtree(os.path.join(scratch, d), ignore_errors=True)


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def digest(case):
    return hashlib.sha1(canonical(case).encode()).hexdigest()[:16]


def run_shard(mod, shard, shards, seed, tier, scratch, deadline, out_path):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, given
    import hypothesis.internal.conjecture.engine as engine
    if hasattr(engine, 'MAX_SHRINKING_SECONDS'):
        engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    report = {'experiments': {}, 'violation': None, 'error': None}
    devnull = open(os.devnull, 'w')
    real_stdout, real_stderr = sys.stdout, sys.stderr
    sys.stdout = devnull
    sys.stderr = devnull
    try:
        for e_index, exp in enumerate(mod.EXPERIMENTS):
            total = exp.quick if tier == 'quick' else exp.thorough
            count = total // shards + (1 if (shard + e_index) % shards < total % shards else 0)
            if count <= 0:
                continue
            st = {'evaluations': 0, 'labels': collections.Counter(), 'nontrivial': set(), 'samples': [],
                  'skipped': None, 'not_run': 0}
            failures = []

            def body(case):
                if time.time() > deadline:
                    st['not_run'] += 1
                    return
                ctx, message = run_case(exp, case, scratch)
                if message is None:
                    st['evaluations'] += 1
                    st['labels'].update(ctx.labels)
                    if ctx.is_nontrivial:
                        st['nontrivial'].add(digest(case))
                        if len(st['samples']) < 2 and len(canonical(case)) < 3000:
                            st['samples'].append({'case': case, 'labels': sorted(set(ctx.labels))})
                    return
                st['evaluations'] += 1
                failures.append((len(canonical(case)), case, message))
                if message.startswith('HANG'):
                    raise AbortSearch()
                raise PropertyViolation(message)

            test = given(exp.strategy())(body)
            test = settings(max_examples=count, database=None, deadline=None, print_blob=False,
                            report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                            phases=(Phase.generate, Phase.shrink))(test)
            test = hypothesis.seed(seed * 1000003 + shard * 101 + e_index)(test)
            try:
                test()
            except AbortSearch:
                pass
            except Skip as e:
                st['skipped'] = str(e)
            except BaseException as e:  # Flaky etc. count through the failures recorded above
                if not failures:
                    raise
            report['experiments'][exp.name] = {
                'evaluations': st['evaluations'], 'labels': dict(st['labels']),
                'nontrivial': sorted(st['nontrivial']), 'samples': st['samples'], 'skipped': st['skipped'],
                'not_run': st['not_run'],
            }
            if failures:
                _, case, message = min(failures, key=lambda f: f[0])
                report['violation'] = {'experiment': exp.name, 'case': case, 'message': message}
                break
    except BaseException as e:
        report['error'] = traceback.format_exc()
    finally:
        sys.stdout, sys.stderr = real_stdout, real_stderr
    with open(out_path + '.tmp', 'w') as f:
        json.dump(report, f, default=str)
    os.rename(out_path + '.tmp', out_path)


def load_module(prop):
    return importlib.import_module('harness.props.' + prop.lower())


def rm_tree(path):
    shutil.rmtree(path, ignore_errors=True)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--shards', type=int, default=None)
    ap.add_argument('--only', help='run only this experiment (development)')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args(argv)
    prop = args.property.upper()
    seed = args.seed
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED') or 1)
        except ValueError:
            seed = 1
    t0 = time.time()
    base = tempfile.mkdtemp(prefix='verif-%s-' % prop.lower())
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(base, 'hyp')
    os.environ['MPLCONFIGDIR'] = os.path.join(base, 'mpl')
    # the solver behind one of the metrics leaves its working directories among the temporary files
    os.makedirs(os.path.join(base, 'tmp'))
    os.environ['TMPDIR'] = tempfile.tempdir = os.path.join(base, 'tmp')
    os.environ['VERIF_PYCACHE'] = base
    main_pid = os.getpid()
    try:
        os.chdir(base)
        bootstrap()
        try:
            mod = load_module(prop)
        except ImportError:
            traceback.print_exc()
            print('ERROR: the engine or the harness could not be imported')
            return 2
        except Exception as e:
            traceback.print_exc()
            if blame(e) == 'repo':
                # the engine cannot even be imported
                print('ERROR: importing the engine failed')
            return 2
        if args.only:
            mod.EXPERIMENTS = [e for e in mod.EXPERIMENTS if e.name == args.only]
        if args.replay:
            return replay(mod, prop, args.replay, base)
        return explore(mod, prop, args, seed, base, t0)
    finally:
        if os.getpid() == main_pid:
            os.chdir('/')
            rm_tree(base)


def replay(mod, prop, path, base):
    if not os.path.isabs(path):
        path = os.path.join(VERIF, path)
    with open(path) as f:
        data = json.load(f)
    exp = next(e for e in mod.EXPERIMENTS if e.name == data['experiment'])
    scratch = os.path.join(base, 'replay')
    os.makedirs(scratch)
    os.chdir(scratch)
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    ctx, message = run_case(exp, data['case'], scratch)
    sys.stdout = out
    if message is None:
        print('replay: property %s held (labels: %s)' % (prop, sorted(set(ctx.labels))))
        return 0
    print('replay: %s' % message)
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def explore(mod, prop, args, seed, base, t0):
    tier = args.tier
    shards = args.shards or min(8, os.cpu_count() or 1)
    deadline = t0 + WALL_LIMIT[tier]
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for shard in range(shards):
        scratch = os.path.join(base, 'shard%d' % shard)
        os.makedirs(scratch)
        out_path = os.path.join(base, 'report%d.json' % shard)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.setpgid(0, 0)
                os.chdir(scratch)
                run_shard(mod, shard, shards, seed, tier, scratch, deadline, out_path)
                code = 0
            finally:
                os._exit(code)
        pids[pid] = shard
    hard_stop = deadline + 240
    reports = {}
    problems = []
    violation = None
    grace_end = None
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            if now > hard_stop or (grace_end is not None and now > grace_end):
                for p in list(pids):
                    kill_group(p)
                    try:
                        os.waitpid(p, 0)
                    except ChildProcessError:
                        pass
                    if grace_end is None:
                        problems.append('shard %d did not finish in time' % pids[p])
                pids.clear()
                break
            time.sleep(0.05)
            continue
        if pid not in pids:
            continue
        shard = pids.pop(pid)
        kill_group(pid)
        path = os.path.join(base, 'report%d.json' % shard)
        if not os.path.exists(path):
            problems.append('shard %d ended with status %d and left no report' % (shard, status))
            continue
        with open(path) as f:
            reports[shard] = json.load(f)
        if reports[shard]['violation'] is not None:
            if violation is None or len(canonical(reports[shard]['violation']['case'])) < len(
                    canonical(violation['case'])):
                violation = reports[shard]['violation']
            if grace_end is None:
                grace_end = time.time() + 10
        if reports[shard]['error'] is not None:
            problems.append('shard %d: %s' % (shard, reports[shard]['error']))

    per_exp = {}
    for rep in reports.values():
        for name, st in rep['experiments'].items():
            agg = per_exp.setdefault(name, {'evaluations': 0, 'labels': collections.Counter(), 'nontrivial': set(),
                                            'samples': [], 'skipped': None, 'not_run': 0})
            agg['evaluations'] += st['evaluations']
            agg['labels'].update(st['labels'])
            agg['nontrivial'].update(st['nontrivial'])
            agg['samples'].extend(st['samples'])
            agg['skipped'] = agg['skipped'] or st['skipped']
            agg['not_run'] += st['not_run']
    evaluations = sum(a['evaluations'] for a in per_exp.values())
    nontrivial = sum(len(a['nontrivial']) for a in per_exp.values())
    samples = []
    for name, agg in sorted(per_exp.items()):
        for s in agg['samples'][:2]:
            samples.append({'experiment': name, **s})
    coverage = {
        'evaluations': evaluations,
        'distinct_nontrivial': nontrivial,
        'rule': mod.RULE,
        'samples': samples[:8],
        'experiments': {
            name: {'evaluations': a['evaluations'], 'distinct_nontrivial': len(a['nontrivial']),
                   'labels': dict(a['labels'].most_common()), **({'skipped': a['skipped']} if a['skipped'] else {}),
                   **({'not_run_wall_limit': a['not_run']} if a['not_run'] else {})}
            for name, a in sorted(per_exp.items())},
        'shards': shards,
    }
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2),
        'violations': 0 if violation is None else 1,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    for name, a in sorted(per_exp.items()):
        print('%s/%s: %d cases, %d distinct non-trivial%s' % (
            prop, name, a['evaluations'], len(a['nontrivial']), ' (SKIPPED: %s)' % a['skipped'] if a['skipped'] else ''))
        if args.v:
            print('   ', dict(a['labels'].most_common(60)))
    if violation is not None:
        replay_dir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(replay_dir, exist_ok=True)
        replay_path = os.path.join(replay_dir, '%s-%s.json' % (prop, digest(violation['case'])))
        with open(replay_path, 'w') as f:
            json.dump({'property': prop, **violation}, f, indent=1)
        print('%s/%s: %s' % (prop, violation['experiment'], violation['message']))
        print('case: %s' % canonical(violation['case'])[:2000])
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(replay_path, VERIF)))
        return 1
    if problems:
        for p in problems:
            print('ERROR: %s' % p)
        return 2
    if evaluations == 0:
        print('ERROR: nothing was explored')
        return 2
    print('%s: held on %d cases (%d distinct non-trivial), %.1f s' % (prop, evaluations, nontrivial, time.time() - t0))
    return 0


def kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
