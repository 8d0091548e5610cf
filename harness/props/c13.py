"""Termination and equilibrium of single-phase runs."""
import contextlib
import io
import json
import os
import re
import sys

from hypothesis import strategies as st

from harness import drive, gen, histories
from harness.core import Experiment, Skip, require
from harness.decide import Plan, Situation

PROPERTY = 'C13'
RULE = ('one generated single-phase simulation, run to its end by steps or in one go; after an equilibrium every '
        'stakeholder is activated again; patterns: in place of what they plan, stakeholders move in exactly the '
        'rounds of a generated pattern; long: the same with hundreds of rounds; console: what main.py says about a run. Non-trivial: at least one move was made and more than 2 rounds passed. Distinct '
        'by case.')
ASSUMPTIONS = ['when activated again after an equilibrium, a move that gains less than 1e-10 (or 1e-9 relative) more than '
               'the thresholds require is attributed to floating point drift']


@st.composite
def cases(draw):
    cfg = draw(gen.configs(n_max=20, k_max=8, multi_phase=False))
    cfg['max_iterations'] = draw(gen.mix((st.integers(20, 60), 3), (st.integers(1, 12), 2)))
    cfg['iterations_after_convergence'] = draw(gen.mix((st.integers(1, 4), 3), (st.integers(1, 12), 1)))
    cfg['absolute_utility_threshold'] = draw(gen.mix((st.just(1e-9), 3), (gen.log_float(-6, -1), 3)))
    cfg['driver'] = {'how': draw(st.sampled_from(['step', 'run', 'mixed']))}
    return cfg


class Moves(drive.Observer):
    def __init__(self):
        self.rounds = []
        self.index = None

    def before_advance(self, agent):
        steps = agent.model.schedule.steps
        while len(self.rounds) <= steps:
            self.rounds.append(0)
        if agent.new_strategy is not None:
            self.rounds[steps] += 1


class Scripted(Moves):
    """in place of what they planned, stakeholders move in exactly the rounds of a pattern"""

    def __init__(self, pattern):
        super().__init__()
        self.pattern = pattern
        self.last = {}
        self.Strategy = drive.need('logic.strategy', 'Strategy')

    def before_advance(self, agent):
        sim = agent.model
        steps = sim.schedule.steps
        who = self.pattern[steps] if steps < len(self.pattern) else []
        agent.new_strategy = None
        if agent.unique_id in who and self.last.get(agent.unique_id) != steps:
            self.last[agent.unique_id] = steps
            if any(p.owner == agent.unique_id for p in sim.pools.values()):
                agent.new_strategy = self.Strategy()  # closes the pools
            else:
                if not hasattr(agent, 'find_operator_move'):
                    raise Skip('agents have no find_operator_move')
                agent.new_strategy = agent.find_operator_move(1, {}, [0.1])
        super().before_advance(agent)


@st.composite
def pattern_cases(draw):
    cfg = draw(gen.configs(n_min=2, n_max=6, k_max=4, multi_phase=False, schemes=(0, 0, 1, 2, 3),
                           profiles=st.sampled_from([[1, 0, 0], [1, 1, 0], [0, 1, 0]]), sources=('pareto', 'flat')))
    window = draw(st.integers(1, 12))
    cfg['iterations_after_convergence'] = window
    pattern = []
    for _ in range(draw(st.integers(1, 6))):
        pattern += [draw(st.lists(st.integers(0, cfg['n'] - 1), min_size=1, max_size=2, unique=True))
                    for _ in range(draw(st.integers(1, 3)))]
        # mostly as many idle rounds as possible without ending the run
        pattern += [[]] * draw(gen.mix((st.just(window - 1), 3), (st.integers(0, window - 1), 3)))
    if draw(gen.weighted((True, 3), (False, 1))):
        cfg['max_iterations'] = len(pattern) + window + draw(st.integers(0, 3))
    else:
        cfg['max_iterations'] = draw(st.integers(1, len(pattern) + window))
    cfg['driver'] = {'how': draw(st.sampled_from(['step', 'run', 'mixed'])), 'pattern': pattern}
    return cfg


@st.composite
def long_cases(draw):
    """hundreds of rounds"""
    cfg = draw(gen.configs(n_min=2, n_max=3, k_max=3, multi_phase=False, schemes=(0, 0, 1, 2, 3),
                           profiles=st.sampled_from([[1, 0, 0], [1, 1, 0], [0, 1, 0]]), sources=('pareto', 'flat')))
    window = draw(gen.mix((st.integers(90, 140), 2), (st.integers(240, 310), 1), (st.integers(10, 60), 1)))
    cfg['iterations_after_convergence'] = window
    pattern = []
    for _ in range(draw(st.integers(1, 3))):
        pattern += [[draw(st.integers(0, cfg['n'] - 1))] for _ in range(draw(st.integers(1, 2)))]
        pattern += [[]] * draw(gen.mix((st.just(window - 1), 3), (st.integers(0, window - 1), 2)))
    cfg['max_iterations'] = len(pattern) + window + draw(gen.mix((st.integers(-3, 2), 2), (st.integers(-len(pattern), 0), 1)))
    cfg['driver'] = {'how': draw(st.sampled_from(['step', 'run', 'mixed'])), 'pattern': pattern}
    return cfg


def check_pattern(cfg, ctx):
    check(cfg, ctx, Scripted(cfg['driver']['pattern']))


def check(cfg, ctx, obs=None):
    directory = ctx.fresh_dir()
    sim = drive.make_sim(cfg)
    scripted = obs is not None
    obs = obs or Moves()
    limit, window = cfg['max_iterations'], cfg['iterations_after_convergence']
    how = cfg['driver']['how']
    calls = 0
    with drive.observed(sim, obs):
        require(sim.running, 'the simulation is not running at the start')
        if how != 'run':
            while sim.running and not (how == 'mixed' and calls == 3):
                sim.step()
                calls += 1
                require(calls <= limit + 1, 'still running after %d rounds with max_iterations = %d', calls, limit)
        if sim.running:
            sim.run_model()
        require(not sim.running, 'the simulation did not stop at the end of run_model')
    rounds = sim.schedule.steps
    require(rounds == len(obs.rounds), 'the simulation counts %d rounds, but stakeholders were active in %d', rounds,
            len(obs.rounds))
    streak, converged, expected = 0, False, limit
    for i, moves in enumerate(obs.rounds):
        streak = 0 if moves else streak + 1
        if streak == window:
            converged, expected = True, i + 1
            break
    require(expected <= limit or rounds == limit, 'ran %d rounds, the limit is %d', rounds, limit)
    require(rounds == expected, 'stopped after %d rounds, but with moves %r per round, an idle window of %d and at most '
            '%d rounds it should stop after %d', rounds, obs.rounds, window, limit, expected)
    require(bool(sim.has_converged()) == converged, 'convergence is reported as %r, moves per round: %r, window %d',
            sim.has_converged(), obs.rounds, window)
    require(list(sim.equilibrium_steps) == ([rounds - 1 - window] if converged else []),
            'equilibrium reported at %r after %d rounds with moves %r and an idle window of %d', sim.equilibrium_steps,
            rounds, obs.rounds, window)
    path = os.path.join(directory, 'output', sim.execution_id, 'final-state-descriptors.json')
    with open(path) as f:
        told = json.load(f)['Equilibrium reached']
    require(told == ('Yes' if converged else 'No'), 'the final state description tells equilibrium: %r', told)
    ctx.label('converged' if converged else 'limit', 'how=' + how, 'window=%d' % min(window, 5))
    if converged and expected == limit:
        ctx.label('converged exactly at the limit')
    ctx.nontrivial(sum(obs.rounds) > 0 and rounds > 2)
    if not converged or scripted:
        if scripted:
            ctx.label('%d interrupted' % sum(1 for a, b in zip(obs.rounds, obs.rounds[1:]) if not a and b))
        return
    before = {pid: (p.owner, p.pledge, p.margin) for pid, p in sim.pools.items()}
    found = []

    class Again(drive.Observer):
        def before_step(self, agent):
            self.situation = None if drive.is_abstainer(agent) else Situation(sim, agent)

        def settle(self, agent):
            if agent.new_strategy is not None and self.situation is not None:
                s = self.situation
                plan = Plan(agent.new_strategy)
                bar, u = s.threshold(), s.expected_utility(list(plan.own.values()), plan.alloc)
                if u > bar + 1e-10 + 1e-9 * abs(bar):
                    found.append((agent.unique_id, u, bar))
                agent.new_strategy = None  # keep the state as it is for the others

        before_advance = settle
        after_step = settle

    with drive.observed(sim, Again()):
        for agent in list(sim.schedule.agents):
            agent.step()
    require(not found, 'equilibrium reported, but agent %r would move: it can get %r, its bar is %r', *(
        found[0] if found else (0, 0, 0)))
    require(before == {pid: (p.owner, p.pledge, p.margin) for pid, p in sim.pools.items()},
            'the pools changed after the equilibrium')


def command_line(cfg):
    argv = []
    for key, value in cfg.items():
        if key in drive.DRIVER_KEYS:
            continue
        if isinstance(value, bool):
            argv.append(('--' if value else '--no-') + key)
        elif value is not None:
            argv += ['--' + key] + [str(v) for v in (value if isinstance(value, list) else [value])]
    return argv


def check_console(cfg, ctx):
    """What main.py tells about the run, in comparison with the same run of its own."""
    main = drive.need('main', 'main')
    ctx.fresh_dir()
    sim = drive.make_sim(cfg)
    pools = []
    while sim.running:
        pools.append(len(sim.pools))
        sim.step()
    told = io.StringIO()
    profiled = cfg['driver']['how'] == 'mixed'
    argv = command_line(dict(cfg, generate_graphs=False)) + ['--profile_code'] * profiled
    old = sys.argv
    sys.argv = ['main.py'] + argv
    try:
        with contextlib.redirect_stdout(told):
            main()
    finally:
        sys.argv = old
    text = told.getvalue()
    what = 'main.py %s' % ' '.join(argv)
    converged = bool(sim.has_converged())
    yes = re.search(r'[Rr]eached equilibrium[^\n\d-]*([-\d, ]*)', text)
    require(bool(yes) == converged, '%s: the run converged: %r, but it is told: %.200s', what, converged, text[-200:])
    require(('without convergence' in text) == (not converged), '%s: the run converged: %r, but it is told: %.200s', what,
            converged, text[-200:])
    if converged:
        steps = [int(t) for t in re.findall(r'-?\d+', yes.group(1))]
        require(steps == list(sim.equilibrium_steps), '%s: equilibrium at %r, but told is %r', what, sim.equilibrium_steps,
                steps)
    rounds = [(int(a), int(b)) for a, b in re.findall(r'^Step (\d+): (\d+) pools', text, re.M)]
    if rounds:
        require(rounds == list(enumerate(pools)), '%s: the numbers of pools per round were %r, but told are %r', what, pools,
                rounds)
    require(('function calls' in text) == profiled, '%s: %s profiling results', what, 'no' if profiled else 'there are')
    ctx.label('converged' if converged else 'limit', *['profiled'] * profiled)
    ctx.nontrivial(len(pools) > 2 and max(pools) > 0)


EXPERIMENTS = [
    Experiment('console', cases, check_console, 160, 4000),
    Experiment('runs', cases, check, 1500, 40000),
    Experiment('long', long_cases, check_pattern, 100, 3000),
    Experiment('patterns', pattern_cases, check_pattern, 1200, 30000),
]
