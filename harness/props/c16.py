"""Phases."""
from hypothesis import strategies as st

from harness import drive, gen, inv, refs
from harness.core import Experiment, require

PROPERTY = 'C16'
RULE = ('phases: one generated simulation with lists of parameter values, whose parameters, valuations, rankings and '
        'state are checked every round; first: the same simulation compared with the one that has only the first values. '
        'Non-trivial: at least one change of phase with active pools. Distinct by case.')
ASSUMPTIONS = ['how many idle rounds a later phase needs is not judged, only that its last round was idle']

FIELDS = ['k', 'a0', 'extra_pool_cost_fraction', 'absolute_utility_threshold', 'relative_utility_threshold']


@st.composite
def cases(draw):
    cfg = draw(gen.configs(n_min=2, n_max=14, k_max=8, multi_phase=False, small_bias=True))
    values = {
        'k': st.integers(1, 9),
        'a0': gen.dec(0.1, 3, 1) if cfg['reward_scheme'] != 4 else gen.dec(1, 30, 0),
        'extra_pool_cost_fraction': gen.dec(0, 1.2, 2),
        'absolute_utility_threshold': st.sampled_from([1e-9, 1e-5, 1e-3]),
        'relative_utility_threshold': st.sampled_from([0, 0.01, 0.2]),
    }
    chosen = draw(st.lists(st.sampled_from(['k', 'k', 'a0', 'a0'] + FIELDS[2:]), min_size=1, max_size=3, unique=True))
    for field in chosen:
        cfg[field] = draw(st.lists(values[field], min_size=1 if len(chosen) > 1 else 2, max_size=4))
    if all(len(cfg[f]) < 2 for f in chosen):
        cfg[chosen[0]] = draw(st.lists(values[chosen[0]], min_size=2, max_size=4))
    if 'absolute_utility_threshold' not in chosen:
        cfg['absolute_utility_threshold'] = draw(st.sampled_from([1e-9, 1e-6, 1e-4, 1e-3]))
    cfg['iterations_after_convergence'] = draw(st.integers(1, 3))
    cfg['max_iterations'] = draw(gen.mix((st.just(60), 5), (st.integers(3, 20), 1)))
    return cfg


def value_at(cfg, field, phase):
    v = cfg[field]
    return v[min(phase, len(v) - 1)] if isinstance(v, list) else v


def total_phases(cfg):
    return max(len(cfg[f]) if isinstance(cfg[f], list) else 1 for f in FIELDS)


def expected_scheme(sim, cfg, phase):
    k = value_at(cfg, 'k', phase)
    if cfg.get('inactive_stake_fraction_known'):
        k = k / (1 - cfg['inactive_stake_fraction'])
    rs = sim.reward_scheme
    return refs.Scheme(cfg['reward_scheme'], int(k), value_at(cfg, 'a0', phase), 1 / k,
                       getattr(rs, 'crossover_factor', 8), getattr(rs, 'curve_root', 3))


def check_parameters(sim, cfg, phase, when):
    sch = expected_scheme(sim, cfg, phase)
    rs = sim.reward_scheme
    require(rs.k == sch.k and abs(rs.a0 - sch.a0) <= 1e-12, '%s: k = %r and a0 = %r are in force, expected %r and %r', when,
            rs.k, rs.a0, sch.k, sch.a0)
    require(abs(rs.global_saturation_threshold - sch.z0) <= 1e-12, '%s: the saturation point is %r instead of %r', when,
            rs.global_saturation_threshold, sch.z0)
    for field in FIELDS[2:]:
        require(getattr(sim, field) == value_at(cfg, field, phase), '%s: %s is %r instead of %r', when, field,
                getattr(sim, field), value_at(cfg, field, phase))
    for p, s in ((0, 0.5), (0.3, 0.9), (0.6, 2)):
        got = rs.calculate_pool_reward(pool_pledge=p * sch.z0, pool_stake=s * sch.z0)
        require(abs(got - sch.reward(p * sch.z0, s * sch.z0)) <= 1e-10,
                '%s: a pool with pledge %r and stake %r is paid %r instead of %r', when, p * sch.z0, s * sch.z0, got,
                sch.reward(p * sch.z0, s * sch.z0))
        sat = rs.get_pool_saturation_threshold(p * sch.z0)
        require(abs(sat - sch.saturation(p * sch.z0)) <= 1e-12, '%s: a pool with pledge %r has saturation point %r', when,
                p * sch.z0, sat)


def close_states(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close_states(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-12
    return a == b


def check(cfg, ctx):
    ctx.fresh_dir()
    sim = drive.make_sim(cfg)
    total = total_phases(cfg)
    window = cfg['iterations_after_convergence']
    moves = []

    class Moves(drive.Observer):
        def before_advance(self, agent):
            if agent.new_strategy is not None:
                moves[-1] += 1

    phase, changes, with_pools = 0, [], 0
    check_parameters(sim, cfg, 0, 'initially')
    require(sim.current_phase == 0, 'the simulation starts in phase %d', sim.current_phase)
    with drive.observed(sim, Moves()):
        while sim.running:
            before = drive.state_digest(sim)
            moves.append(0)
            rounds = sim.schedule.steps
            sim.step()
            if sim.schedule.steps == rounds:
                moves.pop()  # the limit was reached, nothing happened
            when = 'after round %d' % (sim.schedule.steps - 1)
            require(sim.current_phase in (phase, phase + 1), '%s: phase %d follows phase %d', when, sim.current_phase,
                    phase)
            changed = sim.current_phase > phase
            streak = 0
            for m in reversed(moves):
                if m:
                    break
                streak += 1
            if phase == 0:
                due = streak == window and total > 1
                require(changed == due, '%s: %s from the first phase, with moves %r and an idle window of %d', when,
                        'a change' if changed else 'no change', moves, window)
            if changed:
                phase += 1
                changes.append(sim.schedule.steps)
                require(moves[-1] == 0, '%s: the phase changes although stakeholders moved (%r)', when, moves)
                with_pools += bool(sim.pools)
                require(close_states(before, drive.state_digest(sim)), '%s: the change of phase changes the state: %s',
                        when, drive.difference(before, drive.state_digest(sim)))
            else:
                require(streak < window or not sim.running, '%s: %d idle rounds with a window of %d, and no change', when,
                        streak, window)
            check_parameters(sim, cfg, phase, when)
            inv.rankings(sim, when)
            inv.derived(sim, when)
            require(sim.schedule.steps <= cfg['max_iterations'], '%s: the limit is %d', when, cfg['max_iterations'])
    require(phase <= total - 1, 'phase %d of %d', phase + 1, total)
    require(list(sim.pivot_steps) == changes, 'changes of parameters recorded at %r, they happened at %r',
            sim.pivot_steps, changes)
    if sim.schedule.steps < cfg['max_iterations']:
        require(phase == total - 1, 'the run ended after %d rounds in phase %d of %d', sim.schedule.steps, phase + 1,
                total)
        require(len(sim.equilibrium_steps) == total, 'a complete run of %d phases has equilibria at %r', total,
                sim.equilibrium_steps)
    require(len(sim.equilibrium_steps) in (len(changes), len(changes) + 1), '%d changes of phase but equilibria at %r',
            len(changes), sim.equilibrium_steps)
    if changes:
        require(sim.equilibrium_steps[0] == changes[0] - 1 - window, 'the first phase ended after round %d, the '
                'equilibrium is dated %r', changes[0] - 1, sim.equilibrium_steps[0])
        require(list(sim.equilibrium_steps) == sorted(sim.equilibrium_steps), 'equilibria at %r', sim.equilibrium_steps)
    for field in FIELDS:
        if isinstance(cfg[field], list) and len(cfg[field]) > 1 and phase:
            ctx.label('changed ' + field)
    if cfg.get('inactive_stake_fraction_known') and phase and isinstance(cfg['k'], list):
        ctx.label('known inactive stake')
    ctx.label('phases=%d' % (phase + 1), 'complete' if phase == total - 1 else 'incomplete')
    ctx.nontrivial(with_pools > 0)


def check_first(cfg, ctx):
    """up to the change, a simulation with phases is the same as one with the first values only"""
    ctx.fresh_dir()
    sim = drive.make_sim(cfg, execution_id='phases')
    states = drive.course(sim)
    first = dict(cfg)
    for field in FIELDS:
        first[field] = value_at(cfg, field, 0)
    single = drive.make_sim(first, execution_id='single')
    others = drive.course(single)
    n = sim.pivot_steps[0] + 1 if sim.pivot_steps else len(states)
    drive.require_same_course(states[:n], others[:n], 'the first phase of a simulation and the simulation without phases')
    if sim.pivot_steps:
        require(len(others) == n and single.equilibrium_steps == sim.equilibrium_steps[:1],
                'the simulation without phases ends after %d rounds at %r, the first phase after %d rounds at %r',
                len(others) - 1, single.equilibrium_steps, n - 1, sim.equilibrium_steps[:1])
    # a list with one value means the same as this value
    wrapped = dict(first)
    for field in FIELDS:
        wrapped[field] = [first[field]]
    drive.require_same_course(others, drive.course(drive.make_sim(wrapped, execution_id='wrapped')),
                              'the simulation with single values and with lists of one value')
    ctx.nontrivial(bool(sim.pivot_steps) and bool(states[n - 1][0]))


EXPERIMENTS = [
    Experiment('phases', cases, check, 1200, 30000),
    Experiment('first', cases, check_first, 300, 8000),
]
