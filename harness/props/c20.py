"""Output files."""
import inspect
import math
import os
import statistics

from hypothesis import strategies as st

from harness import drive, gen, inv, metrics_ref, outputs
from harness.core import Experiment, require
from harness.props import c16

PROPERTY = 'C20'
RULE = ('long: as the rest, with hundreds of rounds of few stakeholders; large: as the rest, with 60 to 220 stakeholders and k up to 130; '
        'files: one generated simulation, run to its end, whose output folder and tracker row are compared with its '
        'parameters, its initial state and its final state. Non-trivial: pools were active in the end and somebody '
        'delegated. Distinct by case.')
ASSUMPTIONS = ['numbers are compared up to the documented-by-example rounding (15 decimals, 4 for the pledge fraction)',
               'if the limit of iterations is reached while the equilibrium of the previous phase lasts, it is left open whether that '
               'counts']


@st.composite
def cases(draw):
    cfg = draw(gen.configs(n_max=16, k_max=7, max_rounds=14, metrics=True, schemes=(0, 0, 1, 2, 3, 4)))
    if cfg['reward_scheme'] == 4:
        cfg['metrics'] = [m for m in cfg['metrics'] if m != 8] or [1]
    if draw(gen.weighted((True, 1), (False, 3))):
        del cfg['metrics']
        if cfg['reward_scheme'] != 4:
            cfg['metrics'] = None
    if draw(gen.weighted((True, 1), (False, 4))):
        cfg['agent_profile_distr'] = None
    if draw(gen.weighted((True, 1), (False, 4))):
        cfg['seed'] = None
    cfg['execution_id'] = draw(gen.mix((st.just('case'), 2), (st.just(''), 1),
                                       (st.text('abcXYZ019_.=+ -,', min_size=1, max_size=20), 3)))
    if draw(gen.weighted((False, 2), (True, 1))):
        # leave some parameters to their defaults
        for key in draw(st.lists(st.sampled_from(['a0', 'cost_min', 'extra_pool_cost_fraction', 'seed', 'reward_scheme',
                                                  'relative_utility_threshold', 'agent_activation_order']),
                                 unique=True, max_size=3)):
            if cfg['reward_scheme'] != 4:
                cfg.pop(key, None)
                if key == 'reward_scheme':
                    cfg['reward_scheme'] = 0
        if cfg.get('cost_min', 1e-5) > cfg['cost_max']:
            cfg['cost_max'] = 1e-5
    return cfg


def number(text, what):
    try:
        return float(text)
    except (TypeError, ValueError):
        require(False, '%s is %r, not a number', what, text)


def same_number(text, want, what, tol=2e-15):
    got = number(text, what)
    require(abs(got - want) <= tol + 1e-12 * abs(want), '%s is given as %r instead of %r', what, text, want)


def check_args(path, cfg, given):
    recorded = outputs.read_json(os.path.join(path, 'args.json'))
    for name, parameter in inspect.signature(drive.engine().Simulation.__init__).parameters.items():
        if name in ('self', 'input_from_file') or parameter.kind is not parameter.POSITIONAL_OR_KEYWORD:
            continue
        require(name in recorded, 'the argument file does not list %s', name)
        want = given.get(name, parameter.default)
        if name == 'metrics' and want is None:
            require(isinstance(recorded[name], list), 'metrics are recorded as %r', recorded[name])
        elif name == 'agent_profile_distr' and want is None:
            require(recorded[name] == [1, 0, 0], 'no profiles were given, but %r is recorded', recorded[name])
        elif name == 'parent_dir':
            continue
        else:
            require(outputs.same_value(recorded[name], want), 'the argument file has %s = %r instead of %r', name,
                    recorded[name], want)


def check_initial(path, seed, stakes, cost_efficient):
    d = outputs.read_json(os.path.join(path, 'initial-state-descriptors.json'))
    if seed is not None:
        require(d['Randomness seed'] == seed, 'seed %r is recorded as %r', seed, d['Randomness seed'])
    else:
        require(isinstance(d['Randomness seed'], int), 'the chosen seed is recorded as %r', d['Randomness seed'])
    for name, want in (('Active stake', math.fsum(stakes)), ('Max stake', max(stakes)), ('Min stake', min(stakes)),
                       ('Mean stake', math.fsum(stakes) / len(stakes)), ('Median stake', statistics.median(stakes)),
                       ('Standard deviation of stake', statistics.pstdev(stakes))):
        same_number(d[name], want, name, 1e-12)
    least, most = metrics_ref.nakamoto_bounds(stakes)
    require(least <= number(d['Nakamoto coefficient prior'], 'prior Nakamoto coefficient') <= most,
            'the prior Nakamoto coefficient of stakes %r is %r instead of %r', stakes, d['Nakamoto coefficient prior'],
            least)
    require(cost_efficient[0] <= number(d['Cost efficient agents'], 'number of cost efficient agents') <=
            cost_efficient[1], '%r cost efficient agents are recorded instead of %r', d['Cost efficient agents'],
            cost_efficient[0])


def cost_efficiency(sim):
    scheme = inv.scheme_of(sim)
    profits = [scheme.potential_profit(float(a.stake), float(a.cost)) for a in sim.schedule.agents]
    return sum(p > 1e-12 for p in profits), sum(p > -1e-12 for p in profits)


def check_pools(path, sim):
    header, rows = outputs.read_csv(outputs.the_file(path, 'final-state-pools', '.csv'))
    scheme = inv.scheme_of(sim)
    agents = drive.agents_of(sim)
    require(sorted(int(r['Pool id']) for r in rows) == sorted(sim.pools), 'pools %r are listed, but %r are active',
            sorted(r['Pool id'] for r in rows), sorted(sim.pools))
    for row in rows:
        pool = sim.pools[int(row['Pool id'])]
        what = 'of pool %s' % pool.id
        require(int(row['Owner id']) == pool.owner, 'the owner %s is given as %s instead of %s', what, row['Owner id'],
                pool.owner)
        owner = agents[pool.owner]
        pp = scheme.potential_profit(float(pool.pledge), float(pool.cost))
        for column, want in (('Owner stake', owner.stake), ('Pool Pledge', pool.pledge), ('Pool stake', pool.stake),
                             ('Owner cost', owner.cost), ('Pool cost', pool.cost), ('Pool margin', pool.margin),
                             ('Pool PP', pp), ('Pool desirability', max((1 - pool.margin) * pp, 0))):
            same_number(row[column], float(want), column + ' ' + what, 1e-12 if column in (
                'Pool PP', 'Pool desirability') else 2e-15)


def check_stakeholders(path, sim):
    header, rows = outputs.read_csv(outputs.the_file(path, 'final-state-stakeholders', '.csv'))
    scheme = inv.scheme_of(sim)
    agents = drive.agents_of(sim)
    require(sorted(int(r['Agent id']) for r in rows) == sorted(agents), 'stakeholders %r are listed instead of %r',
            [r['Agent id'] for r in rows], sorted(agents))
    for row in rows:
        agent = agents[int(row['Agent id'])]
        what = 'of stakeholder %s' % agent.unique_id
        pools = [p for p in sim.pools.values() if p.owner == agent.unique_id]
        role = 'Abstainer' if drive.profile_of(agent) == 'abstainer' else 'Operator' if pools else 'Delegator'
        require(row['Status'] == role, 'the status %s is given as %s instead of %s', what, row['Status'], role)
        require(number(row['Pools owned'], 'pools owned ' + what) == len(pools),
                'stakeholder %s operates %d pools, but %s are listed', agent.unique_id, len(pools), row['Pools owned'])
        a0, phi = scheme.a0, sim.extra_pool_cost_fraction
        splitting = (1 + a0) * (1 - phi) * float(agent.cost) - float(agent.stake) * a0
        for column, want, tol in (
                ('Initial stake', agent.stake, 2e-15), ('Cost', agent.cost, 2e-15),
                ('Potential Profit', scheme.potential_profit(float(agent.stake), float(agent.cost)), 1e-12),
                ('Total pool stake', math.fsum(float(p.stake) for p in pools), 1e-9),
                ('Pool splitting profit', splitting, 1e-12)):
            same_number(row[column], float(want), column + ' ' + what, tol)
        if abs(splitting) > 1e-12:
            require(row['Profitable pool splitter'] == ('YES' if splitting > 0 else 'NO'),
                    'pool splitting is worth %r to stakeholder %s, which is marked %s', splitting, agent.unique_id,
                    row['Profitable pool splitter'])


def check_final(path, sim, equilibrium):
    d = outputs.read_json(os.path.join(path, 'final-state-descriptors.json'))
    snap = metrics_ref.Snapshot(sim)
    metrics_ref.judge('Pool count', snap, d['Pool count'])
    metrics_ref.judge('Operator count', snap, d['Operator count'])
    metrics_ref.judge('Nakamoto coefficient', snap, number(d['Nakamoto coefficient'], 'Nakamoto coefficient'))
    require(abs(d['Total pledge fraction'] - math.fsum(snap.column('pledge'))) <= 5.1e-5,
            'the total pledge is given as %r instead of %r', d['Total pledge fraction'],
            math.fsum(snap.column('pledge')))
    if equilibrium is not None:
        require(d['Equilibrium reached'] == ('Yes' if equilibrium else 'No'),
                'the last %s, but "Equilibrium reached" is %r',
                'rounds were idle' if equilibrium else 'round that was allowed was reached', d['Equilibrium reached'])


def check_tracker(sim, name):
    header, rows = outputs.read_csv(os.path.join('output', 'experiment-tracker.csv'))
    require(len(rows) == 1, 'the tracker has %d rows after one run', len(rows))
    row = rows[0]
    snap = metrics_ref.Snapshot(sim)
    scheme = inv.scheme_of(sim)
    for column, want in (('id', sim.seq_id), ('n', snap.n), ('k', scheme.k), ('a0', scheme.a0),
                         ('phi', sim.extra_pool_cost_fraction), ('#pools', len(snap.pools)),
                         ('#operators', len(snap.per_operator()))):
        same_number(row[column], want, 'tracker column ' + column, 1e-12)
    metrics_ref.judge('Nakamoto coefficient', snap, number(row['nakamoto coeff'], 'Nakamoto coefficient'))
    require(row['activation order'] == sim.agent_activation_order, 'the tracker has activation order %r',
            row['activation order'])
    require(row['reward function'] == type(sim.reward_scheme).__name__, 'the tracker has reward function %r',
            row['reward function'])
    require(row['descriptor'] == name, 'the tracker has descriptor %r instead of %r', row['descriptor'], name)


class Idle(drive.Observer):
    """Counts the idle rounds at the end, from the moves that the agents make."""

    def __init__(self):
        self.streak, self.moved, self.in_phase, self.phase = 0, False, 0, None

    def before_round(self, sim):
        self.rounds, self.moved = sim.schedule.steps, False
        if self.phase != getattr(sim, 'current_phase', None):
            self.phase, self.in_phase = sim.current_phase, 0

    def before_advance(self, agent):
        if getattr(agent, 'new_strategy', None) is not None:
            self.moved = True

    def after_round(self, sim):
        if sim.schedule.steps > self.rounds:  # otherwise the last call only concluded the run
            self.streak = 0 if self.moved else self.streak + 1
            self.in_phase = 0 if self.moved else self.in_phase + 1


def check(cfg, ctx):
    ctx.fresh_dir()
    given = drive.sim_kwargs(cfg)
    given.setdefault('generate_graphs', False)
    given.setdefault('execution_id', 'case')
    if cfg.get('file_stakes') is not None:
        drive.write_stake_file(cfg['n'], cfg['file_stakes'])
    sim = drive.engine().Simulation(**given)
    stakes = [float(a.stake) for a in sim.schedule.agents]
    efficient = cost_efficiency(sim)
    idle = Idle()
    drive.run_rounds(sim, idle)
    path = outputs.folder(sim)
    check_args(path, cfg, given)
    check_initial(path, given.get('seed'), stakes, efficient)
    check_pools(path, sim)
    check_stakeholders(path, sim)
    window = given.get('iterations_after_convergence', 10)
    equilibrium = idle.streak >= window
    if any(isinstance(cfg.get(f), list) for f in c16.FIELDS):
        if equilibrium and idle.in_phase < window:
            equilibrium = None  # the limit was reached while the equilibrium of the previous phase lasted
        ctx.label('several phases')
    check_final(path, sim, equilibrium)
    name = sim.execution_id[len(str(sim.seq_id)) + 1:]
    if given['execution_id']:
        require(name == given['execution_id'], 'the execution called %r is named %r', given['execution_id'], name)
    check_tracker(sim, name)
    for f in ('metrics.csv', 'simulation-object.pkl'):
        require(os.path.getsize(os.path.join(path, f)) > 0, '%s is empty', f)
    delegations = any(p.delegators for p in sim.pools.values())
    ctx.label('order=' + sim.agent_activation_order, 'equilibrium' if equilibrium else 'no equilibrium',
              'private pools' if any(p.is_private for p in sim.pools.values()) else 'no private pools')
    ctx.nontrivial(bool(sim.pools) and delegations)


EXPERIMENTS = [
    Experiment('files', cases, check, 900, 25000),
    Experiment('long', lambda: gen.prolonged(cases()), check, 48, 1500),
    Experiment('large', lambda: gen.enlarged(cases()), check, 64, 1500),
]
