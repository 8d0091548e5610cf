"""Shared experiments over simulation histories.

engine_history: the engine's own dynamics; a check is made after every move of every agent and after every round.
scripted_history: arbitrary admissible strategies are staged and executed, one at a time or in simultaneous groups.
"""
from hypothesis import strategies as st

from harness import gen, inv, drive
from harness.core import Experiment, Skip, require


class History:
    """What an invariant check sees; subclasses override on_*."""

    def start(self, sim, cfg): pass

    def on_state(self, sim, when): pass

    def on_move(self, sim, agent, when): pass

    def on_round(self, sim, when): pass

    def new_group(self, sim): pass

    def end(self, sim, ctx): pass


def _classify(sim, ctx, stats, cfg):
    order = cfg['agent_activation_order']
    ctx.label('order=' + order)
    if stats['moves']:
        ctx.label('has moves')
    if stats['multi']:
        ctx.label('multi-pool operators')
    if stats['delegations']:
        ctx.label('has delegations')
    if stats['closed']:
        ctx.label('pools closed')
    if stats['closed_delegated']:
        ctx.label('delegated pool closed')
    if stats['updated']:
        ctx.label('pools updated')
    if stats['private']:
        ctx.label('private pools')
    if getattr(sim, 'current_phase', 0) > 0:
        ctx.label('phase change')
    ctx.nontrivial(stats['moves'] >= 3 and stats['delegations'] > 0)


class _Observer(drive.Observer):
    def __init__(self, sim, history, stats, every=1):
        self.sim, self.history, self.stats, self.every = sim, history, stats, every
        self.moving = {}
        self.round = 0

    def before_round(self, sim):
        self.history.new_group(sim)

    def before_advance(self, agent):
        moving = getattr(agent, 'new_strategy', None) is not None
        self.moving[agent.unique_id] = moving
        if moving:
            self.before = {pid: (p.pledge, p.margin, bool(p.delegators)) for pid, p in self.sim.pools.items()}

    def after_advance(self, agent):
        when = 'round %d, after the move of agent %s' % (self.round, agent.unique_id)
        if self.moving.get(agent.unique_id):
            s = self.stats
            s['moves'] += 1
            now = self.sim.pools
            gone = [pid for pid in self.before if pid not in now]
            s['closed'] += len(gone)
            s['closed_delegated'] += sum(1 for pid in gone if self.before[pid][2])
            s['updated'] += sum(1 for pid in self.before
                                if pid in now and self.before[pid][:2] != (now[pid].pledge, now[pid].margin))
            own = sum(1 for p in now.values() if p.owner == agent.unique_id)
            s['multi'] += own > 1
            s['private'] += any(p.is_private for p in now.values())
            s['delegations'] += sum(len(p.delegators) for p in now.values())
            self.history.on_move(self.sim, agent, when)
            if s['moves'] % (self.every if len(now) < 500 else 25 * self.every) == 0:
                self.history.on_state(self.sim, when)

    def after_round(self, sim):
        self.history.on_state(sim, 'after round %d' % self.round)
        self.history.on_round(sim, 'after round %d' % self.round)
        self.round += 1


def new_stats():
    return dict(moves=0, multi=0, delegations=0, closed=0, closed_delegated=0, updated=0, private=0)


@st.composite
def engine_cases(draw, **kw):
    cfg = draw(gen.configs(**kw))
    cfg['driver'] = {'prefix_steps': draw(gen.weighted((0, 4), (1, 1), (2, 1)))}
    return cfg


@st.composite
def large_cases(draw, every=(7, 13), **kw):
    cfg = draw(gen.large_configs(**kw))
    cfg['driver'] = {'prefix_steps': draw(gen.weighted((0, 4), (1, 1))), 'every': draw(st.integers(*every))}
    return cfg


def large_experiment(name, history_factory, quick, thorough=None, **gen_kw):
    """simulations of a realistic size; not every move is followed by a check of the whole state"""
    experiment = engine_experiment(name, history_factory, quick, thorough)
    return Experiment(name, lambda: large_cases(**gen_kw), experiment.check, quick, thorough)


def engine_experiment(name, history_factory, quick, thorough=None, **gen_kw):
    def check(cfg, ctx):
        ctx.fresh_dir()
        sim = drive.make_sim(cfg)
        history = history_factory()
        stats = new_stats()
        history.start(sim, cfg)
        history.on_state(sim, 'initially')
        obs = _Observer(sim, history, stats, cfg['driver'].get('every', 1))
        with drive.observed(sim, obs):
            for _ in range(cfg['driver']['prefix_steps']):
                if sim.running:
                    obs.before_round(sim)
                    sim.step()
                    obs.after_round(sim)
            if cfg['driver']['prefix_steps'] and sim.running:
                history.new_group(sim)
                sim.run_model()
                obs.after_round(sim)
            else:
                while sim.running:
                    obs.before_round(sim)
                    sim.step()
                    obs.after_round(sim)
                    require(obs.round < 300, 'the simulation did not stop')
        history.end(sim, ctx)
        _classify(sim, ctx, stats, cfg)

    return Experiment(name, lambda: engine_cases(**gen_kw), check, quick, thorough)


# ------------------------------------------------------------------------------------------------ scripted histories
@st.composite
def scripts(draw, orders=('simultaneous', 'sequential', 'semisimultaneous')):
    cfg = draw(gen.configs(n_min=3, n_max=8, k_max=5, multi_phase=False, orders=orders, schemes=(0, 0, 1, 2, 3, 4),
                           profiles=st.sampled_from([[1, 0, 0], [1, 1, 0], [0, 1, 0], [2, 2, 1]]),
                           sources=('pareto', 'flat', 'file')))
    n = cfg['n']
    if draw(gen.weighted((False, 3), (True, 1))):
        # additional pools cost as much as the first one, or nobody has any costs
        cfg['extra_pool_cost_fraction'] = 1
        if draw(st.booleans()):
            cfg['cost_min'] = cfg['cost_max'] = 0
    op = st.one_of(
        st.fixed_dictionaries({'op': st.just('operate'), 't': st.integers(1, 4), 'margin': gen.dec(0, 1, 1),
                               'deltas': st.lists(gen.dec(0, 0.2, 2), max_size=2)}),
        st.fixed_dictionaries({'op': st.just('delegate'),
                               'shares': st.lists(st.tuples(st.integers(0, 9), st.integers(1, 5)), min_size=1,
                                                  max_size=3)}),
        st.fixed_dictionaries({'op': st.just('delegate'),
                               'shares': st.lists(st.tuples(st.integers(0, 9), st.integers(1, 5)), min_size=1,
                                                  max_size=3)}),
        st.fixed_dictionaries({'op': st.just('idle')}),
        st.fixed_dictionaries({'op': st.just('withdraw')}),
    )
    move = st.tuples(st.integers(0, n - 1), op)
    group = st.lists(move, min_size=1, max_size=1) if cfg['agent_activation_order'] == 'sequential' else \
        st.lists(move, min_size=1, max_size=min(n, 5), unique_by=lambda m: m[0])
    # start with some operators, so that there is something to delegate to
    opening = [[[i, {'op': 'operate', 't': draw(st.integers(1, 4)), 'margin': draw(gen.dec(0, 1, 1)), 'deltas': []}]]
               for i in range(draw(st.integers(0, 3)))]
    cfg['driver'] = {'script': opening + [[list(m) for m in g] for g in draw(st.lists(group, min_size=3,
                                                                                      max_size=25))]}
    return cfg


def _stage(sim, agent, op, Strategy):
    """The strategy that an operation describes, planned in the current state (None: no move)."""
    if op['op'] == 'idle':
        return None
    if op['op'] == 'withdraw':
        return Strategy()
    if op['op'] == 'operate':
        t = op['t']
        keep = agent.determine_pools_to_keep(t)
        margins = [min(1, max(0, op['margin'] + d)) for d in ([0] + op['deltas'] + [0] * t)[:t]]
        return agent.find_operator_move(t, keep, margins)
    eligible = [p for p in sorted(sim.pools.values(), key=lambda p: p.id)
                if p.owner != agent.unique_id and not p.is_private]
    if not eligible or agent.stake <= 0:  # there is nothing to delegate
        return None
    total = sum(w for _, w in op['shares']) + 1
    alloc = {}
    for index, weight in op['shares']:
        pool = eligible[index % len(eligible)]
        alloc[pool.id] = alloc.get(pool.id, 0.0) + agent.stake * weight / total
    return Strategy(stake_allocations=alloc)


def scripted_experiment(name, history_factory, quick, thorough=None):
    def check(cfg, ctx):
        ctx.fresh_dir()
        Strategy = drive.need('logic.strategy', 'Strategy')
        sim = drive.make_sim(cfg)
        agents = drive.agents_of(sim)
        for m in ('determine_pools_to_keep', 'find_operator_move', 'advance'):
            if not all(hasattr(a, m) for a in agents.values()):
                raise Skip('agents have no ' + m)
        history = history_factory()
        stats = new_stats()
        history.start(sim, cfg)
        obs = _Observer(sim, history, stats)
        for g, group in enumerate(cfg['driver']['script']):
            obs.round = g
            history.new_group(sim)
            staged = []
            for agent_id, op in group:
                agent = agents[agent_id]
                if drive.is_abstainer(agent):
                    continue
                agent.new_strategy = _stage(sim, agent, op, Strategy)
                staged.append(agent)
            history.on_state(sim, 'group %d, planned' % g)
            for agent in staged:
                obs.before_advance(agent)
                agent.advance()
                obs.after_advance(agent)
            history.on_round(sim, 'after group %d' % g)
            if len(staged) > 1:
                ctx.label('simultaneous group')
        history.end(sim, ctx)
        _classify(sim, ctx, stats, cfg)

    return Experiment(name, scripts, check, quick, thorough)


HISTORY_RULE = (
    'engine: a simulation configuration (agents, k, a0, scheme, stake source, costs, profiles, thresholds, activation '
    'order, phases, seed) is generated and run round by round, checking after every move and every round; scripted: '
    'sequences of generated admissible strategies (operate t pools, delegate, withdraw) are staged and executed singly '
    'or in simultaneous groups; large: as engine, with 60 to 220 stakeholders and k up to 130, checking after every round '
    'and after one of about ten moves. Non-trivial: at least 3 strategy changes were executed and at least one delegation '
    'existed. Distinct by case.')
