"""Driving the engine: building simulations from case dictionaries and observing every move of every agent."""
import contextlib
import csv
import importlib
import os
import sys

from harness.core import Skip, PropertyViolation, require  # noqa: F401

TOL = 1e-9
csv.field_size_limit(10 ** 9)  # some cells describe thousands of pools


def engine():
    return importlib.import_module('logic.sim')


def need(module_name, *names):
    """Fetch entry points of the engine; an entry point that is gone skips the experiment."""
    engine()  # the modules of the engine import each other; this order always works
    try:
        module = importlib.import_module(module_name)
    except ImportError as e:
        raise Skip('%s: %s' % (module_name, e))
    except SystemExit:
        raise PropertyViolation('importing %s ends the program' % module_name)
    out = []
    for name in names:
        if not hasattr(module, name):
            raise Skip('%s has no %s' % (module_name, name))
        out.append(getattr(module, name))
    return out[0] if len(out) == 1 else out


def write_stake_file(n, stakes, per_line=1):
    with open('synthetic-stake-distribution-%d-agents.csv' % n, 'w') as f:
        for i in range(0, len(stakes), per_line):
            f.write(','.join(repr(float(s)) for s in stakes[i:i + per_line]) + '\n')


DRIVER_KEYS = ('file_stakes', 'driver')


def sim_kwargs(cfg):
    return {key: value for key, value in cfg.items() if key not in DRIVER_KEYS}


def make_sim(cfg, **extra):
    """Build a simulation in the current directory."""
    if cfg.get('file_stakes') is not None:
        write_stake_file(cfg['n'], cfg['file_stakes'])
    kwargs = sim_kwargs(cfg)
    kwargs.setdefault('generate_graphs', False)
    kwargs.setdefault('execution_id', 'case')
    kwargs.setdefault('metrics', [1])
    kwargs.update(extra)
    return engine().Simulation(**kwargs)


class Observer:
    """Override what is needed. 'agent' is the agent about to act / that has acted."""

    def before_step(self, agent): pass

    def after_step(self, agent): pass

    def before_advance(self, agent): pass

    def after_advance(self, agent): pass

    def before_round(self, sim): pass

    def after_round(self, sim): pass


@contextlib.contextmanager
def observed(sim, observer):
    """Wrap step() and advance() of every agent class for the duration of the context (class level, so that agents
    stay picklable); nested super() calls are reported once."""
    originals = []
    depth = {}

    def wrap(cls, name, before, after):
        original = getattr(cls, name)
        had_own = name in vars(cls)

        def wrapper(agent, *args, **kwargs):
            if agent.model is not sim:
                return original(agent, *args, **kwargs)
            key = (id(agent), name)
            if depth.get(key):
                return original(agent, *args, **kwargs)
            depth[key] = True
            try:
                before(agent)
                result = original(agent, *args, **kwargs)
                after(agent)
            finally:
                depth[key] = False
            return result

        originals.append((cls, name, vars(cls).get(name), had_own))
        setattr(cls, name, wrapper)

    classes = []
    for agent in sim.schedule.agents:
        if type(agent) not in classes:
            classes.append(type(agent))
    try:
        for cls in classes:
            wrap(cls, 'step', observer.before_step, observer.after_step)
            wrap(cls, 'advance', observer.before_advance, observer.after_advance)
        yield
    finally:
        for cls, name, value, had_own in reversed(originals):
            if had_own:
                setattr(cls, name, value)
            else:
                delattr(cls, name)


def longest(sim, limit):
    """The number of rounds after which a simulation counts as one that does not stop."""
    most = getattr(sim, 'max_iterations', 0)
    return max(limit, most + 50) if isinstance(most, (int, float)) and most == most else limit


def run_rounds(sim, observer=None, limit=200):
    """Step the simulation until it stops; returns the number of rounds of agent activity."""
    observer = observer or Observer()
    calls = 0
    limit = longest(sim, limit)
    with observed(sim, observer):
        while sim.running:
            observer.before_round(sim)
            sim.step()
            observer.after_round(sim)
            calls += 1
            require(calls <= limit, 'the simulation did not stop after %d calls of step()', calls)
    return calls


def agents_of(sim):
    return {a.unique_id: a for a in sim.schedule.agents}


def is_abstainer(agent):
    return agent.strategy is None


def profile_of(agent):
    if hasattr(type(agent), 'reference_profile'):
        return type(agent).reference_profile  # a profile of the harness
    names = [c.__name__ for c in type(agent).__mro__]
    if 'NonMyopicStakeholder' in names:
        return 'nonmyopic'
    if 'MyopicStakeholder' in names:
        return 'myopic'
    return 'abstainer'


def close(a, b, tol=TOL):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def state_digest(sim):
    """Everything that makes up the state, exactly (as nested tuples of plain numbers)."""
    pools = tuple((pid, p.owner, float(p.stake), float(p.pledge), float(p.margin), float(p.cost), bool(p.is_private),
                   tuple(sorted((d, float(a)) for d, a in p.delegators.items())))
                  for pid, p in sorted(sim.pools.items()))
    agents = tuple((a.unique_id, profile_of(a), float(a.stake), float(a.cost),
                    () if a.strategy is None else tuple(sorted((pid, float(x)) for pid, x in
                                                               (a.strategy.stake_allocations or {}).items())),
                    () if a.strategy is None else tuple(sorted(a.strategy.owned_pools)))
                   for a in sorted(sim.schedule.agents, key=lambda a: a.unique_id))
    return pools, agents


def difference(a, b, path=''):
    """the first place where two nested tuples differ"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return '%s: %d versus %d entries: %.150r / %.150r' % (path, len(a), len(b), a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, '%s/%d' % (path, i))
            if d:
                return d
        return None
    if a != b and not (a != a and b != b):
        return '%s: %r versus %r' % (path, a, b)
    return None


def course(sim, limit=300, between=None):
    """Run a simulation to its end; the list of its states, one per round."""
    states = [state_digest(sim)]
    limit = longest(sim, limit)
    while sim.running:
        sim.step()
        states.append(state_digest(sim))
        if between is not None:
            between(sim)
        require(len(states) <= limit, 'the simulation did not stop after %d rounds', limit)
    return states


def require_same_course(a, b, message, *args):
    what = message % args if args else message
    for i, (x, y) in enumerate(zip(a, b)):
        d = difference(x, y)
        require(d is None, '%s: states after round %d differ at %s', what, i, d)
    require(len(a) == len(b), '%s: %d versus %d rounds', what, len(a) - 1, len(b) - 1)


def outcome(sim):
    """recorded series and equilibrium of a finished simulation"""
    series = tuple((name, tuple(repr(plain(v)) for v in values)) for name, values in
                   sorted(sim.datacollector.model_vars.items()))
    return series, tuple(sim.equilibrium_steps), tuple(sim.pivot_steps)


def plain(v):
    if hasattr(v, 'item') and getattr(v, 'shape', None) == ():
        return v.item()
    if isinstance(v, dict):
        return {key: plain(x) for key, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v
