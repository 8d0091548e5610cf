"""Saved simulation objects."""
import json
import os
import pickle
import subprocess
import sys

from hypothesis import strategies as st

from harness import core, drive, gen, inv, outputs
from harness.core import Experiment, require
from harness.props import c17

PROPERTY = 'C21'
RULE = ('long: as the rest, with hundreds of rounds of few stakeholders; large: as the rest, with 60 to 220 stakeholders and k up to 130; '
        'load: one generated simulation, run to its end, whose saved object is loaded in the same process and compared '
        'with it; elsewhere: the saved objects of several simulations are loaded in a new interpreter. Non-trivial: pools '
        'were active in the end. Distinct by case.')
ASSUMPTIONS = ['the random generator is compared as well; wall clock times are not']


def load(sim):
    path = os.path.join(outputs.folder(sim), 'simulation-object.pkl')
    with open(path, 'rb') as f:
        return pickle.load(f)


def rankings(sim):
    return [[None if p is None else p.id for p in r] for r in (sim.pool_rankings, sim.pool_rankings_myopic)]


PARAMETERS = ['n', 'max_iterations', 'extra_pool_cost_fraction', 'agent_activation_order', 'absolute_utility_threshold',
              'relative_utility_threshold', 'iterations_after_convergence', 'inactive_stake_fraction', 'running',
              'current_phase', 'consecutive_idle_steps', 'equilibrium_steps', 'pivot_steps', 'execution_id', 'seq_id',
              'total_stake', 'id_seq']


def describe(sim, names):
    """all that is compared, as plain data"""
    rs = sim.reward_scheme
    out = {
        'pools and stakeholders': drive.state_digest(sim),
        'potential profits': {p.id: (float(p.potential_profit), float(p.desirability)) for p in sim.pools.values()},
        'rankings': rankings(sim),
        'scheme': (type(rs).__name__, rs.k, rs.a0, rs.global_saturation_threshold,
                   getattr(rs, 'crossover_factor', None), getattr(rs, 'curve_root', None)),
        'rounds': sim.schedule.steps,
        'parameters': {name: drive.plain(getattr(sim, name)) for name in PARAMETERS if hasattr(sim, name)},
        'recorded series': {name: drive.plain(v) for name, v in sim.datacollector.model_vars.items()},
        'schedule': [a.unique_id for a in sim.schedule.agents],
        'random generator': sim.random.getstate(),
        'metrics': {name: drive.plain(c17.reporter(name)(sim)) for name in names},
    }
    return json.loads(json.dumps(out, default=repr))


def check_links(sim):
    """the parts of the loaded simulation refer to each other"""
    for p in list(sim.pool_rankings) + list(sim.pool_rankings_myopic):
        require(p is None or sim.pools.get(p.id) is p, 'a ranking of the loaded simulation lists pool %s, which is not the '
                'active pool', getattr(p, 'id', None))
    for agent in sim.schedule.agents:
        require(agent.model is sim, 'stakeholder %s of the loaded simulation belongs to another one', agent.unique_id)
        for pid, pool in inv.owned(agent).items():
            require(sim.pools.get(pid) is pool, 'stakeholder %s of the loaded simulation operates pool %s, which is not '
                    'the active pool', agent.unique_id, pid)
    require(sim.schedule.model is sim, 'the scheduler of the loaded simulation belongs to another one')


def metric_names(cfg):
    return [n for n in c17.DOCUMENTED if n != 'Min-aggregate pledge' and
            (n != 'Average saturation rate' or cfg['reward_scheme'] != 4)]


def compare(a, b):
    for key in a:
        require(outputs.same_value(a[key], b.get(key)), '%s of the loaded simulation differ: %.400r instead of %.400r',
                key, b.get(key), a[key])


@st.composite
def cases(draw, **kw):
    cfg = draw(gen.configs(n_max=18, k_max=8, max_rounds=10, metrics=True, **kw))
    if cfg['reward_scheme'] == 4:
        cfg['metrics'] = [m for m in cfg['metrics'] if m != 8] or [1]
    return cfg


def check_load(cfg, ctx):
    ctx.fresh_dir()
    sim = drive.make_sim(cfg)
    drive.run_rounds(sim)
    loaded = load(sim)
    require(type(loaded) is type(sim), 'the saved object is a %r', type(loaded))
    names = metric_names(cfg)
    compare(describe(sim, names), describe(loaded, names))
    check_links(loaded)
    inv.ledger(loaded, 'in the loaded simulation')
    # an object that was loaded can be saved again
    again = pickle.loads(pickle.dumps(loaded))
    compare(describe(sim, names), describe(again, names))
    # both continue in the same way
    for s in (sim, loaded):
        s.max_iterations = s.schedule.steps + 2
        s.running = True
        s.step()
    d = drive.difference(drive.state_digest(sim), drive.state_digest(loaded))
    require(d is None, 'the loaded simulation continues differently: %s', d)
    ctx.label('scheme=%d' % cfg['reward_scheme'], 'order=' + cfg['agent_activation_order'])
    ctx.nontrivial(bool(sim.pools))


CHILD = r'''
import json, os, pickle, sys
verif, repo, names = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
sys.path.insert(0, repo); sys.path.append(verif); sys.path.append(sys.argv[5])
out = []
for name in names:
    with open(name, 'rb') as f:
        out.append(pickle.load(f))
from harness.props import c21
result = []
for sim, metrics in zip(out, json.loads(sys.argv[4])):
    c21.check_links(sim)
    result.append(c21.describe(sim, metrics))
with open('answer.json', 'w') as f:
    json.dump(result, f)
'''


def elsewhere_cases():
    return st.lists(cases(), min_size=2, max_size=4)


def check_elsewhere(case, ctx):
    ctx.fresh_dir()
    want, files, metrics = [], [], []
    for cfg in case:
        sim = drive.make_sim(cfg)
        drive.run_rounds(sim)
        names = metric_names(cfg)
        want.append(describe(sim, names))
        files.append(os.path.join(outputs.folder(sim), 'simulation-object.pkl'))
        metrics.append(names)
        ctx.nontrivial(bool(sim.pools))
    result = subprocess.run([sys.executable, '-B', '-c', CHILD, core.VERIF, core.REPO, json.dumps(files),
                             json.dumps(metrics), core.HYPOTHESIS_SITE], capture_output=True, text=True, timeout=300)
    require(result.returncode == 0, 'a saved simulation cannot be used in another process: %s', result.stderr[-600:])
    with open('answer.json') as f:
        answers = json.load(f)
    for a, b in zip(want, answers):
        compare(a, b)


EXPERIMENTS = [
    Experiment('load', cases, check_load, 500, 15000),
    Experiment('elsewhere', elsewhere_cases, check_elsewhere, 32, 800),
    Experiment('long', lambda: gen.prolonged(cases()), check_load, 40, 1000),
    Experiment('large', lambda: gen.enlarged(cases()), check_load, 48, 1000),
]
