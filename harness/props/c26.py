"""Unit invariance and other things that must not influence a simulation."""
from hypothesis import strategies as st

from harness import drive, gen
from harness.core import Experiment, require

PROPERTY = 'C26'
RULE = ('units: one generated simulation with a stake file, run in two units of stake; course: one generated simulation '
        'run in one go and stepped manually under another name, with metrics evaluated in between. Non-trivial: pools '
        'were opened and more than 3 rounds passed. Distinct by case.')
ASSUMPTIONS = ['states are compared exactly; files whose values add up to one in one of the units are left out, as '
               'stakes are then used as they are']


@st.composite
def unit_cases(draw):
    return {'cfg': draw(gen.configs(n_max=16, k_max=6, max_rounds=10, sources=('file',))),
            'unit': draw(gen.mix((st.integers(-30, 30).filter(bool), 3), (st.integers(-120, 120).filter(bool), 1)))}


def check_units(case, ctx):
    ctx.fresh_dir()
    cfg = case['cfg']
    scaled = dict(cfg, file_stakes=[s * 2.0 ** case['unit'] for s in cfg['file_stakes']])
    for c in (cfg, scaled):
        total = sum(c['file_stakes'])
        if abs(total / (1 - cfg.get('inactive_stake_fraction', 0)) - 1) < 1e-9:
            ctx.label('adds up to one')
            return
    a = drive.course(drive.make_sim(cfg, execution_id='a'))
    b = drive.course(drive.make_sim(scaled, execution_id='b'))
    drive.require_same_course(a, b, 'stakes multiplied by 2**%d', case['unit'])
    ctx.nontrivial(len(a) > 3 and bool(a[-1][0]))


@st.composite
def course_cases(draw):
    return {'cfg': draw(gen.configs(n_max=16, k_max=6, max_rounds=10, metrics=True)),
            'name': draw(st.text('abcXYZ019_.=+ ', min_size=1, max_size=12)), 'steps': draw(st.integers(0, 5))}


def check_course(case, ctx):
    ctx.fresh_dir()
    cfg = case['cfg']
    stepped = drive.make_sim(cfg, execution_id='a')
    reporters = drive.need('logic.model_reporters', 'ALL_MODEL_REPORTEERS')

    def between(sim):
        for name, fn in reporters.items():
            if name != 'Min-aggregate pledge' and (name != 'Average saturation rate' or cfg['reward_scheme'] != 4):
                fn(sim)
        sim.get_pools_list(), sim.get_agents_dict(), sim.get_agents_list(), sim.get_status()

    states = drive.course(stepped, between=between)
    sim = drive.make_sim(cfg, execution_id=case['name'])
    for _ in range(case['steps']):
        if sim.running:
            sim.step()
    if sim.running:
        sim.run_model()
    d = drive.difference(states[-1], drive.state_digest(sim))
    require(d is None, 'the final states of a simulation that was stepped %d times and then run, and of one that was '
            'stepped to the end and observed, differ at %s', case['steps'], d)
    d = drive.difference(drive.outcome(stepped), drive.outcome(sim))
    require(d is None, 'the results of a simulation that was stepped %d times and then run, and of one that was stepped to '
            'the end and observed, differ at %s', case['steps'], d)
    require(sim.schedule.steps == stepped.schedule.steps, '%d versus %d rounds', sim.schedule.steps,
            stepped.schedule.steps)
    ctx.nontrivial(len(states) > 3 and bool(states[-1][0]))


EXPERIMENTS = [
    Experiment('units', unit_cases, check_units, 700, 20000),
    Experiment('course', course_cases, check_course, 600, 15000),
]
