"""An added reward scheme or profile in the other ways to start, repeat and inspect a simulation."""
import sys

from harness import drive, gen
from harness.core import Experiment, require
from harness.props import c21, c29

LISTS = ['k', 'a0', 'metrics', 'agent_profile_distr', 'file_stakes']


def cases():
    return gen.configs(n_max=12, k_max=6, max_rounds=8, metrics=True)


def options(cfg):
    argv = []
    for name, value in dict(drive.sim_kwargs(cfg), execution_id='case', generate_graphs=False).items():
        argv += c29.option(name, value)
    return argv


def through_main(argv):
    """the course of the one simulation that main() runs with these arguments, and the simulation"""
    main = drive.need('main', 'main')
    sim_module = drive.engine()
    made = []

    class Recording(sim_module.Simulation):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            made.append(self)
            self.seen = [drive.state_digest(self)]
            self.settings = c29.digest_of_settings(self)

        def step(self):
            super().step()
            self.seen.append(drive.state_digest(self))

        def __reduce__(self):
            return (dict, ())

    saved, saved_argv = sim_module.Simulation, sys.argv
    sim_module.Simulation, sys.argv = Recording, ['main.py'] + argv
    try:
        main()
    finally:
        sim_module.Simulation, sys.argv = saved, saved_argv
    require(len(made) == 1, 'main() made %d simulations', len(made))
    return made[0]


def check(cfg, ctx):
    ctx.fresh_dir()
    if cfg.get('metrics') and 8 in cfg['metrics']:
        cfg = dict(cfg, metrics=[m for m in cfg['metrics'] if m != 8] or [1])
    if cfg['stake_distr_source'] == 'disparity':
        cfg = dict(cfg, stake_distr_source='flat')  # not an option of the command line
    # the command line takes one value of most parameters
    cfg = {name: v[0] if isinstance(v, list) and name not in LISTS else v for name, v in cfg.items()}
    direct = drive.make_sim(cfg)
    settings = c29.digest_of_settings(direct)
    states, result = c29.run(direct)
    # command line
    other = through_main(options(cfg))
    for key in settings:
        if key == 'multi_phase_params':
            continue  # a list of one value on the command line
        require(settings[key] == other.settings.get(key), 'main() has %s = %r instead of %r', key,
                other.settings.get(key), settings[key])
    drive.require_same_course(states, other.seen, 'run by main() with the same arguments')
    require(result == drive.outcome(other), 'main() records different series')
    # argument file
    c29.take_file(direct, True)
    replayed = drive.engine().Simulation(input_from_file=True)
    c29.compare(direct, states, result, replayed, settings)
    # saved object
    loaded = c21.load(direct)
    c21.check_links(loaded)
    require(drive.state_digest(loaded) == states[-1], 'the saved simulation is in another state than the simulation was')
    ctx.nontrivial(bool(direct.pools))
    ctx.label('order=' + cfg['agent_activation_order'], 'phases' if direct.total_phases > 1 else 'one phase')


def experiment():
    return Experiment('other ways', cases, check, 1, 1)
