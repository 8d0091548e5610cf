"""Figures: what the graphs of runs and of batch runs show."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from harness import core, drive, figures, gen, outputs
from harness.core import Experiment, require

PROPERTY = 'C30'
RULE = ('runs: generated configurations (phases included) that record up to five metrics, run to the end with graphs; the '
        'lines, markers and areas of the figures are read at the moment they are saved. batches: batch-run.py as a '
        'subprocess with one to three varying parameters. tables: generated tables of results, drawn by the functions '
        'for scatter plots and heat maps. Non-trivial: (runs) some recorded series is not constant and more than two '
        'rounds passed, (batches, tables) at least two instances with different results. Distinct by case.')
ASSUMPTIONS = ['the content of a figure is read from its matplotlib axes when it is saved, not from its pixels',
               'the graph of the stake per operator starts with round 1, as in the original code',
               'metrics that map keys to values have no graph',
               'the metric min-aggregate pledge, which starts an external solver in every round, is not recorded']


def near(a, b):
    return (a != a and b != b) or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def same(a, b):
    return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))


@st.composite
def run_cases(draw):
    if draw(st.booleans()):
        cfg = draw(gen.configs(n_min=2, n_max=10, k_max=5, metrics=False, max_rounds=10, schemes=(0, 1, 2, 3)))
    else:
        # several equilibria and changes of parameters
        cfg = draw(gen.configs(n_min=2, n_max=8, k_max=4, metrics=False, multi_phase=False, orders=['random', 'sequential'],
                               schemes=(0, 1)))
        cfg['k'] = draw(st.lists(st.integers(1, 5), min_size=2, max_size=4))
        if draw(st.booleans()):
            cfg['a0'] = draw(st.lists(gen.dec(0, 1, 2), min_size=2, max_size=4))
        cfg['absolute_utility_threshold'] = 1e-6
        cfg['max_iterations'] = draw(st.integers(5, 25))
        cfg['iterations_after_convergence'] = draw(st.integers(1, 3))
    if draw(gen.weighted((False, 9), (True, 1))):
        cfg['agent_profile_distr'], cfg['iterations_after_convergence'] = [0, 0, 1], 1  # over after one round
    cfg['metrics'] = draw(st.lists(gen.mix((st.sampled_from([i for i in range(1, 31) if i != 11]), 4),
                                           (st.just(26), 1), (st.just(1), 1)), min_size=1,
                                   max_size=5, unique=True))
    return cfg


def check_runs(cfg, ctx):
    directory = ctx.fresh_dir()
    import matplotlib.pyplot as plt
    with figures.captured() as saved:
        sim = drive.make_sim(cfg, generate_graphs=True)
        drive.run_rounds(sim)
    require(not plt.get_fignums(), '%d figures are left open', len(plt.get_fignums()))
    place = os.path.join(directory, 'output', sim.execution_id)
    files = sorted(os.listdir(os.path.join(place, 'figures')))
    require(sorted(os.path.basename(s['path']) for s in saved) == files and
            all(os.path.dirname(s['path']) == os.path.join(place, 'figures') for s in saved),
            'the figures %r were saved, but there are %r', [s['path'] for s in saved], files)
    header, rows = outputs.read_csv(outputs.the_file(place, 'metrics', '.csv'))
    changing, used = False, set()
    for name, values in sim.datacollector.model_vars.items():
        values = [drive.plain(v) for v in values]
        if isinstance(values[0], dict):
            continue
        stacked = isinstance(values[0], list)
        found = [i for i, s in enumerate(saved) if os.path.basename(s['path']).endswith(
            ('.png' if stacked else '-' + name + '.png')) and (not stacked or 'poolDynamics' in s['path'])]
        require(len(found) == 1, 'the graphs of %s are %r', name, [saved[i]['path'] for i in found])
        used.add(found[0])
        axes = saved[found[0]]['axes']
        require(len(axes) == 1, 'the graph of %s has %d axes', name, len(axes))
        ax = axes[0]
        if stacked:
            n = len(values[0])
            got = [area for areas in ax['areas'] for area in areas]
            rounds = list(range(1, len(values)))
            if rounds:
                require(len(got) == n, 'the graph of %s shows %d areas for %d stakeholders', name, len(got), n)
                base = [0.0] * len(rounds)
                for i, area in enumerate(got):
                    for j, x in enumerate(rounds):
                        ys = [y for a, y in area if near(a, x)]
                        require(ys, 'area %d of the graph of %s has no round %d', i, name, x)
                        require(near(min(ys), base[j]) and near(max(ys), base[j] + values[x][i]),
                                'the graph of %s shows the stake %r of stakeholder %d in round %d as %r to %r', name,
                                values[x][i], i, x, min(ys), max(ys))
                        base[j] = max(ys)
            ctx.label('stacked')
            continue
        require(name in (ax['title'] + ax['ylabel']), 'the graph of %s is called %r, %r', name, ax['title'], ax['ylabel'])
        rounds = list(range(len(values)))
        curve = [line for line in ax['lines'] if same(line['x'], rounds) and same(line['y'], values)]
        require(len(curve) >= 1, 'the graph of %s shows %r instead of %r', name,
                [(line['x'], line['y']) for line in ax['lines'] if len(line['x']) > 2][:1] or ax['lines'][:2], values)
        rest = [line for line in ax['lines'] if line is not curve[0]]
        equilibria = sorted(line['x'][0] for line in rest if len(line['x']) == 2 and line['x'][0] == line['x'][1])
        require(same(equilibria, sorted(sim.equilibrium_steps)), 'the graph of %s marks equilibria at %r instead of %r',
                name, equilibria, sim.equilibrium_steps)
        pivots = sorted((line['x'][0], line['y'][0]) for line in rest if len(line['x']) == 1)
        expected = sorted((step, values[step]) for step in sim.pivot_steps)
        require(len(pivots) == len(expected) and all(same(p, e) for p, e in zip(pivots, expected)),
                'the graph of %s marks changes of parameters at %r instead of %r', name, pivots, expected)
        require(len(rest) == len(equilibria) + len(pivots), 'the graph of %s has %d further lines', name,
                len(rest) - len(equilibria) - len(pivots))
        changing = changing or (len(values) > 2 and len(set(values)) > 1)
        ctx.label(*(['equilibrium'] if equilibria else []) + (['pivot'] if pivots else []))
        if len(equilibria) > 1:
            ctx.label('several equilibria')
    require(len(used) == len(saved), 'there are %d further figures', len(saved) - len(used))
    # the same run without graphs
    plain = drive.make_sim(cfg)
    drive.run_rounds(plain)
    require(drive.state_digest(plain) == drive.state_digest(sim) and drive.outcome(plain) == drive.outcome(sim),
            'without graphs the same run has other results')
    ctx.nontrivial(changing)


def judge_scatter(ax, rows, name, metric, positive_only=True, log=False):
    want = sorted((float(row[name]), float(row[metric])) for row in rows if not positive_only or row[metric] >= 0)
    got = sorted((x, y) for points in ax['points'] for x, y in points)
    require(len(got) == len(want) and all(same(g, w) for g, w in zip(got, want)),
            'the figure of %s by %s shows %r instead of %r', metric, name, got, want)
    require(name in ax['xlabel'] and metric in ax['ylabel'], 'the figure of %s by %s has the axes %r and %r', metric, name,
            ax['xlabel'], ax['ylabel'])
    require((ax['xscale'] == 'log') == log, 'the figure of %s by %s has the scale %r', metric, name, ax['xscale'])


def judge_heatmap(axes, rows, names, metric):
    """names: the parameter along the x axis and the one along the y axis, in either order"""
    ax = [a for a in axes if a['meshes'] and a['xticks'] and a['texts']] or [a for a in axes if a['meshes']]
    require(ax, 'the heat map of %s has no cells', metric)
    ax = ax[0]
    if names[0] in ax['xlabel'] and names[1] in ax['ylabel']:
        across, along = names
    else:
        require(names[1] in ax['xlabel'] and names[0] in ax['ylabel'], 'the heat map of %s by %r has the axes %r and %r',
                metric, names, ax['xlabel'], ax['ylabel'])
        along, across = names
    columns = sorted({float(row[across]) for row in rows})
    lines = sorted({float(row[along]) for row in rows})
    mesh = ax['meshes'][0]
    require(len(mesh) == len(columns) * len(lines), 'the heat map of %s has %d cells instead of %d by %d', metric, len(mesh),
            len(lines), len(columns))
    for row in rows:
        i, j = lines.index(float(row[along])), columns.index(float(row[across]))
        require(near(mesh[i * len(columns) + j], float(row[metric])), 'the heat map of %s shows %r for %s=%r, %s=%r '
                'instead of %r', metric, mesh[i * len(columns) + j], across, row[across], along, row[along], row[metric])
    for ticks, values in ((ax['xticks'], columns), (ax['yticks'], lines)):
        for position, text in ticks:
            k = int(position)
            if text.strip() and 0 <= k < len(values) and near(position, k + 0.5):
                require(abs(float(text) - values[k]) <= 5.1e-5 + 1e-4 * abs(values[k]),
                        'the heat map of %s calls the value %r %r', metric, values[k], text)
    for x, y, text in ax['texts']:
        i, j = int(y), int(x)
        require(abs(float(text) - mesh[i * len(columns) + j]) <= 1e-5 * max(1, abs(mesh[i * len(columns) + j])),
                'the heat map of %s writes %r into the cell of %r', metric, text, mesh[i * len(columns) + j])


VALUES = {'n': st.integers(1, 60), 'k': st.integers(1, 60), 'a0': gen.dec(0, 2, 2),
          'extra_pool_cost_fraction': gen.dec(0, 1, 2), 'inactive_stake_fraction': gen.dec(0, 0.9, 2)}


@st.composite
def table_cases(draw):
    names = draw(st.lists(st.sampled_from(sorted(VALUES)), min_size=1, max_size=2, unique=True))
    grid = [draw(st.lists(VALUES[name], min_size=1, max_size=4, unique=True)) for name in names]
    cells = [[a] for a in grid[0]]
    if len(grid) == 2:
        cells = [[a, b] for a in grid[0] for b in grid[1]]
    metrics = draw(st.lists(st.sampled_from(['Pool count', 'Nakamoto coefficient', 'Mean margin', 'Total pledge',
                                             'Pledge rate']), min_size=1, max_size=2, unique=True))
    value = gen.mix((st.integers(-2, 30), 2), (gen.dec(-1, 1, 3), 1), (gen.log_float(-4, 1), 1))
    rows = [dict(zip(names, cell), **{m: draw(value) for m in metrics}) for cell in cells]
    return {'names': names, 'metrics': metrics, 'rows': draw(st.permutations(rows)), 'log': draw(st.booleans()),
            'positive': draw(gen.weighted((True, 2), (False, 1)))}


def check_tables(case, ctx):
    directory = ctx.fresh_dir()
    import pathlib
    import pandas
    scatter, heatmap = drive.need('logic.helper', 'plot_aggregate_data', 'plot_aggregate_data_heatmap')
    table = pandas.DataFrame(case['rows'])
    before = table.to_csv()
    rows, names = case['rows'], case['names']
    log = case['log'] and all(row[name] > 0 for row in rows for name in names)
    folder = pathlib.Path(directory) / 'batch'
    for name in names:
        for metric in case['metrics']:
            with figures.captured() as saved:
                scatter(table, name, metric, 'red', 'exec', folder, positive_only=case['positive'], log_axis=log)
            require(len(saved) == 1 and len(saved[0]['axes']) == 1, 'there are %d figures', len(saved))
            judge_scatter(saved[0]['axes'][0], rows, name, metric, case['positive'], log)
            require(os.path.isfile(saved[0]['path']) and name in saved[0]['path'] and metric in saved[0]['path'] and
                    saved[0]['path'].startswith(str(folder)), 'the figure of %s by %s is in %s', metric, name,
                    saved[0]['path'])
    if len(names) == 2:
        with figures.captured() as saved:
            heatmap(table, names, case['metrics'], folder)
        require(len(saved) == len(case['metrics']), '%d heat maps were drawn for %d metrics', len(saved),
                len(case['metrics']))
        for metric in case['metrics']:
            found = [s for s in saved if metric in os.path.basename(s['path'])]
            require(len(found) == 1, 'the heat maps of %s are %r', metric, [s['path'] for s in found])
            judge_heatmap(found[0]['axes'], rows, names, metric)
        ctx.label('heat map')
    require(table.to_csv() == before, 'the results were changed by drawing them')
    ctx.label(*(['logarithmic'] if log else []))
    ctx.nontrivial(len({tuple(row[m] for m in case['metrics']) for row in rows}) > 1)


@st.composite
def batch_cases(draw):
    # the order in which the options are given varies as well
    names = draw(st.lists(st.sampled_from(['n', 'k', 'a0', 'extra_pool_cost_fraction', 'inactive_stake_fraction']),
                          min_size=draw(st.sampled_from([1, 2, 2])), max_size=draw(st.sampled_from([2, 2, 3])),
                          unique=True))
    small = dict(VALUES, n=st.integers(4, 9), k=st.integers(1, 5))
    given = {}
    for name in names:
        given[name] = draw(st.lists(small[name], min_size=2, max_size=2 if len(names) > 2 else 3, unique=True))
    for name in ('n', 'k'):
        if name not in given:
            given[name] = [draw(small[name])]
    return {'given': given, 'max_iterations': draw(st.integers(1, 5)), 'seed': draw(gen.seeds)}


def check_batches(case, ctx):
    ctx.fresh_dir()
    argv = []
    for name, values in case['given'].items():
        argv += ['--' + name] + [repr(v) for v in values]
    argv += ['--max_iterations', str(case['max_iterations']), '--seed', str(case['seed']), '--cost_max', '0.001']
    result = subprocess.run([sys.executable, '-B', '-c', figures.CHILD, os.path.join(core.REPO, 'batch-run.py'), core.VERIF,
                             core.REPO, 'answer.json'] + argv, capture_output=True, text=True, timeout=400,
                            env=dict(os.environ, PYTHONPATH=core.REPO))
    require(result.returncode == 0 and os.path.isfile('answer.json'), 'batch-run.py %s failed: %s', ' '.join(argv),
            result.stderr[-700:])
    saved = outputs.read_json('answer.json')
    found = [f for f in os.listdir('output') if os.path.isdir(os.path.join('output', f))]
    require(len(found) == 1, 'the batch run left the folders %r', found)
    path = os.path.join('output', found[0])
    place = os.path.abspath(os.path.join(path, 'figures'))
    require(all(os.path.dirname(s['path']) == place and os.path.isfile(s['path']) for s in saved),
            'figures of the batch run are at %r', [s['path'] for s in saved if os.path.dirname(s['path']) != place])
    require(len({s['path'] for s in saved}) == len(saved), 'a figure was overwritten by another one')
    varying = [name for name, values in case['given'].items() if len(values) > 1]
    size = 1
    for values in case['given'].values():
        size *= len(values)
    # the values that are compared are those of the aggregate file (see C22 for these)
    known = drive.need('logic.model_reporters', 'ALL_MODEL_REPORTEERS')
    header, table = outputs.read_csv(outputs.the_file(path, 'aggregate-results', '.csv'))
    require(len(table) == size, 'the batch run has %d results instead of %d', len(table), size)
    metrics = [name for name in header if name in known]
    rows = [{name: float(row[name]) for name in varying + metrics} for row in table]
    wanted = []
    for metric in metrics:
        for name in varying:
            mine = [s for s in saved if os.path.basename(s['path']).endswith('-%s-per-%s.png' % (metric, name))]
            require(len(mine) == 1, 'the figures of %s by %s are %r', metric, name, [s['path'] for s in mine])
            require(len(mine[0]['axes']) == 1, 'the figure of %s by %s has %d axes', metric, name, len(mine[0]['axes']))
            judge_scatter(mine[0]['axes'][0], rows, name, metric)
            wanted.append(mine[0]['path'])
        if len(varying) == 2:
            mine = [s for s in saved if s['path'] not in wanted and
                    os.path.basename(s['path']).startswith('heatmap-%s-' % metric)]
            require(len(mine) == 1, 'the heat maps of %s are %r', metric, [s['path'] for s in mine])
            judge_heatmap(mine[0]['axes'], rows, varying, metric)
            wanted.append(mine[0]['path'])
            ctx.label('heat map')
    require(len(wanted) == len(saved), 'there are %d figures instead of %d', len(saved), len(wanted))
    ctx.label('%d varying parameters' % len(varying))
    ctx.nontrivial(len({tuple(row[m] for m in metrics) for row in rows}) > 1)


EXPERIMENTS = [
    Experiment('runs', run_cases, check_runs, 160, 6000),
    Experiment('tables', table_cases, check_tables, 160, 6000),
    Experiment('batches', batch_cases, check_batches, 16, 400),
]
