"""Charts of the interactive visualisation."""
import json
import math
import os
import re
import shutil
import subprocess

from hypothesis import strategies as st

from harness import core, drive, gen, metrics_ref, outputs
from harness.core import Experiment, Skip, require
from harness.props import c17

PROPERTY = 'C27'
RULE = ('render: a generated simulation and generated selections of series, all three charts rendered before the first '
        'round and after every round; server: the same through the visualisation server with resets; page: what is '
        'rendered is given to the scripts of the page, run by node with a recording stand-in for the chart library. '
        'Non-trivial: values of at least 2 pools were rendered. Distinct by case.')
ASSUMPTIONS = ['the order of pools within a bubble chart is not judged', 'drawing itself (the chart library and the '
               'browser) is not run']

LINES = [i for i in range(1, 31) if i not in (8, 11, 21, 26, 27)]
NAMES = ['Pool count', 'Total pledge', 'Mean pledge', 'Nakamoto coefficient', 'Operator count', 'Median margin',
         'Gini-id stake', 'No such series', 'Mean cost rank', 'Iterations']


def charts():
    line = drive.need('interactiveViz.myChartModule', 'MyChartModule')
    bubble = drive.need('interactiveViz.bubbleChartModule', 'BubbleChartModule')
    stacked = drive.need('interactiveViz.stackedChartModule', 'StackedChartModule')
    return line, bubble, stacked


UNITS = (' pools', '', ' of stake')
COLOURS = ('Blue', '#ff0000', 'Green', '#102030')


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


class Expected:
    """what the charts have to show, computed from the state that was collected last"""

    def __init__(self, sim):
        self.snap = metrics_ref.Snapshot(sim)
        pools = self.snap.pools
        self.bubbles = sorted((p['id'], p['owner'], self.snap.stake[p['owner']], p['stake'], p['margin']) for p in pools)
        per = self.snap.per_operator('stake')
        self.controlled = {a: per.get(a, 0) for a in self.snap.stake}


def check_line(values, names, collected, expected, when):
    want = [n for n in names if n in collected] if expected else []
    require(isinstance(values, list) and len(values) == len(want), 'the line chart of %r shows %r %s', names, values, when)
    for name, value in zip(want, values):
        require(outputs.same_value(drive.plain(value), drive.plain(collected[name][-1])),
                'the line chart shows %r for %s %s, but %r was collected', value, name, when, collected[name][-1])
        if name in metrics_ref.BASIC + metrics_ref.DECENTRALISATION:
            metrics_ref.judge(name, expected.snap, value)


def check_bubbles(values, shown, expected, when):
    if not shown or expected is None:
        require(len(values) == 0, 'the bubble chart shows %.300r %s', values, when)
        return
    require(len(values) == 5 * len(expected.bubbles), 'the bubble chart shows %d values for %d pools %s', len(values),
            len(expected.bubbles), when)
    have = sorted((values[i + 3], values[i + 4], values[i], values[i + 1], values[i + 2])
                  for i in range(0, len(values), 5))
    for h, w in zip(have, expected.bubbles):
        require(h[:2] == w[:2] and all(near(x, y) for x, y in zip(h[2:], w[2:])), 'the bubble chart shows (pool, owner, '
                'owner stake, pool stake, margin) %r instead of %r %s', h, w, when)


def check_stacked(shown_values, shown, expected, when):
    keys, values = shown_values
    keys, values = list(keys), list(values)
    if not shown or expected is None:
        require(not keys and not values, 'the stacked chart shows %.300r %s', shown_values, when)
        return
    require(len(keys) == len(values) == len(expected.controlled), 'the stacked chart shows %d values of %d stakeholders '
            'instead of %d %s', len(values), len(keys), len(expected.controlled), when)
    require(sorted(keys) == sorted(expected.controlled), 'the stacked chart shows the stakeholders %r %s', keys, when)
    for key, value in zip(keys, values):
        require(near(value, expected.controlled[key]), 'the stacked chart shows %r as the stake of the pools of stakeholder '
                '%r instead of %r %s', value, key, expected.controlled[key], when)


@st.composite
def cases(draw):
    cfg = draw(gen.configs(n_max=16, k_max=6, max_rounds=7, schemes=(0, 0, 1, 2, 3)))
    metrics = draw(st.lists(st.sampled_from(LINES), max_size=5, unique=True))
    for special in (21, 27):
        if draw(gen.weighted((True, 4), (False, 1))):
            metrics.append(special)
    cfg['metrics'] = metrics or [1]
    lines = draw(st.lists(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True), min_size=1, max_size=3))
    return {'cfg': cfg, 'lines': lines, 'collector': draw(gen.weighted(('datacollector', 3), ('other', 1)))}


def line_series(names):
    return [{'label': n, 'title': n + ' over time', 'xLabel': 'Round', 'yLabel': 'Value of ' + n, 'tooltipText': UNITS[i % 3],
             'color': COLOURS[i % 4]} for i, n in enumerate(names)]


def make_charts(case):
    line, bubble, stacked = charts()
    extra = {} if case['collector'] == 'datacollector' else {'data_collector_name': case['collector']}
    lines = [line(line_series(names), **extra) for names in case['lines']]
    return lines, bubble([{'Label': 'StakePairs'}], **extra), \
        stacked([{'Label': 'Stake per agent id', 'tooltipText': ' Agent', 'xLabel': 'Round', 'yLabel': 'Stake',
                  'Num_pools': case['cfg']['n']}], **extra)


def judge(case, rendered, collector, expected, when):
    metrics = case['cfg']['metrics']
    lines, bubbles, stacked = rendered
    for names, values in zip(case['lines'], lines):
        check_line(values, names, collector.model_vars, expected, when)
    check_bubbles(bubbles, 21 in metrics, expected, when)
    check_stacked(stacked, 27 in metrics, expected, when)
    # it has to get to the browser
    try:
        json.dumps([bubbles, stacked])
    except (TypeError, ValueError) as e:
        require(False, 'what the charts show cannot be sent to the browser: %s', e)


def check_render(case, ctx):
    ctx.fresh_dir()
    sim = drive.make_sim(case['cfg'])
    lines, bubble, stacked = make_charts(case)
    if case['collector'] != 'datacollector':
        setattr(sim, case['collector'], sim.datacollector)
    collector = sim.datacollector

    def render():
        return [c.render(sim) for c in lines], bubble.render(sim), stacked.render(sim)

    judge(case, render(), collector, None, 'before the first round')
    pools = 0
    while sim.running:
        expected = Expected(sim)
        sim.step()
        before = drive.state_digest(sim), {name: len(v) for name, v in collector.model_vars.items()}
        shown = render()
        judge(case, shown, collector, expected, 'after round %d' % sim.schedule.steps)
        again = render()
        require(repr(drive.plain(list(shown))) == repr(drive.plain(list(again))), 'rendering twice shows different values')
        require(before == (drive.state_digest(sim), {name: len(v) for name, v in collector.model_vars.items()}),
                'rendering changed the simulation')
        pools = max(pools, len(expected.snap.pools))
    ctx.nontrivial(pools >= 2 and (21 in case['cfg']['metrics'] or 27 in case['cfg']['metrics']))
    ctx.label('collector=' + case['collector'])
    for m in (21, 27):
        ctx.label('%s collected: %s' % ({21: 'StakePairs', 27: 'Stake per agent id'}[m], m in case['cfg']['metrics']))


@st.composite
def server_cases(draw):
    case = draw(cases())
    case['collector'] = 'datacollector'
    cfg = case['cfg']
    cfg['settable'] = draw(st.lists(st.sampled_from(['n', 'k', 'a0', 'cost_min', 'cost_max', 'seed',
                                                     'inactive_stake_fraction', 'extra_pool_cost_fraction']), unique=True,
                                    max_size=5))
    for name in ('k', 'a0', 'extra_pool_cost_fraction', 'absolute_utility_threshold', 'relative_utility_threshold'):
        if isinstance(cfg.get(name), list):
            cfg[name] = cfg[name][0]
    if cfg['stake_distr_source'] in ('file', 'disparity'):
        cfg['stake_distr_source'] = 'flat'
        cfg.pop('file_stakes', None)
    changes = []
    for _ in range(draw(st.integers(0, 2))):
        changes.append({'n': draw(st.integers(5, 12)), 'k': draw(st.integers(1, 5)), 'a0': draw(gen.dec(0, 1, 1)),
                        'seed': draw(st.integers(0, 1000))})
    case['changes'] = changes
    case['rounds'] = draw(st.integers(1, 4))
    return case


def check_server(case, ctx):
    ctx.fresh_dir()
    server_cls = drive.need('interactiveViz.myModularVisualization', 'MyModularServer')
    try:
        from mesa.visualization.UserParam import UserSettableParameter
    except ImportError as e:
        raise Skip(str(e))
    cfg = dict(case['cfg'])
    settable = cfg.pop('settable')
    params = dict(drive.sim_kwargs(cfg), generate_graphs=False, execution_id='viz')
    for name in settable:
        if name in params:
            params[name] = UserSettableParameter('number', name, params[name])
    lines, bubble, stacked = make_charts(case)
    server = server_cls(drive.engine().Simulation, lines + [bubble, stacked], 'Pooling Games', params)
    pools = 0

    def rendered():
        state = server.render_model()
        require(len(state) == len(lines) + 2, 'the server renders %d instead of %d charts', len(state), len(lines) + 2)
        return state[:len(lines)], state[-2], state[-1]

    current = {name: value for name, value in cfg.items()}
    for change in [{}] + case['changes']:
        for name, value in change.items():
            if name in settable:
                params[name].value = value
                current[name] = value
        if change:
            server.reset_model()
        twin = drive.make_sim(current, execution_id='twin')
        judge(case, rendered(), server.model.datacollector, None, 'before the first round')
        for i in range(case['rounds']):
            if not server.model.running:
                break
            expected = Expected(server.model)
            server.model.step()
            twin.step()
            d = drive.difference(drive.state_digest(twin), drive.state_digest(server.model))
            require(d is None, 'the server does not simulate the parameters that are set: %s', d)
            judge(case, rendered(), server.model.datacollector, expected, 'in round %d' % i)
            pools = max(pools, len(expected.snap.pools))
        ctx.label('reset' if change else 'first model')
    ctx.nontrivial(pools >= 2)


# ---------------------------------------------------------------------------------------------------- scripts of the page
STUB = r'''
const fs = require('fs'), vm = require('vm');
const [dir, input] = process.argv.slice(2);
const job = JSON.parse(fs.readFileSync(input));
let made = null;
const sandbox = {
  control: {tick: 0}, Math: Math, parseInt: parseInt, console: {log() {}},
  $: function (x) { return x === '#elements' ? {append() {}} : [{getContext() { return {}; }}]; },
  Chart: function (context, config) { config.data.labels = config.data.labels || []; config.data.datasets = config.data.datasets || [];
                                      this.data = config.data; this.options = config.options; this.updates = 0;
                                      this.update = function () { this.updates += 1; }; made = this; },
};
vm.createContext(sandbox);
for (const f of job.files) vm.runInContext(fs.readFileSync(dir + '/' + f, 'utf8'), sandbox);
const copy = x => JSON.parse(JSON.stringify(x));
// what the page tells about each point
const tips = chart => {
  const all = [], o = chart.options.tooltips || {}, callbacks = o.callbacks || {};
  chart.data.datasets.forEach((d, i) => d.data.forEach((p, j) => {
    const x = typeof p === 'object' ? p.x : chart.data.labels[j], y = typeof p === 'object' ? p.y : p;
    const item = {xLabel: x, yLabel: y, index: j, datasetIndex: i};
    all.push({set: i, index: j, shown: o.filter ? !!o.filter(item, chart.data) : true, x: x, y: y,
              title: callbacks.title ? String(callbacks.title([item], chart.data)) : null,
              label: callbacks.label ? String(callbacks.label(item, chart.data)) : null});
  }));
  return all;
};
const answer = [];
for (const c of job.charts) {
  sandbox.elements = [];
  vm.runInContext(c.js, sandbox);
  const chart = made, element = sandbox.elements[0], states = [];
  for (const run of c.runs) {
    sandbox.control.tick = 0;
    if (states.length) element.reset();
    const cleared = copy(chart.data), seen = [];
    for (const data of run) {
      const updates = chart.updates;
      element.render(data);
      seen.push({data: copy(chart.data), updated: chart.updates > updates, tips: tips(chart)});
      sandbox.control.tick += 1;
    }
    const o = chart.options, axis = a => o.scales[a].map(x => x.scaleLabel && x.scaleLabel.display ? x.scaleLabel.labelString : null);
    states.push({cleared: cleared, seen: seen, title: o.title && o.title.display ? o.title.text : null,
                 x: axis('xAxes'), y: axis('yAxes')});
  }
  answer.push(states);
}
fs.writeFileSync('page.json', JSON.stringify(answer));
'''


def numbers(text):
    return [float(x) for x in re.findall(r'-?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?', text)]


def tells(text, values, what, digits=4):
    have = numbers(text or '')
    require(len(have) == len(values) and all(abs(h - v) <= 0.51 * 10 ** -digits + 1e-9 * abs(v) for h, v in zip(have, values)),
            'the tooltip of %s reads %r, the values are %r', what, text, values)


def page_cases():
    return st.lists(cases(), min_size=2, max_size=4)


def check_page(case, ctx):
    ctx.fresh_dir()
    node = shutil.which('node')
    if not node:
        raise Skip('no node')
    folder = os.path.join(core.REPO, 'interactiveViz')
    files = []
    for cls in charts():
        files += [f for f in cls.local_includes if f not in files]
    require(all(os.path.isfile(os.path.join(folder, f)) for f in files), 'scripts of charts are missing: %r', files)
    jobs, want = [], []
    for c in case:
        c = dict(c, collector='datacollector')
        line, bubble, stacked = make_charts(c)
        names = [[n for n in s if n != 'No such series'] for s in c['lines']]
        every = {n for s in names for n in s}
        ids = [i for i in LINES if c17.DOCUMENTED[i - 1] in every]
        names = [s for s in names if s]
        line = [charts()[0](line_series(s)) for s in names]
        sims = []
        runs = [[] for _ in range(len(line) + 2)]
        states = []
        for seed in (c['cfg']['seed'], c['cfg']['seed'] + 1):  # the second one after a reset
            sim = drive.make_sim(dict(c['cfg'], metrics=ids + [21, 27], seed=seed))
            shown, expected = [[] for _ in runs], [None]
            for r, chart in zip(shown, line + [bubble, stacked]):
                r.append(drive.plain(chart.render(sim)))
            while sim.running:
                expected.append(Expected(sim))
                sim.step()
                for r, chart in zip(shown, line + [bubble, stacked]):
                    r.append(json.loads(json.dumps(drive.plain(chart.render(sim)), default=float)))
            sims.append({n: [drive.plain(v) for v in vs] for n, vs in sim.datacollector.model_vars.items()})
            states.append(expected)
            for r, s in zip(runs, shown):
                r.append(s)
        for chart, r in zip(line + [bubble, stacked], runs):
            jobs.append({'js': chart.js_code, 'runs': r})
        want.append((names, sims, states))
    with open('job.json', 'w') as f:
        json.dump({'files': files, 'charts': jobs}, f)
    with open('page.js', 'w') as f:
        f.write(STUB)
    result = subprocess.run([node, 'page.js', folder, 'job.json'], capture_output=True, text=True, timeout=120)
    require(result.returncode == 0, 'the scripts of the page fail: %s', result.stderr[-800:])
    with open('page.json') as f:
        answers = iter(json.load(f))
    for names, sims, states in want:
        for series in names:
            said = line_series(series)
            for collected, run, expected in zip(sims, next(answers), states):
                require((run['title'], run['x'], run['y']) == (said[0]['title'], [said[0]['xLabel']], [said[0]['yLabel']]),
                        'a line chart of %r is titled %r, with axes %r and %r', series, run['title'], run['x'], run['y'])
                require([d.get('borderColor') for d in run['cleared']['datasets']] == [d['color'] for d in said],
                        'the lines of %r have the colours %r instead of %r', series,
                        [d.get('borderColor') for d in run['cleared']['datasets']], [d['color'] for d in said])
                require(all(not d['data'] for d in run['cleared']['datasets']) and not run['cleared']['labels'],
                        'a line chart is not empty after a reset')
                for i, moment in enumerate(run['seen']):
                    require(moment['updated'], 'a line chart is not redrawn')
                    require(len(moment['data']['labels']) == i + 1, 'a line chart has %d labels after %d rounds',
                            len(moment['data']['labels']), i)
                    for tip in moment['tips'][-4:]:
                        tells(tip['title'], [tip['x']], 'a point of a line chart')
                        tells(tip['label'], [tip['y']], 'a point of a line chart')
                        unit = said[tip['set']]['tooltipText']
                        require(tip['label'].endswith(unit) and not any(u and u != unit and u in tip['label'] for u in UNITS),
                                'the tooltip of %s reads %r, its unit is %r', series[tip['set']], tip['label'], unit)
                        require(tip['shown'], 'a point of a line chart has no tooltip')
                    for name, d in zip(series, moment['data']['datasets']):
                        require(len(d['data']) == i and all(near(a, b) for a, b in zip(d['data'], collected[name])),
                                'the line of %s is %.300r on the page instead of %.300r', name, d['data'],
                                collected[name][:i])
        for run, expected in zip(next(answers), states):
            require(not run['cleared']['datasets'][0]['data'], 'the bubble chart is not empty after a reset')
            for e, moment in zip(expected, run['seen']):
                points = sorted((p['pool_id'], p['owner_id'], p['x'], p['y'], p['r'])
                                for p in moment['data']['datasets'][0]['data'])
                wanted = [] if e is None else [(b[0], b[1], b[2], b[3], 3 + 20 * b[4]) for b in e.bubbles if b[2] > 0]
                require(len(points) == len(wanted) and all(
                    p[:2] == w[:2] and all(near(a, b) for a, b in zip(p[2:], w[2:])) for p, w in zip(points, wanted)),
                    'the bubbles on the page are %.400r instead of %.400r', points, wanted)
                require(moment['updated'], 'the bubble chart is not redrawn')
                titled = sorted((tuple(numbers(t['title'])), t['label']) for t in moment['tips'])
                require([t[0] for t in titled] == [w[:2] for w in wanted], 'the tooltips of the bubble chart are about (pool, '
                        'owner) %.300r instead of %.300r', titled, wanted)
                for (_, label), b in zip(titled, [] if e is None else [b for b in e.bubbles if b[2] > 0]):
                    tells(label, b[2:5], 'pool %r' % b[0])
                if e is not None and len(wanted) >= 2:
                    ctx.nontrivial(True)
        for run, expected in zip(next(answers), states):
            require(all(not d['data'] for d in run['cleared']['datasets']), 'the stacked chart is not empty after a reset')
            require((run['x'], run['y']) == (['Round'], ['Stake']), 'the axes of the stacked chart are labelled %r and %r',
                    run['x'], run['y'])
            colours = [d.get('backgroundColor') for d in run['cleared']['datasets']]
            require(len(set(colours)) == len(colours), 'areas of the stacked chart have the same colour: %r', colours)
            for i, moment in enumerate(run['seen']):
                keyed = {}
                for tip in moment['tips']:
                    require(tip['shown'] == (tip['y'] != 0), 'the stacked chart %s a tooltip for a stake of %r',
                            'has' if tip['shown'] else 'lacks', tip['y'])
                    if tip['shown']:
                        tells(tip['title'], [tip['x']], 'an area of the stacked chart')
                        d = moment['data']['datasets'][tip['set']]
                        tells(tip['label'], [float(d['keys'][-1]), tip['y']], 'an area of the stacked chart')
                for d in moment['data']['datasets']:
                    require(len(d['data']) == i, 'an area of the stacked chart has %d values after %d rounds',
                            len(d['data']), i)
                    if i:
                        keyed[d['keys'][-1]] = d['data']
                for a in (expected[1].controlled if i else ()):
                    line = [e.controlled[a] for e in expected[1:i + 1]]
                    require(str(a) in {str(x) for x in keyed}, 'the stacked chart has no area of stakeholder %r', a)
                    have = {str(x): v for x, v in keyed.items()}[str(a)]
                    require(all(near(x, y) for x, y in zip(have, line)), 'the area of stakeholder %r is %.300r on the page '
                            'instead of %.300r', a, have, line)


EXPERIMENTS = [
    Experiment('render', cases, check_render, 700, 20000),
    Experiment('server', server_cases, check_server, 160, 4000),
    Experiment('page', page_cases, check_page, 80, 2000),
]
