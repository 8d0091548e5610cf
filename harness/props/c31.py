"""Sessions of the interactive visualisation: the server's side and the page's side."""
import asyncio
import contextlib
import html
import io
import json
import os
import re
import runpy
import shutil
import subprocess

from hypothesis import strategies as st

from harness import core, drive, gen
from harness.core import Experiment, Skip, require
from harness.props import c27

PROPERTY = 'C31'
RULE = ('server: a generated simulation and a generated history of messages (steps, resets, submitted parameters, unknown '
        'messages), each answer compared with a simulation of the parameters in force; page: a generated history of '
        'clicks, inputs and passing time, given to the control script of the page, run by node with stand-ins for the '
        'browser and a server; slow: the same while the server takes its time to answer; start: the start script and a '
        'history of steps and parameters; served: page and messages over a real connection. Non-trivial: at least 3 rounds were '
        'simulated and something else happened (reset, parameters, end). Distinct by case.')
ASSUMPTIONS = ['the static files of mesa and '
               'the browser are not run']


def server_class():
    cls = drive.need('interactiveViz.myModularVisualization', 'MyModularServer')
    handler = drive.need('interactiveViz.myModularVisualization', 'MySocketHandler')
    try:
        from mesa.visualization.UserParam import UserSettableParameter
    except ImportError as e:
        raise Skip(str(e))
    return cls, handler, UserSettableParameter


SETTABLE = {
    'n': ('slider', st.integers(2, 10)), 'k': ('slider', st.integers(1, 6)), 'a0': ('number', gen.dec(0, 1, 1)),
    'seed': ('number', st.integers(0, 999)), 'agent_activation_order': ('choice', st.sampled_from(gen.ORDERS)),
    'inactive_stake_fraction_known': ('checkbox', st.booleans()), 'extra_pool_cost_fraction': ('slider', gen.dec(0, 1, 1)),
    'reward_scheme': ('choice', st.integers(0, 3)), 'iterations_after_convergence': ('number', st.integers(1, 4)),
}


@st.composite
def cases(draw):
    cfg = draw(gen.configs(n_min=3, n_max=9, k_max=5, max_rounds=6, multi_phase=False, schemes=(0, 0, 1, 2, 3),
                           sources=('pareto', 'flat')))
    cfg['metrics'] = [1, 21, 27]
    cfg['n'] = max(cfg['n'], 2)
    settable = draw(st.lists(st.sampled_from(sorted(SETTABLE)), max_size=5, unique=True))
    messages = []
    for _ in range(draw(st.integers(1, 14))):
        kind = draw(gen.weighted(('get_step', 7), ('reset', 2), ('submit', 2), ('fixed', 1), ('other', 1)))
        if kind == 'submit' and settable:
            name = draw(st.sampled_from(settable))
            messages.append(['submit_params', name, draw(SETTABLE[name][1])])
        elif kind == 'fixed':
            name = draw(st.sampled_from([s for s in sorted(SETTABLE) if s not in settable] + ['no_such_parameter']))
            messages.append(['submit_params', name, draw(SETTABLE[name][1]) if name in SETTABLE else 1])
        elif kind == 'other':
            messages.append([draw(st.sampled_from(['hello', '', 'step', 'end', 'viz_state']))])
        else:
            messages.append([kind if kind != 'submit' else 'get_step'])
    texts = draw(gen.mix((st.just([]), 2), (st.lists(st.integers(0, 30), max_size=2, unique=True), 1)))
    return {'cfg': cfg, 'settable': settable, 'messages': messages, 'lines': [['Pool count']], 'texts': texts}


def told_texts(case):
    return ['text %d' % i for i in range(len(case['texts']))]


def make_server(case, cls, UserSettableParameter):
    cfg = case['cfg']
    params = dict(drive.sim_kwargs(cfg), generate_graphs=False, execution_id='viz')
    params['n'] = cfg['n']
    for name in ('agent_activation_order', 'inactive_stake_fraction_known', 'iterations_after_convergence'):
        params.setdefault(name, {'agent_activation_order': 'random', 'inactive_stake_fraction_known': False,
                                 'iterations_after_convergence': 3}[name])
    for name in case['settable']:
        kind = SETTABLE[name][0]
        extra = {'slider': dict(min_value=0, max_value=1000, step=1),
                 'choice': dict(choices=list(gen.ORDERS) if name == 'agent_activation_order' else [0, 1, 2, 3])}.get(kind, {})
        params[name] = UserSettableParameter(kind, name, params[name], **extra)
    lines = [c27.charts()[0](c27.line_series(names)) for names in case['lines']]
    bubble = c27.charts()[1]([{'Label': 'StakePairs'}])
    stacked = c27.charts()[2]([{'Label': 'Stake per agent id', 'tooltipText': ' Agent', 'xLabel': 'Round', 'yLabel': 'Stake',
                                'Num_pools': cfg['n']}])
    current = {name: getattr(v, 'value', v) for name, v in params.items()}
    # descriptions among the parameters, which are not parameters of the simulation
    for name, position in zip(told_texts(case), case['texts']):
        items = list(params.items())
        items.insert(position % (len(items) + 1), (name, UserSettableParameter('static_text', value='About ' + name)))
        params = dict(items)
    return cls(drive.engine().Simulation, lines + [bubble, stacked], 'Pooling <Games>', params), current


class Session:
    """the simulation that the parameters in force describe, stepped along"""

    def __init__(self, case, current):
        self.case, self.current = case, current
        self.start()
        self.rounds, self.events = 0, 0

    def start(self):
        self.twin = drive.engine().Simulation(**dict(self.current, execution_id='twin'))
        self.expected = None

    def step(self):
        self.expected = c27.Expected(self.twin)
        self.twin.step()
        self.rounds += 1

    def same(self, model, when):
        d = drive.difference(drive.state_digest(self.twin), drive.state_digest(model))
        require(d is None, '%s, the simulation of the server differs from that of the parameters that are set: %s', when, d)
        require(model.running == self.twin.running and model.schedule.steps == self.twin.schedule.steps,
                '%s, the server is in round %r (running: %r) instead of %r (%r)', when, model.schedule.steps, model.running,
                self.twin.schedule.steps, self.twin.running)
        for name in ('n', 'extra_pool_cost_fraction', 'agent_activation_order', 'iterations_after_convergence'):
            require(getattr(model, name) == getattr(self.twin, name), '%s, %s is %r instead of %r', when, name,
                    getattr(model, name), getattr(self.twin, name))

    def shows(self, answer, when):
        require(answer.get('type') == 'viz_state', '%s, the server answers %.200r', when, answer)
        data = answer['data']
        require(len(data) == len(self.case['lines']) + 2, '%s, the server sends the values of %d charts', when, len(data))
        c27.judge(self.case, (data[:-2], data[-2], self.keyed(data[-1])), self.twin.datacollector, self.expected, when)

    @staticmethod
    def keyed(data):
        keys, values = data
        return [int(k) for k in keys], values

    def expect(self, message, answers, model, when):
        kind = message[0]
        if kind == 'get_step':
            if self.twin.running:
                self.step()
                require(len(answers) == 1, '%s, the server sends %d answers', when, len(answers))
                self.shows(answers[0], when)
            else:
                require(answers == [{'type': 'end'}], '%s, the server answers %.300r although the simulation has ended',
                        when, answers)
                self.events += 1
        elif kind == 'reset':
            self.start()
            require(len(answers) == 1, '%s, the server sends %d answers', when, len(answers))
            self.shows(answers[0], when)
            self.events += 1
        elif kind == 'submit_params' and message[1] in self.case['settable']:
            self.current[message[1]] = message[2]
            self.start()
            self.events += 1
        elif kind != 'submit_params':
            require(not answers, '%s, the server answers %.300r', when, answers)
        if model is not None:
            self.same(model, when)


def message_of(m):
    return {'type': m[0], 'param': m[1], 'value': m[2]} if len(m) == 3 else {'type': m[0]}


def classify(case, session, ctx):
    ctx.nontrivial(session.rounds >= 3 and session.events > 0)
    ctx.label('%d settable' % len(case['settable']), 'ended' if not session.twin.running else 'running')


def check_server(case, ctx):
    ctx.fresh_dir()
    cls, handler_cls, Param = server_class()
    server, current = make_server(case, cls, Param)
    answers = []

    class Handler(handler_cls):
        def __init__(self, application):
            self.application = application

        def write_message(self, message, binary=False):
            answers.append(json.loads(json.dumps(drive.plain(message), default=float)))

    handler = Handler(server)
    session = Session(case, current)
    session.same(server.model, 'at the start')
    handler.open()
    require(len(answers) == 1 and answers[0].get('type') == 'model_params' and
            set(answers[0]['params']) == set(case['settable'] + told_texts(case)), 'the page is told %.300r, the '
            'settable parameters are %r', answers, case['settable'])
    for name, told in answers[0]['params'].items():
        if name not in case['settable']:
            continue
        require(told['value'] == current[name], 'the page is told that %s is %r instead of %r', name, told['value'],
                current[name])
    for i, m in enumerate(case['messages']):
        del answers[:]
        handler.on_message(json.dumps(message_of(m)))
        session.expect(m, answers, server.model, 'after message %d (%r)' % (i, m))
    classify(case, session, ctx)


def check_served(case, ctx):
    """over a real connection"""
    ctx.fresh_dir()
    cls, _, Param = server_class()
    from tornado import httpclient, httpserver, netutil, websocket
    server, current = make_server(case, cls, Param)
    session = Session(case, current)

    async def run():
        sockets = netutil.bind_sockets(0, '127.0.0.1')
        http = httpserver.HTTPServer(server)
        http.add_sockets(sockets)
        port = sockets[0].getsockname()[1]
        try:
            page = (await httpclient.AsyncHTTPClient().fetch('http://127.0.0.1:%d/' % port)).body.decode()
            ws = await websocket.websocket_connect('ws://127.0.0.1:%d/ws' % port)
            params = json.loads(await ws.read_message())
            require(params.get('type') == 'model_params' and set(params['params']) == set(case['settable'] + told_texts(case)),
                    'the page is told %.300r, the settable parameters are %r', params, case['settable'])
            # the last message is one that is answered, so that all of them have arrived
            for i, m in enumerate(case['messages'] + [['get_step']]):
                await ws.write_message(json.dumps(message_of(m)))
                # messages are answered in order: what comes before the answer to a further reset belongs to this one
                answers = []
                if m[0] in ('get_step', 'reset'):
                    text = await ws.read_message()
                    require(text is not None, 'the server closed the connection after message %d (%r)', i, m)
                    answers.append(json.loads(text))
                session.expect(m, answers, None, 'after message %d (%r)' % (i, m))
            ws.close()
        finally:
            http.stop()
        return page

    with contextlib.redirect_stdout(io.StringIO()):
        page = asyncio.run(asyncio.wait_for(run(), 60))
    session.same(server.model, 'in the end')
    require(html.escape('Pooling <Games>') in page, 'the page does not tell the name of the model')
    at = -1
    for element in server.visualization_elements:
        now = page.find(element.js_code, at + 1)
        require(now > at, 'the chart %.100s is not on the page, or not in its place', element.js_code)
        at = now
        for name in element.local_includes:
            require(re.search(r'src="[^"]*%s"' % re.escape(name), page[:now]), 'the script %s is not included', name)
        for name in element.package_includes:
            require(re.search(r'src="[^"]*%s"' % re.escape(name), page[:now]), 'the script %s is not included', name)
    classify(case, session, ctx)


# --------------------------------------------------------------------------------------------------------- the page
STUB = r'''
const fs = require('fs'), vm = require('vm');
const [script, input] = process.argv.slice(2);
const source = fs.readFileSync(script, 'utf8');
const answer = [];
for (const job of JSON.parse(fs.readFileSync(input))) answer.push(run(job));
fs.writeFileSync('page.json', JSON.stringify(answer));

function run(job) {
  let now = 0, timers = [], nextTimer = 1, ws = null, outbox = [], sent = [], fps = 3, clicked = true;
  const label = () => node('play-pause').firstElementChild.innerText;
  const nodes = {}, inputs = {};
  const node = id => nodes[id] = nodes[id] || {innerText: '', firstElementChild: {innerText: 'Start'}};
  const input = key => inputs[key] = inputs[key] || {
    handlers: {}, value: undefined, options: null, text: null,
    slider(o) { this.options = o; if (this.value === undefined) this.value = o.value; return this; },
    on(event, f) { this.handlers[event] = f; return this; },
    val(v) { if (v === undefined) return this.value; this.value = v; return this; },
    bootstrapSwitch(o) { this.options = o; return this; }, tooltip() { return this; }, append() { return this; },
    html(t) { this.text = t; return this; }, 0: {},
  };
  const box = {
    document: {getElementById: node}, window: {location: {protocol: 'http:'}}, location: {host: 'here'},
    console: {log() {}}, JSON: JSON, Number: Number, String: String,
    $: x => typeof x === 'string' ? input(x) : x,
    setTimeout: (f, ms) => { timers.push({id: nextTimer, at: now + ms, f: f}); return nextTimer++; },
    clearTimeout: id => { timers = timers.filter(t => t.id !== id); },
    WebSocket: function (url) { ws = this; this.send = text => {
      sent.push(JSON.parse(text)); outbox.push(JSON.parse(text));
      trace.push({what: 'send', at: now, type: JSON.parse(text).type, fps: fps, click: clicked, label: label()});
    }; },
  };
  vm.createContext(box);
  vm.runInContext(source, box);
  const shown = [[], []];
  box.first = {render: d => shown[0].push(d), reset: () => { shown[0] = []; }};
  box.second = {render: d => shown[1].push(d), reset: () => { shown[1] = []; }};
  vm.runInContext('elements.push(first); elements.push(second);', box);
  // the stand-in for the server
  let count = 0, all = 0, busy = 0, asked = 0, epoch = 0;
  const trace = [];
  const answers = () => {
    while (outbox.length) {
      const m = outbox.shift();
      if (m.type === 'get_step') {
        if (count >= job.rounds) reply({type: 'end'});
        else { count += 1; all += 1; reply({type: 'viz_state', data: [count, -count]}); }
      } else if (m.type === 'reset') { count = 0; epoch += 1; reply({type: 'viz_state', data: [0, 0]}); }
    }
  };
  const reply = m => {
    if (!job.delays) { ws.onmessage({data: JSON.stringify(m)}); return; }
    busy = Math.max(busy, now) + job.delays[asked++ % job.delays.length];
    const about = epoch;
    timers.push({id: nextTimer++, at: busy, server: true, f: () => {
      trace.push({what: 'answer', at: now, type: m.type, epoch: about});
      ws.onmessage({data: JSON.stringify(m)});
    }});
  };
  if (job.params) { reply({type: 'model_params', params: job.params}); answers(); }
  const log = [];
  for (const a of job.actions) {
    sent = [];
    clicked = a[0] !== 'wait';
    if (a[0] === 'fps') fps = a[1];
    trace.push({what: 'action', at: now, action: a[0], label: label(), fps: fps});
    if (a[0] === 'step') node('step').onclick();
    else if (a[0] === 'play') node('play-pause').onclick();
    else if (a[0] === 'reset') node('reset').onclick();
    else if (a[0] === 'fps') { input('#fps').val(String(a[1])); input('#fps').handlers.change(); }
    else if (a[0] === 'junk') reply({type: a[1]});
    else if (a[0] === 'set') {
      const key = '#' + a[1] + '_id', kind = job.params[a[1]].param_type;
      if (kind === 'checkbox') input(key).options.onSwitchChange({}, a[2]);
      else if (kind === 'choice') input(key + '_choice_' + job.params[a[1]].choices.indexOf(a[2])).handlers.click();
      else { input(key).val(String(a[2])); input(key).handlers.change.call(input(key)); }
    } else if (a[0] === 'wait') {
      const until = now + a[1];
      for (let guard = 0; guard < 5000; guard++) {
        const due = timers.filter(t => t.at <= until).sort((x, y) => x.at - y.at || x.id - y.id)[0];
        if (!due) break;
        timers = timers.filter(t => t !== due);
        now = due.at; due.f(); answers();
      }
      now = until;
    }
    answers();
    log.push({sent: sent, shown: JSON.parse(JSON.stringify(shown)), step: node('currentStep').innerText,
              label: node('play-pause').firstElementChild.innerText, rounds: count, all: all, waiting: timers.length,
              trace: trace.length});
  }
  const widgets = {};
  for (const key of Object.keys(inputs)) widgets[key] = {value: inputs[key].value, options: inputs[key].options};
  return {log: log, widgets: widgets, trace: trace};
}
'''

PARAMS = {
    'n': ({'param_type': 'slider', 'name': '# stakeholders', 'value': 100, 'min_value': 10, 'max_value': 1000, 'step': 10,
           'choices': [], 'description': 'number'}, st.integers(10, 1000)),
    'seed': ({'param_type': 'number', 'name': 'Seed', 'value': 42, 'min_value': None, 'max_value': None, 'step': 1,
              'choices': [], 'description': None}, st.integers(0, 99)),
    'a0': ({'param_type': 'slider', 'name': 'a0', 'value': 0.3, 'min_value': 0, 'max_value': 1, 'step': 0.01, 'choices': [],
            'description': None}, gen.dec(0, 1, 2)),
    'order': ({'param_type': 'choice', 'name': 'Order', 'value': 'random', 'min_value': None, 'max_value': None, 'step': 1,
               'choices': ['random', 'sequential', 'simultaneous'], 'description': None},
              st.sampled_from(['random', 'sequential', 'simultaneous'])),
    'known': ({'param_type': 'checkbox', 'name': 'Known', 'value': True, 'min_value': None, 'max_value': None, 'step': 1,
               'choices': [], 'description': None}, st.booleans()),
}


@st.composite
def page_case(draw):
    names = draw(st.lists(st.sampled_from(sorted(PARAMS)), max_size=3, unique=True))
    actions = []
    for _ in range(draw(st.integers(1, 25))):
        kind = draw(gen.weighted(('step', 4), ('play', 4), ('wait', 5), ('reset', 2), ('fps', 1), ('set', 1), ('junk', 1)))
        if kind == 'wait':
            actions.append(['wait', draw(gen.mix((st.integers(1, 400), 2), (st.integers(400, 3000), 2)))])
        elif kind == 'fps':
            actions.append(['fps', draw(st.sampled_from([1, 2, 4, 5, 10, 20]))])
        elif kind == 'set' and names:
            name = draw(st.sampled_from(names))
            actions.append(['set', name, draw(PARAMS[name][1])])
        elif kind == 'junk':
            actions.append(['junk', draw(st.sampled_from(['hello', 'get_step', '']))])
        elif kind != 'set':
            actions.append([kind])
    return {'rounds': draw(gen.mix((st.integers(0, 6), 2), (st.integers(7, 40), 1))), 'actions': actions,
            'params': {name: PARAMS[name][0] for name in names} if draw(st.booleans()) or names else None}


def page_cases():
    return st.lists(page_case(), min_size=1, max_size=16)


class Page:
    """what the controls are there for"""

    def __init__(self, case):
        self.total = case['rounds']
        self.now, self.fps, self.running, self.finished, self.due = 0.0, 3, False, False, None
        self.rounds, self.all, self.shown, self.ends = 0, 0, [], 0
        self.tick, self.sent = 0, []
        if case['params'] is not None:
            self.shown = [0]

    def step(self):
        self.tick += 1
        self.sent.append({'type': 'get_step', 'step': self.tick})
        if self.rounds < self.total:
            self.rounds += 1
            self.all += 1
            self.shown.append(self.rounds)
            if self.running:
                self.due = self.now + 1000 / self.fps
        else:
            self.running, self.finished, self.due = False, True, None
            self.ends += 1

    def act(self, action):
        kind = action[0]
        self.sent = []
        if kind == 'step' and not self.running and not self.finished:
            self.step()
        elif kind == 'play':
            if self.running:
                self.running, self.due = False, None
            elif not self.finished:
                self.running = True
                self.step()
        elif kind == 'reset':
            self.tick, self.rounds, self.shown, self.finished, self.due = 0, 0, [0], False, None
            self.sent.append({'type': 'reset'})
            if self.running:
                self.due = self.now + 1000 / self.fps
        elif kind == 'fps':
            self.fps = action[1]
        elif kind == 'set':
            self.sent.append({'type': 'submit_params', 'param': action[1], 'value': action[2]})
        elif kind == 'wait':
            until = self.now + action[1]
            while self.due is not None and self.due <= until:
                self.now, self.due = self.due, None
                self.step()
            self.now = until

    def label(self):
        return 'Done' if self.finished else 'Stop' if self.running else 'Start'


def on_the_page(cases, ctx):
    ctx.fresh_dir()
    node = shutil.which('node')
    if not node:
        raise Skip('no node')
    script = os.path.join(core.REPO, 'interactiveViz', 'templates', 'js', 'myruncontrol.js')
    if not os.path.isfile(script):
        raise Skip('no control script')
    with open('job.json', 'w') as f:
        json.dump(cases, f)
    with open('page.js', 'w') as f:
        f.write(STUB)
    result = subprocess.run([node, 'page.js', script, 'job.json'], capture_output=True, text=True, timeout=120)
    require(result.returncode == 0, 'the control script of the page fails: %s', result.stderr[-800:])
    with open('page.json') as f:
        return json.load(f)


def check_page(cases, ctx):
    answers = on_the_page(cases, ctx)
    interesting = 0
    for case, answer in zip(cases, answers):
        page = Page(case)
        resets = 0
        for i, (action, seen) in enumerate(zip(case['actions'], answer['log'])):
            page.act(action)
            resets += action[0] in ('reset', 'set')
            when = 'after action %d of %r (simulation of %d rounds)' % (i, case['actions'][:i + 1], case['rounds'])
            require(seen['sent'] == page.sent, 'the page sends %r instead of %r %s', seen['sent'], page.sent, when)
            require(seen['shown'] == [page.shown, [-x for x in page.shown]], 'the charts are given %r instead of %r %s',
                    seen['shown'], page.shown, when)
            require(seen['label'] == page.label(), 'the button reads %r instead of %r %s', seen['label'], page.label(), when)
            if page.tick and not page.finished:
                require(str(seen['step']) == str(page.tick), 'the page tells step %r instead of %r %s', seen['step'],
                        page.tick, when)
        for name, option in (case['params'] or {}).items():
            widget = answer['widgets'].get('#%s_id' % name)
            if option['param_type'] == 'slider':
                o = widget['options']
                require((o['min'], o['max'], o['value'], o['step']) == (
                    option['min_value'], option['max_value'], option['value'], option['step']), 'the slider of %r is %r for '
                    '%r', name, o, option)
            elif option['param_type'] == 'checkbox':
                require(widget['options']['state'] == option['value'], 'the switch of %r is %r', name, widget)
        interesting += page.all >= 3 and (page.ends or resets)
    ctx.nontrivial(interesting >= 2)


# ------------------------------------------------------------------------------------ a server that takes its time
@st.composite
def slow_case(draw):
    case = draw(page_case())
    case['params'] = None
    case['actions'] = [a for a in case['actions'] if a[0] not in ('set', 'junk')] or [['play']]
    case['delays'] = draw(st.lists(gen.mix((st.integers(0, 50), 1), (st.integers(50, 1500), 2)), min_size=1, max_size=4))
    # a last press of the button, which is then left alone
    case['actions'] += [['fps', draw(st.sampled_from([5, 10, 20]))], ['wait', 100000], ['play'], ['wait', 300000]]
    return case


def slow_cases():
    return st.lists(slow_case(), min_size=1, max_size=16)


def check_slow(cases, ctx):
    interesting = 0
    for case, answer in zip(cases, on_the_page(cases, ctx)):
        history = 'in %r (simulation of %d rounds, delays of %r ms)' % (case['actions'], case['rounds'], case['delays'])
        # what the charts show never comes from before the last reset, and nothing is missing
        resets = 0
        for action, seen in zip(case['actions'], answer['log']):
            resets += action[0] == 'reset'
            first, second = seen['shown']
            require(first == list(range(0 if resets else 1, (0 if resets else 1) + len(first))) and
                    second == [-x for x in first], 'the charts are given %r since the last reset %s', first, history)
        require(len(first) == answer['log'][-1]['rounds'] + bool(resets), 'the charts are given %r in the end, %d rounds were '
                'simulated since the last reset %s', first, answer['log'][-1]['rounds'], history)
        # when steps are asked for
        pending, resets, outdated = [], 0, 0
        answered_at, speed, fps = None, 3, 3
        for event in answer['trace']:
            if event['what'] == 'answer':
                pending.pop(0)
                answered_at, speed = event['at'], fps
                outdated += event['epoch'] < resets
                continue
            fps = event['fps']
            if event['what'] == 'action':
                label = event['label']
                continue
            if event['type'] == 'get_step' and event['click']:
                require(label == 'Start', 'a step is asked for by a click although the button reads %r %s', label, history)
            elif event['type'] == 'get_step':
                require(event['label'] == 'Stop', 'a step is asked for although the button reads %r %s', event['label'], history)
                require(not pending, 'a step is asked for while the answers to %r are due %s', pending, history)
                require(event['at'] >= answered_at + 1000 / speed - 1e-6, 'a step is asked for %r ms after the last answer, at '
                        '%r steps per second %s', event['at'] - answered_at, speed, history)
            resets += event['type'] == 'reset'
            pending.append(event['type'])
        # a running simulation gets to its end
        before, last = answer['log'][-3], answer['log'][-1]
        require(before['label'] != 'Stop', 'the simulation does not end, although it runs for a long time %s', history)
        require(last['label'] == 'Done' and last['rounds'] == case['rounds'], 'the button reads %r in round %d in the end %s',
                last['label'], last['rounds'], history)
        interesting += outdated > 0 or len(answer['trace']) > 12
        ctx.label('answer after a reset' if outdated else 'no answer after a reset')
    ctx.nontrivial(interesting >= 1)


# ------------------------------------------------------------------------------------------------- the start script
def start_cases():
    return st.fixed_dictionaries({'events': st.lists(st.one_of(
        st.just(['get_step']), st.just(['get_step']), st.just(['get_step']),
        st.tuples(st.just('set'), st.integers(0, 30), st.floats(0, 1)).map(list)), min_size=1, max_size=8),
        'n': st.integers(10, 60)})


def started():
    """the server that the start script launches"""
    _, handler, Param = server_class()
    from mesa.visualization.ModularVisualization import ModularServer
    own = drive.need('interactiveViz.myModularVisualization', 'MyModularServer')
    launched, saved = [], [(cls, cls.__dict__.get('launch')) for cls in {ModularServer, own}]
    script = os.path.join(core.REPO, 'interactiveViz', 'runViz.py')
    if not os.path.isfile(script):
        raise Skip('no start script')
    try:
        for cls, _ in saved:
            cls.launch = lambda self, *args, **kwargs: launched.append(self)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                runpy.run_path(script, run_name='__main__')
            except ImportError as e:
                require(False, 'the interactive visualisation does not start: %r', e)
    finally:
        for cls, launch in saved:
            cls.launch = launch
    require(len(launched) == 1, 'the start script launches %d servers', len(launched))
    return launched[0], Param


def check_start(case, ctx):
    ctx.fresh_dir()
    server, Param = started()
    answers = []
    handler = object.__new__(server.socket_handler[1])
    handler.application = server
    handler.write_message = lambda message, binary=False: answers.append(
        json.loads(json.dumps(drive.plain(message), default=float)))

    def ask(*message):
        del answers[:]
        with contextlib.redirect_stdout(io.StringIO()):
            handler.on_message(json.dumps(message_of(list(message))))
        return list(answers)

    handler.open()
    settable = sorted(answers[0]['params'])
    require('n' in settable and 'k' in settable, 'only the parameters %r can be set', settable)
    lines = [[s['label'] for s in e.series] for e in server.visualization_elements if 'MyChartModule' in e.js_code]
    require(len(server.visualization_elements) == len(lines) + 2, 'the page does not have a bubble and a stacked chart')
    current = {name: getattr(v, 'value', v) for name, v in server.model_kwargs.items()}

    def make():
        return drive.engine().Simulation(**dict(current, execution_id='twin'))

    def same(when):
        d = drive.difference(drive.state_digest(twin), drive.state_digest(server.model))
        require(d is None, '%s, the visualisation does not show the parameters %r: %s', when, current, d)

    def shown(answer, expected, when):
        require(len(answer) == 1 and answer[0]['type'] == 'viz_state', '%s, the server answers %.300r', when, answer)
        rest, values = [], iter(answer[0]['data'])
        bubbles = stacked = None
        for element, value in zip(server.visualization_elements, values):
            if 'MyChartModule' in element.js_code:
                rest.append(value)
            elif 'BubbleChartModule' in element.js_code:
                bubbles = value
            else:
                stacked = Session.keyed(value)
        for names, value in zip(lines, rest):
            c27.check_line(value, names, twin.datacollector.model_vars, expected, when)
        c27.check_bubbles(bubbles, True, expected, when)
        c27.check_stacked(stacked, True, expected, when)

    twin = make()
    same('at the start')
    sizes, rounds, pools = max((s.get('Num_pools', 0) for e in server.visualization_elements for s in e.series)), 0, 0
    for i, event in enumerate([['set', settable.index('n'), None]] + case['events']):
        when = 'after event %d (%r)' % (i, event)
        if event[0] == 'set':
            name = settable[event[1] % len(settable)]
            option = server.user_params[name]
            if name == 'n':
                value = case['n'] if event[2] is None else 10 + int(event[2] * 50)
                require(option['max_value'] is None or option['max_value'] <= sizes, 'up to %r stakeholders can be '
                        'simulated, the stacked chart has room for %r', option['max_value'], sizes)
            elif option['param_type'] in ('slider', 'number'):
                low = 0 if option['min_value'] is None else option['min_value']
                high = 1000 if option['max_value'] is None else option['max_value']
                if name == 'inactive_stake_fraction':
                    high = 0.9
                step = option['step'] or 1
                value = low + round((high - low) * event[2] / step) * step
                value = int(value) if all(isinstance(x, int) for x in (low, high, step)) else round(value, 6)
            else:
                continue
            ask('submit_params', name, value)
            current[name] = value
            if current.get('cost_min', 0) > current.get('cost_max', 1):
                ask('submit_params', 'cost_max', current['cost_min'])
                current['cost_max'] = current['cost_min']
            twin = make()
            shown(ask('reset'), None, when)
        elif twin.running:
            expected = c27.Expected(twin)
            twin.step()
            rounds += 1
            pools = max(pools, len(expected.snap.pools))
            shown(ask('get_step'), expected, when)
        else:
            require(ask('get_step') == [{'type': 'end'}], '%s, the server goes on after the end', when)
        same(when)
    ctx.nontrivial(rounds >= 2 and pools >= 2)


EXPERIMENTS = [
    Experiment('server', cases, check_server, 500, 15000),
    Experiment('page', page_cases, check_page, 160, 4000),
    Experiment('slow', slow_cases, check_slow, 160, 4000),
    Experiment('start', start_cases, check_start, 48, 1500),
    Experiment('served', cases, check_served, 48, 1500),
]
