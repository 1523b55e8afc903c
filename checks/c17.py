import numpy as np

import queueing_tool as qt

from lib import world
from lib.runner import Info, expect, fail

ID = 'C17'
QUICK = 6000
THOROUGH = 200000
TECHNIQUE = 'differential property-based testing: a used and cleared object against a newly built one, and twins with and without clear_data'
NOTE = ('A random network or queue is simulated and operated on, then cleared; its state must be that of a newly built one to which only the '
        'settings were applied, and from the same random state both must have the same history. For clear_data the twin is the same object without it.')
RULE = ('a random network or queue with operations before clearing and after; non-trivial = at least 15 events before and 10 after')
MIN_LABELS = {'net': 0.4, 'queue': 0.2, 'clear': 0.4, 'cleardata': 0.15, 'had-data': 0.3, 'waiting': 0.1, 'blocked': 0.1, 'settings': 0.2,
              'rejected': 0.2}
SETTINGS = ('servers', 'block', 'trans', 'maxa', 'start', 'stop')
COLORS = ('vertex_color', 'vertex_fill_color', 'edge_color')


def gen(R, tier):
    kind = R.weighted({'net': 3, 'queue': 2})
    c = world.gen_net(R) if kind == 'net' else world.gen_queue(R)
    c['null'] = R.bool()
    c['what'] = R.choice(['clear', 'clear', 'cleardata', 'cleardata']) if kind == 'net' else 'clear'
    c['pre'] = [['sim', R.int(1, 70) if R.bool(39, 40) else R.int(300, 2500)]] + [world.gen_op(R, c) for _ in range(R.int(0, 4))]
    c['mid'] = R.bool(1, 3)
    c['post'] = [['sim', R.int(5, 50)]] + [world.gen_op(R, c) for _ in range(R.int(0, 2))]
    if kind == 'net' and R.bool(1, 4):
        c['init2'] = {'queues': R.subset(range(len(c['edges'])), 1)}
    c['sel'] = R.subset(range(len(c['edges'])), 1) if kind == 'net' and R.bool() else None
    return c


def queues(x):
    return x.edge2queue if isinstance(x, qt.QueueNetwork) else [x]


def bare(s):
    """The state without the colors of the drawing."""
    s = dict(s)
    if 'graph' in s:
        g = s['graph'] = dict(s['graph'])
        for k in ('ec', 'vc', 'vf'):
            del g[k]
        for k in ('nodes', 'edges'):
            g[k] = {e: {p: x for p, x in d.items() if p not in COLORS} for e, d in g[k].items()}
    return s


def start(x, case, second=False):
    if case['kind'] == 'queue':
        return x.set_active()
    init = case.get('init2') if second else None
    try:
        world.initialize(x, dict(case, init=init or case['init']))
    except qt.QueueingToolError:
        world.initialize(x, case)


def check(case):
    labels = {case['kind'], case['what']}
    a = world.build(case, init=False)
    start(a, case)
    if case['what'] == 'cleardata':
        return clear_data(a, case, labels)
    done = []
    for o in case['pre']:
        world.apply(a, o, case)
        if o[0] in SETTINGS:
            done.append(o)
            labels.add('settings')
    n0 = size(a)
    notes(a, labels)
    for k in range(2 if case['mid'] else 1):
        a.clear()
        empty(a)
    f = world.build(case, init=False)
    for o in done:
        world.apply(f, o, case)
    for p, q in zip(queues(f), queues(a)):
        if isinstance(q, qt.ResourceQueue):
            p.num_servers, p.over_max = q.num_servers, 0      # resources may have been taken
    world.same(bare(world.state(f)), bare(world.state(a)), 'newly built and cleared')
    if case['kind'] == 'net':
        try:
            a.simulate(n=3)
            fail('a cleared network could be simulated without initializing it')
        except qt.QueueingToolError:
            labels.add('rejected')
    logs, ends = [], []
    for x in (f, a):
        np.random.seed(case['seed'] + 5)
        world.LOG = []
        start(x, case, True)
        out = [bare(world.state(x))]
        for o in case['post']:
            world.apply(x, o, case)
            out.append(bare(world.state(x)))
        logs.append(world.LOG)
        ends.append(out)
    if logs[0] != logs[1]:
        j = next((j for j, (p, q) in enumerate(zip(*logs)) if p != q), min(map(len, logs)))
        fail('hook call {0} of the new one is {1}, of the cleared one {2}', j, logs[0][j:j + 1], logs[1][j:j + 1])
    for i, (p, q) in enumerate(zip(*ends)):
        world.same(p, q, 'newly built and cleared, after initializing and {0} operations', i)
    return Info(n0 >= 15 and len(logs[0]) >= 10, labels, n0 + len(logs[0]))


def size(x):
    return x.num_events if isinstance(x, qt.QueueNetwork) else x.num_departures + x.num_arrivals[0]


def notes(x, labels):
    for q in queues(x):
        if q.data:
            labels.add('had-data')
        if q.number_queued():
            labels.add('waiting')
        if getattr(q, 'num_blocked', 0):
            labels.add('blocked')


def empty(x):
    """What the documentation says about a cleared queue or network."""
    inf = np.inf
    for q in queues(x):
        got = (q.num_system, q.number_queued(), q.data, len(q.fetch_data()), q.num_arrivals, q.num_departures, q.current_time, q.time,
               q.active, q.next_event_description(), getattr(q, 'num_blocked', 0), getattr(q, 'over_max', 0))
        want = (0, 0, {}, 0, [0, 0], 0, 0, inf, False, 0, 0, 0)
        expect(got == want, 'cleared queue {0}: {1}, expected {2}', q.edge, got, want)
        if isinstance(q, qt.InfoQueue):
            expect((q.net_data == -1).all(), 'cleared info queue {0} still has information', q.edge)
    if isinstance(x, qt.QueueNetwork):
        got = (x.num_events, x.num_agents.tolist(), x.current_time, x.time, tuple(x.next_event_description()))
        want = (0, [0] * x.nE, 0, inf, ('Nothing', None))
        expect(got == want, 'cleared network: {0}, expected {1}', got, want)


def drop(s, sel):
    """The state without the data of the selected queues."""
    s = dict(s)
    if 'queues' in s:
        s['queues'] = [{k: v for k, v in q.items() if i not in sel or k not in ('data', 'rows')} for i, q in enumerate(s['queues'])]
        del s['rows'], s['adata']
    return s


def clear_data(a, case, labels):
    b = world.build(case, init=False)           # the twin, which keeps its data
    outs = []
    for x in (a, b):
        np.random.seed(case['seed'] + 5)
        if x is b:
            start(x, case)
        else:
            x = a = world.build(case, init=False)
            np.random.seed(case['seed'] + 5)
            start(x, case)
        world.LOG = []
        for o in case['pre']:
            world.apply(x, o, case)
        sel = case['sel'] if case['sel'] is not None else list(range(len(queues(x))))
        if x is a:
            n0 = size(x)
            notes(x, labels)
            before = world.state(x)
            if case['sel'] is None:
                x.clear_data()
            else:
                x.clear_data(queues=case['sel'])
            after = world.state(x)
            for k in sel:
                expect(queues(x)[k].data == {} and len(queues(x)[k].fetch_data()) == 0, 'queue {0} has data after clear_data', k)
            world.same(drop(before, sel), drop(after, sel), 'clear_data changed something else')
            rest = [k for k in range(x.nE) if k not in sel]
            expect(sorted(world.plain(x.get_queue_data())) == sorted(r for k in rest for r in before['queues'][k]['rows']), 'data of cleared queues are returned')
        out = []
        for o in case['post']:
            world.apply(x, o, case)
            out.append(drop(world.state(x), sel))
        outs.append((world.LOG, out))
    expect(outs[0][0] == outs[1][0], 'the history after clear_data differs from that without it')
    world.same(outs[0][1], outs[1][1], 'states after clear_data and without')
    return Info(n0 >= 15 and len(outs[0][0]) >= 10, labels, n0 + len(outs[0][0]))
