import numpy as np

import queueing_tool as qt

from checks import c32
from lib import world
from lib.runner import Info, expect, fail

ID = 'C16'
QUICK = 2600
THOROUGH = 150000
TECHNIQUE = 'differential, stateful property-based testing: original and copy driven by the same operations from the same random state'
NOTE = ('A random network or queue is copied at a random moment; the copy must have the same observable state. Then the same generated '
        'operations (simulating, clearing, re-initializing, routing, servers, activity, collecting, drawing, copying, selecting, colors, properties, positions) are applied to '
        'one and, from the same random state, to the other: results, hook calls and states must agree, and neither may see what is done to the other.')
RULE = ('a random network or queue, operations before the copy and after it; non-trivial = at least 10 events before, 10 after and 3 kinds of operation after')
MIN_LABELS = {'net': 0.5, 'queue': 0.2, 'drawn': 0.1, 'cleared': 0.15, 'copy-first': 0.3, 'mid-line': 0.2, 'uninitialized': 0.03, 'servers': 0.2, 'animated': 0.02, 'own': 0.15}


def op(R, c, extra):
    k = R.weighted({'base': 8, 'look': 3, 'extra': 2, 'own': 2} if extra else {'base': 1})
    if k == 'base':
        return world.gen_op(R, c)
    if k == 'look':
        return ['look', R.weighted(world.OBSERVERS if c['kind'] == 'net' else {'state': 3, 'repr': 1, 'copy': 2, 'next': 1, 'data': 1})]
    if k == 'own':                          # colors, properties and positions
        o = c32.gen_own(R, c)
        # (a color changed in place may be the graph's, too, in the original)
        return o if o[0] != 'stretch' else ['recolor', o[1], o[2], [0.5, 0.25, 0.625, 1.0]]
    if c['kind'] == 'net':
        return R.choice([['reset'], ['animate', R.int(1, 4)], ['clear'], ['init'], ['select', R.int(0, 30)], ['pos', R.int(0, 9)]])
    return ['clear']


def gen(R, tier):
    kind = R.weighted({'net': 5, 'queue': 2})
    c = world.gen_net(R, ties=False) if kind == 'net' else world.gen_queue(R, ties=False)
    c['null'] = R.bool()
    c['begin'] = R.bool(7, 8)
    c['first'] = R.choice(['original', 'copy'])
    c['again'] = R.bool(1, 6)
    c['pre'] = [['sim', R.int(1, 70) if R.bool(39, 40) else R.int(300, 2500)]] + [op(R, c, False) for _ in range(R.int(0, 3))] if c['begin'] else []
    c['post'] = [op(R, c, True) for _ in range(R.int(3, 8))] + [['sim', R.int(5, 40)]]
    return c


def perform(x, o, case, labels):
    k = o[0]
    if k == 'look':
        if o[1] in ('draw', 'active', 'type'):
            labels.add('drawn')
        r = world.observe(x, o[1], case)
        return r
    if k == 'reset':
        return x.reset_colors()
    if k == 'clear':
        x.clear()
        labels.add('cleared')
        return None
    if k == 'animate':
        labels.add('animated')
        return animate(x, o[1])
    if k == 'pos':
        return x.g.set_pos({v: np.array([v + o[1], -v]) for v in x.g.nodes()})
    if k == 'select':
        e = x.edge2queue[o[1] % len(x.edge2queue)].edge
        x.start_collecting_data(edge=e[:2])
        return world.plain(x.get_queue_data(edge=[e[:2]])), world.plain(x.get_agent_data(edge_type=e[3])), x.g.get_edge_type(e[3])
    if k == 'servers':
        labels.add('servers')
    if k in c32.OWN:
        labels.add('own')
    return c32.apply(x, o, case)


def animate(x, frames):
    import matplotlib.pyplot as plt
    try:
        x.animate(frames=frames, filename='unused', writer=world.NullWriter(), figsize=(1, 1), dpi=20)
    finally:
        plt.close('all')


def run(x, ops, case, labels):
    world.LOG = []
    out = []
    for i, o in enumerate(ops):
        try:
            out.append(world.plain(perform(x, o, case, labels)))
        except qt.QueueingToolError as e:
            out.append(('error', str(e)))
        out.append(len(world.LOG))
        out.append(world.state(x))
    return out, world.LOG


def total(x):
    return x.num_events if isinstance(x, qt.QueueNetwork) else x.num_departures + x.num_arrivals[0]


def check(case):
    labels = {case['kind']}
    net = case['kind'] == 'net'
    a = world.build(case, init=False)
    if case['begin']:
        if net:
            world.initialize(a, case)
        else:
            a.set_active()
    else:
        labels.add('uninitialized')
    for o in case['pre']:
        world.apply(a, o, case)
    n0 = total(a)
    if any(q.number_queued() for q in (a.edge2queue if net else [a])):
        labels.add('mid-line')
    rng = np.random.get_state()
    before = world.state(a)
    b = a.copy()
    expect(type(b) is type(a), 'the copy is a {0}', type(b).__name__)
    if case['again']:
        b = b.copy()
    world.same(before, world.state(a), 'taking a copy changed the original')
    world.same(before, world.state(b), 'the copy differs from the original')
    first, other = (a, b) if case['first'] == 'original' else (b, a)
    if case['first'] == 'copy':
        labels.add('copy-first')
    np.random.set_state(rng)
    r1, log1 = run(first, case['post'], case, labels)
    s1 = world.state(first)
    world.same(before, world.state(other), 'operations on the {0} are visible in the other', case['first'])
    np.random.set_state(rng)
    r2, log2 = run(other, case['post'], case, set())
    if log1 != log2:
        j = next((j for j, (p, q) in enumerate(zip(log1, log2)) if p != q), min(len(log1), len(log2)))
        fail('after operations on the {0}, then the other: hook call {1} was {2}, then {3}', case['first'], j, log1[j:j + 1], log2[j:j + 1])
    for i, (p, q) in enumerate(zip(r1, r2)):
        world.same(p, q, 'after operation {0} {1} on both, {2} first ({3})', i // 3, case['post'][i // 3], case['first'],
                   ('result', 'hook calls', 'state')[i % 3])
    world.same(s1, world.state(first), 'operations on the other one are visible in the {0}', case['first'])
    return Info(n0 >= 10 and len(log1) >= 10 and len({o[0] for o in case['post']}) >= 3, labels, n0 + len(log1))
