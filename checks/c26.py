import numpy as np

import queueing_tool as qt

from lib import picture, world
from lib.runner import Info, expect

ID = 'C26'
QUICK = 1200
THOROUGH = 120000
TECHNIQUE = 'stateful property-based testing of drawings: the artists of every figure against the colors and places computed from the state'
NOTE = ('Random networks (all queue classes, loops, sinks with and without terminal loops, isolated vertices, own colors and sensitivities) are simulated, changed and '
        'drawn in a random order; figures are captured where matplotlib would save them and compared with the documented shades and positions.')
RULE = 'a random network and a history of simulation and drawing steps; non-trivial = at least 3 drawings of 2 kinds, 4 edges and 10 events'
MIN_LABELS = {'active': 0.35, 'args': 0.12, 'busy': 0.3, 'changed': 0.35, 'draw': 0.4, 'drawpos': 0.12, 'isolated': 0.18, 'loop': 0.4, 'moved': 0.2, 'old': 0.2,
              'old colors': 0.09, 'own colors': 0.3, 'own network colors': 0.24, 'placed': 0.22, 'reset': 0.13, 'resource': 0.12, 'some active': 0.23,
              'some typed': 0.2, 'spring layout': 0.25, 'terminal loop': 0.18, 'type': 0.35, 'typed loop': 0.14}


def gen(R, tier):
    c = picture.gen_net(R, caps=False)
    ops = []
    for _ in range(R.int(4, 12)):
        k = R.weighted({'sim': 6, 'draw': 5, 'old': 2, 'active': 3, 'type': 3, 'reset': 1, 'op': 3, 'pos': 1, 'drawpos': 1, 'args': 1})
        if k == 'sim':
            ops.append([k, R.int(1, 60)])
        elif k == 'type':
            ops.append([k, R.choice([0, 1, 1, 2, 2, 3, 4, 9] + c['types'] * 2)])
        elif k == 'op':
            ops.append(world.gen_op(R, c, {'servers': 4, 'inactive': 2, 'active': 2}))
        elif k in ('pos', 'drawpos'):
            ops.append([k, R.int(0, 99)])
        else:
            ops.append([k])
    c['ops'] = ops + [[R.choice(['draw', 'active', 'type', 'draw'])]]
    c['begin'] = R.bool(9, 10)
    return c


def spots(s, n):
    return {v: np.array([((v + s) * 37 % 11) / 7., ((v * s + 3) * 17 % 23) / 5. - 1]) for v in reversed(range(n))}


def check(case):
    labels = set()
    n = case['nv'] + case['isolated']
    picture.pristine()
    net = world.build(case, init=False)
    pal = picture.Palette(net, case)
    g = net.g
    where = [world.place(v) for v in range(n)] if case['pos'] else None
    where_set = bool(where)
    if case['isolated']:
        labels.add('isolated')
    for q in net.edge2queue:
        a = case['args'].get(str(q.edge[3]), {})
        for k, v in (a.get('colors') or {}).items():
            if q.edge[3] != 0:
                expect(list(q.colors[k]) == v, 'queue {0}: {1} is {2}, expected {3}', q.edge, k, q.colors[k], v)
        if q.edge[3] != 0 and a.get('colors'):
            labels.add('own colors')
        if q.edge[0] == q.edge[1]:
            labels.add('terminal loop' if q.edge[3] == 0 else 'loop')
        if isinstance(q, qt.ResourceQueue):
            labels.add('resource')
    for k in picture.NKEYS:
        want = (case.get('colors') or {}).get(k, picture.pristine()['net'][k])
        expect(list(net.colors[k]) == list(want), 'network color {0} is {1}, expected {2}', k, net.colors[k], want)
    if case.get('colors'):
        labels.add('own network colors')

    def defaults(reset):
        out = []
        for q, colors in zip(net.edge2queue, pal.queue):
            loop = q.edge[0] == q.edge[1]
            if reset and loop:
                out.append([list(colors['edge_loop_color']), list(colors['edge_color'])])
            else:
                out.append(list(colors['edge_loop_color' if loop else 'edge_color']))
        return out

    nv = len(g.nodes())
    expect(nv == n, 'the graph has {0} vertices, expected {1}', nv, n)
    what = 'after construction'
    # colors that the next drawing without an update has to show; None: not determined
    old = (defaults(False), [None] * n, [None] * n)
    picture.match(net, picture.capture(net.draw, update_colors=False), old, what, where)
    if where is None:
        where = [tuple(g.vp(v, 'pos')) for v in range(n)]
    if case['begin']:
        world.initialize(net, case)
    kinds, drawings, changed = set(), 0, False
    for i, o in enumerate(case['ops']):
        k = o[0]
        what = 'operation {0} {1}'.format(i, o)
        if k == 'sim':
            if case['begin']:
                net.simulate(n=o[1])
            changed = True
            continue
        if k == 'pos':
            p = spots(o[1], n)
            g.set_pos(p if o[1] % 3 else np.array([p[v] for v in range(n)]))
            where = [tuple(p[v]) for v in range(n)]
            labels.add('moved')
            continue
        if k == 'reset':
            net.reset_colors()
            old = (defaults(True), [list(pal.net['vertex_fill_color'])] * n, [None] * n)
            for q, c in zip(net.edge2queue, old[0]):
                got = list(g.ep(q.edge[:2], 'edge_color'))
                expect(got in c if isinstance(c[0], list) else got == c, '{0}: the edge {1} has color {2}, expected {3}', what, q.edge, got, c)
            labels.add('reset')
            continue
        if k in ('servers', 'active', 'inactive') and len(o) > 1:
            if case['begin']:
                world.apply(net, o, case)
            continue
        drawings += 1
        kinds.add(k)
        if k == 'old':
            pic = picture.capture(net.draw, update_colors=False)
            picture.match(net, pic, old, what, where)
            if changed:
                labels.add('old colors')
            continue
        if k in ('draw', 'drawpos', 'args'):
            kw = {}
            if k == 'drawpos':
                p = spots(o[1], n)
                kw['pos'] = p if o[1] % 3 else np.array([p[v] for v in range(n)])
                where = [tuple(p[v]) for v in range(n)]
                labels.add('moved')
            want = picture.expected(net, pal)
            pic = picture.capture(net.draw, **kw)
            old = want
            if k == 'args':
                lines, points = g.lines_scatter_args()
                for name, got, w in (('colors', lines['colors'], want[0]), ('c', points['c'], want[1]), ('edgecolors', points['edgecolors'], want[2])):
                    for x, y in zip(got, w):
                        expect(picture.near(list(x), y), '{0}: lines_scatter_args gives {1} {2}, expected {3}', what, name, list(x), y)
            if any(q.num_system for q in net.edge2queue):
                labels.add('busy')
            if changed:
                labels.add('changed')
            changed = False
        elif k == 'active':
            active = [q.active for q in net.edge2queue]
            want = ([list(pal.net['edge_active' if a else 'edge_inactive']) for a in active],
                    [list(pal.net['vertex_active' if any(a and q.edge[1] == v for a, q in zip(active, net.edge2queue)) else 'vertex_inactive']) for v in range(n)],
                    [picture.BLACK] * n)
            pic = picture.capture(net.show_active)
            old = picture.expected(net, pal)
            if any(active) and not all(active):
                labels.add('some active')
        else:
            t = o[1] if len(o) > 1 else 1
            typed = [q.edge[3] == t for q in net.edge2queue]
            loops = {q.edge[0]: q for q in net.edge2queue if q.edge[0] == q.edge[1] and q.edge[3] == t}
            want = ([list(pal.net['edge_active' if a else 'edge_inactive']) for a in typed],
                    [list(pal.net['vertex_highlight' if v in loops else 'vertex_inactive']) for v in range(n)],
                    [picture.loop_pen(loops[v], pal.queue[loops[v].edge[2]]) if v in loops else picture.BLACK for v in range(n)])
            pic = picture.capture(net.show_type, edge_type=t)
            old = picture.expected(net, pal)
            if loops:
                labels.add('typed loop')
            if any(typed) and not all(typed):
                labels.add('some typed')
        picture.match(net, pic, want, what, where)
    for who, got, want in [(q.edge, q.colors, w) for q, w in zip(net.edge2queue, pal.queue)] + [('network', net.colors, pal.net)]:
        for k, w in want.items():
            expect(picture.near(list(got[k]), w), '{0}: drawing changed the color {1} from {2} to {3}', who, k, w, got[k])
    labels |= kinds
    labels.add('placed' if where_set else 'spring layout')
    labels.add('pos {0}'.format(case['pos']))
    return Info(len(kinds) >= 2 and drawings >= 3 and len(net.edge2queue) >= 4 and net.num_events >= 10, labels, drawings)
