"""What a drawing of a network shows, and what it should show."""
import copy
import io

import numpy as np

import queueing_tool as qt
from lib import world
from lib.runner import expect

QKEYS = ('edge_loop_color', 'edge_color', 'vertex_fill_color', 'vertex_color')
NKEYS = ('vertex_fill_color', 'vertex_color', 'vertex_highlight', 'vertex_active', 'vertex_inactive', 'edge_active', 'edge_inactive')
BLACK = [0, 0, 0, 0.9]
PRISTINE = {}


def pristine():
    """The default colors, read before any drawing could have changed them."""
    if not PRISTINE:
        for c in (qt.QueueServer, qt.LossQueue, qt.InfoQueue, qt.ResourceQueue, qt.NullQueue):
            PRISTINE[c] = copy.deepcopy(c().colors)
        PRISTINE['net'] = copy.deepcopy(qt.QueueNetwork.default_colors)
        PRISTINE['types'] = copy.deepcopy(qt.QueueNetwork.default_q_colors)
    return PRISTINE


class Palette(object):
    """The colors the network of a case was given, whatever became of them."""

    def __init__(self, net, case):
        base = pristine()
        self.queue = []
        for q in net.edge2queue:
            t = q.edge[3]
            own = case['args'].get(str(t), {}).get('colors') if t else None
            self.queue.append(dict(base[type(q)], **(own or base['types'].get(t, base['types'][1]))))
        self.net = dict(base['net'], **(case.get('colors') or {}))


def color(R):
    return [R.int(0, 20) / 20. for _ in range(3)] + [R.choice([1.0, 0.5, 0.25])]


def gen_net(R, nmax=5, **kw):
    """A random network with everything that matters to a drawing."""
    c = world.gen_net(R, nmax=nmax, **kw)
    c['max'] = None
    c['isolated'] = R.choice([0, 0, 0, 1, 2])
    c['adjust'] = R.choice([1, 2])
    c['order'] = R.perm(c['nv'])
    if c['adjust'] == 1:
        # sinks have loops of type 0, so the numbers of the edges are others
        c['init'] = {'nActive': R.int(1, 4)}
    for a in c['args'].values():
        if R.bool(1, 2):
            a['colors'] = {k: color(R) for k in R.subset(QKEYS + ('vertex_pen_color',), 1)}
        if R.bool(1, 2):
            a['sens'] = R.int(1, 6)
        if R.bool(1, 3) and a['arr']:
            a['arr'][1] = 0.1
    if R.bool(1, 2):
        c['colors'] = {k: color(R) for k in R.subset(NKEYS, 1)}
    if R.bool(1, 4):
        outs = {u for u, _ in c['edges']}
        zero = [i for i, e in enumerate(c['edges']) if R.bool(1, 3)]
        if any(i not in zero and e[1] in outs for i, e in enumerate(c['edges'])):
            c['types'] = [0 if i in zero else t for i, t in enumerate(c['types'])]
            c['init'] = {'nActive': R.int(1, 4)}
    return c


class Picture(object):
    """The artists of a figure: a line for each edge, a point for each vertex."""
    def __init__(self, fig):
        from matplotlib.collections import LineCollection, PathCollection
        lines = [c for ax in fig.axes for c in ax.collections if isinstance(c, LineCollection)]
        points = [c for ax in fig.axes for c in ax.collections if isinstance(c, PathCollection)]
        expect(len(lines) == 1 and len(points) == 1, 'the figure has {0} line and {1} point collections', len(lines), len(points))
        self.segments = [np.array(s) for s in lines[0].get_segments()]
        self.edges = np.array(lines[0].get_colors())
        self.places = np.array(points[0].get_offsets())
        self.fill = np.array(points[0].get_facecolors())
        self.pen = np.array(points[0].get_edgecolors())


def capture(draw, **kw):
    """Calls draw, which should save one figure, and returns its picture."""
    import matplotlib.figure
    import matplotlib.pyplot as plt
    seen = []
    real = matplotlib.figure.Figure.savefig

    def savefig(fig, *args, **kwargs):
        seen.append(Picture(fig))
    matplotlib.figure.Figure.savefig = savefig
    try:
        draw(fname=io.BytesIO(), figsize=(1, 1), **kw)
    finally:
        matplotlib.figure.Figure.savefig = real
        plt.close('all')
    expect(len(seen) == 1, 'drawing saved {0} figures', len(seen))
    return seen[0]


def shade(color, f, alpha):
    return [color[0] * f, color[1] * f, color[2] * f, alpha]


def queue_shade(q, colors):
    """The color of the edge of a queue or, if it is a loop, of the inside of its vertex."""
    loop = q.edge[0] == q.edge[1]
    base = colors['vertex_fill_color' if loop else 'edge_color']
    if isinstance(q, qt.NullQueue):
        return list(base)
    if isinstance(q, qt.ResourceQueue):
        n, top = q.num_servers, q.max_servers
        f = (0.9 - min(n / (5. if top <= 1 else 3. * top), 0.9)) / 0.9
    else:
        f = 1. - min(q.num_system / (q.coloring_sensitivity * q.num_servers + 1.), 1.)
    return shade(base, f, 1.0 if loop else 0.5)


def loop_color(q, colors):
    c = list(colors['edge_loop_color'])
    if isinstance(q, qt.ResourceQueue):
        n, top = q.num_servers, q.max_servers
        c = shade(c, (0.9 - min(n / (5. if top <= 1 else 3. * top), 0.9)) / 0.9, 0.0)
    return c


def loop_pen(q, colors):
    return list(colors['vertex_pen_color' if isinstance(q, qt.ResourceQueue) else 'vertex_color'])


def expected(net, pal):
    """(edge colors, fill colors, pen colors) of a drawing of the current state."""
    nV = len(net.g.nodes())
    edges, fill, pen = [], [None] * nV, [None] * nV
    for q, colors in zip(net.edge2queue, pal.queue):
        u, v = q.edge[:2]
        if u == v:
            edges.append(loop_color(q, colors))
            pen[v] = loop_pen(q, colors)
            if q.edge[3] != 0:
                fill[v] = queue_shade(q, colors)
        else:
            edges.append(queue_shade(q, colors))
    for v in range(nV):
        if pen[v] is None:
            pen[v] = list(pal.net['vertex_color'])
        if fill[v] is None:
            into = [q for q in net.edge2queue if q.edge[1] == v]
            n, c = sum(q.num_system for q in into), sum(q.num_servers for q in into)
            fill[v] = shade(pal.net['vertex_fill_color'], 1. - min(n / (2. * c + 2.), 1.), 1.0)
    return edges, fill, pen


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 for x, y in zip(a, b))


def match(net, pic, colors, what, places=None):
    edges, fill, pen = colors
    nV = len(fill)
    for name, got, want in (('edges', pic.edges, edges), ('insides of vertices', pic.fill, fill), ('borders of vertices', pic.pen, pen)):
        expect(len(got) == len(want), '{0}: colors for {1} {2}, expected {3}', what, len(got), name, len(want))
        for k, (x, y) in enumerate(zip(got, want)):
            if y is None:
                continue
            ok = any(near(x, z) for z in y) if y and isinstance(y[0], list) else near(x, y)
            expect(ok, '{0}: {1}: number {2} ({3}) has color {4}, expected {5}', what, name, k,
                   (net.edge2queue[k].edge[:2], net.edge2queue[k]) if name == 'edges' else [q for q in net.edge2queue if q.edge[1] == k], list(x), y)
    expect(len(pic.places) == nV and len(pic.segments) == len(edges), '{0}: {1} points and {2} lines', what, len(pic.places), len(pic.segments))
    if places is None:
        places = [tuple(net.g.vp(v, 'pos')) for v in range(nV)]
    for v in range(nV):
        expect(near(pic.places[v], places[v]), '{0}: vertex {1} drawn at {2}, its position is {3}', what, v, list(pic.places[v]), places[v])
    for k, q in enumerate(net.edge2queue):
        s, ends = pic.segments[k], [places[q.edge[0]], places[q.edge[1]]]
        expect(len(s) == 2 and near(s[0], ends[0]) and near(s[1], ends[1]), '{0}: edge {1} drawn from {2}, its vertices are at {3}', what, q.edge[:2], s.tolist(), ends)
