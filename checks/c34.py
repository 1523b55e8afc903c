import copy
import math

import networkx as nx
import numpy as np

import queueing_tool as qt

from lib.runner import Info, expect

ID = 'C34'
QUICK = 12000
THOROUGH = 800000
TECHNIQUE = 'model-based stateful property-based testing: properties of a graph against a table of what was set, lengths against great circles up to a constant'
NOTE = ('Random graphs (any vertex order, loops, string property names that networkx also uses) go through generated sequences of setting properties of edges and vertices, '
        'positions and colors, adding edges and copying; after each operation every accessor is compared with the model.')
RULE = 'a random graph and a sequence of operations; non-trivial = at least 3 vertices, 3 edges, and at least 6 operations of 4 kinds'
MIN_LABELS = {'edge property': 0.5, 'vertex property': 0.5, 'overwritten': 0.2, 'edge color': 0.15, 'vertex color': 0.15, 'moved': 0.15, 'placed': 0.2, 'type': 0.2, 'added': 0.2,
              'lengths': 0.15, 'copied': 0.15, 'class name': 0.1, 'new': 0.2, 'unordered': 0.3, 'spring': 0.05}

NAMES = ['label', 'load', 'edge_pen_width', 'size', 'degree', 'nodes', 'name', 'x']
VALUES = [0, 1, 2.5, 'a', None, True, [1, 2], 'pos']


def gen(R, tier):
    n = R.choice([1, 2, 3, 3, 4, 5, 6, 7])
    edges = [[u, v] for u in range(n) for v in range(n) if R.bool(1, R.choice([2, 3]))] or [[0, n - 1]]
    c = {'n': n, 'edges': [edges[i] for i in R.perm(len(edges))], 'order': R.perm(n), 'form': R.choice(['digraph', 'kinds']), 'ops': [],
         'pos': R.choice([None, None, 'all', 'all', 'some'])}
    c['types'] = [R.choice([None, 1, 2, 3]) for _ in edges]
    ne = len(edges)
    names = R.subset(NAMES, 1)[:3]
    for _ in range(R.int(4, 24)):
        k = R.weighted({'ep': 10, 'vp': 10, 'type': 4, 'newe': 2, 'newv': 2, 'color': 6, 'fill': 4, 'ecolors': 2, 'vcolors': 2, 'ecolor': 6, 'setpos': 4, 'move': 4, 'add': 4, 'lengths': 4, 'copy': 2,
                        'wrap': 2, 'spring': 1})
        e, v = R.int(0, ne + 2) if R.bool() else R.int(0, min(2, ne - 1)), R.int(0, n - 1)
        rgba = [R.int(0, 4) / 4. for _ in range(4)] if R.bool(5, 6) else [0.0] * 4
        xy = [R.int(-30, 30) / 20., R.int(-60, 60) / 20.]
        c['ops'].append([k] + {'ep': [e, R.choice(names), R.choice(VALUES)], 'vp': [v, R.choice(names), R.choice(VALUES)], 'type': [e, R.choice([0, 1, 2, 3, 4, 300, 'int64 2', 'int64 300'])], 'newe': [R.choice(names)],
                               'newv': [R.choice(names)], 'color': [v, rgba], 'fill': [v, rgba], 'ecolor': [e, rgba], 'setpos': [R.int(0, 999), R.choice(['dict', 'array', 'list'])],
                               'move': [v, xy], 'add': [R.int(0, n - 1), R.int(0, n - 1), R.choice([None, None, 'label', 'edge_type'])], 'lengths': [R.choice(['graph', 'digraph'])]}.get(k, []))
    return c


def spot(s, v):
    return [((v + s) * 37 % 61) / 20. - 1.5, ((v * 7 + s * 3) * 17 % 113) / 20. - 2.8]


def equal(a, b):
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        return len(a) == len(b) and all(x == y for x, y in zip(a, b))
    return a is b if a is None or b is None else type(a) is type(b) and a == b if isinstance(a, (bool, str)) or isinstance(b, (bool, str)) else a == b


def angle(a, b):
    """Between two points of a unit sphere, given by latitude and longitude."""
    p, q = ([math.cos(x[0]) * math.cos(x[1]), math.cos(x[0]) * math.sin(x[1]), math.sin(x[0])] for x in (a, b))
    cross = [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]]
    return math.atan2(math.sqrt(sum(x * x for x in cross)), sum(x * y for x, y in zip(p, q)))


class Model(object):
    def __init__(self, case):
        self.n = case['n']
        self.e = {(u, v): ({} if t is None else {'edge_type': t}) for (u, v), t in zip(case['edges'], case['types'])}
        self.v = {v: {} for v in range(self.n)}
        self.index = {e: k for k, e in enumerate(sorted(self.e))}
        self.pos = None                     # the array of positions
        self.ecolor, self.vcolor = None, {'vertex_color': None, 'vertex_fill_color': None}
        if case['pos']:
            for v in range(self.n):
                if case['pos'] == 'all' or v % 2:
                    self.v[v]['pos'] = spot(5, v)
            if case['pos'] == 'all' or self.n == 0:
                self.pos = [spot(5, v) for v in range(self.n)]


def build(case):
    g = nx.DiGraph()
    g.add_nodes_from(case['order'])
    for (u, v), t in zip(case['edges'], case['types']):
        g.add_edge(u, v, **({} if t is None else {'edge_type': t}))
    for v in range(case['n']):
        if case['pos'] == 'all' or case['pos'] and v % 2:
            g.nodes[v]['pos'] = np.array(spot(5, v))
    if case['form'] == 'kinds':             # a network graph made from a network graph
        g = qt.QueueNetworkDiGraph(g)
    return qt.QueueNetworkDiGraph(g)


def compare(g, m, what):
    names = sorted({'pos', 'edge_type', 'edge_color', 'edge_length', 'vertex_color', 'vertex_fill_color'} | set(NAMES))
    expect(sorted(g.nodes()) == list(range(m.n)) and set(g.edges()) == set(m.e), '{0}: vertices {1}, edges {2}, expected {3}', what, list(g.nodes()), list(g.edges()), sorted(m.e))
    for e, props in m.e.items():
        for k in names:
            expect(equal(g.ep(e, k), props.get(k)), '{0}: {1} of edge {2} is {3!r}, expected {4!r}', what, k, e, g.ep(e, k), props.get(k))
    for v, props in m.v.items():
        for k in names:
            expect(equal(g.vp(v, k), props.get(k)), '{0}: {1} of vertex {2} is {3!r}, expected {4!r}', what, k, v, g.vp(v, k), props.get(k))
        expect(sorted(g.out_neighbours(v)) == sorted(b for a, b in m.e if a == v), '{0}: out_neighbours({1}) is {2}', what, v, g.out_neighbours(v))
    expect(set(g.edge_properties()) == {k for p in m.e.values() for k in p}, '{0}: edge_properties() is {1}, expected {2}', what, g.edge_properties(), {k for p in m.e.values() for k in p})
    expect(set(g.vertex_properties()) == {k for p in m.v.values() for k in p}, '{0}: vertex_properties() is {1}', what, g.vertex_properties())
    expect(dict(g.edge_index) == m.index, '{0}: edge_index {1}, expected {2}', what, g.edge_index, m.index)
    for u in range(m.n):
        for v in range(m.n):
            expect(g.is_edge((u, v)) == ((u, v) in m.e), '{0}: is_edge({1}) is {2}', what, (u, v), g.is_edge((u, v)))
    for t in [0, 1, 2, 3, 4, int('300'), np.int64(1), np.int64(300)]:
        got, want = sorted(g.get_edge_type(t)), sorted(e for e, p in m.e.items() if p.get('edge_type') == t)
        expect(got == want, '{0}: get_edge_type({1}) is {2}, expected {3}', what, t, got, want)
    expect((g.pos is None) == (m.pos is None), '{0}: pos is {1}, expected {2}', what, g.pos, m.pos)
    if m.pos is not None:
        expect(np.array_equal(np.asarray(g.pos, float), np.array(m.pos, float).reshape(-1, 2)), '{0}: pos is {1}, expected {2}', what, g.pos, m.pos)
    for name, got, want in (('edge_color', g.edge_color, m.ecolor), ('vertex_color', g.vertex_color, m.vcolor['vertex_color']),
                            ('vertex_fill_color', g.vertex_fill_color, m.vcolor['vertex_fill_color'])):
        expect((got is None) == (want is None), '{0}: {1} is {2}, expected {3}', what, name, got, want)
        if want is not None:
            for k, c in want.items():
                expect(c is None or equal(list(got[k]), c), '{0}: {1}[{2}] is {3}, expected {4}', what, name, k, got[k], c)


def lengths(g, m, what):
    """add_edge_lengths gives lengths proportional to great circles."""
    h = qt.add_edge_lengths(g)
    scale = []
    for e in m.e:
        length, a = h.ep(e, 'edge_length'), angle(m.v[e[0]]['pos'], m.v[e[1]]['pos'])
        expect(length is not None and np.isfinite(length) and length >= 0, '{0}: the length of edge {1} is {2}', what, e, length)
        expect(abs(length * 1000 - round(length * 1000)) < 1e-6, '{0}: the length {2} of edge {1} is not rounded to three digits', what, e, length)
        if a > 1e-9:
            scale.append(((length - 0.000501) / a, (length + 0.000501) / a, e))
        else:
            expect(length < 0.001, '{0}: edge {1} has length {2}, its ends are at the same place', what, e, length)
    if scale:
        lo, hi = max(scale), min(scale, key=lambda s: s[1])
        expect(lo[0] <= hi[1] * (1 + 1e-9) and hi[1] > 0, '{0}: lengths {1} of edge {2} and {3} of edge {4} do not have the ratio of the great circles between their ends', what,
               h.ep(lo[2], 'edge_length'), lo[2], h.ep(hi[2], 'edge_length'), hi[2])
    return h


def check(case):
    labels = {case['pos'] or 'not placed'}
    m, g = Model(case), build(case)
    if case['order'] != sorted(case['order']):
        labels.add('unordered')
    if case['pos'] == 'all':
        labels.add('placed')
    edges = [tuple(e) for e in case['edges']]
    compare(g, m, 'at the start')
    twice, others = set(), []
    for i, o in enumerate(case['ops']):
        k, what = o[0], 'operation {0} {1}'.format(i, o)
        value = copy.deepcopy(o[-1])
        if k == 'ep':
            e = edges[o[1] % len(edges)]
            g.set_ep(e, o[2], value)
            twice.add('overwritten' if m.e[e].get(o[2]) is not None else k)
            m.e[e][o[2]] = o[3]
            labels.add('edge property')
        elif k == 'vp':
            g.set_vp(o[1], o[2], value)
            twice.add('overwritten' if m.v[o[1]].get(o[2]) is not None else k)
            m.v[o[1]][o[2]] = o[3]
            labels.add('vertex property')
        elif k == 'type':
            number = int(str(value).split()[-1])
            g.set_ep(edges[o[1] % len(edges)], 'edge_type', np.int64(number) if str(value).startswith('int64') else number)
            m.e[edges[o[1] % len(edges)]]['edge_type'] = number
            labels.add('type')
        elif k in ('newe', 'newv'):
            (g.new_edge_property if k == 'newe' else g.new_vertex_property)(o[1])
            for p in (m.e if k == 'newe' else m.v).values():
                p[o[1]] = None
            labels.add('new')
        elif k == 'ecolors' or k == 'ecolor' and m.ecolor is None:
            g.new_edge_property('edge_color')
            for p in m.e.values():
                p['edge_color'] = None
            m.ecolor = {j: None for j in m.index.values()}
        elif k == 'ecolor':
            g.set_ep(edges[o[1] % len(edges)], 'edge_color', value)
            m.e[edges[o[1] % len(edges)]]['edge_color'] = m.ecolor[m.index[edges[o[1] % len(edges)]]] = o[2]
            labels.add('edge color')
        elif k in ('vcolors', 'color', 'fill') and (k == 'vcolors' or m.vcolor['vertex_color'] is None):
            for name in m.vcolor:
                g.new_vertex_property(name)
                m.vcolor[name] = {v: None for v in range(m.n)}
                for p in m.v.values():
                    p[name] = None
        elif k in ('color', 'fill'):
            name = 'vertex_color' if k == 'color' else 'vertex_fill_color'
            g.set_vp(o[1], name, value)
            m.v[o[1]][name] = m.vcolor[name][o[1]] = o[2]
            labels.add('vertex color')
        elif k == 'setpos':
            p = [spot(o[1], v) for v in range(m.n)]
            if o[2] == 'dict':
                g.set_pos({v: np.array(p[v]) for v in reversed(range(m.n))})
            else:                           # one row for each vertex
                g.set_pos(np.array(p) if o[2] == 'array' else list(p))
            m.pos = p
            for v in range(m.n):
                m.v[v]['pos'] = p[v]
            labels.add('placed')
        elif k == 'spring':
            g.set_pos()
            expect(np.shape(g.pos) == (m.n, 2) and np.all(np.isfinite(g.pos)), '{0}: pos is {1}', what, g.pos)
            m.pos = [list(map(float, x)) for x in g.pos]
            for v in range(m.n):
                m.v[v]['pos'] = m.pos[v]
            labels.add('spring')
        elif k == 'move':
            if m.pos is None:
                continue
            g.set_vp(o[1], 'pos', np.array(value))
            m.v[o[1]]['pos'] = m.pos[o[1]] = o[2]
            labels.add('moved')
        elif k == 'add':
            e = (o[1], o[2])
            if o[3]:
                g.add_edge(*e, **{o[3]: 2})
            else:
                g.add_edge(*e)
            if e not in m.e:
                m.index[e] = len(m.index)
            grown = m.ecolor is not None and e not in m.e
            m.e.setdefault(e, {}).update({o[3]: 2} if o[3] else {})
            if grown:                       # the array of colors has no room for it
                g.new_edge_property('edge_color')
                for p in m.e.values():
                    p['edge_color'] = None
                m.ecolor = {j: None for j in m.index.values()}
            if e not in edges:
                edges.append(e)
            labels.add('added')
        elif k == 'lengths':
            if any(m.v[v].get('pos') is None for v in m.v):
                continue
            if o[1] == 'graph':
                h = lengths(g, m, what)
                expect(h is g, '{0}: another graph was returned', what)
            else:
                plain = nx.DiGraph(g)
                h = lengths(plain, m, what)
                expect(isinstance(h, qt.QueueNetworkDiGraph) and set(h.edges()) == set(m.e), '{0}: returned {1} with edges {2}', what, type(h), list(h.edges()))
                # edges added later now have the index of their place in order
                expect(h.edge_index == {e: j for j, e in enumerate(sorted(m.e))}, '{0}: edge_index {1}', what, h.edge_index)
                continue
            for e in m.e:
                m.e[e]['edge_length'] = h.ep(e, 'edge_length')
            labels.add('lengths')
        elif k == 'copy':
            others.append((g, copy.deepcopy(m)))
            g = copy.deepcopy(g)
            labels.add('copied')
        elif k == 'wrap':
            if m.index != {e: j for j, e in enumerate(sorted(m.e))}:
                continue
            others.append((g, copy.deepcopy(m)))
            g = qt.QueueNetworkDiGraph(copy.deepcopy(nx.DiGraph(g)))
            m.ecolor, m.vcolor = None, {'vertex_color': None, 'vertex_fill_color': None}
            p = [m.v[v].get('pos') for v in range(m.n)]
            m.pos = None if any(x is None for x in p) else [list(x) for x in p]
            labels.add('copied')
        if k in ('ep', 'vp') and o[2] in ('size', 'degree', 'nodes', 'name'):
            labels.add('class name')
        compare(g, m, what)
        for h, model in others:
            compare(h, model, '{0}: the graph copied from'.format(what))
    labels |= twice & {'overwritten'}
    return Info(m.n >= 3 and len(edges) >= 3 and len(case['ops']) >= 6 and len({o[0] for o in case['ops']}) >= 4, labels, len(case['ops']))
