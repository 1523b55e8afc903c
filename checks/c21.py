import networkx as nx
import numpy as np

import queueing_tool as qt

from lib.runner import Info, expect, fail

ID = 'C21'
QUICK = 24000
THOROUGH = 500000
TECHNIQUE = 'property-based testing of constructed networks against a set model, with recording queue classes'
NOTE = ('Random graphs in every accepted form (dicts, matrix, networkx graphs, network graphs; any vertex order, sinks, loops, types of any number) '
        'with random classes and arguments per type, some left to the defaults, adjusted or not; recording classes note the arguments they get.')
RULE = 'a random typed graph with classes and arguments; non-trivial = at least 4 edges, 2 types and one type with its own class or arguments'
MIN_LABELS = {'adjusted': 0.3, 'not-adjusted': 0.15, 'sink': 0.25, 'loop': 0.35, 'default-class': 0.35, 'default-args': 0.3, 'own-class': 0.25,
              'own-args': 0.2, 'undirected': 0.05, 'matrix': 0.05, 'untyped': 0.25, 'unordered': 0.35, 'high-type': 0.12, 'zero-typed': 0.1, 'pos': 0.1}

DEFAULT = {0: qt.NullQueue, 1: qt.QueueServer, 2: qt.LossQueue, 3: qt.LossQueue, 4: qt.LossQueue}


def gen(R, tier):
    n = R.choice([1, 2, 3, 3, 4, 4, 5, 6])
    form = R.choice(['lists', 'dicts', 'digraph', 'digraph', 'ndigraph', 'ndigraph', 'matrix', 'graph'])
    dens = R.choice([2, 2, 3, 4])
    edges = [[u, v] for u in range(n) for v in range(n) if R.bool(1, dens)]
    if R.bool(1, 2):
        dead = R.subset(range(n))
        edges = [e for e in edges if e[0] not in dead]
    if not edges:
        edges = [[0, n - 1]]
    edges = [edges[i] for i in R.perm(len(edges))]
    c = {'n': n, 'form': form, 'edges': edges, 'order': R.perm(n), 'seed': R.int(0, 9), 'adjust': R.bool(2, 3)}
    if form in ('lists', 'matrix') or R.bool(1, 5):
        c['types'] = [None] * len(edges)
    else:
        pool = R.subset([1, 2, 3, 4, 5, 12, 300, 70000], 1)
        c['types'] = [None if R.bool(1, 8) else R.choice(pool + ([0] if R.bool(1, 6) else [])) for _ in edges]
    c['classes'] = {str(t): R.choice(['S', 'L', 'I', 'R']) for t in R.subset([0, 1, 2, 3, 4]) if t or R.bool()}
    c['classes'].update({str(t): R.choice(['S', 'L', 'I', 'R']) for t in (5, 12, 300, 70000)})
    c['noclasses'] = R.bool(1, 5) and not {5, 12, 300, 70000} & set(t for t in c['types'] if t)
    c['args'] = {}
    for t in R.subset([1, 2, 3, 4, 5, 12, 300, 70000]):
        a = c['args'][str(t)] = {'num_servers': R.int(1, 9)}
        if R.bool():
            a['active_cap'] = R.int(1, 99)
        if R.bool():
            a['deactive_t'] = R.int(1, 99) * 0.5
        if R.bool():
            a['collect_data'] = True
        if R.bool():
            a['coloring_sensitivity'] = R.int(1, 5)
        if R.bool():
            a['fun'] = True
        if R.bool():
            a['qbuffer'] = R.int(0, 7)
    c['noargs'] = R.bool(1, 6)
    c['pos'] = R.bool(1, 2) and form in ('digraph', 'ndigraph')
    return c


def fixed_cases(tier):
    """Vertices with many edges, many edges, many types."""
    n = 90
    star = [[v, 0] for v in range(1, n)] + [[0, v] for v in range(1, n)]
    many = [[u, (u * k + k) % n] for u in range(n) for k in range(1, 13)]
    many = [e for i, e in enumerate(many) if e not in many[:i]]
    out = [[v, w] for v in (0, 1) for w in range(v + 1, n, 3)]
    for i, (form, edges) in enumerate([('lists', out), ('ndigraph', out), ('dicts', out), ('digraph', out), ('lists', star), ('ndigraph', star), ('dicts', many), ('digraph', many), ('matrix', star), ('graph', star[:n - 1])]):
        pool = [1, 2, 3, 4, 5, 12, 300, 70000]
        types = [None if form in ('lists', 'matrix') or edges is out and form == 'digraph' else pool[(k * 5 + i) % 8] for k in range(len(edges))]
        yield {'n': n, 'form': form, 'edges': edges, 'order': [(k * 7 + 3) % n for k in range(n)], 'seed': i, 'adjust': i % 2 == 0 or edges is out, 'types': types,
               'classes': dict({str(t): 'SLIR'[t % 4] for t in pool}), 'noclasses': False, 'noargs': False, 'pos': form == 'ndigraph',
               'args': {'2': {'num_servers': 3, 'fun': True}, '300': {'active_cap': 5}}}


class Note(object):
    """Remembers the arguments it was created with."""
    def __init__(self, **kw):
        self.got = dict(kw)
        super(Note, self).__init__(**kw)


class S(Note, qt.QueueServer):
    pass


class L(Note, qt.LossQueue):
    pass


class I(Note, qt.InfoQueue):
    pass


class Res(Note, qt.ResourceQueue):
    pass


CLASSES = {'S': S, 'L': L, 'I': I, 'R': Res}


def graph(case):
    form, order = case['form'], case['order']
    edges = [tuple(e) for e in case['edges']]
    if form == 'matrix':
        m = np.zeros((case['n'], case['n']), int)
        for u, v in edges:
            m[u, v] = 1
        return m
    if form == 'lists':
        return {u: [v for x, v in edges if x == u] for u in order}
    props = [{'edge_type': t} if t is not None else {} for t in case['types']]
    if form == 'dicts':
        adj = {u: {} for u in order}
        for (u, v), p in zip(edges, props):
            adj[u][v] = dict(p)
        return adj
    g = nx.Graph() if form == 'graph' else nx.DiGraph()
    g.add_nodes_from(order)
    for (u, v), p in zip(edges, props):
        g.add_edge(u, v, **p)
    if case['pos']:
        nx.set_node_attributes(g, {v: np.array([v * 1., -v * 0.5]) for v in order}, 'pos')
    return qt.QueueNetworkDiGraph(g) if form == 'ndigraph' else g


def check(case):
    labels = {case['form']}
    labels.add('adjusted' if case['adjust'] else 'not-adjusted')
    n = case['n']
    types = {}
    for e, t in zip(map(tuple, case['edges']), case['types']):
        if case['form'] == 'graph':             # one edge, in both directions
            t = types.get(e) if t is None else t
            types[(e[1], e[0])] = t
        types[e] = t
    if case['form'] == 'graph':
        labels.add('undirected')
    # a dict becomes a network graph by adjacency2graph, which by default adds a type 0 loop to every sink
    fromdict = case['form'] in ('dicts', 'lists')
    vertices = set(range(n))
    outs = {u for u, _ in types}
    sinks = vertices - outs
    if fromdict:
        for v in sinks:
            types[(v, v)] = 0
        sinks = set()
    if None in types.values():
        labels.add('untyped')
    types = {e: 1 if t is None else t for e, t in types.items()}
    if 0 in types.values():
        labels.add('zero-typed')
    if vertices - outs:
        labels.add('sink')
    if case['adjust']:
        for e in types:
            if e[1] in sinks:
                types[e] = 0
    order = sorted(types)
    used = set(types.values())
    if any(u == v for u, v in order):
        labels.add('loop')
    if case['order'] != sorted(case['order']):
        labels.add('unordered')
    if used & {5, 12, 300, 70000}:
        labels.add('high-type')
    # -- classes and arguments
    fa, fs = (lambda t: t + 1.0), (lambda t: t + 0.5)
    kw, q_args, cls = {}, {}, dict(DEFAULT)
    if not case['noclasses']:
        own = {int(t): CLASSES[c] for t, c in case['classes'].items() if int(t)}
        cls.update(own)
        kw['q_classes'] = dict(own)
    if not case['noargs']:
        for t, a in case['args'].items():
            t = int(t)
            if t not in cls:
                continue
            a = dict(a)
            if a.pop('fun', False):
                a.update(arrival_f=fa, service_f=fs)
            if not issubclass(cls[t], qt.LossQueue):
                a.pop('qbuffer', None)
            q_args[t] = a
        kw['q_args'] = {t: dict(a) for t, a in q_args.items()}
    if not case['adjust']:
        kw['adjust_graph'] = False
    net = qt.QueueNetwork(graph(case), seed=case['seed'], **kw)
    # -- structure
    expect(net.nV == n and net.num_vertices == n and net.num_nodes == n, '{0} vertices, expected {1}', (net.nV, net.num_vertices, net.num_nodes), n)
    expect(net.nE == len(order) and net.num_edges == len(order) and len(net.edge2queue) == len(order), '{0} edges, expected {1}',
           (net.nE, net.num_edges, len(net.edge2queue)), len(order))
    expect(sorted(net.g.edges()) == order and set(net.g.nodes()) == vertices, 'the graph has edges {0}, expected {1}', sorted(net.g.edges()), order)
    expect(net.g.edge_index == {e: k for k, e in enumerate(order)}, 'edge_index {0}, edges {1}', net.g.edge_index, order)
    for v in vertices:
        expect(list(net.out_edges[v]) == [k for k, e in enumerate(order) if e[0] == v], 'out_edges[{0}] = {1}, edges {2}', v, net.out_edges[v], order)
        expect(list(net.in_edges[v]) == [k for k, e in enumerate(order) if e[1] == v], 'in_edges[{0}] = {1}, edges {2}', v, net.in_edges[v], order)
    expect(len(net.out_edges) == n and len(net.in_edges) == n, 'out_edges and in_edges have {0} entries', (len(net.out_edges), len(net.in_edges)))
    expect(len({id(q) for q in net.edge2queue}) == len(order), 'a queue is on two edges')
    if case['pos']:
        labels.add('pos')
        for v in vertices:
            expect(list(net.g.vp(v, 'pos')) == [v, -v * 0.5], 'vertex {0} is at {1}', v, net.g.vp(v, 'pos'))
    # -- queues
    for k, e in enumerate(order):
        q, t = net.edge2queue[k], types[e]
        what = 'queue {0} on edge {1} of type {2}'.format(k, e, t)
        expect(tuple(q.edge) == (e[0], e[1], k, t), '{0}: its edge is {1}', what, q.edge)
        expect(net.g.ep(e, 'edge_type') == t, '{0}: the edge has type {1}', what, net.g.ep(e, 'edge_type'))
        expect(type(q) is cls[t], '{0} is a {1}, expected {2}', what, type(q).__name__, cls[t].__name__)
        labels.add('own-class' if cls[t] is not DEFAULT.get(t) else 'default-class')
        if t == 0:
            continue
        a = q_args.get(t, {})
        labels.add('own-args' if a else 'default-args')
        plainq = {k: v for k, v in dict(num_servers=1 if not issubclass(cls[t], qt.ResourceQueue) else 10, active_cap=np.inf, deactive_t=np.inf,
                                        collect_data=False, coloring_sensitivity=2).items()}
        for name, default in plainq.items():
            expect(getattr(q, name) == a.get(name, default), '{0}: {1} is {2}, expected {3}', what, name, getattr(q, name), a.get(name, default))
        if issubclass(cls[t], qt.LossQueue):
            d = np.inf if issubclass(cls[t], qt.InfoQueue) else 0
            expect(q.buffer == a.get('qbuffer', d), '{0}: buffer is {1}, expected {2}', what, q.buffer, a.get('qbuffer', d))
        if 'arrival_f' in a:
            expect(q.arrival_f is fa and q.service_f is fs, '{0}: has other time functions', what)
        if isinstance(q, Note):
            rest = {x: y for x, y in q.got.items() if x not in ('edge', 'colors')}
            expect(rest == a, '{0} was created with {1}, expected {2}', what, rest, a)
    return Info(len(order) >= 4 and len(used) >= 2 and labels & {'own-class', 'own-args'}, labels, len(order))
