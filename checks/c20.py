import copy

import networkx as nx
import numpy as np

import queueing_tool as qt

from lib.runner import Info, expect, fail

ID = 'C20'
QUICK = 30000
THOROUGH = 1000000
TECHNIQUE = 'property-based testing against a set model, and round trips'
NOTE = ('Random adjacency dicts of lists, dicts of dicts with edge properties and matrices (sinks, isolated vertices, loops, target-only vertices, '
        'any key order, integer and string vertices) with types as properties and arguments; the graph is compared with a set model, '
        'converted back and put into the network graph class, whose numbering, type lists and neighbours are compared with definitions. '
        'A type for a pair that is no edge, and keys of different kinds in one dict, are outside the domain.')
RULE = ('a random adjacency in one form with types; non-trivial = at least 3 edges and a vertex without out-edges or a type that is not 1')
MIN_LABELS = {'lists': 0.2, 'dicts': 0.2, 'matrix': 0.2, 'sink': 0.3, 'type-argument': 0.2, 'type-property': 0.1, 'type-both': 0.04,
              'adjust2': 0.3, 'adjust1': 0.3, 'class-from-dict': 0.2, 'target-only': 0.03, 'empty': 0.002, 'grown': 0.2, 'other-class': 0.1, 'called again': 0.4}


def gen(R, tier):
    n = R.choice([1, 2, 3, 3, 4, 5, 6]) if not R.bool(1, 60) else 0
    form = R.choice(['lists', 'dicts', 'matrix'])
    dens = R.choice([2, 3, 5])
    edges = [[u, v] for u in range(n) for v in range(n) if R.bool(1, dens)]
    if R.bool(1, 3):
        dead = R.subset(range(n))
        edges = [e for e in edges if e[0] not in dead]
    edges = [edges[i] for i in R.perm(len(edges))]
    c = {'n': n, 'form': form, 'edges': edges, 'order': R.perm(n), 'names': 'int' if form == 'matrix' else R.choice(['int', 'int', 'gaps', 'str']),
         'omit': R.bool(), 'adjust': R.choice([1, 2, 1, 2, None, 3]), 'dtype': R.choice(['int', 'float', 'bool', 'weights', 'tiny', 'negative']), 'via': R.choice(['function', 'class', 'class'])}
    c['prop'] = [R.choice([None, None, 0, 1, 2, 5]) for _ in edges] if form == 'dicts' and R.bool(2, 3) else [None] * len(edges)
    c['extra'] = [R.choice([None, 'a', 'b']) for _ in edges] if form == 'dicts' else [None] * len(edges)
    c['arg'] = R.choice([None, 'dict', 'dict', 'matrix', 'empty'])
    if c['names'] != 'int' and c['arg'] == 'matrix':
        c['arg'] = 'dict'
    c['types'] = [R.choice([None, 1, 2, 3, 7, 0 if c['arg'] == 'dict' else 4]) for _ in edges]
    c['grow'] = [[R.int(0, n), R.int(0, n)] for _ in range(R.int(0, 3))]
    c['other'] = R.bool(1, 3)
    c['again'] = R.choice([None, 1, 2, 2])
    return c


def fixed_cases(tier):
    """Graphs with more edges and vertices than a generated case has."""
    for i, (form, arg, n, m) in enumerate([('lists', 'dict', 40, 1300), ('dicts', 'dict', 60, 1700), ('matrix', 'matrix', 50, 1500), ('dicts', None, 300, 900)]):
        edges = [[k * 7 % n, (k * 7 // n * 11 + k * 3) % n] for k in range(4 * m)]
        edges = [e for k, e in enumerate(edges) if e not in edges[:k] and e[0] % 17 != 4][:m]
        yield {'n': n, 'form': form, 'edges': edges, 'order': [(k * 11 + 5) % n for k in range(n)] if n % 11 else list(range(n)), 'names': 'int', 'omit': False,
               'adjust': 1 + i % 2, 'dtype': 'int', 'via': 'class', 'prop': [[None, 1, 2, 5][k % 4] if form == 'dicts' else None for k in range(len(edges))],
               'extra': [None] * len(edges), 'arg': arg, 'types': [[None, 1, 2, 3, 7][k % 5] for k in range(len(edges))], 'grow': [], 'other': i == 0, 'again': None}


def check(case):
    n, labels = case['n'], {case['form'] if case['n'] else 'empty'}
    name = {'int': int, 'gaps': lambda i: i * 7 - 3, 'str': lambda i: 'v' + 'cabdef'[i]}[case['names']]
    edges = [(name(u), name(v)) for u, v in case['edges']]
    outs = {u for u, _ in edges}
    heads = {v for _, v in edges}
    order = [name(i) for i in case['order']]
    if case['omit'] and case['form'] != 'matrix':           # vertices that are only targets need no key
        keys = [v for v in order if v in outs or v not in heads]
        if len(keys) < n:
            labels.add('target-only')
    else:
        keys = order
    vertices = {name(i) for i in range(n)}
    if case['form'] == 'matrix':
        adj = np.zeros((n, n), {'int': int, 'bool': bool}.get(case['dtype'], float))
        for k, (u, v) in enumerate(edges):
            adj[u, v] = {'weights': 0.5 + k, 'tiny': 1e-9 / (k + 1), 'negative': -0.5 - k}.get(case['dtype'], 1)
    elif case['form'] == 'lists':
        adj = {u: [v for x, v in edges if x == u] for u in keys}
    else:
        adj = {u: {} for u in keys}
        for (u, v), t, x in zip(edges, case['prop'], case['extra']):
            adj[u][v] = {}
            if t is not None:
                adj[u][v]['edge_type'] = t
            if x is not None:
                adj[u][v]['label'] = x
    # -- expected
    types = {}
    for e, p, a in zip(edges, case['prop'], case['types']):
        given = a if case['arg'] in ('dict', 'matrix') else None
        types[e] = given if given is not None else p if p is not None else 1
        if given is not None:
            labels.add('type-argument')
        if p is not None:
            labels.add('type-property')
        if given is not None and p is not None:
            labels.add('type-both')
    extra = {e: {'label': x} for e, x in zip(edges, case['extra']) if x is not None}
    sinks = vertices - outs
    if sinks:
        labels.add('sink')
    if case['adjust'] == 2:
        labels.add('adjust2')
        for e in types:
            if e[1] in sinks:
                types[e] = 0
    else:
        labels.add('adjust1')
        for v in sinks:
            types[(v, v)] = 0
    want = {e: dict(extra.get(e, {}), edge_type=t) for e, t in types.items()}
    # -- convert
    kw = {}
    if case['adjust'] is not None:
        kw['adjust'] = case['adjust']
    if case['arg'] == 'empty':
        kw['edge_type'] = {}
    elif case['arg'] == 'dict':
        et = {}
        for (u, v), t in zip(edges, case['types']):
            if t is not None:
                et.setdefault(u, {})[v] = t
        kw['edge_type'] = et
    elif case['arg'] == 'matrix':
        et = np.zeros((n, n), int)
        for (u, v), t in zip(edges, case['types']):
            et[u, v] = t or 0
        kw['edge_type'] = et
    first = copy.deepcopy((adj, kw.get('edge_type')))
    if case['via'] == 'class' and case['form'] != 'matrix':
        labels.add('class-from-dict')
        g = qt.QueueNetworkDiGraph(adj, **kw)
    else:
        g = qt.adjacency2graph(adj, **kw)
    describe(g, vertices, want, 'the graph')
    # -- the arguments are as they were, and give the same graph again or, without the types, another one
    same_adj(adj, first[0], 'the adjacency argument')
    same_adj(kw.get('edge_type'), first[1], 'the edge_type argument')
    if case['again']:
        labels.add('called again')
        if case['again'] == 2:
            kw = {'adjust': 1}
        h = qt.adjacency2graph(adj, **kw)
        if case['again'] == 2:
            plain = {e: dict(extra.get(e, {}), edge_type=p if p is not None else 1) for e, p in zip(edges, case['prop'])}
            plain.update({(v, v): {'edge_type': 0} for v in sinks})
            describe(h, vertices, plain, 'the graph of the same adjacency without the types')
        else:
            describe(h, vertices, want, 'the graph of the same arguments')
    # -- and back
    d = qt.graph2dict(g)
    expect({u: dict(x) for u, x in d.items()} == {u: {v: want[(u, v)] for v in vertices if (u, v) in want} for u in vertices},
           'graph2dict returned {0}, expected edges {1}', d, want)
    li = qt.graph2dict(g, False)
    expect({u: sorted(x) for u, x in li.items()} == {u: sorted(v for v in vertices if (u, v) in want) for u in vertices},
           'graph2dict(.., False) returned {0}, expected edges {1}', li, sorted(want))
    if n:
        h = qt.adjacency2graph(qt.graph2dict(g), adjust=case['adjust'] or 1)
        describe(h, vertices, want, 'the graph converted there and back')
    # -- the graph class
    h = g if isinstance(g, qt.QueueNetworkDiGraph) else qt.QueueNetworkDiGraph(g)
    describe(h, vertices, want, 'the network graph')
    order = sorted(want)
    for k, e in enumerate(order):
        expect(h.edge_index[e] == k, 'edge {0} has index {1}, expected {2}', e, h.edge_index[e], k)
        expect(h.is_edge(e) and h.ep(e, 'edge_type') == want[e]['edge_type'] and h.ep(e, 'label') == want[e].get('label'),
               'ep of {0}: {1}', e, (h.is_edge(e), h.ep(e, 'edge_type'), h.ep(e, 'label')))
    for u in vertices:
        expect(sorted(h.out_neighbours(u)) == sorted(v for v in vertices if (u, v) in want), 'out_neighbours({0}) is {1}', u, h.out_neighbours(u))
        for v in vertices:
            expect(h.is_edge((u, v)) == ((u, v) in want), 'is_edge({0}) is {1}', (u, v), h.is_edge((u, v)))
    for t in (0, 1, 2, 3, 4, 5, 7, 9):
        got = sorted(h.get_edge_type(t))
        expect(got == [e for e in order if want[e]['edge_type'] == t], 'get_edge_type({0}) is {1}', t, got)
    expect(set(h.edge_index) == set(want), 'edge_index has {0}, the edges are {1}', sorted(h.edge_index), order)
    if case['names'] == 'int':
        for u, v in case['grow']:                           # edges added later get the next indices
            old = dict(h.edge_index)
            labels.add('grown')
            h.add_edge(u, v)
            if (u, v) in old:
                expect(h.edge_index == old, 'adding edge {0} again changed the indices', (u, v))
            else:
                old[(u, v)] = len(old)
                expect(h.edge_index == old, 'after adding edge {0}: indices {1}, expected {2}', (u, v), h.edge_index, old)
    if case['other'] and case['names'] == 'int':
        labels.add('other-class')
        other(case, edges, vertices)
    return Info(len(edges) >= 3 and (sinks or set(types.values()) - {1}), labels, 1)


def same_adj(a, b, what):
    same = np.array_equal(a, b) and a.dtype == b.dtype if isinstance(b, np.ndarray) else a == b
    expect(same, '{0} was {1} and is now {2}', what, b, a)


def describe(g, vertices, want, what):
    expect(isinstance(g, nx.DiGraph) and not g.is_multigraph(), '{0} is a {1}', what, type(g).__name__)
    expect(set(g.nodes()) == vertices, '{0} has vertices {1}, expected {2}', what, list(g.nodes()), sorted(vertices))
    got = {(u, v): dict(d) for u, v, d in g.edges(data=True)}
    expect(got == want, '{0} has edges {1}, expected {2}', what, got, want)


def other(case, edges, vertices):
    """The graph class and graph2dict on plain networkx graphs."""
    und = nx.Graph()
    und.add_nodes_from(case['order'])
    und.add_edges_from(edges)
    di = nx.DiGraph()
    di.add_nodes_from(case['order'])
    di.add_edges_from(edges, w=3)
    both = sorted(set(edges) | {(v, u) for u, v in edges})
    for g, want, props in ((und, both, {}), (di, sorted(set(edges)), {'w': 3})):
        h = qt.QueueNetworkDiGraph(g)
        expect(sorted(h.edges()) == want and set(h.nodes()) == vertices, 'the network graph of a {0} has edges {1}, expected {2}', type(g).__name__, sorted(h.edges()), want)
        expect(h.edge_index == {e: k for k, e in enumerate(want)}, 'edge_index {0} of edges {1}', h.edge_index, want)
        d = qt.graph2dict(g)
        expect({u: {v: dict(p) for v, p in x.items()} for u, x in d.items()} == {u: {v: props for x, v in want if x == u} for u in vertices},
               'graph2dict of a {0} returned {1}', type(g).__name__, d)
