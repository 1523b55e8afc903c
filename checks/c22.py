import networkx as nx
import numpy as np

import queueing_tool as qt

from lib.runner import Info, expect

ID = 'C22'
QUICK = 12000
THOROUGH = 300000
TECHNIQUE = 'property-based testing of the graph generators against their definitions, twin calls and an exact binomial tail test'
NOTE = ('minimal_random_graph is compared with the graph its own positions define (all pairs within the smallest connecting radius); generate_random_graph and '
        'generate_pagerank_graph with the minimal graph of the same seed; types with the given proportions and ranks, on random graphs in every accepted form.')
RULE = 'one call of a generator with random parameters; non-trivial = at least 6 vertices (or 6 edges, for types and lengths)'
MIN_LABELS = {'lengths': 0.05, 'minimal': 0.05, 'pagerank': 0.05, 'random': 0.1, 'rank': 0.15, 'types': 0.1, 'many edges': 0.06, 'many loops': 0.015,
              'near': 0.1, 'prob': 0.05, 'prob0': 0.02, 'prob1': 0.02, 'rejected': 0.025, 'tied': 0.012, 'tiny': 0.05, 'zero proportion': 0.07}

TAIL = 1e-12


def pose(R):
    return [R.int(-30, 30) * 0.25, R.int(-30, 30) * 0.25]


def some_graph(R):
    n = R.choice([1, 2, 3, 4, 5, 6, 8, 10])
    dens = R.choice([1, 2, 3, 4])
    edges = [[u, v] for u in range(n) for v in range(n) if R.bool(1, dens)]
    edges = [edges[i] for i in R.perm(len(edges))] or [[0, n - 1]]
    return {'n': n, 'edges': edges, 'order': R.perm(n), 'pos': [pose(R) for _ in range(n)] if R.bool(2, 3) else None,
            'form': R.choice(['digraph', 'digraph', 'network', 'network', 'matrix', 'dicts', 'graph'])}


def wide_graph(R):
    """Many loops and few other edges, or the other way round."""
    n = R.int(60, 110)
    edges = [[v, v] for v in range(n) if R.bool(9, 10)] if R.bool(2, 3) else []
    kind = R.choice(['none', 'one', 'path', 'star', 'pairs'])
    if kind == 'one':
        edges.append([0, n - 1])
    elif kind == 'path':
        edges += [[v, v + 1] for v in range(n - 1)]
    elif kind == 'star':
        edges += [[0, v] if R.bool() else [v, 0] for v in range(1, n)]
    elif kind == 'pairs':
        edges += [[v, v + 1] for v in range(0, n - 1, 2)] + [[v + 1, v] for v in range(0, n - 1, 2)]
    edges = [edges[i] for i in R.perm(len(edges))] or [[0, n - 1]]
    return {'n': n, 'edges': edges, 'order': R.perm(n), 'pos': None, 'form': R.choice(['digraph', 'network', 'matrix', 'dicts'])}


def props(R, zero=True):
    types = R.subset([0, 1, 2, 3, 4, 7, 30], 1)
    w = [R.choice([0, 1, 1, 1, 2, 3, 6, 10]) for _ in types]
    if not sum(w):
        w[0] = 1
    s = sum(w)
    return [[types[i], w[i] / s] for i in R.perm(len(types))]


def gen(R, tier):
    part = R.choice(['minimal', 'random', 'random', 'types', 'types', 'rank', 'rank', 'rank', 'pagerank', 'lengths'])
    c = {'part': part, 'seed': R.int(0, 10 ** 6), 'byarg': R.bool(2, 3)}
    if part in ('minimal', 'random', 'pagerank'):
        c['n'] = R.choice([1, 2, 3, 4, 5]) if R.bool(1, 4) else R.int(6, 40 if tier == 'quick' else 90)
    if part == 'random':
        if R.bool(1, 25):
            c['n'] = R.int(100, 140)
        c['prob'] = R.choice([None, 0, 0, 1, 1, 0.1, 0.5, 0.75, 0.98])
    if part in ('random', 'types'):
        c['props'] = props(R) if R.bool(3, 4) else None
        c['loops'] = props(R) if R.bool(3, 4) else None
    if part in ('types', 'rank', 'lengths'):
        c['graph'] = some_graph(R) if part != 'types' or R.bool(4, 5) else wide_graph(R)
    if part == 'types':
        if R.bool(1, 4):
            c['bad'] = R.choice(['props', 'loops'])
            c['by'] = R.choice([-0.5, -0.1, -0.01, 0.01, 0.1, 0.25, 1.0])
    if part in ('rank', 'pagerank'):
        c['p2'] = R.choice([None, 0, 0.1, 0.25, 0.3, 0.5, 0.6, 0.01, 1.0]) if R.bool(2, 3) else R.int(1, 1000) / 1000.
        c['p3'] = R.choice([None, 0, 0.1, 0.2, 0.3, 0.5, 1.0]) if R.bool(2, 3) else R.int(0, 1000) / 1000.
    if part == 'rank':
        n = c['graph']['n']
        top = R.choice([3, 5, 100])
        c['rank'] = [R.int(-top, top) * R.choice([1, 1, 0.01]) for _ in range(n)]
    if part == 'lengths':
        c['graph']['pos'] = [pose(R) for _ in range(c['graph']['n'])]
        c['shift'] = R.perm(c['graph']['n'])
    return c


# -- building the input

def build(d):
    """The graph in the given form, and the edges it will have."""
    n, form = d['n'], d['form']
    edges = [tuple(e) for e in d['edges']]
    if form == 'matrix':
        m = np.zeros((n, n), int)
        for u, v in edges:
            m[u, v] = 1
        return m, set(edges)
    if form == 'dicts':
        outs = {u for u, _ in edges}
        # a dict becomes a network graph by adjacency2graph, which adds a loop to every vertex without edges out
        return {u: {v: {} for x, v in edges if x == u} for u in d['order']}, set(edges) | {(v, v) for v in range(n) if v not in outs}
    g = nx.Graph() if form == 'graph' else nx.DiGraph()
    g.add_nodes_from(d['order'])
    g.add_edges_from(edges, mark=1)
    if d['pos']:
        nx.set_node_attributes(g, {v: np.array(d['pos'][v]) for v in d['order']}, 'pos')
    if form == 'network':
        g = qt.QueueNetworkDiGraph(g)
    if form == 'graph':
        edges = edges + [(v, u) for u, v in edges]
    return g, set(edges)


def has_pos(d):
    return bool(d['pos']) and d['form'] in ('digraph', 'network', 'graph')


def kept(g, d, edges, what):
    """The graph still has the vertices, edges, positions and other edge properties it was given."""
    expect(isinstance(g, qt.QueueNetworkDiGraph), '{0} returned a {1}', what, type(g).__name__)
    expect(set(g.nodes()) == set(range(d['n'])), '{0}: vertices {1}, expected {2}', what, sorted(g.nodes()), d['n'])
    got = set(g.edges())
    expect(edges <= got, '{0}: lost the edges {1}', what, sorted(edges - got))
    if has_pos(d):
        for v in range(d['n']):
            expect(list(g.vp(v, 'pos')) == d['pos'][v], '{0}: vertex {1} is at {2}, not {3}', what, v, g.vp(v, 'pos'), d['pos'][v])
    if d['form'] in ('digraph', 'network', 'graph'):
        for e in edges:
            expect(g.ep(e, 'mark') == 1, '{0}: edge {1} lost a property', what, e)
    return got


def tail_ok(k, n, p):
    """False if a binomial(n, p) is this far from its mean with probability below TAIL (Chernoff's bound)."""
    if p <= 0 or p >= 1 or n == 0:
        return k == (n if p >= 1 else 0)
    q = k / float(n)
    kl = (q * np.log(q / p) if q > 0 else 0) + ((1 - q) * np.log((1 - q) / (1 - p)) if q < 1 else 0)
    return 2 * np.exp(-n * kl) >= TAIL


# -- the properties

def minimal(g, n, what):
    expect(isinstance(g, qt.QueueNetworkDiGraph), '{0} returned a {1}', what, type(g).__name__)
    expect(set(g.nodes()) == set(range(n)) and g.number_of_nodes() == n, '{0}: vertices are {1}', what, sorted(g.nodes()))
    pos = [g.vp(v, 'pos') for v in range(n)]
    for v, p in enumerate(pos):
        expect(p is not None and len(p) == 2 and np.all(np.isfinite(p)), '{0}: the position of vertex {1} is {2}', what, v, p)
    expect(len({tuple(p) for p in pos}) == n, '{0}: two vertices share a position', what)
    pos = np.array(pos, float).reshape(n, 2)
    dist = np.sqrt(((pos[:, None, :] - pos[None, :, :]) ** 2).sum(2))
    # the smallest radius that connects the points, by Prim's algorithm
    r, out, near = 0., np.ones(n, bool), dist[0].copy()
    out[0] = False
    while out.any():
        v = int(np.argmin(np.where(out, near, np.inf)))
        r, out[v] = max(r, near[v]), False
        near = np.minimum(near, dist[v])
    edges = set(g.edges())
    for u in range(n):
        for v in range(n):
            if u == v:
                expect((u, u) not in edges, '{0}: loop at {1}', what, u)
            elif abs(dist[u, v] - r) > 1e-9 or dist[u, v] == r:
                expect(((u, v) in edges) == (dist[u, v] <= r), '{0}: vertices {1} and {2} at distance {3} are {4}joined; the smallest radius that connects '
                       'the graph is {5}', what, u, v, dist[u, v], '' if (u, v) in edges else 'not ', r)
    return pos, edges


def typed(g, proportions, loops, what, labels):
    """Every edge has a type of positive proportion, and the numbers of each type are those of independent draws."""
    for name, dist, edges in (('edge', proportions, [e for e in g.edges() if e[0] != e[1]]), ('loop', loops, [e for e in g.edges() if e[0] == e[1]])):
        got = [g.ep(e, 'edge_type') for e in edges]
        for e, t in zip(edges, got):
            expect(t is not None and t in dist and dist[t] > 0, '{0}: {1} {2} has type {3}, the proportions are {4}', what, name, e, t, dist)
        for t, p in dist.items():
            k = sum(1 for x in got if x == t)
            expect(tail_ok(k, len(got), p), '{0}: {1} of {2} {3}s have type {4}, whose proportion is {5}', what, k, len(got), name, t, p)
        for what2, ts in (('edges in order', got), ('edges in sorted order', [g.ep(e, 'edge_type') for e in sorted(edges)])):
            same = sum(1 for a, b in zip(ts[::2], ts[1::2]) if a == b)
            expect(tail_ok(same, len(ts) // 2, sum(p * p for p in dist.values())), '{0}: {1} of {2} pairs of {3} {4} have the same type; the proportions are {5}',
                   what, same, len(ts) // 2, name, what2, dist)
        if len(got) >= 40 and len(dist) > 1:
            labels.add('many ' + name + 's')
        if any(p == 0 for p in dist.values()):
            labels.add('zero proportion')


DEF_PROPS = {k: 1. / 3 for k in range(1, 4)}
DEF_LOOPS = {k: 1. / 4 for k in range(4)}


def ranked(g, before, rank, n, p2, p3, what, labels, slack=0.0):
    """before: the edges the graph had. slack: ranks closer than that count as tied either way."""
    top = int(np.ceil(n * p2))
    want3 = int(n * p3)
    if abs(n * p2 - round(n * p2)) < 1e-9 and top != round(n * p2):
        tops = [int(round(n * p2)), top]                # p * n is an integer, up to rounding
    else:
        tops = [top]
    if abs(n * p3 - round(n * p3)) < 1e-9:
        want3 = int(round(n * p3))
    after = set(g.edges())
    expect(all(e[0] == e[1] for e in after - before), '{0} added the edges {1}', what, sorted(after - before))
    types = {e: g.ep(e, 'edge_type') for e in after}
    for e, t in types.items():
        expect(t in ((1, 2, 3) if e[0] == e[1] else (1,)), '{0}: edge {1} has type {2}', what, e, t)
    for e in after - before:
        expect(types[e] in (2, 3), '{0}: the loop added to vertex {1} has type {2}', what, e[0], types[e])
    single = {e[0]: t for e, t in types.items() if t in (2, 3)}
    msg = None
    if tops == [0]:
        labels.add('no top')
        expect(not single, '{0}: no vertex was requested to be a top one, loops of vertices {1} have types 2 or 3', what, sorted(single))
        return
    for k in tops:
        cut = sorted(rank)[-k]
        sure = {v for v in range(n) if rank[v] > cut + slack or (slack == 0 and rank[v] == cut)}
        may = {v for v in range(n) if abs(rank[v] - cut) <= slack} if slack else set()
        kinds = {single.get(v) for v in sure}
        msg = None
        if len(kinds) > 1 or None in kinds:
            msg = 'the top {0} ranked vertices have loops of types {1}'.format(k, {v: single.get(v) for v in sure})
        elif kinds:
            kind = kinds.pop()
            others = {v for v in single if v not in sure and single[v] != kind}
            extra = {v for v in single if v not in sure and v not in may and single[v] == kind}
            if extra:
                msg = 'vertices {0} have loops of the same type as the top {1} ranked vertices {2}'.format(sorted(extra), k, sorted(sure))
            elif len(others) > want3:
                msg = '{0} other vertices have loops of type 2 or 3, at most {1} were requested'.format(len(others), want3)
            elif want3 and not others and len(sure | may) < n:
                msg = 'no other vertices were singled out, {0} were requested'.format(want3)
        if msg is None:
            if len(sure) > k:
                labels.add('tied')
            if set(single) - sure - may:
                labels.add('near')
            break
    expect(msg is None, '{0}: {1}; ranks {2}', what, msg, list(rank))


def check(case):
    part, seed = case['part'], case['seed']
    labels = {part}
    np.random.seed(seed)
    kw = {'seed': seed} if case['byarg'] else {}
    big = 0
    if part in ('minimal', 'random', 'pagerank'):
        n = big = case['n']
        labels.add('tiny' if n < 6 else 'larger')
        plain = qt.minimal_random_graph(n, **kw)
        pos, edges = minimal(plain, n, 'minimal_random_graph({0})'.format(n))
        np.random.seed(seed)
    if part == 'random':
        prob = 0.5 if case['prob'] is None else case['prob']
        if case['prob'] is not None:
            kw['prob_loop'] = case['prob']
        for name in ('props', 'loops'):
            if case[name] is not None:
                kw['proportions' if name == 'props' else 'loop_proportions'] = dict(map(tuple, case[name]))
        what = 'generate_random_graph({0}, {1})'.format(n, kw)
        g = qt.generate_random_graph(num_vertices=n, **kw)
        expect(set(g.nodes()) == set(range(n)), '{0}: vertices {1}', what, sorted(g.nodes()))
        got = set(g.edges())
        loops = {e for e in got if e[0] == e[1]}
        expect(got - loops == edges, '{0}: the edges that are not loops differ from those of minimal_random_graph: {1}', what, sorted((got - loops) ^ edges))
        expect(np.array_equal([g.vp(v, 'pos') for v in range(n)], pos), '{0}: positions differ from those of minimal_random_graph', what)
        expect(tail_ok(len(loops), n, prob), '{0}: {1} of {2} vertices have a loop', what, len(loops), n)
        labels.add('prob0' if prob == 0 else 'prob1' if prob == 1 else 'prob')
        typed(g, kw.get('proportions', DEF_PROPS), kw.get('loop_proportions', DEF_LOOPS), what, labels)
    elif part == 'types':
        d = case['graph']
        g, edges = build(d)
        big = len(edges)
        bad = case.get('bad')
        for name in ('props', 'loops'):
            p = case[name]
            if bad == name:
                p = [list(x) for x in (p or [[1, 1.0]])]
                p[0][1] += case['by'] if p[0][1] + case['by'] >= 0 else -case['by']
            if p is not None:
                kw['proportions' if name == 'props' else 'loop_proportions'] = dict(map(tuple, p))
        what = 'set_types_random(graph, {0})'.format(kw)
        if bad:
            labels.add('rejected')
            try:
                qt.set_types_random(g, **kw)
            except ValueError:
                return Info(big >= 6, labels, 1)
            expect(False, '{0} was accepted: the proportions do not sum to one', what)
        g = qt.set_types_random(g, **kw)
        expect(kept(g, d, edges, what) == edges, '{0} changed the edges', what)
        typed(g, kw.get('proportions', DEF_PROPS), kw.get('loop_proportions', DEF_LOOPS), what, labels)
    elif part == 'rank':
        d = case['graph']
        g, edges = build(d)
        big = d['n']
        for name, key in (('p2', 'pType2'), ('p3', 'pType3')):
            if case[name] is not None:
                kw[key] = case[name]
        what = 'set_types_rank(graph of {0} vertices, {1})'.format(d['n'], kw)
        g = qt.set_types_rank(g, rank=np.array(case['rank'], float), **kw)
        kept(g, d, edges, what)
        ranked(g, edges, case['rank'], d['n'], kw.get('pType2', 0.1), kw.get('pType3', 0.1), what, labels)
    elif part == 'pagerank':
        for name, key in (('p2', 'pType2'), ('p3', 'pType3')):
            if case[name] is not None:
                kw[key] = case[name]
        what = 'generate_pagerank_graph({0}, {1})'.format(n, kw)
        g = qt.generate_pagerank_graph(num_vertices=n, **kw)
        expect(set(g.nodes()) == set(range(n)), '{0}: vertices {1}', what, sorted(g.nodes()))
        expect(np.array_equal([g.vp(v, 'pos') for v in range(n)], pos), '{0}: positions differ from those of minimal_random_graph', what)
        ranked(g, edges, pagerank(plain, n), n, kw.get('pType2', 0.1), kw.get('pType3', 0.1), what, labels, slack=3e-6 * n)
        expect(edges <= set(g.edges()), '{0}: lost edges of minimal_random_graph', what)
    elif part == 'lengths':
        d = case['graph']
        d2 = dict(d, edges=[[case['shift'][u], case['shift'][v]] for u, v in d['edges']], pos=[None] * d['n'])
        for v in range(d['n']):
            d2['pos'][case['shift'][v]] = d['pos'][v]
        d2['edges'] = d2['edges'][::-1] + [[u, v] for u in range(d['n']) for v in range(d['n']) if [u, v] not in d2['edges']]
        seen = {}
        for x in (d, d2):
            g, edges = build(dict(x, form='network' if x['form'] in ('matrix', 'dicts') else x['form']))
            big = max(big, len(edges))
            g = qt.add_edge_lengths(g)
            expect(kept(g, dict(x, form='network'), edges, 'add_edge_lengths') == edges, 'add_edge_lengths changed the edges')
            for u, v in edges:
                got = g.ep((u, v), 'edge_length')
                expect(got is not None, 'add_edge_lengths: edge {0} has no length', (u, v))
                key = tuple(sorted([tuple(x['pos'][u]), tuple(x['pos'][v])]))
                got = float(got)
                if u == v:
                    expect(got == 0, 'add_edge_lengths: a loop has length {0}', got)
                if key in seen:
                    labels.add('same positions')
                    expect(abs(got - seen[key]) <= 2e-3 or got != got and seen[key] != seen[key], 'add_edge_lengths: edges between {0} have lengths {1} and {2}',
                           key, got, seen[key])
                seen[key] = got
        expect(len(set(seen.values())) > 1 or len(seen) < 5, 'add_edge_lengths: every edge has length {0}', list(seen.values())[:1])
    return Info(big >= 6, labels, max(1, big))


def pagerank(g, n):
    """Power iteration with damping factor 0.85."""
    m = np.zeros((n, n))
    for u in range(n):
        out = [v for _, v in g.out_edges(u)]
        for v in out:
            m[v, u] = 1. / len(out)
        if not out:
            m[:, u] = 1. / n
    x = np.ones(n) / n
    for _ in range(300):
        x = 0.15 / n + 0.85 * m.dot(x)
    return x
