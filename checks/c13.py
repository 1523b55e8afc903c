import collections
import copy

import numpy as np
import networkx as nx
import queueing_tool as qt

from lib import routegen
from lib.runner import Info, expect, fail

ID = 'C13'
QUICK = 12000
THOROUGH = 400000
TECHNIQUE = 'stateful property-based testing: generated sequences of valid and invalid settings against a table model (round trip)'
NOTE = ('Random graphs (any vertex order, sinks, loops) and sequences of set_transitions calls in both forms, valid and '
        'invalid; after each the matrix and dict read back are compared with a model of the rows. Mass on pairs that are no '
        'edge is left open by the documentation.')
RULE = ('a random graph and a sequence of valid and invalid set_transitions calls and generated matrices; non-trivial = at '
        'least one valid setting of a vertex with several out-edges and one other operation')
MIN_LABELS = {'matrix': 0.3, 'dict': 0.3, 'rejected-matrix': 0.2, 'rejected-dict': 0.2, 'generated': 0.2, 'type-error': 0.05, 'rejected-later-key': 0.05, 'rejected-sink': 0.03, 'simulated': 0.2, 'simulated for long': 0.04}


def gen(R, tier):
    n, edges = routegen.graph(R, big=R.bool(1, 12))
    o = routegen.out(n, edges)
    vs = [v for v in range(n) if o[v]]
    c = {'nv': n, 'edges': edges, 'order': R.perm(n), 'ops': []}
    for _ in range(R.int(1, 6)):
        k = R.weighted({'matrix': 3, 'dict': 4, 'badmatrix': 2, 'baddict': 2, 'badkey': 1, 'shape': 1, 'type': 1, 'generate': 2,
                        'roundtrip': 1, 'multibad': 1, 'intmatrix': 1, 'badsink': 1, 'run': 2})
        if k == 'matrix':
            c['ops'].append([k, {str(v): routegen.weights(R, len(o[v])) for v in vs}, R.choice(['plain', 'plain', 'fortran', 'view', 'reversed', 'float32', 'readonly'])])
        elif k == 'intmatrix':
            c['ops'].append([k, {str(v): R.int(0, len(o[v]) - 1) for v in vs}])
        elif k == 'dict':
            c['ops'].append([k, {str(v): routegen.weights(R, len(o[v])) for v in R.subset(vs, 1)}, R.bool(), R.choice(['plain', 'plain', 'numpy', 'ordered', 'default', 'shuffled'])])
        elif k == 'badmatrix':
            c['ops'].append([k, {str(v): routegen.weights(R, len(o[v])) for v in vs}, R.choice(vs), R.choice(['low', 'high', 'neg', 'zero', 'negsum', 'tiny', 0.03, -0.03, 4e-3, -4e-3, 1e-3, -1e-3])])
        elif k in ('baddict', 'multibad'):
            v = R.choice(vs)
            c['ops'].append([k, v, routegen.weights(R, len(o[v])), R.choice(['low', 'high', 'neg', 'zero', 'negsum', 'tiny', 0.03, -0.03, 4e-3, -4e-3, 1e-3, -1e-3])])
            if k == 'multibad':
                c['ops'][-1] += [{str(u): routegen.weights(R, len(o[u])) for u in vs if u != v and R.bool(3, 4)}, R.int(0, len(vs)), R.bool(1, 4)]
        elif k == 'badsink':
            dead = [v for v in range(n) if not o[v]]
            if dead:
                c['ops'].append([k, R.choice(dead), {str(v): routegen.weights(R, len(o[v])) for v in vs}, R.int(0, n - 1), R.int(0, n - 1), R.choice([0, 0.5, 1, 2]),
                                 R.choice([0.5, 1, 1e-6]), R.bool()])
        elif k == 'run':
            c['ops'].append([k, R.int(1, 3), R.choice([0, 1, 10, 25.0]), R.int(0, 10 ** 6)])
        elif k == 'badkey':
            c['ops'].append([k, R.choice([-1, n, n + 3, n + 100])])
        elif k == 'shape':
            c['ops'].append([k, R.choice(['big', 'small', 'flat', 'wide'])])
        elif k == 'type':
            c['ops'].append([k, R.choice(['list', 'none', 'int', 'str', 'tuple'])])
        elif k == 'generate':
            c['ops'].append([k, R.int(0, 10 ** 6), R.bool()])
        else:
            c['ops'].append([k])
    return c


def spoil(p, how):
    """Makes a row of probabilities invalid; None if impossible."""
    p = list(p)
    i = max(range(len(p)), key=lambda k: p[k])
    if not isinstance(how, str):
        p[i] += how
    elif how == 'low':
        p[i] *= 0.7
    elif how == 'high':
        p[i] += 0.2
    elif how == 'zero':
        p = [0.0] * len(p)
    elif how == 'negsum':
        p = [-x for x in p]
    else:
        if len(p) < 2:
            return None
        j = (i + 1) % len(p)
        if how == 'tiny':
            p[i], p[j] = p[i] + p[j], -1e-10
            return p
        p[i], p[j] = p[i] + p[j] + 0.25, -0.25
    return p


def read(net, rows, o, n, what):
    mat, d = net.transitions(), net.transitions(False)
    want = np.zeros((n, n))
    for v, r in rows.items():
        want[v, o[v]] = r
    expect(isinstance(mat, np.ndarray) and mat.shape == (n, n), '{0}: transitions() has shape {1}', what, getattr(mat, 'shape', None))
    if not np.array_equal(mat, want):
        v = int(np.where((mat != want).any(axis=1))[0][0])
        fail('{0}: transitions()[{1}] is {2}, expected {3}', what, v, list(mat[v]), list(want[v]))
    wd = {v: dict(zip(o[v], rows.get(v, []))) for v in range(n)}
    expect({int(k): {int(a): b for a, b in x.items()} for k, x in d.items()} == wd, '{0}: transitions(False) is {1}, expected {2}', what, d, wd)


def check(case):
    n, o = case['nv'], routegen.out(case['nv'], case['edges'])
    net = routegen.network(case)
    rows = {v: [1.0 / len(o[v])] * len(o[v]) for v in o if o[v]}
    labels = set()
    several = started = False
    read(net, rows, o, n, 'initially')

    def matrix(r):
        mat = np.zeros((n, n))
        for v, p in r.items():
            mat[v, o[v]] = p
        return mat

    def rejected(arg, exc, what):
        try:
            net.set_transitions(arg)
        except exc:
            pass
        else:
            fail('{0}: {1!r} was accepted', what, arg)
        read(net, rows, o, n, what + ' (rejected)')

    for i, op in enumerate(case['ops']):
        what = 'operation {0} {1}'.format(i, op[0])
        k = op[0]
        if k in ('matrix', 'intmatrix'):
            if k == 'matrix':
                rows = {int(v): routegen.probs(w) for v, w in op[1].items()}
                mat = {'fortran': np.asfortranarray, 'view': lambda m: np.pad(m, 1)[1:-1, 1:-1], 'reversed': lambda m: m[::-1, ::-1].copy()[::-1, ::-1],
                       'float32': lambda m: m.astype(np.float32)}.get(op[2], lambda m: m)(matrix(rows))
                if op[2] == 'float32':
                    rows = {v: [float(mat[v, t]) for t in o[v]] for v in rows}
                if op[2] == 'readonly':
                    mat.setflags(write=False)
            else:
                rows = {int(v): [float(j == a) for j in range(len(o[int(v)]))] for v, a in op[1].items()}
                mat = matrix(rows).astype(int)
            kept = mat.copy()
            net.set_transitions(mat)
            expect(np.array_equal(mat, kept), '{0}: the given matrix was changed', what)
            if mat.flags.writeable:
                mat[:] = -7
            labels.add('matrix')
            several = True
        elif k == 'dict':
            d = {}
            for v, w in op[1].items():
                v = int(v)
                rows[v] = routegen.probs(w)
                d[v] = {t: p for t, p in zip(o[v], rows[v]) if p > 0 or not op[2]}
                several = several or len(o[v]) > 1
            if op[3] == 'numpy':
                d = {np.int64(v): {np.int64(t): np.float64(p) for t, p in x.items()} for v, x in d.items()}
            elif op[3] == 'ordered':
                d = collections.OrderedDict((v, collections.OrderedDict(x)) for v, x in d.items())
            elif op[3] == 'default':
                d = collections.defaultdict(dict, {v: collections.defaultdict(float, x) for v, x in d.items()})
            elif op[3] == 'shuffled':
                d = {v: dict(list(x.items())[::-1]) for v, x in list(d.items())[::-1]}
            kept = copy.deepcopy(d)
            net.set_transitions(d)
            expect(d == kept and all(list(d[v]) == list(kept[v]) for v in kept), '{0}: the given dict was changed', what)
            for x in d.values():
                x.clear()
            labels.add('dict')
        elif k == 'badmatrix':
            new = {int(v): routegen.probs(w) for v, w in op[1].items()}
            bad = spoil(new[op[2]], op[3])
            if bad is not None:
                new[op[2]] = bad
                rejected(matrix(new), ValueError, what)
                labels.add('rejected-matrix')
        elif k in ('baddict', 'multibad'):
            v = op[1]
            bad = spoil(routegen.probs(op[2]), op[3])
            if bad is not None:
                d = {v: dict(zip(o[v], bad))}
                if k == 'multibad':
                    if op[6]:
                        d = {n + op[5]: {0: 1.0}}
                    pairs = [(int(u), dict(zip(o[int(u)], routegen.probs(w)))) for u, w in op[4].items()]
                    i = min(op[5], len(pairs))
                    d = dict(pairs[:i] + list(d.items()) + pairs[i:])
                    if i:
                        labels.add('rejected-later-key')
                rejected(d, ValueError, what)
                labels.add('rejected-dict')
        elif k == 'badsink':
            # valid rows except for a negative entry of a vertex without out-edges
            row = np.zeros(n)
            row[op[3]] += op[5]
            row[op[4]] = -op[6]
            if op[7]:
                mat = matrix({int(v): routegen.probs(w) for v, w in op[2].items()})
                mat[op[1]] = row
                rejected(mat, ValueError, what)
            else:
                rejected({op[1]: {int(v): row[v] for v in np.flatnonzero(row)}}, ValueError, what)
            labels.add('rejected-sink')
        elif k == 'run':
            # settings can be made and read at any moment of a simulation
            if any(q.edge[3] for q in net.edge2queue):
                np.random.seed(op[3])
                if not started:
                    net.initialize(nActive=op[1])
                    started = True
                net.simulate(**({'t': op[2]} if isinstance(op[2], float) else {'n': op[2]}))
                labels.add('simulated')
                if net.current_time > 20:
                    labels.add('simulated for long')
        elif k == 'badkey':
            rejected({op[1]: {0: 1.0}}, ValueError, what)
            labels.add('rejected-dict')
        elif k == 'shape':
            mat = matrix(rows)
            bad = {'big': np.pad(mat, ((0, 1), (0, 1))), 'small': mat[:-1, :-1], 'flat': mat.reshape(-1) if n > 1 else np.ones(2),
                   'wide': np.pad(mat, ((0, 0), (0, 1)))}[op[1]]
            rejected(bad, ValueError, what)
            labels.add('rejected-matrix')
        elif k == 'type':
            bad = {'list': matrix(rows).tolist(), 'none': None, 'int': 3, 'str': 'ab', 'tuple': tuple(map(tuple, matrix(rows)))}[op[1]]
            rejected(bad, TypeError, what)
            labels.add('type-error')
        elif k == 'roundtrip':
            net.set_transitions(net.transitions())
            net.set_transitions({v: x for v, x in net.transitions(False).items() if x})
        elif k == 'generate':
            adj = {u: [] for u in case['order']}
            for u, v in case['edges']:
                adj[u].append(v)
            g = nx.DiGraph(adj) if op[2] else net.g
            mat = qt.generate_transition_matrix(g, seed=op[1])
            again = qt.generate_transition_matrix(g, seed=op[1])
            expect(np.array_equal(mat, again), '{0}: the same seed gave another matrix', what)
            expect(mat.shape == (n, n) and (mat >= 0).all(), '{0}: shape {1} or negative entries', what, mat.shape)
            for v in range(n):
                off = [u for u in range(n) if u not in o[v]]
                expect((mat[v, off] == 0).all(), '{0}: row {1} has probability off the edges: {2}', what, v, list(mat[v]))
                if o[v]:
                    expect(abs(mat[v].sum() - 1) < 1e-9, '{0}: row {1} sums to {2}', what, v, mat[v].sum())
            net.set_transitions(mat)
            rows = {v: list(mat[v, o[v]]) for v in o if o[v]}
            labels.add('generated')
        read(net, rows, o, n, what)
    return Info(several and len(case['ops']) > 1, labels, len(case['ops']))
