"""Graphs and routing probabilities for C12 and C13."""
import numpy as np

import queueing_tool as qt


def graph(R, big=False):
    n = R.int(1, 7) if not big else R.weighted([((6, 14), 20), ((15, 45), 3), ((60, 140), 1)])
    n = R.int(*n) if big else n
    edges = []
    full = R.int(0, n - 1)
    if n >= 60:                                        # a star
        edges = [[full, v] for v in range(n)] + [[v, full] for v in range(n) if v != full and R.bool(1, 4)]
        return n, [edges[k] for k in R.perm(len(edges))] if R.bool() else edges
    for u in range(n):
        if R.bool(1, 8) and n > 1:
            continue                                   # a sink
        if u == full:
            targets = [v for v in range(n)]
        else:
            targets = [v for v in range(n) if R.bool(1, 3)] or [R.int(0, n - 1)]
        edges += [[u, v] for v in targets]
    if not edges:
        edges = [[0, v] for v in range(n)]
    if R.bool():                                       # out-edges added in any order
        edges = [edges[k] for k in R.perm(len(edges))]
    return n, edges


def weights(R, k):
    """k small non-negative weights, not all zero (zeros and ones are frequent)."""
    mode = R.int(0, 6)
    if mode == 0:
        w = [0] * k
        w[R.int(0, k - 1)] = 1
    elif mode == 1:
        w = [R.choice([0, 0, 1, 2]) for _ in range(k)]
    elif mode == 2:
        w = [R.int(1, 100) for _ in range(k)]
    elif mode == 3:
        w = [R.choice([1, 1, 1000]) for _ in range(k)]
    elif mode == 4:
        w = [R.choice([0, 1, 1]) for _ in range(k)]
        if k <= 14 and any(w):
            return w + ['6 digits']
    elif mode == 5:                                    # nearly certain
        w = [R.choice([0, 1]) for _ in range(k)]
        w[R.int(0, k - 1)] = R.choice([150, 500, 1000])
    else:
        w = [R.int(0, 5) for _ in range(k)]
    if not any(w):
        w[R.int(0, k - 1)] = 1
    return w


def probs(w):
    if w[-1] == '6 digits':                            # adds up to one only nearly
        return [round(x, 6) for x in probs(w[:-1])]
    s = float(sum(w))
    return [x / s for x in w]


def out(n, edges):
    o = {u: [] for u in range(n)}
    for u, v in sorted(map(tuple, edges)):
        o[u].append(v)
    return o


def network(case, agent=None, **kw):
    adj = {u: [] for u in range(case['nv'])}
    order = case.get('order') or list(range(case['nv']))
    adj = {u: [] for u in order}
    for u, v in case['edges']:
        adj[u].append(v)
    g = qt.adjacency2graph(adj, adjust=2)
    return qt.QueueNetwork(g, **kw)
