import math

import numpy as np
import queueing_tool as qt

from lib import retries, routegen
from lib.runner import Info, expect, fail

ID = 'C12'
QUICK = 3200
THOROUGH = 100000
TECHNIQUE = 'property-based testing with a statistical oracle (Bernstein bounds at 1e-12) over random networks and routing settings'
NOTE = ('Random graphs and transition settings; thousands of routing choices per case, asked of agents directly and made in '
        'a simulation, are compared with the transition probabilities: an impossible edge is never taken, frequencies and '
        'frequencies of consecutive pairs lie within Bernstein bounds (in some cases for agents that are blocked again and again as well) that a correct tree leaves with probability < 1e-11.')
RULE = ('a random graph (any vertex order, out-degrees 1 to 14) with default or random transition probabilities set by matrix '
        'or dict; non-trivial = some vertex with at least 2 out-edges and at least 1000 choices made there')
MIN_LABELS = {'default': 0.1, 'matrix': 0.2, 'dict': 0.2, 'zero-prob': 0.2, 'simulated': 0.15, 'degree>=5': 0.2, 'choices after blocks': 0.005}
SHRINK = ()
LOG = math.log(2 / 1e-13)


def gen(R, tier):
    if R.bool(1, 40):
        return retries.gen(R, tier)
    n, edges = routegen.graph(R, big=R.bool(1, 5))
    o = routegen.out(n, edges)
    c = {'nv': n, 'edges': edges, 'order': R.perm(n), 'agent': R.choice(['Agent', 'Agent', 'InfoAgent', 'ResourceAgent']),
         'mode': R.choice(['direct', 'direct', 'simulated']), 'draws': R.weighted([(1500, 10), (6000, 5), (40000, 1)]) if tier == 'quick' else R.choice([1500, 6000, 60000]),
         'seed': R.int(0, 10 ** 6), 'sets': []}
    for _ in range(R.choice([0, 1, 1, 2])):
        vs = [v for v in range(n) if o[v]]
        if R.bool():
            c['sets'].append(['matrix', {str(v): routegen.weights(R, len(o[v])) for v in vs}])
        else:
            c['sets'].append(['dict', {str(v): routegen.weights(R, len(o[v])) for v in R.subset(vs, 1)}, R.bool()])
    return c


def fixed_cases(tier):
    """Many choices, some of them rare."""
    k = 1 if tier == 'quick' else 5
    edges = [[0, v] for v in range(7)] + [[v, 0] for v in range(1, 7)]
    for i, w in enumerate(([1, 0, 2, 2991, 2, 4, 0], [2, 2, 2, 2, 2, 0, 2990], [2990, 2, 0, 3, 2, 2, 1], [330, 1, 330, 1, 337, 0, 1])):
        yield {'nv': 7, 'edges': edges, 'order': list(range(7)), 'agent': ('Agent', 'InfoAgent', 'ResourceAgent', 'Agent')[i], 'mode': 'direct', 'draws': 300000 * k, 'seed': i,
               'sets': [['matrix', {'0': w, '1': [1], '2': [1], '3': [1], '4': [1], '5': [1], '6': [1]}]]}


def apply(net, sets, o, n):
    rows = {v: [1.0 / len(o[v])] * len(o[v]) for v in o if o[v]}
    for s in sets:
        if s[0] == 'matrix':
            mat = np.zeros((n, n))
            for v, w in s[1].items():
                rows[int(v)] = routegen.probs(w)
                mat[int(v), o[int(v)]] = rows[int(v)]
            net.set_transitions(mat)
        else:
            d = {}
            for v, w in s[1].items():
                v = int(v)
                rows[v] = routegen.probs(w)
                d[v] = {t: p for t, p in zip(o[v], rows[v]) if p > 0 or not s[2]}
            net.set_transitions(d)
    return rows


def bound(n, p):
    return math.sqrt(2 * n * p * (1 - p) * LOG) + LOG * 2 / 3 + 1


def compare(choices, rows, o, what):
    """choices: {v: [index of chosen out-edge, ...]}"""
    for v, ks in choices.items():
        n, p = len(ks), rows[v]
        cnt = np.bincount(ks, minlength=len(p))
        for k, pk in enumerate(p):
            if pk == 0 and cnt[k]:
                fail('{0}: at vertex {1} the edge to {2}, which has probability 0, was taken {3} times', what, v, o[v][k], cnt[k])
            if pk == 1 and cnt[k] != n:
                fail('{0}: at vertex {1} the edge to {2}, which has probability 1, was taken {3} of {4} times', what, v, o[v][k], cnt[k], n)
            expect(abs(cnt[k] - n * pk) <= bound(n, pk), '{0}: at vertex {1} the edge to {2} with probability {3} was taken {4} of {5} times',
                   what, v, o[v][k], pk, cnt[k], n)
        # independence of consecutive choices (even and odd pairs are each independent)
        a = np.asarray(ks)
        for off in (0, 1):
            x, y = a[off:-1:2], a[off + 1::2]
            m = min(len(x), len(y))
            if m < 200:
                continue
            pairs = np.bincount(x[:m] * len(p) + y[:m], minlength=len(p) ** 2)
            for i in range(len(p)):
                for j in range(len(p)):
                    q = p[i] * p[j]
                    expect(abs(pairs[i * len(p) + j] - m * q) <= bound(m, q),
                           '{0}: at vertex {1} the pair of consecutive choices ({2}, {3}) with probability {4} was made {5} of {6} times',
                           what, v, o[v][i], o[v][j], q, pairs[i * len(p) + j], m)


def untemper(y):
    """The word of the Mersenne twister's state that gives the output y."""
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def force(u):
    """Makes u * 2 ** -53 the next uniform number numpy draws."""
    key = np.random.RandomState(7).randint(0, 2 ** 32, 624, dtype=np.uint64).astype(np.uint32)
    key[0], key[1] = untemper((u >> 26) << 5), untemper((u & (2 ** 26 - 1)) << 6)
    np.random.set_state(('MT19937', key, 0, 0, 0.0))


def extremes(net, agent, edge, row, targets, pos, index):
    """Random numbers at and next to the limits of the intervals of the edges (and of the unit interval)."""
    at, z = {0, 1, 2 ** 53 - 1, 2 ** 53 - 2}, 0.0
    for p in row:
        z += p
        at |= {int(z * 2 ** 53) + d for d in (-1, 0, 1)}
    state = np.random.get_state()
    for u in sorted(at):
        if 0 <= u < 2 ** 53:
            force(u)
            k = pos[index[agent.desired_destination(net, edge)][1]]
            expect(row[k] > 0, 'an agent at edge {0} chose the edge to {1}, which has probability 0, when {2} was drawn', edge, targets[k], u * 2.0 ** -53)
    np.random.set_state(state)


def check(case):
    if case.get('part') == 'choices':
        labels, n = retries.check(case)
        return Info(n >= 300, labels, n)
    n, o = case['nv'], routegen.out(case['nv'], case['edges'])
    labels = {s[0] for s in case['sets']} or {'default'}
    sinks = {v for v in o if not o[v]}
    cls = getattr(qt, case['agent'])
    np.random.seed(case['seed'])
    if case['mode'] == 'direct':
        net = routegen.network(case)
        rows = apply(net, case['sets'], o, n)
        index = {net.g.edge_index[e]: e for e in net.g.edges()}
        by_target = {v: [q.edge for q in net.edge2queue if q.edge[1] == v] for v in o}
        choices = {}
        for v in sorted(o, key=lambda v: -len(o[v]))[:3]:
            if not o[v] or not by_target[v]:
                continue
            agents = [cls((0, i)) for i in range(2)]
            if len(o[v]) == 1:
                draws = 30
            else:
                draws = case['draws']
            edges = by_target[v]
            ks = []
            pos = {t: k for k, t in enumerate(o[v])}
            for i in range(draws):
                e = agents[i & 1].desired_destination(net, edges[i % len(edges)])
                u, w = index[e][:2]
                expect(u == v, 'an agent at edge {0} chose edge {1}', edges[i % len(edges)], (u, w))
                ks.append(pos[w])
            choices[v] = ks
            if draws > 30:
                extremes(net, agents[0], edges[0], rows[v], o[v], pos, index)
    else:
        labels.add('simulated')
        cl = {k: qt.QueueServer for k in (1, 2, 3, 4)}
        arg = {k: dict(num_servers=3, arrival_f=lambda t: t + np.random.exponential(1), service_f=lambda t: t + np.random.exponential(0.2),
                       AgentFactory=lambda aid: cls(aid)) for k in (1, 2, 3, 4)}
        if case['agent'] == 'ResourceAgent':
            pass
        net = routegen.network(case, q_classes=cl, q_args=arg, max_agents=12)
        real = [k for k, q in enumerate(net.edge2queue) if q.edge[3] != 0]
        rows = apply(net, case['sets'], o, n)
        if not real:
            return Info(False, labels)
        net.initialize(queues=real)
        net.start_collecting_data()
        net.simulate(n=case['draws'])
        choices = {}
        ends = {k: q.edge for k, q in enumerate(net.edge2queue)}
        moves = []
        for aid, dat in net.get_agent_data().items():
            for a, b in zip(dat[:-1], dat[1:]):
                moves.append((b[0], int(a[5]), int(b[5])))
        moves.sort()
        for t, a, b in moves:
            v = ends[a][1]
            expect(ends[b][0] == v, 'an agent moved from edge {0} to edge {1}', ends[a], ends[b])
            choices.setdefault(v, []).append(o[v].index(ends[b][1]))
    if any(0 in r for r in rows.values()):
        labels.add('zero-prob')
    if any(len(o[v]) >= 5 for v in choices):
        labels.add('degree>=5')
    compare(choices, rows, o, case['mode'])
    nt = any(len(o[v]) > 1 and len(ks) >= 1000 for v, ks in choices.items())
    return Info(nt, labels, sum(map(len, choices.values())))
