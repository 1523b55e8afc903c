import math

import numpy as np
import queueing_tool as qt

from lib import netgen
from lib.runner import Info, expect, fail

ID = 'C14'
QUICK = 20000
THOROUGH = 200000
TECHNIQUE = 'stateful property-based testing: generated selections in every form against a set model; a test of uniformity'
NOTE = ('Random typed graphs (terminal edges, loops, non-contiguous types, any edge order) and selections in every documented '
        'form for all methods that take one; which queues were touched is compared with a set computed from the graph. The random '
        'choices of nActive are compared with the uniform distribution over many repetitions.')
RULE = ('a random typed network and a sequence of operations with generated selections; non-trivial = at least 4 operations '
        'and one selection that is neither empty nor everything')
MIN_LABELS = {'by-index': 0.4, 'by-edge': 0.4, 'by-type': 0.4, 'edge-tuple-of-tuples': 0.1, 'nActive': 0.2, 'init-error': 0.1,
              'data': 0.2, 'clear': 0.2, 'proper-subset': 0.5, 'other iterable': 0.5, 'later initialize': 0.2, 'chosen at random': 0.002}


FORMS = ('list', 'list', 'npints', 'tuple', 'set', 'array', 'frozenset', 'keys', 'generator', 'iterator')
NP = lambda x: [tuple(np.int64(a) for a in y) if isinstance(y, tuple) else np.int64(y) for y in x]
WRAP = {'list': list, 'npints': NP, 'tuple': tuple, 'set': set, 'array': np.array, 'one': lambda x: x[0], 'npint': lambda x: np.int64(x[0]), 'frozenset': frozenset,
        'keys': lambda x: dict.fromkeys(x).keys(), 'generator': lambda x: (y for y in x), 'iterator': iter, 'range': lambda x: range(x[0], x[-1] + 1)}


def selection(R, ne, types, edges, optional=True):
    how = R.weighted({'index': 3, 'edge': 4, 'type': 3, 'all': 1 if optional else 0})
    if how == 'all':
        return None
    if R.bool(1, 15):                       # nothing at all
        return [how, R.choice([f for f in FORMS if how == 'index' or f != 'array']), []]
    if how == 'type':
        ts = sorted(set(types)) + [9]
        if R.bool(1, 3):
            return ['type', R.choice(['one', 'one', 'npint']), [R.choice(ts)]]
        return ['type', R.choice(FORMS), R.subset(ts, 1)]
    pick = R.subset(range(ne), 1)
    if R.bool():
        pick = pick[:2]
    pick = [pick[i] for i in R.perm(len(pick))]
    if how == 'index':
        if R.bool(1, 3):
            return ['index', R.choice(['one', 'npint']), pick[:1]]
        if R.bool(1, 8):
            a, b = R.int(0, ne - 1), R.int(0, ne - 1)
            return ['index', 'range', list(range(min(a, b), max(a, b) + 1))]
        return ['index', R.choice(FORMS), pick]
    if R.bool(1, 3):
        return ['edge', 'one', pick[:1]]
    return ['edge', R.choice(FORMS + ('tuple', 'tuple')), pick]


def gen(R, tier):
    n, edges = netgen.graph(R, nmax=5 if tier == 'quick' else 8)
    outs = {u for u, _ in edges}
    types = [R.choice([1, 1, 2, 3, 4]) if v in outs else 0 for u, v in edges]
    c = {'nv': n, 'edges': edges, 'types': types, 'seed': R.int(0, 10 ** 6), 'ops': [], 'order': R.perm(n)}
    if R.bool(1, 2):
        c['init'] = ['nActive', R.choice([1, 1, 2, 3, 5, 50])]
    else:
        c['init'] = ['sel', selection(R, len(edges), types, edges, False)]
    if R.bool(1, 150):                      # which ones are chosen?
        return dict(c, draws=[R.choice([1, 1, 2, 3]), 800])
    if R.bool(1, 4):
        c['badinit'] = R.choice([0, -1, -7, 1.5, 2.0, 'x'])
    if R.bool(1, 2):
        c['ops'] += [['start', None if R.bool() else selection(R, len(edges), types, edges)], ['sim', R.int(20, 90) if R.bool(49, 50) else R.int(300, 2500)]]
    for _ in range(R.int(2, 9)):
        k = R.weighted({'start': 4, 'stop': 2, 'sim': 3, 'qdata': 3, 'adata': 3, 'clear': 2, 'init': 1})
        if k == 'init' and R.bool(1, 3):
            c['ops'].append(['nActive', R.choice([1, 2, 3, 50])])
            continue
        c['ops'].append([k, R.int(5, 60) if k == 'sim' else selection(R, len(edges), types, edges)])
    if any(k == 'sim' and x >= 300 for k, x in c['ops']) and R.bool(2, 3):
        c['few'] = True
        c['ops'] = [o for o in c['ops'] if o[0] not in ('init', 'nActive')]
    return c


def kwargs(sel, edges, ename):
    """Keyword arguments and the set of queues they stand for."""
    ne = len(edges)
    if sel is None:
        return {}, None
    what, form, items = sel
    wrap = WRAP[form]
    if what == 'index':
        return {'queues': wrap(items)}, items
    if what == 'type':
        return {'edge_type': wrap(items)}, items
    return {ename: wrap([tuple(edges[i]) for i in items])}, items


def draw(net, ne, terminal, k, n):
    """Every set of k queues is as likely as any other, whatever was chosen before."""
    free = [e for e in range(ne) if e not in terminal]
    m, k = len(free), min(k, len(free))
    hit = np.zeros((n, ne), int)
    for i in range(n):
        net.clear()
        net.initialize(nActive=k)
        hit[i] = [q.active for q in net.edge2queue]

    def close(count, n, p, what):
        log = math.log(2 / 1e-14)
        expect(abs(count - n * p) <= math.sqrt(2 * n * p * (1 - p) * log) + 2 * log / 3 + 1,
               'initialize(nActive={0}) of {1} queues: {2} {3} of {4} times', k, m, what, count, n)
    for a in free:
        close(hit[:, a].sum(), n, k / m, 'queue {0} was chosen'.format(a))
        for b in free:
            if a < b:
                close((hit[:, a] & hit[:, b]).sum(), n, k * (k - 1) / (m * (m - 1)), 'queues {0} and {1} were chosen together'.format(a, b))
            for off in (0, 1):
                one, two = hit[off:-1:2, a], hit[off + 1::2, b]
                close((one[:len(two)] & two[:len(one)]).sum(), min(len(one), len(two)), (k / m) ** 2, 'queue {0} and then {1} were chosen'.format(a, b))


def check(case):
    edges, types = case['edges'], case['types']
    edges = sorted(map(tuple, edges))
    ne = len(edges)
    adj = {u: {} for u in case['order']}
    for (u, v), t in zip(edges, types):
        adj[u][v] = {'edge_type': t}
    rng = np.random.RandomState(case['seed'])
    cl = {k: qt.QueueServer for k in (1, 2, 3, 4)}
    cl[2] = qt.LossQueue
    arg = {k: dict(arrival_f=lambda t: t + rng.exponential(1), service_f=lambda t: t + rng.exponential(0.4),
                   AgentFactory=qt.Agent) for k in (1, 2, 3, 4)}
    net = qt.QueueNetwork(qt.adjacency2graph(adj, adjust=2), q_classes=cl, q_args=arg, seed=case['seed'])
    labels = set()
    expect([q.edge[:2] for q in net.edge2queue] == edges, 'queues are at {0}', [q.edge for q in net.edge2queue])

    def chosen(sel, items):
        if items is None:
            return set(range(ne))
        labels.add('by-' + sel[0])
        if sel[1] in ('frozenset', 'keys', 'generator', 'iterator', 'range'):
            labels.add('other iterable')
        if sel[:2] == ['edge', 'tuple']:
            labels.add('edge-tuple-of-tuples')
        s = {k for k in range(ne) if types[k] in items} if sel[0] == 'type' else set(items)
        if 0 < len(s) < ne:
            labels.add('proper-subset')
        return s

    # -- initialize
    terminal = {k for k in range(ne) if types[k] == 0}
    if 'draws' in case:
        draw(net, ne, terminal, *case['draws'])
        return Info(ne - len(terminal) > case['draws'][0], labels | {'chosen at random'}, case['draws'][1])
    if 'badinit' in case:
        try:
            net.initialize(nActive=case['badinit'])
        except (ValueError, TypeError, qt.QueueingToolError):
            labels.add('init-error')
        else:
            fail('initialize(nActive={0!r}) was accepted', case['badinit'])
        expect(not any(q.active for q in net.edge2queue), 'a rejected initialize activated a queue')
    if case['init'][0] == 'nActive':
        k = case['init'][1]
        net.initialize(nActive=k)
        act = {i for i, q in enumerate(net.edge2queue) if q.active}
        expect(not act & terminal, 'terminal queues {0} were activated', act & terminal)
        expect(len(act) == min(k, ne - len(terminal)), 'nActive={0} of {1} queues: {2} are active', k, ne - len(terminal), sorted(act))
        labels.add('nActive')
    else:
        sel = case['init'][1]
        kw, items = kwargs(sel, edges, 'edges')
        want = chosen(sel, items) - terminal
        try:
            net.initialize(**kw)
            ok = True
        except qt.QueueingToolError:
            ok = False
        expect(ok == bool(want), 'initialize({0}) {1}', kw, 'raised an error' if not ok else 'found something to activate')
        if not ok:
            labels.add('init-error')
            net.initialize(nActive=1)
        else:
            act = {i for i, q in enumerate(net.edge2queue) if q.active}
            expect(act == want, 'initialize({0}) activated {1}, expected {2}', kw, sorted(act), sorted(want))
    act = {i for i, q in enumerate(net.edge2queue) if q.active}
    for i, q in enumerate(net.edge2queue):
        expect(int(net.num_agents[i]) == (1 if i in act else 0) and q.num_arrivals[1] == (1 if i in act else 0),
               'after initialize queue {0} has {1} agents', i, int(net.num_agents[i]))

    # -- everything else
    if case.get('few'):                     # few agents with many visits each
        net.max_agents = len(act) + 1
    collecting = set()
    rows = [[] for _ in range(ne)]
    for i, (k, x) in enumerate(case['ops']):
        what = 'operation {0} {1}'.format(i, (k, x))
        if k == 'sim':
            net.simulate(n=x)
            for j in range(ne):
                if j not in collecting:
                    expect(len(net.edge2queue[j].fetch_data()) == len(rows[j]), '{0}: queue {1} gained data although it does not collect', what, j)
            rows = [net.edge2queue[j].fetch_data() for j in range(ne)]
            continue
        if k == 'nActive':
            was = {j for j, q in enumerate(net.edge2queue) if q.active}
            net.initialize(nActive=x)
            now = {j for j, q in enumerate(net.edge2queue) if q.active}
            expect(was <= now and not now & terminal and len(now - was) <= x, '{0}: activity changed from {1} to {2}', what, sorted(was), sorted(now))
            expect(len(now) >= min(x, ne - len(terminal)), '{0}: only {1} are active', what, sorted(now))
            labels.add('later initialize')
            continue
        kw, items = kwargs(x, edges, 'edges' if k == 'init' else 'edge')
        sel = chosen(x, items)
        if k == 'init':
            if x is None:
                continue
            was = {j for j, q in enumerate(net.edge2queue) if q.active}
            state = [(q.num_arrivals, q.time, q.num_departures, len(q.data)) for q in net.edge2queue]
            try:
                net.initialize(**kw)
                ok = True
            except qt.QueueingToolError:
                ok = False
            expect(ok == bool(sel - terminal), '{0}: initialize({1}) {2}', what, kw, 'raised an error' if not ok else 'found something to activate')
            now = {j for j, q in enumerate(net.edge2queue) if q.active}
            expect(now == was | (sel - terminal), '{0}: initialize({1}) activated {2}, expected {3} in addition to {4}', what, kw, sorted(now), sorted(sel - terminal), sorted(was))
            for j, q in enumerate(net.edge2queue):
                new = (q.num_arrivals, q.time, q.num_departures, len(q.data))
                expect(j in now - was or new == state[j], '{0}: queue {1} changed from {2} to {3}', what, j, state[j], new)
                expect(j not in now - was or q.num_arrivals[1] == state[j][0][1] + 1, '{0}: queue {1} has no arrival pending', what, j)
            labels.add('later initialize')
            continue
        before = [q.active for q in net.edge2queue]
        if k == 'start':
            net.start_collecting_data(**kw)
            collecting |= sel
        elif k == 'stop':
            net.stop_collecting_data(**kw)
            collecting -= sel
        elif k == 'clear':
            net.clear_data(**kw)
            for j in sel:
                rows[j] = np.zeros((0, 6))
            labels.add('clear')
        elif k == 'qdata':
            got, header = net.get_queue_data(return_header=True, **kw)
            expect(header == 'arrival,service,departure,num_queued,num_total,q_id', 'header {0!r}', header)
            want = sorted(tuple(r) for j in sel for r in rows[j])
            expect(sorted(map(tuple, got)) == want, '{0}: get_queue_data({1}) returned {2} rows from queues {3}, expected {4} from {5}',
                   what, kw, len(got), sorted(set(int(r[5]) for r in got)), len(want), sorted(sel))
            expect(np.array_equal(got, net.get_queue_data(**kwargs(x, edges, 'edge')[0])), 'get_queue_data differs with and without header')
            if len(want):
                labels.add('data')
        elif k == 'adata':
            got, header = net.get_agent_data(return_header=True, **kw)
            expect(header == 'arrival,service,departure,num_queued,num_total,q_id', 'header {0!r}', header)
            want = {}
            for j in sel:
                for aid, vs in net.edge2queue[j].data.items():
                    want.setdefault(aid, []).extend(tuple(map(float, v)) + (float(j),) for v in vs)
            expect(set(got) == set(want), '{0}: get_agent_data({1}) returned agents {2}, expected {3}', what, kw, sorted(got)[:9], sorted(want)[:9])
            for aid, dat in got.items():
                rs = [tuple(r) for r in dat]
                expect(sorted(rs) == sorted(want[aid]), '{0}: get_agent_data({1}) for agent {2}: {3}, expected {4}', what, kw, aid, rs, want[aid])
                expect(all(a[0] <= b[0] for a, b in zip(rs, rs[1:])), '{0}: visits of agent {1} are not sorted', what, aid)
            if want:
                labels.add('data')
        for j, q in enumerate(net.edge2queue):
            expect(bool(q.collect_data) == (j in collecting), '{0}: queue {1} is{2} collecting data', what, j, '' if q.collect_data else ' not')
            dat = q.fetch_data()
            expect(len(dat) == len(rows[j]) and (not len(dat) or np.array_equal(dat, rows[j])), '{0}: the data of queue {1} changed', what, j)
        expect(before == [q.active for q in net.edge2queue], '{0}: activity changed', what)
    return Info('proper-subset' in labels and len(case['ops']) >= 4, labels, len(case['ops']))
