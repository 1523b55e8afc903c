import numpy as np

import queueing_tool as qt

from lib import netgen, world
from lib.runner import Info, expect
from lib.stat import coin, exponential, independent, sides

ID = 'C30'
QUICK = 1500
THOROUGH = 60000
TECHNIQUE = ('property-based statistical testing of generated queues and networks with Dvoretzky-Kiefer-Wolfowitz and Chernoff bounds, '
             'and metamorphic testing: documented defaults left out or given')
NOTE = ('Queues of every class and networks in which the arrival function, the service function or both are left out are simulated and their collected '
        'data tested: each statistical test has false alarm probability below 1e-12. Random subsets of the other parameters are left out in one '
        'and given with the documented default in the other of two runs from the same random state, which must not differ.')
RULE = ('a queue or network with defaults in use and a number of agents; non-trivial = at least 400 inter-arrival or service times tested, or two '
        'histories of at least 30 events compared')
MIN_LABELS = {'queue': 0.25, 'net': 0.1, 'direct': 0.05, 'defaults': 0.15, 'arrivals': 0.3, 'services': 0.2, 'both': 0.1,
              'class Q': 0.05, 'class L': 0.05, 'class I': 0.05, 'class R': 0.05}

INF = float('inf')
DOC = {'num_servers': 1, 'edge': (0, 0, 0, 1), 'AgentFactory': qt.Agent, 'collect_data': False, 'active_cap': INF, 'deactive_t': INF,
       'coloring_sensitivity': 2}
EXTRA = {'Q': {}, 'L': {'qbuffer': 0}, 'I': {'qbuffer': INF, 'net_size': 1, 'AgentFactory': qt.InfoAgent},
         'R': {'qbuffer': 0, 'num_servers': 10, 'AgentFactory': qt.ResourceAgent}}
NETDOC = {'max_agents': 1000, 'blocking': 'BAS', 'adjust_graph': True}
CLASSES = {0: 'NullQueue', 1: 'QueueServer', 2: 'LossQueue', 3: 'LossQueue', 4: 'LossQueue'}


def gen(R, tier):
    kind = R.weighted({'queue': 5, 'net': 3, 'direct': 2, 'defaults': 4})
    c = {'kind': kind, 'seed': R.int(0, 10 ** 6), 'cls': R.choice('QLIR')}
    if kind == 'queue':
        c['use'] = R.choice(['both', 'both', 'arrivals', 'services'])
        c['other'] = R.choice(['det', 'unif', 'exp'])
        c['c'] = R.choice([None, None, None, 1, 2, 5, 30, 150, 3000, 'inf'])
        c['buf'] = R.choice([None, None, 0, 2, 10, 'inf'])
        c['agent'] = R.choice(['P', 'P', None, 'G'])
        c['n'] = R.choice([100, 400, 800, 1500])
        c['by'] = R.choice(['cap', 'nA', 'events', 'stop'])
        c['seeded'], c['late'] = R.bool(), R.choice([0, 0, 0, 3.7])
        c['extra'] = R.choice([None, None, 'sens', 'edge'])
    elif kind == 'net':
        n, edges = netgen.graph(R, nmax=4)
        c.update(nv=n, edges=edges, order=R.perm(n), types=R.choice(['one', 'one', 'mixed']), form=R.choice(['none', 'empty', 'cap', 'args', 'classes']),
                 n=R.choice([1500, 3000]), block=R.choice(['BAS', 'RS']))
        c['edge types'] = [R.int(1, 4) for _ in edges]
        outs = {u for u, _ in edges}
        c['init'] = R.subset([i for i, (u, v) in enumerate(edges) if v in outs], 1)
    elif kind == 'direct':
        c.update(t=R.choice([0, 0.5, 3, 17, 250.25, 2000, 1e4, 1e6]), c=R.choice([None, None, 1, 2, 7, 64, 200, 5000, 'inf']), which=R.choice(['arrival', 'service']), chain=R.bool(), copy=R.bool(1, 4), n=R.choice([400, 1500, 4000]))
    else:
        c['net'] = R.bool()
        if c['net']:
            n, edges = netgen.graph(R, nmax=5)
            c.update(nv=n, edges=edges, order=R.perm(n))
            c['edge types'] = [R.int(0, 4) for _ in edges]
            c['give'] = [R.subset(sorted(NETDOC) + ['q_classes', 'q_args', 'colors', 'seed']) for _ in range(2)]
            c['sub'] = [[R.subset(range(5)) for _ in range(2)] for _ in range(2)]
            c['n'] = R.int(30, 150)
        else:
            names = sorted(set(DOC) | set(EXTRA[c['cls']]) | {'colors', 'seed'})
            c['give'] = [R.subset(names) for _ in range(2)]
            c['n'] = R.int(30, 150)
    return c


def fixed_cases(tier):
    k = 1 if tier == 'quick' else 10
    out = []
    for i, cls in enumerate('QLIR'):
        for use, n in (('both', 20000), ('services', 12000), ('arrivals', 12000)):
            out.append({'kind': 'queue', 'seed': 5 + i, 'cls': cls, 'use': use, 'other': 'det', 'c': None, 'buf': None if use != 'services' else 'inf', 'agent': 'P',
                        'n': n * k, 'by': 'cap', 'seeded': True, 'late': 0, 'fixed': True})
        for which in ('arrival', 'service'):
            for t, c in ((2.5, None), (4e5, None), (30., 1000)):
                out.append({'kind': 'direct', 'seed': 50 + i, 'cls': cls, 't': t, 'c': c, 'which': which, 'chain': False, 'copy': False, 'n': 160000 * k, 'fixed': True})
        out.append({'kind': 'queue', 'seed': 15 + i, 'cls': cls, 'use': 'both', 'other': 'det', 'c': 300, 'buf': None, 'agent': 'P', 'n': 20000 * k, 'by': 'cap', 'seeded': True,
                    'late': 0, 'fixed': True})
    for i, types in enumerate(('one', 'mixed')):
        out.append({'kind': 'net', 'seed': 90 + i, 'cls': 'Q', 'nv': 2, 'edges': [[0, 0], [0, 1], [1, 0]], 'order': [0, 1], 'types': types, 'form': 'none', 'n': 60000 * k,
                    'block': 'BAS', 'edge types': [1, 2, 3], 'init': [0, 1, 2], 'fixed': True})
    return out


def check(case):
    np.random.seed(case['seed'])
    labels = {case['kind'], 'class ' + case['cls']}
    size = {'queue': check_queue, 'net': check_net, 'direct': check_direct, 'defaults': check_defaults}[case['kind']](case, labels)
    return Info(size >= (30 if case['kind'] == 'defaults' else 400), labels, size)


def times(x, mean, what, name):
    x = np.asarray(x, float) / mean
    if len(x) >= 60:
        exponential(x, what, '{0} (in units of {1})'.format(name, mean), '{0}s (in units of {1})'.format(name, mean))
        independent(x, what, name + 's')
    return x


# ------------------------------------------------------------------ queues
def other(kind):
    return {'det': lambda t: t + 1.3, 'unif': lambda t: t + np.random.uniform(0.2, 2.), 'exp': lambda t: t + np.random.exponential(1.4)}[kind]


def check_queue(case, labels):
    a = {'collect_data': True}
    cls, n = case['cls'], case['n']
    if case['use'] == 'services':
        a['arrival_f'] = other(case['other'])
    if case['use'] == 'arrivals':
        a['service_f'] = other(case['other'])
    if case['c'] is not None:
        a['num_servers'] = np.inf if case['c'] == 'inf' else case['c']
    if case['buf'] is not None and cls != 'Q':
        a['qbuffer'] = np.inf if case['buf'] == 'inf' else case['buf']
    if case['agent']:
        a['AgentFactory'] = world.factory(case['agent'], 1)
    if case.get('extra') == 'sens':
        a['coloring_sensitivity'] = 7
    if case.get('extra') == 'edge':
        a['edge'] = (3, 4, 0 if cls == 'I' else 11, 6)
    if case['seeded']:
        a['seed'] = case['seed'] + 1
    if case['by'] == 'cap':
        a['active_cap'] = n
    elif case['by'] == 'stop':
        a['deactive_t'] = n * 1.
    world.LOG = []
    q = world.CLASSES[cls](**a)
    what = '{0}({1}) simulated by {2} {3}'.format(type(q).__name__, {k: v for k, v in a.items() if not callable(v)}, case['by'], n)
    if case['late'] and case['by'] != 'stop':
        q.simulate(t=case['late'])          # inactive: nothing happens
    q.set_active()
    begin = q.current_time
    if case['by'] in ('cap', 'stop'):
        q.simulate(n=3 * n)
    elif case['by'] == 'nA':
        q.simulate(nA=n)
    else:
        q.simulate(n=2 * n)
    visits = sorted((v for rows in q.data.values() for v in rows), key=lambda v: v[0])
    ids = sorted(q.data)
    expect(len(visits) == len(ids) and [q.data[i][0][0] for i in ids] == [v[0] for v in visits], '{0}: the rows are not one per agent, in order of arrival', what)
    at = np.array([begin] + [v[0] for v in visits], float)
    gaps = np.diff(at)
    labels.add(case['use'])
    size = 0
    if case['use'] != 'services':
        expect(len(gaps) > 0, '{0}: no arrivals', what)
        x = times(gaps[:-1] if case['by'] == 'stop' else gaps, 1., what, 'inter-arrival time')
        labels.add('arrivals')
        size = len(gaps)
        if case['use'] != 'both':
            return size
    served = [(v[1], v[2] - v[1], k) for k, v in enumerate(visits) if v[1] > 0 or v[2] > 0]
    served.sort()
    if case['by'] in ('nA', 'events'):
        served = served[:len(served) // 2]          # all of these have left, unless the queue has many servers
        if any(visits[k][2] == 0 for _, _, k in served):
            served = []
    if cls == 'R' and case['agent'] is None and len(served) < 60:
        return size
    y = times([s for _, s, _ in served], 0.9, what, 'service time')
    labels.add('services')
    if case['use'] == 'both' and len(y) >= 60 and case['by'] == 'cap':
        mine = sides(x[[k for _, _, k in served]])
        coin(mine, sides(y), '{0}: the inter-arrival time before an agent and its service time', what)
        labels.add('both')
        nxt = [(k, i) for i, (_, _, k) in enumerate(served) if k + 1 < len(x)]
        # the arrival after an agent's is not looked at by its own service either
        if len(nxt) >= 60:
            coin(sides(x[[k + 1 for k, _ in nxt]]), sides(y[[i for _, i in nxt]]), '{0}: the inter-arrival time after an agent and its service time', what)
    return max(size, len(y))


def check_direct(case, labels):
    a = {} if case.get('c') is None else {'num_servers': np.inf if case['c'] == 'inf' else case['c']}
    q = world.CLASSES[case['cls']](seed=case['seed'], **a)
    if case['copy']:
        q = q.copy()
    f, mean = (q.arrival_f, 1.) if case['which'] == 'arrival' else (q.service_f, 0.9)
    what = 'the default {0}_f of {1}({3}) from {2}'.format(case['which'], type(q).__name__, case['t'], a)
    t, x = float(case['t']), []
    for _ in range(case['n']):
        y = f(t)
        expect(y >= t, '{0}: returned {1} at {2}', what, y, t)
        x.append(y - t)
        if case['chain']:
            t = y
    times(x, mean, what, 'time')
    labels.add('arrivals' if case['which'] == 'arrival' else 'services')
    return case['n']


# ---------------------------------------------------------------- networks
def graph(case, types):
    adj = {u: {} for u in case['order']}
    for (u, v), t in zip(sorted(map(tuple, case['edges'])), types):
        adj[u][v] = {'edge_type': t}
    return qt.QueueNetworkDiGraph(qt.adjacency2graph(adj, adjust=2))


def check_net(case, labels):
    one = case['types'] == 'one'
    types = [1] * len(case['edges']) if one else case['edge types']
    kw = {}
    if case['form'] == 'empty':
        kw = {'q_classes': {}, 'q_args': {}}
    elif case['form'] == 'cap':
        kw = {'q_args': {t: {'active_cap': 10 ** 7} for t in (1, 2)}}
    elif case['form'] == 'args':
        kw = {'q_args': {1: {'collect_data': True}, 2: {'num_servers': 2}}}
    elif case['form'] == 'classes':
        kw = {'q_classes': {1: qt.LossQueue}, 'q_args': {1: {'qbuffer': np.inf, 'num_servers': 2}}}
    net = qt.QueueNetwork(graph(case, types), seed=case['seed'], max_agents=np.inf, blocking=case['block'], **kw)
    what = 'network on {0} of types {1} with {2}'.format(case['edges'], types, sorted(kw))
    for q in net.edge2queue:
        if case['form'] != 'classes' or q.edge[3] != 1:
            expect(type(q).__name__ == CLASSES[q.edge[3]], '{0}: the queue on an edge of type {1} is a {2}', what, q.edge[3], type(q).__name__)
    net.start_collecting_data()
    net.initialize(queues=list(case['init']))
    net.simulate(n=case['n'])
    gaps, size = {}, 0
    for e in case['init']:
        q = net.edge2queue[e]
        first = [(aid[1], rows[0][0]) for aid, rows in q.data.items() if aid[0] == e]
        first.sort()
        if not first:
            continue
        expect([k for k, _ in first] == list(range(len(first))), '{0}: the agents from outside at queue {1} are numbered {2}', what, e, first[:20])
        gaps[e] = times(np.diff([0.] + [t for _, t in first]), 1., '{0}, queue {1}'.format(what, e), 'inter-arrival time')
        size += len(gaps[e])
    labels.add('arrivals')
    ks = sorted(gaps)
    k = min([len(x) for x in gaps.values()] or [0])
    if len(ks) > 1 and k >= 30:
        times(np.concatenate([gaps[e][:k] for e in ks]), 1., what, 'inter-arrival time of all queues')
        for a, b in zip(ks, ks[1:]):
            coin(sides(gaps[a][:k]), sides(gaps[b][:k]), '{0}: the inter-arrival times of queue {1} and those of queue {2}', what, a, b)
            # one after the other, in the order of events
            m = min(len(gaps[a]), len(gaps[b])) - 1
            coin(sides(gaps[a][1:m]), sides(gaps[b][:m - 1]), '{0}: the inter-arrival times of queue {1} and the one before of queue {2}', what, a, b)
    if one:
        long = []
        for q in net.edge2queue:
            if q.edge[3] == 0:
                continue
            s = sorted((v[1], v[2] - v[1]) for rows in q.data.values() for v in rows if v[2] > 0)
            s = s[:max(0, len(s) - 5)]
            if len(s) >= 30:
                long.append(times([x for _, x in s], 0.9, '{0}, queue {1}'.format(what, q.edge[2]), 'service time'))
        if long:
            k = min(len(x) for x in long)
            times(np.concatenate([x[:k] for x in long]), 1., what, 'service time of all queues, in units of 0.9')
            for a, b in zip(long, long[1:]):
                coin(sides(a[:k]), sides(b[:k]), '{0}: the service times of one queue and those of another', what)
            labels.update(('services', 'both'))
    return size


# ---------------------------------------------------------------- defaults
def value(name, cls):
    if name in EXTRA[cls]:
        v = EXTRA[cls][name]
    else:
        v = DOC[name]
    return np.inf if v == INF else v


def check_defaults(case, labels):
    if case['net']:
        return default_net(case, labels)
    cls, runs = case['cls'], []
    for give in case['give']:
        kw = {k: value(k, cls) for k in give if k not in ('colors', 'seed')}
        if 'colors' in give:
            kw['colors'] = None
        if 'seed' in give:
            kw['seed'] = None
        np.random.seed(case['seed'])
        q = world.CLASSES[cls](**kw)
        what = '{0}({1})'.format(type(q).__name__, kw)
        for k in sorted(set(DOC) | set(EXTRA[cls])):
            if k in ('qbuffer', 'net_size'):
                continue
            v = getattr(q, k)
            expect(v == value(k, cls), '{0}: {1} is {2!r}, documented {3!r}', what, k, v, value(k, cls))
        expect(not q.active, '{0} starts active', what)
        if cls != 'Q':
            expect(q.buffer == value('qbuffer', cls), '{0}: buffer is {1}', what, q.buffer)
        if cls == 'R':
            expect(q.max_servers == 20 and q.over_max == 0, '{0}: max_servers {1}, over_max {2}', what, q.max_servers, q.over_max)
            m = 1 + case['seed'] % 60
            p = qt.ResourceQueue(num_servers=m)
            expect((p.num_servers, p.max_servers, p.over_max) == (m, 2 * m, 0), 'ResourceQueue(num_servers={0}): num_servers {1}, max_servers {2}, over_max {3}',
                   m, p.num_servers, p.max_servers, p.over_max)
        if cls == 'I':
            expect(np.shape(q.net_data) == (1, 3), '{0}: net_data has shape {1}', what, np.shape(q.net_data))
        history = [world.qstate(q)]
        q.set_active()
        for k in range(case['n']):
            q.simulate()
            history.append([q.current_time, q.time, q.num_system, list(q.num_arrivals), q.num_departures, q.num_servers])
        history.append(world.qstate(q))
        expect(q.data == {}, '{0}: collected data without being asked', what)
        runs.append((what, history))
    world.same(runs[0][1], runs[1][1], '{0} and {1} differ', runs[0][0], runs[1][0])
    return case['n']


def default_net(case, labels):
    runs = []
    for give, sub in zip(case['give'], case['sub']):
        kw = {k: NETDOC[k] for k in give if k in NETDOC}
        if 'q_classes' in give:
            kw['q_classes'] = {k: getattr(qt, CLASSES[k]) for k in sub[0]}
        if 'q_args' in give:
            kw['q_args'] = {k: {} for k in sub[1]}
        if 'colors' in give:
            kw['colors'] = {}
        if 'seed' in give:
            kw['seed'] = None
        np.random.seed(case['seed'])
        g = graph(case, case['edge types'])
        what = 'QueueNetwork with {0}'.format(kw)
        net = qt.QueueNetwork(g, **kw)
        expect(net.max_agents == 1000 and net.blocking == 'BAS', '{0}: max_agents {1}, blocking {2}', what, net.max_agents, net.blocking)
        for q in net.edge2queue:
            expect(type(q).__name__ == CLASSES[q.edge[3]], '{0}: the queue on an edge of type {1} is a {2}', what, q.edge[3], type(q).__name__)
        history = [world.nstate(net)]
        try:
            net.initialize(2)
        except qt.QueueingToolError:
            expect(all(q.edge[3] == 0 for q in net.edge2queue), '{0}: initialize(2) found no queues', what)
            labels.add('terminal')
            case = dict(case, n=0)
        for k in range(case['n']):
            net.simulate()
            history.append([net.current_time, net.num_events, net.num_agents.tolist()])
        history.append(world.nstate(net))
        runs.append((what, history))
    world.same(runs[0][1], runs[1][1], '{0} and {1} differ', runs[0][0], runs[1][0])
    labels.add('default net')
    return case['n']
