"""Random networks and queues driven by numpy's random numbers, operations on
them, and a complete observable state. Used by the twin (differential) checks
C15, C16, C17 and C27."""
import io
import math

import numpy as np

import queueing_tool as qt
from lib import netgen
from lib.runner import expect, fail

INF = float('inf')
LOG = []            # hook calls, in order; replaced by the checks


class _Log(object):
    def queue_action(self, queue, *args, **kwargs):
        LOG.append((self.agent_id, queue.edge[2], queue.current_time, args[0] if args else None))
        super(_Log, self).queue_action(queue, *args, **kwargs)


class PAgent(_Log, qt.Agent):
    pass


class GAgent(_Log, qt.GreedyAgent):
    pass


class RAgent(_Log, qt.ResourceAgent):
    pass


class IAgent(_Log, qt.InfoAgent):
    pass


AGENTS = {'P': PAgent, 'G': GAgent, 'R': RAgent, 'I': IAgent}
CLASSES = {'Q': qt.QueueServer, 'L': qt.LossQueue, 'I': qt.InfoQueue, 'R': qt.ResourceQueue, 'N': qt.NullQueue}


def factory(kind, size):
    if kind == 'I':
        return lambda aid, *rest: IAgent(aid, rest[0] if rest else size)
    return lambda aid, *rest: AGENTS[kind](aid)


def timef(spec):
    """A random function of time, strictly increasing."""
    if spec is None:
        return None
    kind, s = spec
    if kind == 'exp':
        return lambda t: t + np.random.exponential(s)
    if kind == 'gamma':
        return lambda t: t + np.random.gamma(2, s)
    if kind == 'unif':
        return lambda t: t + np.random.uniform(0.1 * s, 2 * s)
    if kind == 'prm':
        return lambda t: t if t == INF else qt.poisson_random_measure(t, lambda x: (2 + math.sin(x)) / s, 3. / s)
    if kind == 'det':
        return lambda t: t + s
    raise ValueError(kind)


# ------------------------------------------------------------- generating
def gen_args(R, cls=None, ties=True, caps=True):
    cls = cls or R.weighted({'L': 4, 'Q': 3, 'I': 2, 'R': 2})
    kinds = ['exp', 'gamma', 'unif', 'prm'] + (['det'] if ties else [])
    a = {'cls': cls, 'c': R.choice([1, 1, 2, 3]), 'buf': R.choice([None, 0, 0, 1, 2]) if cls != 'Q' else None,
         'arr': [R.choice(kinds), R.choice([0.5, 1.0, 2.0])], 'ser': [R.choice(kinds), R.choice([0.3, 0.8, 1.5])],
         'agent': R.weighted({'P': 4, 'G': 2, 'R': 2, 'I': 2}), 'cap': None, 'stop': None, 'collect': False}
    if R.bool(1, 10):
        a['arr'] = None
    if R.bool(1, 10):
        a['ser'] = None
    if cls == 'R':
        a['agent'] = 'R' if R.bool(2, 3) else 'P'
    elif cls == 'I':
        a['agent'] = 'I' if R.bool(2, 3) else 'P'
    if cls != 'I' and a['agent'] == 'I' and R.bool():
        a['agent'] = 'P'
    if caps and R.bool(1, 8):
        a['cap'] = R.int(1, 12)
    if caps and R.bool(1, 8):
        a['stop'] = R.choice([2.0, 5.0, 10.0])
    if R.bool(1, 3):
        a['collect'] = True
    if R.bool(1, 12):                       # many in service
        a['c'] = R.choice([12, 100] if cls == 'R' else [12, 100, INF])
        a['arr'] = a['arr'] and [a['arr'][0], R.choice([0.1, 0.5])]
        a['ser'] = a['ser'] and [a['ser'][0], 10.0]
    return a


def hub(R):
    """A graph with a vertex that many edges enter and leave."""
    n = R.int(9, 18)
    edges = [[0, v] for v in range(n) if v or R.bool()]
    for v in range(1, n):
        back = R.choice(['hub', 'hub', 'hub', 'sink', 'both', 'loop'])
        edges += {'hub': [[v, 0]], 'sink': [], 'both': [[v, 0], [v, v % (n - 1) + 1]], 'loop': [[v, v], [v, 0]]}[back]
    edges = [list(e) for e in sorted(set(map(tuple, edges)))]
    return n, [edges[i] for i in R.perm(len(edges))]


def gen_net(R, nmax=5, ties=True, caps=True):
    n, edges = hub(R) if R.bool(1, 12) else netgen.graph(R, nmax=nmax)
    c = {'kind': 'net', 'nv': n, 'edges': edges, 'order': R.perm(n), 'seed': R.choice([0, 1, R.int(0, 10 ** 6), R.int(0, 10 ** 6), R.int(0, 10 ** 6)]),
         'block': R.choice(['BAS', 'RS']), 'max': R.choice([None, None, None, 3, 8, 20]), 'pos': R.choice([None, None, 'set', 'node']),
         'trans': R.choice([None, R.int(0, 99)]), 'keep': R.bool(1, 3)}
    k = R.int(1, 4)
    c['args'] = {str(t + 1): gen_args(R, ties=ties, caps=caps) for t in range(k)}
    c['types'] = [R.int(1, k) for _ in edges]
    if R.bool(1, 5):                        # types without a default class
        names = R.choice([[5, 6, 7, 8], [2, 300, 4, 9], [4, 3, 12, 1]])
        c['args'] = {str(names[int(t) - 1]): a for t, a in c['args'].items()}
        c['types'] = [names[t - 1] for t in c['types']]
    outs = {u for u, _ in edges}
    real = [i for i, (u, v) in enumerate(edges) if v in outs]
    if R.bool(1, 3):
        c['init'] = {'nActive': R.int(1, len(real) + 1)}
    else:
        c['init'] = {'queues': R.subset(real, 1)}
    return c


def gen_queue(R, ties=True, caps=True):
    return {'kind': 'queue', 'seed': R.choice([0, 1, R.int(0, 10 ** 6), R.int(0, 10 ** 6), R.int(0, 10 ** 6)]), 'arg': gen_args(R, ties=ties, caps=caps), 'edge': R.choice([[0, 0, 0, 1], [1, 2, 3, 2], [4, 4, 1, 1]])}


# --------------------------------------------------------------- building
def qargs(a, size):
    d = {'num_servers': a['c'], 'AgentFactory': factory(a['agent'], size), 'collect_data': a['collect']}
    if a['arr']:
        d['arrival_f'] = timef(a['arr'])
    if a['ser']:
        d['service_f'] = timef(a['ser'])
    if a['cap'] is not None:
        d['active_cap'] = a['cap']
    if a['stop'] is not None:
        d['deactive_t'] = a['stop']
    if a['buf'] is not None:
        d['qbuffer'] = a['buf']
    if a['cls'] == 'I':
        d['net_size'] = size
    if a.get('colors'):
        d['colors'] = {k: list(v) for k, v in a['colors'].items()}
    if a.get('sens'):
        d['coloring_sensitivity'] = a['sens']
    return d


def build(case, seed='case', init=True):
    """The queue or network of the case; initialized unless init is False.
    All randomness is fixed by the seed argument of the class, if given."""
    seed = case['seed'] if seed == 'case' else seed
    if case['kind'] == 'queue':
        a = case['arg']
        q = CLASSES[a['cls']](edge=tuple(case['edge']), seed=seed, **qargs(a, case['edge'][2] + 1))
        if init:
            q.set_active()
        return q
    edges = sorted(map(tuple, case['edges']))
    adj = {u: {} for u in case['order']}
    for (u, v), t in zip(edges, case['types']):
        adj[u][v] = {'edge_type': t}
    size = len(edges)
    if case.get('adjust') == 1:             # a terminal loop for every vertex without edges out
        size += case['nv'] + case.get('isolated', 0) - len({u for u, _ in edges})
    cl = {0: qt.NullQueue}
    ar = {0: {'collect_data': bool(case.get('null'))}}
    for t, a in case['args'].items():
        cl[int(t)] = CLASSES[a['cls']]
        ar[int(t)] = qargs(a, size)
    for v in range(case['nv'], case['nv'] + case.get('isolated', 0)):
        adj[v] = {}
    g = qt.adjacency2graph(adj, adjust=case.get('adjust', 2))
    if case['pos'] == 'node':               # places given with the vertices
        for v in adj:
            g.nodes[v]['pos'] = place(v)
    g = qt.QueueNetworkDiGraph(g)
    if case['pos'] == 'set':
        g.set_pos({v: np.array(place(v)) for v in adj})
    kw = {'colors': {k: list(v) for k, v in case['colors'].items()}} if case.get('colors') else {}
    if case.get('keep'):                    # the graph is adjusted already
        kw['adjust_graph'] = False
    net = qt.QueueNetwork(g, q_classes=cl, q_args=ar, seed=seed, blocking=case['block'],
                          max_agents=INF if case['max'] is None else case['max'], **kw)
    if case['trans'] is not None:
        set_trans(net, case['trans'])
    if init:
        initialize(net, case)
    return net


def place(v):
    return math.cos(v * 7.), v * 0.5


def initialize(net, case):
    net.initialize(**{k: (list(v) if isinstance(v, list) else v) for k, v in case['init'].items()})


def set_trans(net, s):
    """A random transition matrix that does not touch numpy's generator."""
    rng = np.random.RandomState(s)
    mat = np.zeros((net.nV, net.nV))
    for v in range(net.nV):
        out = [net.edge2queue[k].edge[1] for k in net.out_edges[v]]
        if out:
            w = rng.randint(0, 4, len(out)) + 0.0
            w[rng.randint(len(out))] += 1
            mat[v, out] = w / w.sum()
    net.set_transitions(mat)


# ------------------------------------------------------------------ state
def plain(x):
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x] if isinstance(x, list) else tuple(plain(v) for v in x)
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    return x


QATTR = ('num_servers', 'num_arrivals', 'num_departures', 'num_system', 'current_time', 'time', 'active',
         'collect_data', 'active_cap', 'deactive_t', 'coloring_sensitivity', 'edge', 'colors')
QEXTRA = ('num_blocked', 'buffer', 'max_servers', 'over_max', 'net_data')


def qstate(q):
    s = {k: plain(getattr(q, k)) for k in QATTR}
    s['class'] = type(q).__name__
    for k in QEXTRA:
        if hasattr(q, k):
            s[k] = plain(getattr(q, k))
    s['queued'], s['full'], s['next'] = q.number_queued(), bool(q.at_capacity()), q.next_event_description()
    s['data'] = plain(q.data)
    s['rows'], s['header'] = plain(q.fetch_data()), q.fetch_data(return_header=True)[1]
    s['color'] = [plain(list(q._current_color(k))) for k in (0, 1, 2)]
    s['repr'] = repr(q)
    return s


def gstate(g):
    return {'nodes': {v: {k: plain(x) for k, x in d.items()} for v, d in g.nodes(data=True)},
            'edges': {(u, v): {k: plain(x) for k, x in d.items()} for u, v, d in g.edges(data=True)},
            'index': dict(g.edge_index), 'pos': plain(g.pos), 'ec': plain(g.edge_color),
            'vc': plain(g.vertex_color), 'vf': plain(g.vertex_fill_color)}


def nstate(net, graph=True):
    s = {k: plain(getattr(net, k)) for k in ('num_events', 'num_agents', 'current_time', 'time', 'blocking', 'max_agents',
                                              'out_edges', 'in_edges', 'nV', 'nE', 'num_vertices', 'num_nodes', 'num_edges', 'colors')}
    s['repr'] = repr(net)
    s['next'] = plain(net.next_event_description())
    s['trans'], s['transd'] = plain(net.transitions()), plain(net.transitions(False))
    s['queues'] = [qstate(q) for q in net.edge2queue]
    s['rows'] = plain(net.get_queue_data())
    s['adata'] = plain(net.get_agent_data())
    if graph:
        s['graph'] = gstate(net.g)
    return s


def state(x, graph=True):
    return nstate(x, graph) if isinstance(x, qt.QueueNetwork) else qstate(x)


def differ(a, b, path=''):
    """The first difference of two states, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return '{0}[{1!r}] only in the first'.format(path, k)
        for k in b:
            if k not in a:
                return '{0}[{1!r}] only in the second'.format(path, k)
            d = differ(a[k], b[k], '{0}[{1!r}]'.format(path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, '{0}[{1}]'.format(path, i))
            if d:
                return d
        if len(a) != len(b):
            return '{0} has {1} and {2} entries'.format(path, len(a), len(b))
        return None
    if a == b or (a != a and b != b):
        return None
    return '{0}: {1!r} and {2!r}'.format(path, a, b)


def same(a, b, what, *args):
    d = differ(a, b)
    if d:
        fail('{0}: {1}', what.format(*args), d)


# ------------------------------------------------------------- operations
NET_OPS = {'sim': 8, 'time': 2, 'start': 2, 'stop': 1, 'cleardata': 1, 'servers': 2, 'inactive': 1, 'active': 1,
           'block': 1, 'trans': 1, 'maxa': 1, 'delay': 1, 'more': 1}
QUEUE_OPS = {'sim': 6, 'time': 2, 'nA': 2, 'nD': 2, 'start': 1, 'stop': 1, 'cleardata': 1, 'servers': 2, 'inactive': 1,
             'active': 1, 'delay': 1}


def finite(case):
    return any(a['cls'] in 'LR' or a['cls'] == 'I' and a['buf'] is not None for a in case['args'].values())


def gen_op(R, case, table=None, big=40):
    net = case['kind'] == 'net'
    k = R.weighted(table or (NET_OPS if net else QUEUE_OPS))
    ne = len(case['edges']) if net else 1
    if k == 'nD' and case['arg']['cls'] == 'R':
        k = 'nA'                            # out of resources it may never see another departure
    if net and k == 'time' and case['block'] == 'BAS' and finite(case):
        k = 'sim'                           # deadlocked agents retry every half microsecond
    if k == 'sim':
        return ['sim', R.int(1, big)]
    if k in ('nA', 'nD'):
        return [k, R.int(1, 12)]
    if k == 'time':
        return [k, R.choice([0.3, 1.0, 2.5, 6.0])]
    if k in ('start', 'stop', 'cleardata'):
        return [k, R.choice([None, R.subset(range(ne), 1)])]
    if k == 'servers':
        return [k, R.int(0, ne - 1), R.choice([1, 2, 3, 4, 6])]
    if k == 'block':
        return [k, R.choice(['BAS', 'RS']) if case['block'] == 'BAS' or not finite(case) else 'RS']
    if k == 'trans':
        return [k, R.int(0, 99)]
    if k == 'maxa':
        return [k, R.choice([3, 6, 30, 1000])]
    return [k, R.int(0, ne - 1)]


def apply(x, op, case):
    """Performs one operation; returns something comparable."""
    k = op[0]
    net = isinstance(x, qt.QueueNetwork)
    if k == 'sim':
        return x.simulate(n=op[1])
    if k == 'time':
        return x.simulate(t=op[1])
    if k in ('nA', 'nD'):
        return x.simulate(**{k: op[1]})
    if k in ('start', 'stop', 'cleardata'):
        if net:
            f = {'start': x.start_collecting_data, 'stop': x.stop_collecting_data, 'cleardata': x.clear_data}[k]
            return f() if op[1] is None else f(queues=op[1])
        if k == 'cleardata':
            x.data = {}
        else:
            x.collect_data = k == 'start'
        return None
    if k == 'block':
        x.blocking = op[1]
        return None
    if k == 'trans':
        return set_trans(x, op[1])
    if k == 'maxa':
        x.max_agents = op[1]
        return None
    if k == 'init':
        return initialize(x, case)
    if k == 'clear':
        return x.clear()
    q = x.edge2queue[op[1]] if net else x
    if k == 'servers':
        return q.set_num_servers(op[2])
    if k == 'inactive':
        return q.set_inactive()
    if k == 'active':
        if isinstance(q, qt.NullQueue):
            return None
        if net and x.max_agents < INF:
            return None                     # activating by hand is not subject to max_agents
        return q.set_active()
    if k == 'delay':
        return q.delay_service()
    if k == 'more':                         # one more queue is initialized, whenever
        if not isinstance(q, qt.NullQueue) and x._initialized:
            return x.initialize(queues=[op[1]])
        return None
    raise ValueError(k)


# -------------------------------------------------------------- observers
def observe(x, how, case):
    """Looks at the queue or network without wanting to change it."""
    net = isinstance(x, qt.QueueNetwork)
    if how == 'state':
        return state(x)
    if how == 'repr':
        return repr(x)
    if how == 'copy':
        return x.copy() and None
    if how == 'next':
        return x.next_event_description()
    if not net:
        if how == 'data':
            return plain(x.fetch_data(return_header=True))
        return state(x)
    if how == 'data':
        return plain(x.get_queue_data(return_header=True)), plain(x.get_agent_data(edge_type=[0, 1, 2]))
    if how == 'queues':
        for q in x.edge2queue:
            repr(q), q.copy()
        return None
    if how == 'trans':
        return plain(x.transitions()), plain(x.transitions(False))
    if how == 'lines':
        a, b = x.g.lines_scatter_args()
        return plain(a['segments']), plain(a['colors']), plain(b['c']), plain(b['edgecolors'])
    if how in ('draw', 'active', 'type'):
        import matplotlib.pyplot as plt
        kw = {'fname': io.BytesIO(), 'figsize': (1, 1), 'dpi': 20, 'format': 'png'}
        try:
            if how == 'draw':
                x.draw(**kw)
            elif how == 'active':
                x.show_active(**kw)
            else:
                x.show_type(1, **kw)
        finally:
            plt.close('all')
        return None
    raise ValueError(how)


OBSERVERS = {'state': 4, 'repr': 2, 'copy': 2, 'next': 2, 'data': 2, 'queues': 1, 'trans': 1, 'lines': 1, 'draw': 1, 'active': 1, 'type': 1}


class NullWriter(object):
    """Takes the frames of an animation and drops them."""
    supported_formats = ['png']

    def __new__(cls, onframe=None):
        from matplotlib.animation import AbstractMovieWriter

        class Writer(AbstractMovieWriter):
            nframes = 0

            def __init__(self):
                AbstractMovieWriter.__init__(self, fps=10, metadata={})

            def setup(self, fig, outfile, dpi=None):
                self.fig, self.outfile, self.dpi = fig, outfile, dpi

            def grab_frame(self, **kw):
                self.nframes += 1
                if onframe:
                    onframe(self.fig)

            def finish(self):
                pass
        return Writer()
