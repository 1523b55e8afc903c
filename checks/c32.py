import copy

import networkx as nx
import numpy as np

import queueing_tool as qt

from lib import world
from lib.runner import Info, expect, fail

ID = 'C32'
QUICK = 1800
THOROUGH = 120000
TECHNIQUE = 'differential property-based testing: two objects built from the very same arguments and operated on in turns, against each of them alone'
NOTE = ('Two networks or queues are built from shared argument objects (graph in several forms, class and argument dicts, colors, positions), at random '
        'moments, and operated on in a generated interleaving, each drawing from its own random stream; after every operation both must be in the '
        'state they have when run alone with arguments of their own. The arguments are compared with a snapshot, then spoilt, which must not show.')
RULE = ('two random networks or queues sharing arguments and an interleaving of their operations; non-trivial = at least 10 events of each, and at least '
        '3 changes from one object to the other')
SHRINK = ()
MIN_LABELS = {'net': 0.4, 'queue': 0.2, 'digraph': 0.1, 'qdigraph': 0.1, 'dict': 0.1, 'unadjusted': 0.1, 'late': 0.15, 'colors': 0.15, 'recolored': 0.2,
              'default colors': 0.2, 'third': 0.3}

COLORS = ('vertex_fill_color', 'vertex_color', 'bgcolor', 'edge_active')
QCOLORS = ('edge_color', 'vertex_fill_color', 'edge_loop_color', 'vertex_color')
OWN = {'recolor': 3, 'netcolor': 1, 'ep': 1, 'pos': 1, 'draw': 1, 'resetcolors': 1, 'stretch': 1, 'sens': 1}


def rgba(R):
    return [R.int(0, 8) / 8. for _ in range(4)]


def gen(R, tier):
    kind = R.weighted({'net': 3, 'queue': 1})
    c = world.gen_net(R, nmax=4) if kind == 'net' else world.gen_queue(R)
    if kind == 'net':
        c['form'] = R.choice(['dict', 'digraph', 'digraph', 'qdigraph', 'qdigraph', 'qdigraph'])
        c['adjust'] = c['form'] == 'dict' or R.bool()       # a dict is always adjusted
        c['ncolors'] = {k: rgba(R) for k in R.subset(COLORS)} if R.bool() else None
        c['qcolors'] = {t: {k: rgba(R) for k in R.subset(QCOLORS)} for t in sorted(c['args']) if R.bool(1, 3)}
        c['omit'] = R.bool(1, 3)            # classes left to the defaults
        c['bcolors'] = {k: rgba(R) for k in R.subset(COLORS)} if R.bool(1, 3) else None     # the second has colors of its own
    else:
        c['qcolors'] = {k: rgba(R) for k in R.subset(QCOLORS)} if R.bool() else None
        if R.bool(1, 3):
            c['arg']['cls'], c['arg']['buf'] = 'Q', None
            c['arg']['agent'] = 'P' if c['arg']['agent'] == 'I' else c['arg']['agent']
    c['seeds'] = [R.int(0, 10 ** 6), R.int(0, 10 ** 6)]
    c['ops'] = [[gen_op(R, c) for _ in range(R.int(2, 6))] + [['sim', R.int(10, 40)]] for _ in range(2)]
    n = len(c['ops'][0]) + len(c['ops'][1])
    c['turns'] = [R.int(0, 1) for _ in range(n)]
    c['late'] = R.bool(1, 3)
    c['trans'] = None
    c['spoil'] = R.bool()
    c['third'] = None
    if R.bool(1, 2):                        # something else going on at the same time
        t = world.gen_net(R, nmax=7) if R.bool() else world.gen_queue(R)
        c['third'] = {'case': t, 'at': [R.bool() for _ in range(n + 2)],
                      'ops': [R.choice([world.gen_op(R, t), world.gen_op(R, t), ['sim', R.int(5, 40)], ['again'], ['copy'], ['look']]) for _ in range(R.int(3, 8))]}
    return c


def gen_op(R, c):
    return gen_own(R, c) if R.bool(1, 3) else world.gen_op(R, c)


def gen_own(R, c):
    net = c['kind'] == 'net'
    k = R.weighted(OWN if net else {'recolor': 3, 'stretch': 1, 'sens': 1})
    e = R.int(0, len(c['edges']) - 1) if net else 0
    if k == 'recolor':
        return [k, e, R.choice(QCOLORS), rgba(R)]
    if k == 'stretch':
        return [k, e, R.choice(QCOLORS), R.int(0, 2)]
    if k == 'netcolor':
        return [k, R.choice(COLORS), rgba(R)]
    if k == 'ep':
        return [k, e, R.choice(['edge_pen_width', 'edge_marker_size']), R.int(1, 9)]
    if k == 'pos':
        return [k, R.int(0, 99)]
    return [k, e]


def apply(x, op, case):
    k, net = op[0], case['kind'] == 'net'
    if k == 'recolor':
        (x.edge2queue[op[1]] if net else x).colors[op[2]] = list(op[3])
    elif k == 'stretch':                    # in place
        c = (x.edge2queue[op[1]] if net else x).colors
        if isinstance(c.get(op[2]), list):
            c[op[2]][op[3]] = 0.625
    elif k == 'sens':
        (x.edge2queue[op[1]] if net else x).coloring_sensitivity += 1
    elif k == 'netcolor':
        x.colors[op[1]] = list(op[2])
    elif k == 'ep':
        x.g.set_ep(x.edge2queue[op[1]].edge[:2], op[2], op[3])
    elif k == 'pos':
        x.g.set_pos({v: np.array([v * 1.5 + op[1], v % 2]) for v in x.g.nodes()})
    elif k == 'draw':
        world.observe(x, 'draw', case)
    elif k == 'resetcolors':
        x.reset_colors()
    else:
        world.apply(x, op, case)


# --------------------------------------------------------------- arguments
def make_args(case):
    """Argument objects: what is given to the class, as (positional, keyword)."""
    if case['kind'] == 'queue':
        kw = world.qargs(case['arg'], case['edge'][2] + 1)
        kw['edge'] = tuple(case['edge'])
        if case['qcolors'] is not None:
            kw['colors'] = {k: list(v) for k, v in case['qcolors'].items()}
        return (), kw
    edges = sorted(map(tuple, case['edges']))
    adj = {u: {} for u in case['order']}
    for (u, v), t in zip(edges, case['types']):
        adj[u][v] = {'edge_type': t}
    outs = {u for u, _ in edges}
    if not case['adjust']:
        for u, v in edges:
            if v not in outs:
                adj[u][v]['edge_type'] = 0
    cl, ar = {}, {}
    size = len(edges) + (case['nv'] - len(outs) if case['form'] == 'dict' else 0)       # a dict gets loops
    for t, a in case['args'].items():
        cl[int(t)] = world.CLASSES[a['cls']]
        ar[int(t)] = world.qargs(a, size)
        if t in case['qcolors']:
            ar[int(t)]['colors'] = {k: list(v) for k, v in case['qcolors'][t].items()}
    if case['omit'] and '1' in case['args'] and case['args']['1']['cls'] == 'Q':
        del cl[1]
    kw = {'q_classes': cl, 'q_args': ar, 'blocking': case['block'], 'adjust_graph': bool(case['adjust']),
          'max_agents': np.inf if case['max'] is None else case['max']}
    if case['ncolors'] is not None:
        kw['colors'] = {k: list(v) for k, v in case['ncolors'].items()}
    if case['form'] == 'dict':
        g = adj
    else:
        g = nx.DiGraph()
        g.add_nodes_from(case['order'])
        for u in adj:
            for v, d in adj[u].items():
                g.add_edge(u, v, **d)
        if case['pos']:
            nx.set_node_attributes(g, name='pos', values={v: np.array(world.place(v)) for v in adj})
        if case['form'] == 'qdigraph':
            g = qt.QueueNetworkDiGraph(g)
            if case['pos']:
                g.set_pos({v: np.array(world.place(v)) for v in adj})
    return (g,), kw


def snap(x):
    """A comparable picture of an argument."""
    if isinstance(x, nx.DiGraph):
        d = {'nodes': {v: snap(dict(a)) for v, a in x.nodes(data=True)}, 'order': list(x.nodes()),
             'edges': {(u, v): snap(dict(a)) for u, v, a in x.edges(data=True)}, 'graph': snap(dict(x.graph)), 'frozen': nx.is_frozen(x)}
        for k in ('edge_index', 'pos', 'edge_color', 'vertex_color', 'vertex_fill_color'):
            if hasattr(x, k):
                d[k] = snap(getattr(x, k))
        return d
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    return x


def spoil(args, case):
    """Changes the argument objects."""
    pos, kw = args
    for g in pos:
        if isinstance(g, dict):
            for u in g:
                for v in g[u]:
                    g[u][v]['edge_type'] = 77
                g[u][55] = {}
        else:
            for u, v in list(g.edges()):
                g.adj[u][v]['edge_type'] = 77
                g.adj[u][v]['edge_color'] = [0.5] * 4
            for v in g.nodes():
                if 'pos' in g.nodes[v]:
                    g.nodes[v]['pos'] = np.array([5., 5.])
            if getattr(g, 'pos', None) is not None:
                g.pos[:] = 7.
            n = g.number_of_nodes()
            for e in [(u, v) for u in range(n) for v in range(n) if not g.has_edge(u, v)][:2] + [(0, n), (n, n)]:
                g.add_edge(*e)
            if isinstance(g, qt.QueueNetworkDiGraph):
                g.new_edge_property('edge_color')
                g.new_vertex_property('vertex_color')
    dicts = [kw]
    for d in dicts:
        for k in list(d):
            if isinstance(d[k], dict):
                dicts.append(d[k])
            elif k in QCOLORS or k in COLORS:
                if len(d) % 2:
                    d[k][0] = 0.111
                d[k] = [0.111] * 4
            elif isinstance(k, int):
                d[k] = qt.LossQueue
    for d in dicts:
        d['spoilt'] = 1


# ------------------------------------------------------------------ objects
class Runner(object):
    """One object with its own random stream and log."""
    def __init__(self, case, i):
        self.case, self.i, self.x, self.log, self.done = case, i, None, [], 0
        self.rng = np.random.RandomState(case['seeds'][i]).get_state()

    def state(self):
        return [world.state(self.x), len(self.log), self.log[-40:]]

    def step(self, args):
        """Builds the object, or performs its next operation."""
        np.random.set_state(self.rng)
        world.LOG = self.log
        if self.x is None:
            pos, kw = args
            if self.case['kind'] == 'net':
                if self.i and self.case.get('bcolors'):
                    kw = dict(kw, colors={k: list(v) for k, v in self.case['bcolors'].items()})
                self.x = qt.QueueNetwork(*pos, **kw)
                init = self.case['init']
                if 'queues' in init:
                    edges = sorted(map(tuple, self.case['edges']))
                    init = {'edges': [edges[k] for k in init['queues']]}
                self.x.initialize(**init)
            else:
                self.x = world.CLASSES[self.case['arg']['cls']](*pos, **kw)
                self.x.set_active()
        else:
            apply(self.x, self.case['ops'][self.i][self.done], self.case)
            self.done += 1
        self.rng = np.random.get_state()
        world.LOG = []
        return self.state()


class Bystander(object):
    """An object that has nothing to do with the others."""
    def __init__(self, third):
        self.case, self.ops, self.at, self.x, self.k, self.rng = third['case'], third['ops'], third['at'], None, 0, np.random.RandomState(5).get_state()

    def step(self):
        np.random.set_state(self.rng)
        log, world.LOG = world.LOG, []
        if self.x is None:
            self.x = world.build(self.case)
        else:
            op = self.ops[self.k % len(self.ops)]
            self.k += 1
            if op[0] == 'again':
                self.x.clear()
                world.initialize(self.x, self.case) if self.case['kind'] == 'net' else self.x.set_active()
            elif op[0] == 'copy':
                self.x = self.x.copy()
            elif op[0] == 'look':
                world.observe(self.x, 'state', self.case)
            else:
                world.apply(self.x, op, self.case)
        self.rng, world.LOG = np.random.get_state(), log


def events(x):
    return x.num_events if isinstance(x, qt.QueueNetwork) else x.num_arrivals[0] + x.num_departures


def check(case):
    labels = {case['kind']}
    # class level settings that a run might change
    defaults = {c: copy.deepcopy(c._default_colors) for c in world.CLASSES.values()}
    ndefaults = [copy.deepcopy(getattr(qt.QueueNetwork, k)) for k in ('default_colors', 'default_q_colors')]
    try:
        return both(case, labels, defaults, ndefaults)
    finally:
        for c, d in defaults.items():
            c._default_colors.clear()
            c._default_colors.update(d)
        for k, d in zip(('default_colors', 'default_q_colors'), ndefaults):
            getattr(qt.QueueNetwork, k).clear()
            getattr(qt.QueueNetwork, k).update(d)


def both(case, labels, defaults, ndefaults):
    alone = []
    for i in (0, 1):
        r = Runner(case, i)
        alone.append([r.step(make_args(case))])
        for _ in case['ops'][i]:
            alone[i].append(r.step(None))
        # put back what the run may have changed at class level: alone means as if it were the only one
        for c, d in defaults.items():
            c._default_colors.clear()
            c._default_colors.update(copy.deepcopy(d))
        for k, d in zip(('default_colors', 'default_q_colors'), ndefaults):
            getattr(qt.QueueNetwork, k).clear()
            getattr(qt.QueueNetwork, k).update(copy.deepcopy(d))
    args = make_args(case)
    before = snap(args)
    rs = [Runner(case, 0), Runner(case, 1)]
    turns = list(case['turns'])
    if not case['late']:
        turns = [0, 1] + turns
    else:
        labels.add('late')
    turns += [0] * 20 + [1] * 20
    seen, changes, last = [0, 0], 0, None

    def compare(j, when):
        if rs[j].x is not None:
            world.same(alone[j][seen[j]], rs[j].state(), '{0}: object {1} of two built from the same arguments, compared with one alone', when, 'AB'[j])

    third = Bystander(case['third']) if case['third'] else None
    for turn, i in enumerate(turns):
        r = rs[i]
        if third and turn < len(third.at) and third.at[turn]:
            third.step()
            labels.add('third')
            for j in (0, 1):
                compare(j, 'after something was done to a third object')
        if r.x is not None and r.done == len(case['ops'][i]):
            continue
        if last is not None and last != i:
            changes += 1
        last = i
        op = case['ops'][i][r.done] if r.x is not None else 'built'
        if op[0] == 'recolor':
            labels.add('recolored')
        if r.x is not None:
            seen[i] += 1
        r.step(args)
        when = 'after {0} of {1}'.format(op, 'AB'[i])
        compare(i, when)
        compare(1 - i, when)
        if op == 'built':
            world.same(before, snap(args), 'the arguments after the object {0} was built', 'AB'[i])
    world.same(before, snap(args), 'the arguments in the end')
    if case['spoil']:
        spoil(args, case)
        for j in (0, 1):
            compare(j, 'after the arguments were changed')
        labels.add('spoilt')
    if case['kind'] == 'net':
        labels.add(case['form'])
        if not case['adjust']:
            labels.add('unadjusted')
        labels.add('colors' if case['qcolors'] or case['ncolors'] else 'default colors')
    else:
        labels.add('colors' if case['qcolors'] else 'default colors')
    return Info(changes >= 3 and min(events(r.x) for r in rs) >= 10, labels, sum(events(r.x) for r in rs))
