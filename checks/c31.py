import numpy as np

import queueing_tool as qt

from lib import world
from lib.runner import Info, expect, fail

ID = 'C31'
QUICK = 5000
THOROUGH = 150000
TECHNIQUE = 'differential property-based testing: twin runs from the same random state, one of them with generated invalid calls at random moments'
NOTE = ('A random network or queue is built and operated on twice; in the second run calls that must be rejected are made in between. Each has to raise the '
        'documented error, the complete state read before and after it has to be the same, and so has every later hook call, state and random number.')
RULE = ('a random network, queue or graph function with operations and invalid calls; non-trivial = at least 2 rejected calls and 15 events after the '
        'first one (functions: at least 3 rejected calls)')
MIN_LABELS = {'net': 0.4, 'queue': 0.2, 'function': 0.1, 'uninitialized': 0.05, 'nActive': 0.15, 'no queues': 0.1, 'matrix': 0.15, 'dict': 0.15, 'servers': 0.3,
              'blocking': 0.15, 'before': 0.2, 'cleared': 0.05, 'later row': 0.05}

BAD = {'uninit': 2, 'nactive': 3, 'noqueue': 2, 'matrix': 3, 'dict': 3, 'transtype': 2, 'servers': 4, 'blocking': 3}


def gen_bad(R, case):
    k = R.weighted(BAD if case['kind'] == 'net' else {'servers': 1})
    if k == 'nactive':
        return [k, R.choice([0, -1, -7, '1.5', '0.5', '2.0', 'text', 'none', 'list', 'nan', 'complex']), R.bool()]
    if k == 'noqueue':
        return [k, R.choice(['type0', 'unused', 'types', 'queues', 'edges'])]
    if k == 'matrix':
        return [k, R.choice(['low', 'high', 'neg', 'tiny', 'shape', 'flat', 'zero', 'nan']), R.int(0, 99)]
    if k == 'dict':
        return [k, R.choice(['low', 'high', 'neg', 'tiny', 'key', 'empty']), R.int(0, 99)]
    if k == 'transtype':
        return [k, R.choice(['list', 'none', 'int', 'str', 'tuple'])]
    if k == 'servers':
        return [k, R.int(0, len(case['edges']) - 1) if case['kind'] == 'net' else 0, R.choice([0, -1, -5, '1.5', '2.0', 'text', 'none', 'list', 'nan', '-inf'])]
    if k == 'blocking':
        return [k, R.choice(['none', 'int', 'true', 'list', 'bytes'])]
    return [k, R.choice(['simulate', 'simulate', 'time', 'animate'])]


def gen(R, tier):
    kind = R.weighted({'net': 5, 'queue': 3, 'function': 2})
    if kind == 'function':
        return {'kind': 'function', 'seed': R.int(0, 10 ** 6), 'calls': [[R.choice(['network', 'netblock', 'adjacency', 'random', 'loops', 'queue', 'digraph']), R.int(0, 99)]
                                                                         for _ in range(R.int(3, 6))], 'n': R.int(2, 9)}
    c = world.gen_net(R) if kind == 'net' else world.gen_queue(R)
    for a in (c['args'].values() if kind == 'net' else [c['arg']]):
        if R.bool(1, 3):
            a['sens'] = R.choice([1, 3, 5])
    c['salt'] = R.int(0, 10 ** 6)
    c['null'] = R.bool()
    c['pre'] = [gen_bad(R, c) for _ in range(R.int(0, 3))]
    c['ops'] = []
    for _ in range(R.int(2, 6)):
        op = world.gen_op(R, c)
        if R.bool(1, 12):
            op = ['clear']
        c['ops'].append([op, [gen_bad(R, c) for _ in range(R.int(0, 3))]])
    c['ops'].append([['sim', R.int(15, 60)], []])
    return c


ODD = {'1.5': 1.5, '0.5': 0.5, '2.0': 2.0, 'text': '3', 'none': None, 'list': [1], 'nan': float('nan'), 'complex': 1j, '-inf': float('-inf')}


def bad_value(v):
    """The argument, and the errors of which one must be raised."""
    if not isinstance(v, str):
        return v, ValueError
    return ODD[v], TypeError


def rejected(f, exc, what, *args):
    try:
        f()
    except exc as e:
        expect(isinstance(e, exc), '{0}', e)
        return
    except Exception as e:
        fail('{0} raised {1}: {2}, not {3}', what.format(*args), type(e).__name__, e, exc.__name__)
    fail('{0} was accepted', what.format(*args))


def call_bad(x, op, case, ready, labels):
    """Makes one invalid call; returns False if it is valid at this moment."""
    k = op[0]
    if k == 'uninit':
        if ready:
            return False
        labels.add('uninitialized')
        if op[1] == 'animate':
            rejected(lambda: x.animate(frames=2, filename='none.png', writer=world.NullWriter()), qt.QueueingToolError, 'animate on an uninitialized network')
        elif op[1] == 'time':
            rejected(lambda: x.simulate(t=2.5), qt.QueueingToolError, 'simulate(t=2.5) on an uninitialized network')
        else:
            rejected(lambda: x.simulate(n=3), qt.QueueingToolError, 'simulate on an uninitialized network')
    elif k == 'nactive':
        v, exc = bad_value(op[1])
        rejected(lambda: x.initialize(v) if op[2] else x.initialize(nActive=v), exc, 'initialize(nActive={0!r})', v)
        labels.add('nActive')
    elif k == 'noqueue':
        used = {q.edge[3] for q in x.edge2queue}
        null = [q.edge for q in x.edge2queue if q.edge[3] == 0]
        if op[1] == 'type0':
            kw = {'edge_type': 0}
        elif op[1] == 'unused':
            kw = {'edge_type': max(used) + 1}
        elif op[1] == 'types':
            kw = {'edge_type': [0, max(used) + 2]}
        elif not null:
            return False
        elif op[1] == 'queues':
            kw = {'queues': [e[2] for e in null]}
        else:
            kw = {'edges': [e[:2] for e in null]}
        rejected(lambda: x.initialize(**kw), qt.QueueingToolError, 'initialize({0})', kw)
        labels.add('no queues')
    elif k == 'matrix':
        how, s = op[1], op[2]
        mat = x.transitions()
        vs = [v for v in range(x.nV) if x.out_edges[v]]
        v = vs[s % len(vs)]
        to = [x.edge2queue[e].edge[1] for e in x.out_edges[v]]
        # another matrix, to see whether a part of it is taken over
        for u in vs:
            t = [x.edge2queue[e].edge[1] for e in x.out_edges[u]]
            mat[u, :] = 0
            mat[u, t[s % len(t)]] = 1
        if how == 'low':
            mat[v, to] *= 0.6
        elif how == 'high':
            mat[v, to[0]] += 0.3
        elif how == 'neg':
            if len(to) < 2:
                return False
            mat[v, :] = 0
            mat[v, to[0]], mat[v, to[1]] = 1.25, -0.25
        elif how == 'tiny':
            if len(to) < 2:
                return False
            mat[v, :] = 0
            mat[v, to[0]], mat[v, to[1]] = 1.0, -10.0 ** -(6 + s % 10)
        elif how == 'zero':
            mat[v, :] = 0
        elif how == 'nan':
            mat[v, to[0]] = np.nan
        elif how == 'shape':
            mat = np.vstack([mat, mat[:1]])
        else:
            mat = mat.ravel() if x.nV > 1 else np.ones((2, 2)) / 2
        rejected(lambda: x.set_transitions(mat), ValueError, 'set_transitions({0})', mat)
        labels.add('matrix')
    elif k == 'dict':
        how, s = op[1], op[2]
        vs = [v for v in range(x.nV) if x.out_edges[v]]
        v = vs[s % len(vs)]
        to = [x.edge2queue[e].edge[1] for e in x.out_edges[v]]
        t = to[s % len(to)]
        if how == 'low':
            d = {v: {t: 0.7}}
        elif how == 'high':
            d = {v: {u: 1.0 for u in to}}
            d[v][t] = 1.2
        elif how == 'neg':
            if len(to) < 2:
                return False
            d = {v: {to[0]: 1.5, to[1]: -0.5}}
        elif how == 'tiny':
            if len(to) < 2:
                return False
            d = {v: {to[0]: 1.0, to[1]: -10.0 ** -(6 + s % 10)}}
        elif how == 'empty':
            d = {v: {}}
        else:
            d = {x.nV + s: {t: 1.0}}
        if s % 3:
            # other rows, which would be valid, before and after it
            rows = [(u, {x.edge2queue[e].edge[1]: float(e == x.out_edges[u][s % len(x.out_edges[u])]) for e in x.out_edges[u]}) for u in vs if u not in d]
            i = s % (len(rows) + 1)
            d = dict(rows[:i] + list(d.items()) + rows[i:])
            if i:
                labels.add('later row')
        rejected(lambda: x.set_transitions(d), ValueError, 'set_transitions({0})', d)
        labels.add('dict')
    elif k == 'transtype':
        m = x.transitions()
        arg = {'list': m.tolist(), 'none': None, 'int': 1, 'str': 'uniform', 'tuple': tuple(map(tuple, m.tolist()))}[op[1]]
        rejected(lambda: x.set_transitions(arg), TypeError, 'set_transitions({0!r})', arg)
    elif k == 'servers':
        q = x.edge2queue[op[1]] if case['kind'] == 'net' else x
        if isinstance(q, (qt.NullQueue, qt.ResourceQueue)):
            return False
        v, exc = bad_value(op[2])
        rejected(lambda: q.set_num_servers(v), exc if v != float('-inf') else (ValueError, TypeError), 'set_num_servers({0!r}) of queue {1}', v, q.edge)
        labels.add('servers')
    elif k == 'blocking':
        v = {'none': None, 'int': 1, 'true': True, 'list': ['RS'], 'bytes': b'RS'}[op[1]]
        rejected(lambda: setattr(x, 'blocking', v), TypeError, 'blocking = {0!r}', v)
        labels.add('blocking')
    return True


def check(case):
    if case['kind'] == 'function':
        return check_function(case)
    net = case['kind'] == 'net'
    labels = {case['kind']}

    def start():
        np.random.seed(case['salt'])
        world.LOG = []
        return world.build(case, init=False)

    def begin(x):
        world.initialize(x, case) if net else x.set_active()

    def step(x, op):
        if op[0] == 'clear':
            x.clear()
            return begin
        world.apply(x, op, case)

    def count(x):
        return x.num_events if net else x.num_departures + x.num_arrivals[0]

    a = start()
    begin(a)
    snaps = [(world.state(a), len(world.LOG))]
    for op, _ in case['ops']:
        if step(a, op):
            snaps.append((world.state(a), len(world.LOG)))
            begin(a)
        snaps.append((world.state(a), len(world.LOG)))
    log, last = list(world.LOG), np.random.rand()

    b = start()
    ncalls, first, events = [0], [None], [0]

    def bads(calls, ready):
        for op in calls:
            s0, r0, l0 = world.state(b), np.random.get_state(), len(world.LOG)
            if not call_bad(b, op, case, ready, labels):
                continue
            ncalls[0] += 1
            r1 = np.random.get_state()
            world.same(s0, world.state(b), 'after the rejected call {0}', op)
            expect(np.array_equal(r0[1], r1[1]) and r0[2:] == r1[2:] and len(world.LOG) == l0, 'the rejected call {0} used random numbers or agents', op)
            if first[0] is None:
                first[0] = events[0]
                if not ready:
                    labels.add('before')

    bads(case['pre'], not net)
    begin(b)
    i = 0

    def compare(what):
        world.same(snaps[i][0], world.state(b), '{0}: the run without rejected calls has another state', what)
        expect(world.LOG == log[:snaps[i][1]], '{0}: the run without rejected calls had other hook calls', what)

    compare('initialized')
    for op, calls in case['ops']:
        n0 = count(b)
        again = step(b, op)
        i += 1
        compare('after operation {0}'.format(op))
        if again:
            labels.add('cleared')
            bads(calls, not net)
            begin(b)
            i += 1
            compare('initialized again')
        else:
            events[0] += count(b) - n0
            bads(calls, True)
    expect(np.random.rand() == last, 'the run without rejected calls ended with other random numbers')
    return Info(ncalls[0] >= 2 and events[0] - (first[0] or 0) >= 15, labels, events[0])


def check_function(case):
    labels, n = {'function'}, case['n']
    np.random.seed(case['seed'])
    g = qt.minimal_random_graph(n)
    before = world.gstate(g)
    for what, k in case['calls']:
        r0 = np.random.get_state()
        if what == 'network':
            arg = [None, 5, 1.5, object(), 'graph'][k % 4 + 1]
            rejected(lambda: qt.QueueNetwork(arg), TypeError, 'QueueNetwork({0!r})', arg)
        elif what == 'digraph':
            arg = [5, 1.5, 'graph'][k % 3]
            rejected(lambda: qt.QueueNetworkDiGraph(arg), (TypeError, Exception), 'QueueNetworkDiGraph({0!r})', arg)
        elif what == 'netblock':
            arg = [None, 3, True, ['RS'], b'BAS'][k % 5]
            rejected(lambda: qt.QueueNetwork(g, blocking=arg), TypeError, 'QueueNetwork(g, blocking={0!r})', arg)
            labels.add('blocking')
        elif what == 'adjacency':
            arg = [5, 'abc', None, 2.5, (1, 2)][k % 5]
            rejected(lambda: qt.adjacency2graph(arg), TypeError, 'adjacency2graph({0!r})', arg)
        elif what in ('random', 'loops'):
            p = [{1: 0.5, 2: 0.4}, {1: 0.7, 2: 0.4}, {1: 0.999}, {1: 0.2, 2: 0.3, 3: 0.51}, {1: 1.5}][k % 5]
            kw = {'proportions' if what == 'random' else 'loop_proportions': p}
            rejected(lambda: qt.set_types_random(g, **kw), ValueError, 'set_types_random({0})', kw)
        else:
            v, exc = bad_value([0, -1, -5, '1.5', '2.0', 'text', 'none', 'nan'][k % 8])
            cls = [qt.QueueServer, qt.LossQueue, qt.InfoQueue][k % 3]
            rejected(lambda: cls(num_servers=v), exc, '{0}(num_servers={1!r})', cls.__name__, v)
            labels.add('servers')
        r1 = np.random.get_state()
        world.same(before, world.gstate(g), 'the graph after the rejected call {0}', what)
        expect(np.array_equal(r0[1], r1[1]) and r0[2:] == r1[2:], 'the rejected call {0} used random numbers', what)
    return Info(len(case['calls']) >= 3, labels, len(case['calls']))
