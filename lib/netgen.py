"""Generators for network cases."""
from lib import queuegen


def wide(R):
    """A sparse graph on more vertices."""
    n = R.int(8, 13)
    edges = {(v, (v + 1) % n) for v in range(n) if R.bool(5, 6)}
    for _ in range(R.int(n, 2 * n)):
        edges.add((R.int(0, n - 1), R.int(0, n - 1)))
    seen = {x for e in edges for x in e}
    edges |= {(0, v) for v in range(n) if v not in seen}
    outs = {u for u, _ in edges}
    if all(v not in outs for _, v in edges):
        edges.add((min(edges)[1], min(edges)[0]))
    return n, sorted([u, v] for u, v in edges)


def graph(R, nmin=1, nmax=5, sinks=True, loops=True, dense=False):
    """edges over vertices 0..n-1 (all of them incident to some edge)."""
    n = R.int(nmin, nmax)
    p = R.choice([2, 3, 4] if not dense else [1, 2])
    edges = []
    for u in range(n):
        if sinks and n > 1 and R.bool(1, 5):
            continue
        targets = [v for v in range(n) if (loops or v != u) and R.bool(1, p)]
        if not targets:
            cand = [v for v in range(n) if loops or v != u]
            if not cand:
                continue
            targets = [R.choice(cand)]
        edges += [[u, v] for v in targets]
    if not edges:
        edges = [[0, 0]] if loops or n == 1 else [[0, 1], [1, 0]]
    seen = {x for e in edges for x in e}
    for v in range(n):
        if v not in seen:
            u = R.choice(sorted(seen))
            edges.append([u, v])
            seen.add(v)
    outs = {u for u, _ in edges}
    if all(v not in outs for _, v in edges):       # at least one real queue
        edges.append([edges[0][1], edges[0][0]])
    return n, sorted(edges)


def queue(R, classes='QL', agents='P', bufs=(0, 0, 1, 2, 3, None), servers=(1, 1, 2, 3), caps=True, stops=True, agent=None):
    cls = R.choice(classes)
    slow = R.choice([4, 10, 25])
    c = {'cls': cls, 'c': R.choice(servers), 'buf': R.choice(bufs) if cls != 'Q' else None,
         'arr': R.ints(0, R.choice([10, 30]), 1, 5), 'ser': R.ints(0, slow, 1, 5),
         'cap': R.int(0, 8) if caps and R.bool(1, 6) else None,
         'stop': round(R.int(0, 120) * 0.1, 1) if stops and R.bool(1, 8) else None,
         'agent': agent or R.choice(agents)}
    queuegen.never(R, c, 60)
    return c


def case(R, ops, classes='QL', agents='P', nops=(3, 12), nmax=5, sinks=True, loops=True, dense=False, maxa=False, ticks=True, **kw):
    if R.bool(1, 6):                    # queues, agents and operations of every kind
        ops = dict({'servers': 1, 'delay': 1, 'off': 1, 'init': 1}, **ops)
        classes += 'QLIR'
        agents += 'PRIG'
    size = R.int(0, 29)
    n, edges = wide(R) if size == 29 and sinks and loops else graph(R, nmax=nmax, sinks=sinks, loops=loops, dense=dense)
    c = {'nv': n, 'edges': edges, 'salt': R.int(0, 10 ** 6), 'block': R.choice(['BAS', 'RS']),
         'block_late': R.bool(1, 4), 'max': None}
    c['queues'] = [queue(R, classes, agents, **kw) for _ in edges]
    outs = {u for u, _ in edges}
    real = [k for k, (u, v) in enumerate(edges) if v in outs]
    if R.bool(1, 3):
        c['init'] = {'nActive': R.int(1, len(real) + 1)}
    else:
        c['init'] = {'queues': R.subset(real, 1)}
    if R.bool(1, 3):
        c['collect'] = 'all' if R.bool() else R.subset(range(len(edges)), 1)
    c['tick'] = R.weighted([(0.1, 7), ('exact', 3), (5.0, 1), (1000.0, 1), (1e-9, 1), (1e9, 1)]) if ticks else 0.1
    c['block'] = R.choice([c['block'], c['block'].lower()])
    c['ops'] = [o for o in (op(R, ops, len(edges)) for _ in range(R.int(*nops)))]
    if size == 28:
        c['ops'].insert(R.int(0, len(c['ops'])), ['batch' if 'batch' in ops else 'sim', R.int(100, 500)])
    if c['tick'] == 'exact' and any(0 in q['arr'] + q['ser'] for q in c['queues']):
        # endless events at one time are possible
        c['ops'] = [['sim', 5] if o[0] == 'time' else o for o in c['ops']]
    return c


def part(R, ops, tier, **kw):
    """A small network for the checks of single queues."""
    c = case(R, ops, nmax=3 if tier == 'quick' else 5, nops=(3, 9) if tier == 'quick' else (3, 20), **kw)
    if c['block'].upper() == 'BAS':         # retry times are looked at event by event
        c['ops'] = [['sim', int(o[1])] if o[0] in ('batch', 'time') else o for o in c['ops']]
    return dict(c, part='network')


def op(R, ops, ne):
    k = R.weighted(ops)
    if k == 'sim1':
        return ['sim', 1]
    if k == 'sim':
        return ['sim', R.int(2, 15)]
    if k == 'simbig':
        return ['sim', R.int(10, 50)]
    if k == 'batch':
        return ['batch', R.int(0, 30)]
    if k == 'time':
        return ['time', round(R.int(0, 50) * 0.1, 1)]
    if k == 'servers':
        return ['servers', R.int(0, ne - 1), R.choice([1, 2, 3, 4, 5, 5, 20])]
    if k == 'init':
        return ['init', R.subset(range(ne), 1)]
    if k == 'delay':
        return ['delay', R.int(0, ne - 1), None if R.bool(1, 3) else round(R.int(0, 60) * 0.1, 1)]
    return [k, R.int(0, ne - 1)]


def huge(classes='QLI', agents='P', servers=True):
    """Networks with many edges at a vertex, many edges, and many events."""
    def case(nv, edges, qs, ops, **kw):
        edges = sorted(edges)
        return dict({'nv': nv, 'edges': edges, 'salt': 5, 'block': 'RS', 'block_late': False, 'max': None, 'tick': 0.1, 'limit': 10 ** 5,
                     'queues': [dict({'cls': classes[k % len(classes)], 'c': 1 + k % 3, 'buf': None if classes[k % len(classes)] == 'Q' else 1 + k % 4,
                                      'arr': [3 + k % 5, 20], 'ser': [5 + k % 7, 2], 'cap': None, 'stop': None, 'agent': agents[k % len(agents)]}, **qs)
                                for k in range(len(edges))],
                     'init': {'queues': list(range(0, len(edges), 2))}, 'collect': 'all', 'ops': ops}, **kw)
    n = 12
    yield case(n, [[u, v] for u in range(n) for v in range(n)], {}, [['sim', 150], ['sim', 50]])
    leaves = 70
    yield case(leaves + 1, [[0, v] for v in range(1, leaves + 1)] + [[v, 0] for v in range(1, leaves + 1)], {}, [['sim', 150], ['sim', 50]])
    yield case(3, [[0, 1], [1, 2], [2, 0], [1, 1], [0, 2]], {'cls': classes[0], 'buf': None, 'cap': 40}, [['batch', 30000], ['time', 300.0], ['sim', 10]],
               init={'queues': [0, 1]}, collect=None)
    leaves = 125
    edges = [[0, v] for v in range(leaves + 1)] + [[v, 0] for v in range(1, leaves + 1)]
    c = case(leaves + 1, edges, {'buf': None, 'ser': [900, 800, 1000], 'c': 1, 'cls': 'Q'}, [['sim', 250], ['sim', 350]], init={'queues': [0]}, collect=None, max=5000)
    c['queues'][0].update({'arr': [1, 0, 1, 0], 'ser': [1], 'c': 1})
    yield c
    # lines of many hundreds, an agent that makes thousands of visits, and one that is blocked thousands of times
    edges = [[0, 1], [1, 2], [1, 3], [1, 4], [2, 0], [3, 0], [4, 0]]
    fast = {'arr': [1, 2, 1, 0], 'ser': [0, 1], 'cls': 'Q', 'buf': None, 'c': 5}
    for few in (1, 0):
        c = case(5, edges, {'buf': None, 'ser': [60, 47, 90], 'c': 1}, [['sim', 3600], ['batch', 1200], ['sim', 45]] if few else [['sim', 400]],
                 init={'queues': [0]}, collect='all' if few else None, block='RS' if few else 'BAS', max=5000)
        for k in range(4):
            c['queues'][k]['agent'] = agents[(k + few) % len(agents)]
        c['queues'][0].update(fast)
        yield c
    yield case(2, [[0, 0], [0, 1], [1, 0]], {'buf': None, 'cap': 1, 'ser': [2, 3, 5]}, [['batch', 5400], ['sim', 20]], init={'queues': [0]})
    c = case(3, [[0, 1], [1, 2], [2, 0]], {'cap': 2, 'buf': 0, 'c': 1, 'ser': [2, 3]}, [['batch', 2500], ['sim', 20]], init={'queues': [0, 1]}, collect=None)
    c['queues'][1].update(cls='L', ser=[10 ** 7], agent='P')
    yield c
