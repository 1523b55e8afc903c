import numpy as np

import queueing_tool as qt

from lib import world
from lib.runner import Info, expect, fail

ID = 'C15'
QUICK = 4500
THOROUGH = 150000
TECHNIQUE = 'differential property-based testing: twin runs with the same seed, one of them divided and observed at random'
NOTE = ('A random network or queue (every class, agents, random time functions, finite caps) is run twice from the same seed and different '
        'earlier random states; the second run divides every simulate call at random and is read, drawn and copied in between. Histories '
        '(every hook call, clocks, counters, data) must be equal. The random graph functions are called twice with the same seed.')
RULE = ('a random network, queue or graph function with a seed, operations, division and observers; non-trivial = at least 20 events '
        'simulated with a divided call and 2 observers (graph functions: at least 3 vertices)')
MIN_LABELS = {'net': 0.35, 'queue': 0.2, 'graph': 0.1, 'divided': 0.5, 'observed': 0.5, 'copied': 0.1, 'drawn': 0.02, 'blocked': 0.1}


def gen(R, tier):
    kind = R.weighted({'net': 5, 'queue': 3, 'graph': 2})
    if kind == 'graph':
        return gen_graph(R)
    c = world.gen_net(R) if kind == 'net' else world.gen_queue(R)
    c['how'] = R.choice(['seed', 'seed', 'npseed', 'global'])
    c['salt'] = R.int(0, 10 ** 6)
    c['null'] = R.bool()
    c['pre'] = [look(R, kind) for _ in range(R.int(0, 2))]
    c['ops'] = []
    for _ in range(R.int(2, 7)):
        op = world.gen_op(R, c)
        c['ops'].append([op, [R.int(1, 12) for _ in range(R.int(1, 4))], [look(R, kind) for _ in range(R.int(0, 2))]])
    c['ops'].append([['sim', R.int(10, 60)], [R.int(1, 12) for _ in range(R.int(1, 4))], []])
    return c


def look(R, kind):
    t = world.OBSERVERS if kind == 'net' else {'state': 3, 'repr': 1, 'copy': 2, 'next': 1, 'data': 1}
    return R.weighted(t)


def gen_graph(R):
    f = R.choice(['minimal', 'random', 'pagerank', 'types_random', 'types_rank', 'matrix'])
    c = {'kind': 'graph', 'f': f, 'n': R.int(1 if f in ('minimal', 'random') else 2, 14), 'seed': R.choice([0, 1, R.int(0, 10 ** 6), R.int(0, 10 ** 6), R.int(0, 10 ** 6)]), 'np': R.bool(), 'salt': R.int(0, 10 ** 6)}
    if f == 'random':
        c['kw'] = {'prob_loop': R.choice([0, 0.3, 1.0])}
    elif f in ('types_rank', 'pagerank'):
        c['kw'] = {'pType2': R.choice([0.1, 0.3, 0.6]), 'pType3': R.choice([0.1, 0.3])}
    else:
        c['kw'] = {}
    c['pos'] = R.bool()
    return c


def check(case):
    return check_graph(case) if case['kind'] == 'graph' else check_twins(case)


# ----------------------------------------------------------- graph functions
def call(case, noise):
    np.random.seed(noise)
    np.random.rand(noise % 5)
    n, f = case['n'], case['f']
    seed = np.int64(case['seed']) if case['np'] else case['seed']
    if f == 'minimal':
        return qt.minimal_random_graph(n, seed=seed)
    if f == 'random':
        return qt.generate_random_graph(n, seed=seed, **case['kw'])
    if f == 'pagerank':
        return qt.generate_pagerank_graph(n, seed=seed, **case['kw'])
    g = qt.minimal_random_graph(n, seed=77)
    if not case['pos']:
        g = qt.adjacency2graph({u: [e[1] for e in g.out_edges(u)] for u in g.nodes()})
    np.random.seed(noise + 1)
    if f == 'types_random':
        return qt.set_types_random(g, seed=seed)
    if f == 'types_rank':
        return qt.set_types_rank(g, np.arange(n) * 0.01, seed=seed, **case['kw'])
    return qt.generate_transition_matrix(g, seed=seed)


def gdesc(g):
    if isinstance(g, np.ndarray):
        return world.plain(g)
    d = world.gstate(g)
    d['order'] = [list(g.nodes()), list(g.edges())]
    return d


def check_graph(case):
    a, b = gdesc(call(case, case['salt'])), gdesc(call(case, case['salt'] + 13))
    world.same(a, b, '{0}({1}) with seed {2} twice', case['f'], case['n'], case['seed'])
    return Info(case['n'] >= 3, {'graph', case['f']}, 1)


# --------------------------------------------------------------- twin runs
def start(case, noise):
    np.random.seed(noise)
    np.random.rand(1 + noise % 3)
    if case['how'] == 'global':
        np.random.seed(case['seed'])
        x = world.build(case, None, False)
    else:
        x = world.build(case, np.int32(case['seed']) if case['how'] == 'npseed' else case['seed'], False)
    world.LOG = []
    return x


def begin(x, case):
    if case['kind'] == 'net':
        world.initialize(x, case)
    else:
        x.set_active()


def events(x, case):
    """A count that grows by at least one with every event."""
    return x.num_events if case['kind'] == 'net' else None


def check_twins(case):
    net = case['kind'] == 'net'
    labels = {case['kind'], case['how']}
    # first run: as given
    snaps = []
    a = start(case, case['salt'])
    begin(a, case)
    snaps.append((world.state(a, False), len(world.LOG)))
    amount = []
    for op, _, _ in case['ops']:
        e0 = events(a, case)
        world.apply(a, op, case)
        amount.append(a.num_events - e0 if net else None)
        snaps.append((world.state(a, False), len(world.LOG)))
    log = list(world.LOG)
    total = a.num_events if net else a.num_departures + a.num_arrivals[0]
    if sum(getattr(q, 'num_blocked', 0) for q in (a.edge2queue if net else [a])):
        labels.add('blocked')
    # second run: divided and observed
    b = start(case, case['salt'] + 7)
    nlook = 0
    for how in case['pre']:
        world.observe(b, how, case)
    begin(b, case)
    world.same(snaps[0][0], world.state(b, False), 'state right after it was initialized')
    for i, (op, cuts, looks) in enumerate(case['ops']):
        what = 'operation {0} {1} divided as {2} with observers {3}'.format(i, op, cuts, looks)
        target = snaps[i + 1][0]
        todo = list(looks)
        if op[0] in ('sim', 'time', 'nA', 'nD'):
            pieces = divide(b, op, cuts, amount[i], case)
        else:
            pieces = [lambda: world.apply(b, op, case)]
        k = 0
        for piece in pieces:
            piece()
            k += 1
            if todo:
                how = todo.pop(0)
                world.observe(b, how, case)
                nlook += 1
                if how in ('copy', 'queues'):
                    labels.add('copied')
                if how in ('draw', 'active', 'type'):
                    labels.add('drawn')
        if k > 1:
            labels.add('divided')
        for how in todo:
            world.observe(b, how, case)
            nlook += 1
        world.same(target, world.state(b, False), '{0}: the undivided and unobserved run has another state', what)
        if world.LOG != log[:len(world.LOG)] or len(world.LOG) != snaps[i + 1][1]:
            j = next((j for j, (p, q) in enumerate(zip(world.LOG, log)) if p != q), min(len(log), len(world.LOG)))
            fail('{0}: hook call {1} was {2}, undivided {3}', what, j, world.LOG[j:j + 1], log[j:j + 1])
    if nlook:
        labels.add('observed')
    return Info(total >= 20 and nlook >= 2 and 'divided' in labels, labels, total)


def divide(x, op, cuts, amount, case):
    """Thunks that together do what one simulate call did."""
    net = case['kind'] == 'net'
    if net:
        left = op[1] if op[0] == 'sim' else amount
        for c in cuts:
            if left > 0:
                c = min(c, left)
                left -= c
                yield lambda: x.simulate(n=c)
        yield lambda: x.simulate(n=left)
        return
    if op[0] == 'sim':
        left = op[1]
        for c in cuts:
            if left > 0:
                c = min(c, left)
                left -= c
                yield lambda: x.simulate(n=c)
        yield lambda: x.simulate(n=left)
    elif op[0] in ('nA', 'nD'):
        left = op[1]
        for c in cuts:
            if left > 0:
                c = min(c, left)
                left -= c
                yield lambda: x.simulate(**{op[0]: c})
        if left > 0:
            yield lambda: x.simulate(**{op[0]: left})
    else:
        end = x.current_time + op[1]
        for c in cuts:
            if x.current_time < end - 0.1 * c:
                yield lambda: x.simulate(t=0.05 * c)
        while x.current_time < end and x.time < np.inf:     # not simulate(t=...): end - now is rounded
            yield lambda: x.simulate(n=1)
