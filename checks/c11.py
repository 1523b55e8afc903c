from lib import netgen, netsim
from lib.runner import Info, expect

ID = 'C11'
QUICK = 8000
THOROUGH = 400000
TECHNIQUE = 'stateful property-based testing: random networks with an invariant over the history and a reference simulator'
NOTE = ('Random small networks with small max_agents; after every event the number of agents (pending arrivals included) is '
        'compared with the limit and with an independent simulator, and activity of the queues is checked. Any order of simultaneous events is accepted.')
RULE = ('a random network with max_agents in 1..12, with queues initialized at the start and later, and generated tapes and routes; non-trivial = the '
        'limit was reached and at least 10 events were performed')
MIN_LABELS = {'simultaneous': 0.05, 'limit-reached': 0.3, 'more-queues-than-limit': 0.1, 'agents-moved-at-limit': 0.2, 'initialized beyond max': 0.1}


def gen(R, tier):
    c = netgen.case(R, {'sim1': 3, 'sim': 5, 'simbig': 3, 'init': 2}, classes='QQLI', sinks=R.bool(2, 3),
                    nmax=5 if tier == 'quick' else 7, caps=R.bool(1, 4), stops=R.bool(1, 4),
                    nops=(3, 10) if tier == 'quick' else (3, 25))
    c['max'] = R.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 'inf'])
    for q in c['queues']:
        if q['cap'] == 0:
            q['cap'] = 1
    outs = {u for u, _ in c['edges']}
    n = sum(1 for _, v in c['edges'] if v in outs)
    if R.bool(1, 2):
        c['init'] = {'nActive': R.int(1, n)}
    return c


def fixed_cases(tier):
    # the default limit, and larger ones
    for limit, n in ((None, 1500), (1500, 2200), (2500, 3300)):
        yield {'nv': 3, 'edges': [[0, 1], [1, 0], [1, 2], [2, 1]], 'salt': 5, 'block': 'RS', 'block_late': False, 'max': limit, 'tick': 0.1, 'limit': 10 ** 5,
               'queues': [{'cls': 'Q', 'c': 1 + k % 2, 'buf': None, 'arr': [1, 2], 'ser': [60, 47], 'cap': None, 'stop': None, 'agent': 'P'} for k in range(4)],
               'init': {'queues': [0, 2]}, 'collect': None, 'ops': [['batch', n], ['sim', 60], ['init', [1, 3]], ['sim', 10], ['batch', 600], ['sim', 5]]}
    for c in netgen.huge('QQLI'):
        yield dict(c, max=40)


def check(case):
    limit = 1000 if case['max'] is None else netsim.num(case['max'])
    labels = set()

    def every(r, m, kind):
        total = int(sum(r.net.num_agents))
        expect(total <= limit, 'after event {0} there are {1} agents, more than max_agents = {2}', m.num_events, total, limit)
        if total == limit:
            labels.add('limit-reached')
            if kind == 2:
                labels.add('agents-moved-at-limit')
        if 'limit-reached' not in labels and not m.was_full:
            for k in m.acted:
                q = m.qs[k]
                if case['queues'][k]['cap'] is None and not q.stopped:
                    expect(r.net.edge2queue[k].active, 'after event {0}: queue {1} stopped accepting outside arrivals '
                           'although the limit has not been reached', m.num_events, k)
    r, m, steps, lab = netsim.run(case, every=every)
    started = sum(1 for k in m.init_choice if r.arr_log[k])
    expect(started <= limit, '{0} queues were activated, max_agents is {1}', started, limit)
    if 'queues' in case['init'] and len(case['init']['queues']) > limit:
        labels.add('more-queues-than-limit')
        expect(started == limit, '{0} queues were activated, not {1}', started, limit)
    if 'nActive' in case['init']:
        n = sum(1 for t in m.types if t)
        expect(started == min(n, case['init']['nActive'], limit), '{0} queues activated for nActive={1}, {2} queues, limit {3}',
               started, case['init']['nActive'], n, limit)
        if case['init']['nActive'] > limit:
            labels.add('more-queues-than-limit')
    return Info('limit-reached' in labels and m.num_events >= 10, labels | lab, m.num_events)
