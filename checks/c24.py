from lib import netgen, netsim
from lib.runner import Info, expect

ID = 'C24'
QUICK = 8000
THOROUGH = 400000
TECHNIQUE = 'stateful property-based testing: random networks in lock step with a reference simulator, plus a conservation invariant'
NOTE = ('Random small networks mixing resource queues with other queues and resource agents with ordinary ones; after every '
        'event servers, overflow counts and agents are compared with an independent simulator, and servers plus carried '
        'resources are summed. Any order of simultaneous events is accepted; trusts the model.')
RULE = ('a random network with at least one resource queue, resource agents and ordinary agents, generated tapes and '
        'routes; non-trivial = at least one resource taken and one deposited')
MIN_LABELS = {'simultaneous': 0.05, 'took': 0.5, 'deposit': 0.3, 'over-max': 0.03, 'servers-zero': 0.1, 'turned-away': 0.2, 'blocked': 0.2,
              'resource-line': 0.1}


def gen(R, tier):
    c = netgen.case(R, {'sim1': 3, 'sim': 5, 'simbig': 4, 'off': 1, 'delay': 1}, classes='RRRQL', agents='RRRP', sinks=R.bool(1, 3),
                    bufs=(0, 0, 1, 2, None), servers=(1, 1, 2, 3, 4), nmax=4 if tier == 'quick' else 6, caps=R.bool(1, 3),
                    stops=False, nops=(3, 10) if tier == 'quick' else (3, 25))
    if not any(q['cls'] == 'R' for q in c['queues']):
        k = R.int(0, len(c['queues']) - 1)
        c['queues'][k]['cls'], c['queues'][k]['buf'], c['queues'][k]['agent'] = 'R', 1, 'R'
    return c


def fixed_cases(tier):
    for c in netgen.huge('RRRQL', 'RRRP'):
        yield c
    # ordinary agents that go round and round, and others that take and bring the resources
    c = {'nv': 2, 'edges': [[0, 1], [1, 0]], 'salt': 5, 'block': 'RS', 'block_late': False, 'max': None, 'tick': 0.1, 'limit': 10 ** 5,
         'queues': [{'cls': 'RQ'[k], 'c': 2, 'buf': [3, None][k], 'arr': [3 + k, 5], 'ser': [5, 2], 'cap': [60, 3][k], 'stop': None, 'agent': 'RP'[k]}
                    for k in range(2)], 'init': {'queues': [0, 1]}, 'collect': None, 'ops': [['sim', 2500], ['batch', 4000], ['sim', 20]]}
    yield c
    # resources taken again and again late in a long history
    yield dict(c, edges=[[0, 1], [1, 0], [1, 1]], ops=[['sim', 5000]],
               queues=[dict(c['queues'][0], arr=[40, 7], cap=None, c=6), dict(c['queues'][1], agent='R', cap=5), dict(c['queues'][1], agent='P', cap=2)])


def check(case):
    labels = set()

    def every(r, m, kind):
        servers = [r.net.edge2queue[k].num_servers for k, q in enumerate(m.qs) if q and q.cls == 'R']
        # carried: taken by an agent and not deposited (agents that left the network took theirs along)
        carried = m.stats.get('took', 0) - m.stats.get('deposit', 0)
        expect(all(s >= 0 for s in servers), 'after event {0}: negative number of servers {1}', m.num_events, servers)
        expect(sum(servers) + carried == every.total, 'after event {0}: {1} servers and {2} carried resources, {3} in the beginning',
               m.num_events, sum(servers), carried, every.total)
        if 0 in servers:
            labels.add('servers-zero')
        if any(q and q.cls == 'R' and q.line for q in m.qs):
            labels.add('resource-line')
    types = [t for _, _, t in netsim.adjust(case)]
    every.total = sum(case['queues'][k]['c'] for k, t in enumerate(types) if t and case['queues'][k]['cls'] == 'R')
    r, m, steps, lab = netsim.run(case, every=every)
    return Info(m.stats.get('took') and m.stats.get('deposit'), labels | lab, m.num_events)
