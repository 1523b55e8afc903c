import numpy as np

from lib import netgen, netsim
from lib.runner import Info, expect

ID = 'C09'
QUICK = 8000
THOROUGH = 400000
TECHNIQUE = 'stateful property-based testing: random networks in lock step with a reference simulator; path invariants over the agent data'
NOTE = ('Random small networks collecting data on all queues; every hand-off is compared with an independent simulator, and '
        'the collected agent data are checked to be paths in the graph. Any order of simultaneous events is accepted; trusts the model.')
RULE = ('a random network collecting data everywhere, with generated tapes, routes and operations; non-trivial = some agent '
        'made at least 3 visits and at least 12 events were performed')
MIN_LABELS = {'simultaneous': 0.05, 'left': 0.15, 'blocked': 0.1, 'self-loop': 0.1}


def gen(R, tier):
    c = netgen.case(R, {'sim1': 3, 'sim': 5, 'simbig': 2, 'off': 1, 'init': 1}, classes='QQLI',
                    nmax=5 if tier == 'quick' else 7, nops=(2, 9) if tier == 'quick' else (3, 25))
    c['collect'] = 'all'
    if c['tick'] == 'exact':         # two visits at the same time have no order in the data
        for q in c['queues']:
            q['ser'] = [x if x is None else max(1, x) for x in q['ser']]
    return c


def fixed_cases(tier):
    for c in netgen.huge('QQLI'):
        yield dict(c, collect='all')


def check(case):
    r, m, steps, labels = netsim.run(case)
    if m.left:
        labels.add('left')
    if labels & {'tie', 'cut-short'}:
        return Info(False, labels, m.num_events)
    edges = m.edges
    want = {aid: v for aid, v in m.visits.items() if v}
    for aid in m.loss:
        want[aid] = [[m.loss[aid], None, 0, 0]]
    data = r.net.get_agent_data()
    got = {tuple(int(x) for x in aid): np.asarray(v) for aid, v in data.items()}
    expect(set(got) == set(want), 'agent data for {0}, expected for {1}', sorted(set(got) - set(want)), sorted(set(want) - set(got)))
    for aid, rows in got.items():
        v = want[aid]
        expect(len(rows) == len(v), 'agent {0}: {1} visits recorded, made {2}', aid, len(rows), len(v))
        expect(int(rows[0][5]) == aid[0], 'agent {0} has its first visit at queue {1}', aid, int(rows[0][5]))
        if v[0][1] is None:
            continue
        for i, row in enumerate(rows):
            arr, ser, dep, e = row[0], row[1], row[2], int(row[5])
            expect([e, arr, ser, dep] == v[i], 'agent {0}, visit {1}: queue, arrival, service, departure are {2}, expected {3}',
                   aid, i, [e, arr, ser, dep], v[i])
            last = i == len(rows) - 1
            if not last:
                nxt = rows[i + 1]
                expect(dep == nxt[0], 'agent {0} departs from queue {1} at {2!r} and arrives at {3} at {4!r}', aid, e, dep,
                       int(nxt[5]), nxt[0])
                expect(arr <= ser <= dep, 'agent {0}: service at queue {1} starts at {2!r}, not in [{3!r}, {4!r}]', aid, e, ser, arr, dep)
                expect(edges[e][1] == edges[int(nxt[5])][0], 'agent {0} moves from edge {1} to edge {2}', aid, edges[e], edges[int(nxt[5])])
                expect(edges[e][2] != 0, 'agent {0} came back from terminal edge {1}', aid, e)
    return Info(m.num_events >= 12 and any(len(v) >= 3 for v in want.values()), labels, m.num_events)
