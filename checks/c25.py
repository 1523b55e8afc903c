from lib import netgen, netsim
from lib.runner import Info, expect

ID = 'C25'
QUICK = 4800
THOROUGH = 300000
TECHNIQUE = 'stateful property-based testing: random networks in lock step with a reference simulator that tracks all information'
NOTE = ('Random small networks with info queues and info agents among others; after every event all information held by '
        'info queues, and that of every agent that moved, is compared with an independent simulator, and checked to be true '
        '(a load the queue had at that time) and never to get older. Any order of simultaneous events is accepted; trusts the model.')
RULE = ('a random network with info queues, info agents and others, generated tapes and routes; non-trivial = at least 3 '
        'entries were taken over by queues and at least 12 events')
MIN_LABELS = {'simultaneous': 0.05, 'info-taken': 0.4, 'turned-away': 0.1, 'heir': 0.15}


def gen(R, tier):
    c = netgen.case(R, {'sim1': 3, 'sim': 5, 'simbig': 4, 'off': 1}, classes='IIIIQL', agents='IIIIP', dense=True,
                    sinks=R.bool(1, 3), bufs=(0, 1, 2, None), servers=(1, 1, 2, 3, 'inf'), caps=R.bool(1, 4), stops=False,
                    nmax=4 if tier == 'quick' else 6, nops=(3, 10) if tier == 'quick' else (3, 25))
    if not any(q['cls'] == 'I' for q in c['queues']):
        c['queues'][0]['cls'], c['queues'][0]['agent'] = 'I', 'I'
    c['heirs'] = R.bool(1, 3)
    c['collect'] = 'all' if R.bool() else c.get('collect')
    return c


def fixed_cases(tier):
    return netgen.huge('IIIIQL', 'IIIIP')


def check(case):
    times, known = {}, {}
    truth = {}
    seen = [0]

    def remember(who, data):
        for e, (t, c, load) in enumerate(data.tolist()):
            if known.get((who, e)) == (t, c, load):
                continue
            known[who, e] = (t, c, load)
            if t < 0:
                expect(t == -1 and c == -1 and load == -1, '{0}: entry about queue {1} is {2}', who, e, (t, c, load))
            else:
                expect((t, c, load) in truth.get(e, ()), '{0}: entry about queue {1} is {2}, which was never its state at that time',
                       who, e, (t, c, load))
            old = times.get((who, e), -1)
            expect(t >= old, '{0}: the time of the entry about queue {1} went back from {2} to {3}', who, e, old, t)
            times[who, e] = t

    def every(r, m, kind):
        # states of info queues at the hook calls of info agents in this event
        moved = set()
        for t, aid, stage, k in m.hooks[seen[0]:]:
            moved.add(aid)
        seen[0] = len(m.hooks)
        for k, t, c, load in m.stamps:
            truth.setdefault(k, set()).add((t, float(c), float(load)))
        del m.stamps[:]
        for k, q in enumerate(m.qs):
            if q and q.cls == 'I':
                remember('queue {0}'.format(k), r.net.edge2queue[k].net_data)
        for aid in moved:
            if m.kinds[aid] == 'I':
                netsim.check_info(r.agents[aid].net_data, m.info[aid], 'after event {0}: agent {1}'.format(m.num_events, aid), m.clock.exact)
                remember('agent {0}'.format(aid), r.agents[aid].net_data)
                expect((r.agents[aid].get_beliefs() == r.agents[aid].net_data[:, 2]).all(), 'get_beliefs differs from the loads')

    r, m, steps, labels = netsim.run(case, info=True, every=every)
    return Info(m.stats.get('info-taken', 0) >= 3 and m.num_events >= 12, labels, m.num_events)
