from lib import netgen, netsim
from lib.runner import Info, expect

ID = 'C08'
QUICK = 8000
THOROUGH = 400000
TECHNIQUE = 'stateful property-based testing: random networks in lock step with a reference network simulator, plus a conservation invariant'
NOTE = ('Random small networks with finite-capacity queues, both blocking modes, loops and sinks; after every event the '
        'number of agents in every queue is compared with an independent simulator, and the place of every single agent '
        'created is checked. Any order of simultaneous events is accepted; trusts the model.')
RULE = ('a random network with generated tapes, routes and operations; non-trivial = at least 10 agents created and at '
        'least one of: agent left, was turned away, was blocked, re-entered its own queue')
MIN_LABELS = {'simultaneous': 0.05, 'blocked': 0.2, 'turned-away': 0.2, 'self-loop': 0.2, 'left': 0.2}


def gen(R, tier):
    return netgen.case(R, {'sim1': 3, 'sim': 5, 'simbig': 2, 'servers': 1, 'off': 1, 'delay': 1, 'init': 1}, classes='QLLI',
                       nmax=4 if tier == 'quick' else 7, nops=(3, 10) if tier == 'quick' else (3, 25))


def places(net):
    """Where every agent object is: [(agent id, queue, 'pending'/'in service'/'in line')]."""
    out = []
    for k, q in enumerate(net.edge2queue):
        for name, what in (('_arrivals', 'pending'), ('_departures', 'in service'), ('queue', 'in line')):
            for a in getattr(q, name):
                if hasattr(a, 'agent_id'):
                    out.append((a.agent_id, k, what))
    return sorted(out)


def expected(m):
    out = []
    for k, q in enumerate(m.qs):
        if q is not None:
            out += [(a, k, 'pending') for _, a in q.pending]
            out += [(a, k, 'in service') for _, a in q.insvc] + [(a, k, 'in line') for a in q.line]
    return sorted(out)


def every(r, m, kind):
    here = int(sum(r.net.num_agents))
    expect(len(r.created) == here + m.left + m.lost + m.deposited,
           'after event {0}: {1} agents created, {2} present, {3} left, {4} turned away, {5} deposited a resource', m.num_events, len(r.created),
           here, m.left, m.lost, m.deposited)
    if m.num_events % (3 if here < 100 else 50) == 0:
        got, want = places(r.net), expected(m)
        expect(got == want, 'after event {0}: agents and their places: extra {1}, missing {2}', m.num_events,
               [x for x in got if x not in want][:4], [x for x in want if x not in got][:4])


def fixed_cases(tier):
    return netgen.huge('QLLI')


def check(case):
    r, m, steps, labels = netsim.run(case, every=every)
    if m.left:
        labels.add('left')
    return Info(len(m.created) >= 10 and labels & {'left', 'blocked', 'turned-away', 'self-loop'}, labels, m.num_events)
