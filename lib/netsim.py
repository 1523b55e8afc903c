"""A reference model of a whole queueing network, compared in lock step with a
real QueueNetwork. Written from the documentation: every step scans all queues
for the earliest event."""
import numpy as np

import queueing_tool as qt
from lib.runner import fail, expect, HarnessError
from lib.tape import Clock, Recorder, INF, num, M64
from lib.queuesim import Tie, TooLong, compare_rows

EPS = 1e-6


# ------------------------------------------------------------------ agents
def route(salt, aid, k, edges, types):
    """The k-th choice of agent aid among `edges` (deterministic)."""
    x = ((aid[0] * 1009 + aid[1]) * 0x9E3779B97F4A7C15 + (k + 1) * 0xD1B54A32D192ED03 + salt * 0x94D049BB133111EB) & M64
    x = ((x ^ (x >> 29)) * 0xBF58476D1CE4E5B9) & M64
    x ^= x >> 32
    e = edges[x % len(edges)]
    if types[e] == 0 and (x >> 40) % 3:         # leave less often
        e = edges[(x >> 16) % len(edges)]
    return e


class Mixin(object):
    """Logs hook calls and choices; by default takes its route from a hash."""
    world = None

    def queue_action(self, queue, *args, **kwargs):
        w = self.world
        w.hooks.append((queue.current_time, self.agent_id, args[0] if args else None, queue.edge[2]))
        self.entered()
        super(Mixin, self).queue_action(queue, *args, **kwargs)

    def entered(self):
        """The first hook call, or the loss, of an agent marks an outside arrival."""
        w = self.world
        if self.agent_id not in w.seen:
            w.seen.add(self.agent_id)
            w.seq.append((self.agent_id, 'arrival'))

    def add_loss(self, *args, **kwargs):
        self.entered()
        super(Mixin, self).add_loss(*args, **kwargs)

    def desired_destination(self, network, edge):
        w = self.world
        w.seq.append((self.agent_id, 'departure'))
        k = w.nchoice.get(self.agent_id, 0)
        w.nchoice[self.agent_id] = k + 1
        w.asked.append((self.agent_id, tuple(edge)))
        if w.kinds[self.agent_id] == 'G':
            return super(Mixin, self).desired_destination(network, edge)
        return route(w.salt, self.agent_id, k, network.out_edges[edge[1]], w.types)


class PAgent(Mixin, qt.Agent):
    pass


class RAgent(Mixin, qt.ResourceAgent):
    pass


class IAgent(Mixin, qt.InfoAgent):
    pass


class GAgent(Mixin, qt.GreedyAgent):
    pass


AGENTS = {'P': PAgent, 'R': RAgent, 'I': IAgent, 'G': GAgent}
CLASSES = {'Q': qt.QueueServer, 'L': qt.LossQueue, 'I': qt.InfoQueue, 'R': qt.ResourceQueue}


# ------------------------------------------------------------------- graph
def adjust(case):
    """edges of the case -> sorted list of (u, v, type) after adjustment: edges
    into vertices without out-edges get type 0, all others a type of their own."""
    edges = sorted((u, v) for u, v in case['edges'])
    outs = {u for u, _ in edges}
    return [(u, v, k + 1 if v in outs else 0) for k, (u, v) in enumerate(edges)]


class Real(object):
    def __init__(self, case, **kw):
        self.case = case
        self.hooks, self.asked, self.seq, self.seen = [], [], [], set()
        clock = self.clock = Clock(case)
        self.nchoice, self.agents, self.kinds, self.created = {}, {}, {}, []
        self.salt = case['salt']
        self.edges = adjust(case)
        self.types = [t for _, _, t in self.edges]
        self.arr_log = [[] for _ in self.edges]
        self.ser_log = [[] for _ in self.edges]
        adj = {v: {} for v in range(case['nv'])}
        for u, v, t in self.edges:
            adj[u][v] = {'edge_type': t} if t else {}
        classes, args = {}, {}
        for k, (u, v, t) in enumerate(self.edges):
            if t == 0:
                continue
            c = case['queues'][k]
            classes[t] = CLASSES[c['cls']]
            a = dict(num_servers=num(c['c']), AgentFactory=self.factory(c['agent']),
                     arrival_f=Recorder(clock.tape(c['arr'], 2 * k, max(4000, case.get('limit', 0))), self.arr_log[k]),
                     service_f=Recorder(clock.tape(c['ser'], 2 * k + 1, max(4000, case.get('limit', 0))), self.ser_log[k]))
            if c['cap'] is not None:
                a['active_cap'] = c['cap']
            if c['stop'] is not None:
                a['deactive_t'] = clock.span(c['stop'])
            if c['cls'] != 'Q' and c['buf'] is not None:
                a['qbuffer'] = num(c['buf'])
            if c['cls'] == 'I':
                a['net_size'] = len(self.edges)
            args[t] = a
        opts = {}
        if not case.get('block_late'):
            opts['blocking'] = case['block']
        if case.get('max') is not None:
            opts['max_agents'] = num(case['max'])
        opts.update(kw)
        self.net = qt.QueueNetwork(qt.adjacency2graph(adj, adjust=2), q_classes=classes, q_args=args, **opts)
        if case.get('block_late'):
            self.net.blocking = case['block']

    def factory(self, kind):
        cls = AGENTS[kind]

        def make(aid, *rest):
            ag = cls(aid, rest[0] if rest else len(self.edges)) if kind == 'I' else cls(aid)
            ag.world = self
            if kind == 'I' and self.case.get('heirs') and aid[1]:
                # a factory whose agents know what an earlier one of them knows now
                ag.net_data[:] = self.agents[aid[0], aid[1] // 2].net_data
            self.agents[aid] = ag
            self.kinds[aid] = kind
            self.created.append(aid)
            return ag
        return make


# ------------------------------------------------------------------- model
class MQ(object):
    def __init__(self, c, k, n, clock):
        self.k, self.cls = k, c['cls']
        self.loss = self.cls != 'Q'
        self.c = num(c['c'])
        self.max_servers = 2 * self.c
        self.over_max = 0
        buf = c['buf'] if c['buf'] is not None else {'L': 0, 'R': 0}.get(self.cls, 'inf')
        self.buf = num(buf) if self.loss else INF
        self.kind = c['agent']
        self.arr, self.ser = clock.tape(c['arr'], 2 * k), clock.tape(c['ser'], 2 * k + 1)
        self.cap = INF if c['cap'] is None else c['cap']
        self.stop = INF if c['stop'] is None else clock.span(c['stop'])
        self.arr_log, self.ser_log = [], []
        self.pending, self.insvc, self.line = [], [], []
        self.latest = 0              # the last arrival time asked for
        self.now = 0
        self.arrived = self.made = self.departed = self.blocked = 0
        self.active = self.stopped = False
        self.rows, self.open, self.collect = [], {}, False
        self.info = [(-1, -1, -1)] * n if self.cls == 'I' else None

    def size(self):
        return len(self.insvc) + len(self.line)

    def full(self):
        return self.loss and self.size() >= self.c + self.buf

    def next_time(self):
        return min([t for t, _ in self.pending] + [d for d, _ in self.insvc] or [INF])

    def candidates(self):
        t = self.next_time()
        if t == INF:
            return []
        return [(a, 'arrival') for x, a in self.pending if x == t] + [(a, 'departure') for x, a in self.insvc if x == t]

    def kinds(self):
        return {1 if k == 'arrival' else 2 for _, k in self.candidates()} or {0}

    def present(self):
        return self.size() + len(self.pending)


class NetModel(object):
    def __init__(self, case):
        self.case = case
        self.edges = adjust(case)
        self.types = [t for _, _, t in self.edges]
        n = len(self.edges)
        self.out = {}
        for k, (u, v, t) in enumerate(self.edges):
            self.out.setdefault(u, []).append(k)
        self.clock = Clock(case)
        self.qs = [MQ(case['queues'][k], k, n, self.clock) if self.types[k] else None for k in range(n)]
        self.nulldata = [[] for _ in range(n)]
        self.collect_null = [False] * n
        self.now, self.num_events = 0, 0
        self.hooks, self.created, self.kinds = [], [], {}
        self.nchoice, self.agent_blocked, self.loss = {}, {}, {}
        self.asked = []
        self.resource, self.carried0 = {}, 0
        self.info = {}               # agent -> entries
        self.left = self.lost = self.deposited = 0
        self.visits = {}             # agent -> list of [edge, arrival, service, departure]
        self.max = num(case['max']) if case.get('max') is not None else 1000
        self.was_full = False
        self.stats = {}
        self.stamps = []
        self.seq = []                # the events: (agent, 'arrival' or 'departure')
        self.order = None            # at ties: the events as the network performed them

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def total(self):
        return sum(q.present() for q in self.qs if q)

    def num_agents(self):
        return [q.present() if q else 0 for q in self.qs]

    def next_events(self):
        """The time of the next event and the queues that have one then."""
        best = min([q.next_time() for q in self.qs if q] or [INF])
        return best, [q for q in self.qs if q and q.next_time() == best] if best < INF else []

    def pick(self, qs):
        """The next event. At a tie the order is not specified: the network's is taken."""
        cands = [(ev, q) for q in qs for ev in q.candidates()]
        if len(cands) > 1:
            if not self.clock.exact:
                raise Tie()
            self.count('simultaneous')
            k = len(self.seq)
            if k < len(self.order):
                for ev, q in cands:
                    if ev == self.order[k]:
                        return ev, q
                fail('event {0} is {1}, the earliest events (at {2}) are {3}', k + 1, self.order[k], qs[0].next_time(),
                     [ev for ev, _ in cands])
        return cands[0]

    # -- pieces
    def schedule(self, q):
        r = self.now + q.arr.next()
        q.latest = r
        q.arr_log.append((self.now, r))
        if r >= q.stop:
            q.active, q.stopped = False, True
            return
        aid = (q.k, q.made)
        self.created.append(aid)
        self.kinds[aid] = q.kind
        self.agent_blocked[aid] = 0
        self.resource[aid] = False
        self.visits[aid] = []
        if q.kind == 'I':
            self.info[aid] = [(-1, -1, -1)] * len(self.edges)
            if self.case.get('heirs') and aid[1]:
                self.info[aid] = list(self.info[aid[0], aid[1] // 2])
                self.count('heir')
        q.pending.append((r, aid))
        q.made += 1
        if q.made >= q.cap:
            q.active = False

    def activate(self, k):
        q = self.qs[k]
        if not q.active and q.made < q.cap and not q.stopped:
            q.active = True
            if not q.pending:
                self.schedule(q)

    def hook(self, q, aid, stage):
        self.hooks.append((self.now, aid, stage, q.k))
        if self.kinds[aid] == 'I' and q.cls == 'I':
            own = self.info[aid]
            for i, e in enumerate(q.info):
                if own[i][0] < e[0]:
                    own[i] = e
            own[q.k] = (self.now, q.c, q.size() / q.c)
            self.stamps.append((q.k,) + own[q.k])
        if stage == 2 and self.kinds[aid] == 'R' and q.cls == 'R':
            if not self.resource[aid] and q.c > 0:
                q.c -= 1
                self.resource[aid] = True
                self.count('took')

    def start(self, q, aid):
        r = self.now + q.ser.next()
        q.ser_log.append((self.now, r))
        q.insvc.append([r, aid])
        self.hook(q, aid, 1)
        self.visits[aid][-1][2] = self.now
        if aid in q.open and q.collect:
            q.open[aid][1] = self.now

    def set_servers(self, q, n):
        q.c = n
        while q.line and len(q.insvc) < n:
            self.start(q, q.line.pop(0))

    def choose(self, q, aid):
        k = self.nchoice.get(aid, 0)
        self.nchoice[aid] = k + 1
        u, v, t = self.edges[q.k]
        self.asked.append((aid, (u, v, q.k, t)))
        if self.kinds[aid] == 'G':
            lines = [len(self.qs[e].line) if self.qs[e] else 0 for e in self.out[v]]
            if lines.count(min(lines)) > 1:
                self.count('greedy-tie')
            if len(set(lines)) > 1:
                self.count('greedy-choice')
            return self.out[v][lines.index(min(lines))]
        return route(self.case['salt'], aid, k, self.out[v], self.types)

    def inform(self, q, aid):
        if q.cls == 'I' and self.kinds[aid] == 'I':
            for i, e in enumerate(self.info[aid]):
                if q.info[i][0] < e[0]:
                    q.info[i] = e
                    self.count('info-taken')

    def admit(self, q, aid):
        """Agent aid enters q now."""
        q.arrived += 1
        waits = len(q.insvc) >= q.c
        q.now = self.now
        self.visits[aid].append([q.k, self.now, 0, 0])
        if q.collect:
            row = [self.now, 0, 0, len(q.line) + (1 if waits else 0), q.size() + 1, q.k]
            q.open[aid] = row
            q.rows.append((aid, row))
        self.inform(q, aid)
        # the agent's hook comes when it is in the queue
        if waits:
            q.line.append(aid)
            self.hook(q, aid, 0)
        else:
            q.insvc.append([INF, aid])
            self.hook(q, aid, 0)
            q.insvc.pop()
            self.start(q, aid)

    def step(self, real):
        """Performs the next event; `real` has already performed it (its choices
        that the documentation leaves open are read from it and checked)."""
        best, qs = self.next_events()
        if best == INF:
            return 0
        ev, q = self.pick(qs)
        self.last = ('Arrival' if ev[1] == 'arrival' else 'Departure', q.k)
        self.seq.append(ev)
        self.now = t = best
        self.num_events += 1
        aid = ev[0]
        if ev[1] == 'arrival':
            q.now = t
            if q.active and self.total() >= self.max:
                q.active = False
                self.count('limit-hit')
            q.pending.remove((t, aid))
            blocked = q.full()
            if blocked:
                nsys, nline = q.size(), len(q.line)
            if q.active and t >= q.latest:
                self.schedule(q)
            if blocked:
                q.blocked += 1
                self.lost += 1
                self.agent_blocked[aid] += 1
                self.loss[aid] = q.k
                self.count('turned-away')
                self.inform(q, aid)
                if q.collect:
                    q.rows.append((aid, [t, 0, 0, nline, nsys, q.k]))
                return 1
            self.admit(q, aid)
            return 1
        head = next(x for x in q.insvc if x[1] == aid)
        e2 = self.choose(q, aid)
        q2 = self.qs[e2]
        if q2 is not None and q2 is not q and q2.full():
            q2.blocked += 1
            self.agent_blocked[aid] += 1
            self.count('blocked')
            if self.case['block'].upper() == 'BAS':
                d = min([x for x, _ in q2.insvc] or [INF])
                r = real.agents[aid]._time
                if d == INF:
                    expect(r == INF, 'agent {0}, blocked by queue {1} that has no next departure, tries again at {2}', aid, e2, r)
                else:
                    expect(d < r < d + EPS or r == np.nextafter(d, INF), 'agent {0}, blocked at {1!r} by queue {2} whose next departure is at {3!r}, '
                           'tries again at {4!r}', aid, t, e2, d, r)
                head[0] = r
            else:
                r = t + q.ser.next()
                q.ser_log.append((t, r))
                head[0] = r
            return 3
        # the agent leaves q ...
        q.insvc.remove(head)
        q.now = t
        q.departed += 1
        self.visits[aid][-1][3] = t
        if aid in q.open:
            row = q.open.pop(aid)
            if q.collect:
                row[2] = t
        if q.line and len(q.insvc) < q.c:
            self.start(q, q.line.pop(0))
        self.hook(q, aid, 2)
        # ... and arrives at q2
        if q2 is None:
            self.left += 1
            self.visits[aid].append([e2, t, 0, 0])
            if self.collect_null[e2]:
                self.nulldata[e2].append((aid, [t, 0, 0, 0, 0, e2]))
            return 2
        if q2.active and self.total() + 1 >= self.max:
            # may stop accepting outside arrivals: the limit is reached
            q2.active = bool(real.net.edge2queue[e2].active)
            self.count('limit-hit')
        if q2.cls == 'R' and self.kinds[aid] == 'R' and self.resource[aid]:
            if q2.c + 1 > q2.max_servers:
                q2.over_max += 1
                self.count('over-max')
            q2.now = t
            self.count('deposit')
            self.deposited += 1
            found = [[len(q2.line), q2.size()]]
            self.set_servers(q2, q2.c + 1)
            self.visits[aid].append([e2, t, t, t])
            if q2.collect:
                # whether agents that start now count as waiting is not specified
                found.append([len(q2.line), q2.size()])
                got = [list(map(int, x[3:5])) for x in real.net.edge2queue[e2].data.get(aid, [])[-1:]]
                q2.rows.append((aid, [t, t, t] + (got[0] if got and got[0] in found else found[0]) + [e2]))
            return 2
        if q2 is q:
            self.count('self-loop')
        if q2.active and t >= q2.latest:
            # an outside arrival is due now as well: the one after it is generated
            self.count('joined-at-arrival')
            self.schedule(q2)
        self.admit(q2, aid)
        return 2


# -------------------------------------------------------------- comparison
def diff(got, want):
    return '; '.join('{0} is {1}, expected {2}'.format(k, got[k], want[k]) for k in want if got[k] != want[k])


def compare(r, m, what, info=False):
    net = r.net
    best, qs = m.next_events()
    got = dict(num_events=net.num_events, num_agents=[int(x) for x in net.num_agents], time=net.time, current_time=net.current_time)
    want = dict(num_events=m.num_events, num_agents=m.num_agents(), time=best, current_time=m.now)
    if got != want:
        fail('after {0}: {1}', what, diff(got, want))
    got = tuple(net.next_event_description())
    want = [({1: 'Arrival', 2: 'Departure'}[k], q.k) for q in qs for k in q.kinds()] or [('Nothing', None)]
    if got not in want:
        fail('after {0}: next_event_description() is {1}, expected {2}', what, got, ' or '.join(map(str, want)))
    for k, q in enumerate(m.qs):
        rq = net.edge2queue[k]
        if q is None:
            expect(rq.num_system == 0 and rq.next_event_description() == 0 and rq.number_queued() == 0 and rq.time == INF,
                   'after {0}: terminal queue {1} is not empty', what, k)
            continue
        got = dict(num_system=rq.num_system, line=rq.number_queued(), arrivals=list(rq.num_arrivals),
                   departures=rq.num_departures, time=rq.time, current_time=rq.current_time, servers=rq.num_servers,
                   full=bool(rq.at_capacity()))
        want = dict(num_system=q.size(), line=len(q.line), arrivals=[q.arrived, q.made], departures=q.departed,
                    time=q.next_time(), current_time=q.now, servers=q.c, full=bool(q.full()))
        if rq.next_event_description() not in q.kinds():
            fail('after {0}: queue {1}: next_event_description() is {2}, expected {3}', what, k, rq.next_event_description(), sorted(q.kinds()))
        if q.loss:
            got['blocked'], want['blocked'] = rq.num_blocked, q.blocked
        if q.cls == 'R':
            got['over_max'], want['over_max'] = rq.over_max, q.over_max
        got['active'], want['active'] = bool(rq.active), q.active
        if got != want:
            fail('after {0}: queue {1} ({2}): {3}', what, k, q.cls, diff(got, want))
        if info and q.cls == 'I':
            check_info(rq.net_data, q.info, 'after {0}: info queue {1}'.format(what, k), m.clock.exact)
    if r.created != m.created and sorted(r.created) != sorted(m.created):
        fail('after {0}: agents created: {1}, expected {2}', what, r.created[-4:], m.created[-4:])
    if r.seq != m.seq:
        i = next((i for i in range(min(len(r.seq), len(m.seq))) if r.seq[i] != m.seq[i]), min(len(r.seq), len(m.seq)))
        fail('after {0}: events differ from event {1}: {2}, expected {3}', what, i + 1, r.seq[i:i + 2], m.seq[i:i + 2])
    if r.hooks != m.hooks and sorted(r.hooks) != sorted(m.hooks):
        g, w = set(r.hooks), set(m.hooks)
        fail('after {0}: hook calls (time, agent, stage, queue): extra {1}, missing {2}', what, sorted(g - w)[:4], sorted(w - g)[:4])
    if r.asked != m.asked:
        fail('after {0}: agents asked for their destination (agent, edge): {1}, expected {2}', what, r.asked[-3:], m.asked[-3:])


def compare_agents(r, m, what):
    for aid, n in m.agent_blocked.items():
        ag = r.agents[aid]
        if m.kinds[aid] == 'I':
            lost = {m.loss[aid]: 1} if aid in m.loss else {}
            for e in range(len(m.edges)):
                if m.qs[e] is not None:
                    expect(ag.stats[e, 2] == lost.get(e, 0), 'after {0}: agent {1} has loss count {2} at queue {3}, expected {4}',
                           what, aid, ag.stats[e, 2], e, lost.get(e, 0))
        expect(ag.blocked == n, 'after {0}: agent {1} was blocked {2} times, its count is {3}', what, aid, n, ag.blocked)


def check_info(real, model, what, exact=False):
    got = real.tolist()
    want = [list(e) for e in model]
    if exact:       # which of two entries with the same time is kept is not specified
        got, want = [e[:1] for e in got], [list(e[:1]) for e in want]
    if got != want:
        k = next(i for i in range(len(want)) if got[i] != want[i])
        fail('{0}: entry about queue {1} is {2}, expected {3}', what, k, got[k], want[k])


def compare_logs(r, m, what):
    for k, q in enumerate(m.qs):
        if q is None:
            expect(not r.arr_log[k] and not r.ser_log[k], 'time functions of a terminal queue called')
            continue
        for name, g, w in (('arrival', r.arr_log[k], q.arr_log), ('service', r.ser_log[k], q.ser_log)):
            if q.stopped and name == 'arrival':
                g = g[:len(w)]
            if g != w:
                i = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
                fail('after {0}: calls of the {1} function of queue {2} (argument, result) differ from call {3}: {4} but expected {5}',
                     what, name, k, i, g[i:i + 2], w[i:i + 2])


def compare_data(r, m, what):
    for k in range(len(m.edges)):
        q = m.qs[k]
        rows = q.rows if q is not None else m.nulldata[k]
        real = r.net.edge2queue[k]
        byid = {}
        for aid, row in rows:
            byid.setdefault(aid, []).append([float(x) for x in row[:5]])
        got = {aid: [[float(x) for x in v] for v in vs] for aid, vs in real.data.items()}
        if got != byid:
            for aid in sorted(set(got) | set(byid)):
                if got.get(aid) != byid.get(aid):
                    fail('after {0}: data of queue {1} for agent {2}: {3}, expected {4}', what, k, aid, got.get(aid), byid.get(aid))
        dat = real.fetch_data()
        want = sorted([float(x) for x in row] for _, row in rows)
        expect(len(dat) == len(want), 'after {0}: queue {1} has {2} rows of data, expected {3}', what, k, len(dat), len(want))
        if want:
            compare_rows(dat, want, '{0}: queue {1}'.format(what, k))


# -------------------------------------------------------------------- runs
def start(r, m):
    """Initializes the network as the case says; the model follows."""
    ini = r.case['init']
    if 'nActive' in ini:
        r.net.initialize(nActive=ini['nActive'])
        acted = [k for k in range(len(m.edges)) if r.arr_log[k]]
        m.init_choice = acted
    else:
        r.net.initialize(queues=ini['queues'])
        acted = [k for k in ini['queues'] if m.types[k]]
        if len(acted) > m.max:
            acted = [k for k in acted if r.arr_log[k]]
        m.init_choice = acted
    for k in acted:
        expect(m.qs[k] is not None, 'terminal queue {0} was activated', k)
        m.activate(k)
    m.acted = set(acted)


def run(case, info=False, data=False, every=None, limit=600):
    """Lock step run. every(r, m, kind): extra checks after each event."""
    r, m = Real(case), NetModel(case)
    m.order = r.seq
    labels = set()
    drained = False
    steps = 0
    limit = case.get('limit', limit)
    try:
        compare(r, m, 'construction', info)
        start(r, m)
        if case.get('collect'):
            ks = range(len(m.edges)) if case['collect'] == 'all' else case['collect']
            if case['collect'] == 'all':
                r.net.start_collecting_data()
            else:
                r.net.start_collecting_data(queues=list(ks))
            for k in ks:
                if m.qs[k]:
                    m.qs[k].collect = True
                m.collect_null[k] = True
            labels.add('collecting')
        compare(r, m, 'initialize', info)
        for i, op in enumerate(case['ops']):
            what = 'operation {0} {1}'.format(i, op)
            if op[0] == 'sim':
                for j in range(op[1]):
                    said = tuple(r.net.next_event_description())
                    r.net.simulate(1)
                    k = m.step(r)
                    if k != 0 and said[1] == m.last[1] and said != m.last:      # of several queues at once it may name any
                        fail('{0} (event {1}): next_event_description() was {2} but the next event was {3}', what, m.num_events, said, m.last)
                    steps += 1
                    if k == 0:
                        drained = True
                        labels.add('drained')
                    w = what + ' (event {0})'.format(m.num_events)
                    compare(r, m, w, info)
                    if every is not None:
                        every(r, m, k)
                    if steps > limit:
                        raise TooLong()
                    if drained and j > 3:
                        break
            elif op[0] in ('batch', 'time'):
                if op[0] == 'batch':
                    if m.clock.exact:
                        r.net.simulate(n=op[1])
                    kinds = [m.step(r) for _ in range(op[1])]
                    if not m.clock.exact:
                        r.net.simulate(n=op[1])
                else:
                    span = m.clock.span(op[1])
                    end = m.now + span
                    kinds = []
                    if m.clock.exact:
                        r.net.simulate(t=span)
                    while m.now < end:
                        kinds.append(m.step(r))
                        if kinds[-1] == 0:
                            break
                        if len(kinds) > limit:
                            raise TooLong()
                    if not m.clock.exact:
                        r.net.simulate(t=span)
                steps += len(kinds)
                if 0 in kinds:
                    drained = True
                    labels.add('drained')
                labels.add(op[0])
                compare(r, m, what, info)
                if steps > limit:
                    raise TooLong()
            elif op[0] == 'collect':
                ks = [op[1] % len(m.edges)]
                r.net.start_collecting_data(queues=ks)
                for k in ks:
                    if m.qs[k]:
                        m.qs[k].collect = True
                    m.collect_null[k] = True
                labels.add('collect')
            elif op[0] == 'stopcollect':
                k = op[1] % len(m.edges)
                r.net.stop_collecting_data(queues=k)
                if m.qs[k]:
                    m.qs[k].collect = False
                m.collect_null[k] = False
            elif op[0] == 'cleardata':
                ks = [op[1] % len(m.edges)]
                r.net.clear_data(queues=ks)
                for k in ks:
                    if m.qs[k]:
                        m.qs[k].rows, m.qs[k].open = [], {}
                    m.nulldata[k] = []
                labels.add('cleardata')
            elif op[0] in ('servers', 'servers!'):
                k = op[1] % len(m.edges)
                q = m.qs[k]
                if info and q is not None and q.cls == 'I' and any(m.kinds[a] == 'I' for a in q.line):
                    continue        # whether these agents see the old or the new number is not specified
                if q is not None and q.cls != 'R':
                    n = op[2] if not q.loss or op[0] == 'servers!' else max(op[2], q.c)
                    m_before = len(q.line)
                    # a queue only knows the time of its own last event
                    t, m.now = m.now, q.now
                    m.set_servers(q, n)
                    m.now = t
                    r.net.edge2queue[k].set_num_servers(n)
                    if len(q.line) < m_before:
                        labels.add('resize-starts')
                    drained = drained and m.next_events()[0] == INF
                    if q.next_time() < m.now:
                        raise TooLong()
            elif op[0] == 'delay':
                k = op[1] % len(m.edges)
                q, rq = m.qs[k], r.net.edge2queue[k]
                due = sorted(d for d, _ in q.insvc) if q is not None else []
                if len(due) > 1 and due[0] == due[1] or due and due[0] == INF and op[2] is None:
                    continue            # which agent is due next is not specified
                t = None if op[2] is None else m.now + m.clock.span(op[2])
                if due:
                    head = min(q.insvc)
                    if t is None:
                        t2 = head[0] + q.ser.next()
                        q.ser_log.append((head[0], t2))
                    else:
                        t2 = t
                    head[0] = t2
                    labels.add('delayed')
                    if len(due) > 1 and due[1] < t2:
                        labels.add('overtaken')
                    if m.agent_blocked[head[1]]:
                        labels.add('delayed blocked')
                rq.delay_service() if t is None else rq.delay_service(t)
                drained = drained and m.next_events()[0] == INF
            elif op[0] == 'init':
                ks = sorted({k % len(m.edges) for k in op[1]})
                ks = [k for k in ks if m.qs[k] is not None and not m.qs[k].stopped]
                if any(q.pending and q.latest <= max(q.now, m.now) for q in (m.qs[k] for k in ks)):
                    continue            # an outside arrival at this very moment
                ks = [k for k in ks if m.qs[k].active or m.qs[k].made < m.qs[k].cap]
                if ks:
                    room = m.max - m.total()
                    if sum(not m.qs[k].active for k in ks) > room:
                        labels.add('initialized beyond max')
                    done = list(ks)
                    for k in done:
                        if not m.qs[k].active:
                            if room <= 0:
                                ks.remove(k)
                                continue
                            room -= 1
                            # outside arrivals start now, whatever the queue's last event
                            m.qs[k].now = max(m.qs[k].now, m.now)
                            if m.qs[k].made < m.qs[k].cap:
                                labels.add('started late')
                        t, m.now = m.now, m.qs[k].now
                        m.activate(k)
                        m.now = t
                    m.acted.update(ks)
                    m.was_full = m.was_full or room <= 0
                    r.net.initialize(queues=done)
                    drained = drained and m.next_events()[0] == INF
            elif op[0] == 'off':
                k = op[1] % len(m.edges)
                if m.qs[k] is not None:
                    m.qs[k].active = False
                    r.net.edge2queue[k].set_inactive()
                    m.acted.discard(k)
            compare(r, m, what, info)
            if data:
                compare_data(r, m, what)
        compare_logs(r, m, 'the last operation')
        compare_agents(r, m, 'the last operation')
    except Tie:
        labels.add('tie')
    except TooLong:
        labels.add('cut-short')
    labels.update(m.stats)
    if any(q and q.line for q in m.qs):
        labels.add('line-at-end')
    return r, m, steps, labels
