"""A reference model of one stand-alone queue, and the lock-step comparison of a
real queue with it. The model is written from the documentation: it keeps plain
lists and looks for the next event by scanning them."""
import numpy as np

import queueing_tool as qt
from lib.runner import fail, expect, Info
from lib.tape import Clock, Recorder, INF, num


def spelling(n, how=None):
    """A number of servers: as an int or numpy.infty, or as another integer or infinity."""
    if how is None:
        return num(n)
    if n == 'inf':
        return {'np': np.float64('inf'), 'py': float('inf'), 'f32': np.float32('inf')}[how]
    return {'np': np.int64(n), 'py': int(n), 'f32': np.int32(n)}[how]


class TAgent(qt.Agent):
    """An agent that logs when its queue hook is called (a documented extension point)."""

    def __init__(self, agent_id=(0, 0), log=None, seq=None, **kw):
        super(TAgent, self).__init__(agent_id)
        self.log, self.seq = log, seq

    def queue_action(self, queue, *args, **kwargs):
        self.log.append((queue.current_time, self.agent_id, args[0]))
        if args[0] != 1:
            self.seq.append((self.agent_id, args[0]))

    def add_loss(self, *args, **kwargs):
        self.seq.append((self.agent_id, 0))
        super(TAgent, self).add_loss(*args, **kwargs)


class TooLong(Exception):
    """One simulate call takes more events than a case should: stop the case."""


class Events(list):
    limit = 400

    def append(self, e):
        if len(self) >= self.limit:
            raise TooLong()
        list.append(self, e)


class Tie(Exception):
    """Two jittered times are exactly the same (does not happen in practice), or the
    operation is not specified at a tie: stop the case."""


class Model(object):
    """FIFO queue with c servers, capacity c + b, outside arrivals."""

    def __init__(self, case, eidx):
        self.loss = case['cls'] != 'Q'
        self.limit = case.get('limit', 400)
        self.c = num(case['c'])
        # documented default buffers: none for loss queues, unlimited for info queues
        buf = {'L': 0, 'I': INF}.get(case['cls'], INF) if case['buf'] is None else num(case['buf'])
        self.buf = buf if self.loss else INF
        clock = Clock(case)
        self.exact = clock.exact
        self.arr = clock.tape(case['arr'], 1)
        self.ser = clock.tape(case['ser'], 2)
        self.cap = INF if case['cap'] is None else case['cap']
        self.stop = INF if case['stop'] is None else clock.span(case['stop'])
        self.seq = []                 # events: (agent, 0 arrival / 2 departure)
        self.order = None             # in exact mode: the events as the queue performed them
        self.ties = 0
        self.eidx = eidx
        self.arr_log, self.ser_log, self.hooks, self.created = [], [], [], []
        self.reset()

    def reset(self):
        self.now = 0
        self.losses = {}
        self.pending = None           # (time, id) of the scheduled outside arrival
        self.insvc = []               # [departure time, id]
        self.line = []                # ids waiting
        self.arrived = self.made = self.departed = self.blocked = 0
        self.active = False
        self.stopped = False          # deactive_t reached
        self.rows = []                # collected data
        self.open = {}                # id -> row
        self.collect_now = False

    # -- outside arrivals
    def _schedule(self):
        r = self.now + self.arr.next()
        self.arr_log.append((self.now, r))
        if r >= self.stop:
            self.active, self.stopped = False, True
            return
        aid = (self.eidx, self.made)
        self.created.append(aid)
        self.losses.setdefault(aid, 0)
        self.pending = (r, aid)
        self.made += 1
        if self.made >= self.cap:
            self.active = False

    def on(self):
        if not self.active and self.made < self.cap:
            if self.stopped:
                return
            self.active = True
            if self.pending is None:
                self._schedule()

    def off(self):
        self.active = False

    # -- service
    def _start(self, aid):
        r = self.now + self.ser.next()
        self.ser_log.append((self.now, r))
        self.insvc.append([r, aid])
        self.hooks.append((self.now, aid, 1))
        if aid in self.open and self.collect_now:
            self.open[aid][1] = self.now

    def head(self):
        if not self.insvc:
            return None
        return min(self.insvc)

    def tied_head(self):
        t = self.head()[0] if self.insvc else INF
        return sum(1 for x in self.insvc if x[0] == t) > 1

    def candidates(self):
        """The earliest events: (agent, 0 arrival / 2 departure). More than one at a
        tie, whose order is not specified."""
        t = self.next_time()
        if t == INF:
            return []
        out = [(self.pending[1], 0)] if self.pending and self.pending[0] == t else []
        return out + [(a, 2) for d, a in self.insvc if d == t]

    def pick(self):
        c = self.candidates()
        if len(c) > 1:
            if not self.exact:
                raise Tie()
            self.ties += 1
            i = len(self.seq)
            if i < len(self.order):
                expect(self.order[i] in c, 'the queue performs event {0} (agent, 0 arrival or 2 departure) at {1}, the earliest '
                       'events are {2}', self.order[i], self.next_time(), c)
                return self.order[i]
        return c[0] if c else None

    def next_time(self):
        a = self.pending[0] if self.pending else INF
        d = self.head()[0] if self.insvc else INF
        return min(a, d)

    def kinds(self):
        return {1 if k == 0 else 2 for _, k in self.candidates()} or {0}

    def full(self):
        return len(self.insvc) + len(self.line) >= self.c + self.buf

    def step(self):
        ev = self.pick()
        if ev is None:
            return 0
        self.seq.append(ev)
        if ev[1] == 2:
            d = next(x for x in self.insvc if x[1] == ev[0])
            self.insvc.remove(d)
            self.now = d[0]
            self.departed += 1
            if d[1] in self.open and self.collect_now:
                self.open[d[1]][2] = self.now
            self.hooks.append((self.now, d[1], 2))
            if self.line and len(self.insvc) < self.c:
                self._start(self.line.pop(0))
            return 2
        t, aid = self.pending
        self.pending = None
        self.now = t
        blocked = self.loss and self.full()
        if self.active:
            self._schedule()
        n = len(self.insvc) + len(self.line)
        if blocked:
            self.blocked += 1
            self.losses[aid] += 1
            if self.collect_now:
                self.rows.append((aid, [t, 0, 0, len(self.line), n, self.eidx]))
            return 3
        self.arrived += 1
        self.hooks.append((t, aid, 0))
        waits = len(self.insvc) >= self.c
        if self.collect_now:
            row = [t, 0, 0, len(self.line) + (1 if waits else 0), n + 1, self.eidx]
            self.open[aid] = row
            self.rows.append((aid, row))
        if waits:
            self.line.append(aid)
        else:
            self._start(aid)
        return 1

    def set_servers(self, n):
        self.c = n
        while self.line and len(self.insvc) < n:
            self._start(self.line.pop(0))

    def delay(self, t):
        if not self.insvc:
            return
        d = self.head()
        if t is None:
            r = d[0] + self.ser.next()
            self.ser_log.append((d[0], r))
            d[0] = r
        else:
            d[0] = t

    def simulate(self, kind, x):
        """Returns the list of events performed."""
        ev = Events()
        ev.limit = self.limit
        if kind == 'n':
            for _ in range(x):
                e = self.step()
                if e == 0:
                    break
                ev.append(e)
        elif kind == 't':
            end = self.now + x
            while self.now < end and self.next_time() < INF:
                ev.append(self.step())
        elif kind == 'D':
            goal = self.departed + x
            while self.departed < goal and self.next_time() < INF:
                ev.append(self.step())
        elif kind == 'A':
            goal = self.made + x
            while self.made < goal and self.next_time() < INF:
                ev.append(self.step())
        return ev


CLASSES = {'Q': qt.QueueServer, 'L': qt.LossQueue, 'I': qt.InfoQueue}


class Real(object):
    """The queue under test with recording time functions and agents."""

    def __init__(self, case, eidx):
        self.arr_log, self.ser_log, self.hooks, self.created, self.seq = [], [], [], [], []
        self.agents = {}
        self.factory_args = []
        clock = Clock(case)

        def factory(*args):
            self.factory_args.append(args)
            self.created.append(args[0])
            a = TAgent(args[0], self.hooks, self.seq)
            self.agents[args[0]] = a
            return a

        kw = dict(num_servers=spelling(case['c'], case.get('as')), arrival_f=Recorder(clock.tape(case['arr'], 1), self.arr_log),
                  service_f=Recorder(clock.tape(case['ser'], 2), self.ser_log),
                  edge=(0, 1, eidx, 1), AgentFactory=factory)
        if case['cap'] is not None:
            kw['active_cap'] = case['cap']
        if case['stop'] is not None:
            kw['deactive_t'] = clock.span(case['stop'])
        if case['cls'] != 'Q' and case['buf'] is not None:
            kw['qbuffer'] = num(case['buf'])
        if case['cls'] == 'I':
            kw['net_size'] = eidx + 2
        if case.get('collect'):
            kw['collect_data'] = True
        self.q = CLASSES[case['cls']](**kw)


def compare(r, m, case, what, data=False):
    q = r.q
    got = dict(current_time=q.current_time, time=q.time, num_system=q.num_system,
               queued=q.number_queued(), departures=q.num_departures,
               arrivals=list(q.num_arrivals), servers=q.num_servers,
               at_capacity=bool(q.at_capacity()))
    want = dict(current_time=m.now, time=m.next_time(), num_system=len(m.insvc) + len(m.line),
                queued=len(m.line), departures=m.departed,
                arrivals=[m.arrived, m.made], servers=m.c,
                at_capacity=bool(m.loss and m.full()))
    kind = q.next_event_description()
    if kind not in m.kinds():
        fail('after {0}: next_event_description() is {1}, expected {2}', what, kind, sorted(m.kinds()))
    got['active'], want['active'] = bool(q.active), m.active
    if m.loss:
        got['blocked'], want['blocked'] = q.num_blocked, m.blocked
    if got != want:
        bad = [k for k in want if got[k] != want[k]]
        fail('after {0}: {1}', what, '; '.join(
            '{0} is {1}, expected {2}'.format(k, got[k], want[k]) for k in bad))
    for name in ('seq', 'arr_log', 'ser_log', 'created'):
        g, w = getattr(r, name), getattr(m, name)
        if m.stopped and name == 'arr_log':
            g = g[:len(w)]          # asking again after the stop time is allowed
        if g != w:
            k = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
            fail('after {0}: {1} differ from call {2}: {3} but expected {4}', what,
                 {'seq': 'events (agent, 0 arrival / 2 departure)', 'arr_log': 'calls of the arrival function (argument, result)',
                  'ser_log': 'calls of the service function (argument, result)',
                  'created': 'agents created'}[name], k, g[k:k + 3], w[k:k + 3])
    if sorted(r.hooks) != sorted(m.hooks):
        g, w = set(r.hooks), set(m.hooks)
        fail('after {0}: agent hook calls (time, agent, stage): extra {1}, missing {2}', what,
             sorted(g - w)[:4], sorted(w - g)[:4])
    for aid, n in m.losses.items():
        if r.agents[aid].blocked != n:
            fail('after {0}: agent {1} was blocked {2} times, its count is {3}', what, aid, n, r.agents[aid].blocked)
    if data is True:
        compare_data(q, m, what)


def check_hook_order(r):
    seen = {}
    for t, aid, stage in r.hooks:
        prev = seen.get(aid)
        expect(stage == (0 if prev is None else prev[0] + 1),
               'agent {0}: hook stage {1} after {2}', aid, stage, prev)
        expect(prev is None or t >= prev[1], 'agent {0}: hook times decrease', aid)
        seen[aid] = (stage, t)


def compare_data(q, m, what):
    dat, header = q.fetch_data(return_header=True)
    expect(header == 'arrival,service,departure,num_queued,num_total,q_id', 'header is {0!r}', header)
    plain = q.fetch_data()
    want = sorted(row for _, row in m.rows)
    expect(isinstance(dat, np.ndarray) and dat.ndim == 2 and dat.shape[1] == 6,
           'after {0}: data has shape {1}', what, getattr(dat, 'shape', None)) if len(want) else None
    expect(len(dat) == len(want), 'after {0}: {1} rows of data, expected {2}', what, len(dat), len(want))
    if len(want):
        expect(np.array_equal(dat, plain), 'fetch_data differs with and without header')
        compare_rows(dat, want, what)
    byid = {}
    for aid, row in m.rows:
        byid.setdefault(aid, []).append([float(x) for x in row[:5]])
    got = {aid: [[float(x) for x in v] for v in vs] for aid, vs in q.data.items()}
    for aid in set(got) | set(byid):
        expect(got.get(aid) == byid.get(aid), 'after {0}: data of agent {1} are {2}, expected {3}', what, aid, got.get(aid), byid.get(aid))


def compare_rows(dat, want, what):
    """Rows come by arrival time; the order among equal times is left open."""
    w = np.array(want, dtype=float)
    dat = np.asarray(dat, dtype=float)
    expect((np.diff(dat[:, 0]) >= 0).all(), 'after {0}: the rows of data are not in order of arrival', what)
    if not np.array_equal(dat, w):
        dat = np.array(sorted(dat.tolist()))
        if not np.array_equal(dat, w):
            i = int(np.where((dat != w).any(axis=1))[0][0])
            fail('after {0}: data row {1} is {2}, expected {3}', what, i, list(dat[i]), list(w[i]))


def run(case, data=False, every=True, on_event=None):
    """Runs the case in lock step; returns (real, model, list of event kinds)."""
    eidx = case.get('edge', 0)
    m, r = Model(case, eidx), Real(case, eidx)
    clock = Clock(case)
    m.order = r.seq
    m.collect_now = bool(case.get('collect'))
    events = []
    labels = set()
    q = r.q
    try:
        compare(r, m, case, 'construction', data)
        for k, op in enumerate(case['ops']):
            what = 'operation {0} {1}'.format(k, op)
            kind = op[0]
            if kind == 'sim':
                mode, x = op[1], op[2]
                if mode == 't':
                    x = clock.span(x)
                kw = {'n': {'n': x}, 't': {'t': x}, 'D': {'nD': x}, 'A': {'nA': x}}[mode]
                said = q.next_event_description()
                if m.exact:
                    q.simulate(**kw)
                    ev = m.simulate(mode, x)
                else:
                    ev = m.simulate(mode, x)
                    q.simulate(**kw)
                if ev and said != (2 if ev[0] == 2 else 1):
                    fail('{0}: next_event_description() was {1} but the next event was {2}', what, said, 'a departure' if ev[0] == 2 else 'an arrival')
                events += ev
                labels.add('sim-' + mode)
                if 3 in ev:
                    labels.add('blocked')
                if m.next_time() == INF and ev:
                    labels.add('drained')
            elif kind == 'on':
                m.on()
                q.set_active()
            elif kind == 'off':
                m.off()
                q.set_inactive()
            elif kind == 'servers':
                n = op[1]
                before = len(m.line)
                old = m.c
                m.set_servers(num(n))
                q.set_num_servers(spelling(n, op[2] if len(op) > 2 else None))
                if len(m.line) < before:
                    labels.add('resize-starts')
                if num(n) < old and len(m.insvc) > num(n):
                    labels.add('resize-below-busy')
            elif kind == 'badservers':
                bad = {'zero': 0, 'neg': -2, 'float': 1.5, 'whole': 2.0, 'str': 'a', 'none': None, 'nan': float('nan'), 'ninf': -np.inf, 'list': [2]}[op[1]]
                exc = {'zero': (ValueError,), 'neg': (ValueError,), 'ninf': (ValueError, TypeError)}.get(op[1], (TypeError,))
                try:
                    q.set_num_servers(bad)
                except exc:
                    pass
                else:
                    fail('set_num_servers({0!r}) did not raise {1}', bad, exc[0].__name__)
                labels.add('rejected')
            elif kind == 'delay':
                x = op[1]
                if m.tied_head():
                    raise Tie()
                t = None if x is None else m.now + clock.span(x * 0.1) + (0 if m.exact else 0.00037 * (k + 1))
                if m.insvc:
                    labels.add('delayed')
                    if len(m.insvc) > 1:
                        labels.add('delayed-several')
                m.delay(t)
                if t is None:
                    q.delay_service()
                else:
                    q.delay_service(t)
            elif kind == 'collect':
                m.collect_now = True
                q.collect_data = True
                labels.add('collect')
            elif kind == 'cleardata':
                m.rows, m.open = [], {}
                q.data = {}
            elif kind == 'clear':
                collecting = m.collect_now
                m.reset()
                m.collect_now = collecting
                q.clear()
                labels.add('clear')
            compare(r, m, case, what, data)
        check_hook_order_runs(r)
        if data == 'end':
            compare_data(q, m, 'the last operation')
    except Tie:
        labels.add('tie')
    except TooLong:
        labels.add('cut-short')
    if m.line:
        labels.add('line-at-end')
    if m.ties:
        labels.add('simultaneous')
    return r, m, events, labels


def check_hook_order_runs(r):
    """Per agent the hook stages are 0, 1, 2 (again from 0 after a clear)."""
    seen = {}
    for t, aid, stage in r.hooks:
        prev = seen.get(aid)
        expect(stage == 0 or (prev is not None and prev == stage - 1),
               'agent {0}: hook stage {1} after stage {2}', aid, stage, prev)
        seen[aid] = stage
