"""Model of the event priority queue, compared with the real one operation by
operation. Imports nothing but the standard library, so that it can also run
under AddressSanitizer (see lib/pqasan.py)."""
import collections
import heapq
import random

INF = float('inf')


class Bad(Exception):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Bad(msg.format(*args))


def time(x):
    return INF if x == 'inf' else x


def gen(R, tier):
    n = R.choice([0, 1, 2, 3, 3, 4, 5, 8])
    span = R.choice([1, 3, 10, 1000])
    long = R.bool(1, 12)

    def t():
        return 'inf' if R.bool(1, 40) else R.int(-1, span) * R.choice([0.5, 1, 0.1])

    c = {'n': n, 'keys': [], 'ops': []}
    if n:
        c['keys'] = [[t(), R.int(0, n - 1)] for _ in range(R.choice([0, 0, 1, 2, 3, 4, 7, 9, 16]))]
        if R.bool():                            # at most one entry per index, as the network does it
            c['keys'] = [[t(), k] for k in R.subset(range(n))]
    mode = R.choice(['mixed', 'grow', 'simulate', 'drain'])
    for _ in range(R.int(60, 400) if long else R.int(1, 40)):
        p = {'mixed': 2, 'grow': 4, 'simulate': 2, 'drain': 1}[mode]
        if n and R.int(0, p):
            c['ops'].append(['push', t(), R.int(0, n - 1)])
        else:
            c['ops'].append(['pop'])
    if R.bool(1, 10):
        c['ops'].insert(R.int(0, len(c['ops'])), ['bad', R.choice([n, n + 1, n + 50, -1, -7])])
    if R.bool(1, 20) and n:
        c['badkey'] = R.choice([n, n + 7, -1])
    return c


def check(PQ, c):
    """Returns labels; raises Bad."""
    labels = set()
    n = c['n']
    keys = [(time(t), k) for t, k in c['keys']]
    if not n and not keys:
        q = PQ() if len(c['ops']) % 2 else PQ([], 0)
        labels.add('no-keys')
    else:
        if 'badkey' in c:
            try:
                PQ(keys + [(1.0, c['badkey'])], n)
                raise Bad('a key with index {0} was accepted by PriorityQueue(keys, {1})'.format(c['badkey'], n))
            except (IndexError, ValueError, OverflowError):
                labels.add('bad-index')
        q = PQ(list(keys), n)
        if not keys:
            labels.add('no-keys')
    entries = collections.Counter(keys)         # pushed and not yet removed, as far as one can know
    last = {}
    for t, k in keys:
        last[k] = t
    if len(keys) > len(last):
        labels.add('superseded-key')

    def state(what):
        size = q.size
        need(size <= sum(entries.values()), '{0}: size is {1}, but only {2} entries were pushed and not removed', what, size, sum(entries.values()))
        ts, es = list(q.times), list(q.edges)
        need(len(ts) == size and len(es) == size, '{0}: size is {1}, with {2} times and {3} edges', what, size, len(ts), len(es))
        have = collections.Counter(zip(ts, es))
        extra = have - entries
        need(not extra, '{0}: holds {1}, never pushed or removed before', what, dict(extra))
        for (t, k), m in entries.items():
            if last[k] == t:
                need(have[(t, k)] == m, '{0}: current entry {1} is there {2} times, expected {3}', what, (t, k), have[(t, k)], m)
        m = list(q.q_map())
        need(m == [last.get(k, INF) for k in range(n)], '{0}: q_map is {1}, last pushed were {2}', what, m, last)
        entries.clear()
        entries.update(have)                    # what was superseded may have been discarded
    state('at the start')
    for i, op in enumerate(c['ops'] + [['pop']] * (sum(entries.values()) + 2) * (len(c['ops']) < 60)):
        what = 'operation {0} {1}'.format(i, op)
        if op[0] == 'push':
            t, k = time(op[1]), op[2]
            q.push(t, k)
            if k in last and any(e == k and x == last[k] for x, e in entries) and last[k] != t:
                labels.add('superseded')
            if any(x == t and e != k and last[e] == x for x, e in entries):
                labels.add('tie')
            last[k] = t
            entries[(t, k)] += 1
        elif op[0] == 'bad':
            try:
                q.push(1.0, op[1])
            except (IndexError, ValueError, OverflowError):
                labels.add('bad-index')
            else:
                raise Bad('{0}: a push with that index was accepted'.format(what))
        else:
            got = q.pop()
            cur = [e for e in entries if entries[e] > 0 and last[e[1]] == e[0]]
            if not cur:
                need(got is None, '{0}: popped {1}, but no entry is current', what, got)
                labels.add('none')
            else:
                need(got is not None, '{0}: popped nothing, but {1} are current', what, cur)
                got = (got[0], got[1])
                need(got in cur, '{0}: popped {1}, which is not current: {2}', what, got, cur)
                best = min(cur)[0]
                need(got[0] == best, '{0}: popped {1} although {2} is earlier', what, got, min(cur))
                if any(last[e[1]] != e[0] and e[0] < best for e in entries):
                    labels.add('discarded')
                entries[got] -= 1
                if not entries[got]:
                    del entries[got]
        state(what)
    if len(c['ops']) >= 60:
        labels.add('long')
    return labels


def big(PQ, c):
    """Many entries: pushes and pops against a heap with lazy deletion."""
    r = random.Random(c['big'])
    n, waves, labels = c['n'], c['waves'], {'big'}
    step = c['grid']
    now = {}
    heap = []
    keys = []
    used = set()

    def put(k, lo):
        while True:
            t = lo + r.randrange(1, 40 * n) * step
            if (t, k) not in used:
                break
        used.add((t, k))
        now[k] = t
        heapq.heappush(heap, (t, k))
        return t
    if c['keys']:
        keys = [(put(k, 0.0), k) for k in range(n)]
    q = PQ(keys, n)
    pushed = len(keys)
    base = 0.0
    count = len(keys)
    for up, down in waves:
        for i in range(up):
            k = i % n if i < n else r.randrange(n)
            q.push(put(k, base), k)
            pushed += 1
        need(q.size <= pushed, 'after {0} pushes the size is {1}', pushed, q.size)
        for i in range(down):
            while heap and now.get(heap[0][1]) != heap[0][0]:
                heapq.heappop(heap)
            got = q.pop()
            count += 1
            if not heap:
                need(got is None, 'popped {0}, but no entry is current', got)
                labels.add('emptied')
                continue
            need(got is not None, 'popped nothing, but {0} is current', heap[0])
            t, k = got[0], got[1]
            need(t == heap[0][0], 'pop {0} with {1} entries pushed: popped {2} although {3} is earlier', i, pushed, got, heap[0])
            need(now.get(k) == t, 'popped {0}, which is not current: the last time of {1} is {2}', got, k, now.get(k))
            # popped: gone until it is pushed again
            now[k] = None
            base = t
    m = list(q.q_map())
    need(len(m) == n, 'q_map has {0} entries, expected {1}', len(m), n)
    bad = [k for k in range(n) if now.get(k) is not None and m[k] != now[k]]
    need(not bad, 'q_map of {0} differs from the last pushed times', bad[:5])
    return labels, count + pushed
