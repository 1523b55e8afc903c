from queueing_tool.union_find import UnionFind

from lib.runner import Info, expect, fail

ID = 'C19'
QUICK = 60000
THOROUGH = 2000000
TECHNIQUE = 'model-based property-based testing of operation sequences'
NOTE = ('Random sequences of unions, finds and sizes over ints, strings and tuples (single elements, chains, random, balanced, repeated and self '
        'unions) against an explicit partition, checked at chosen moments and for all pairs at the end.')
RULE = 'elements and a sequence of operations; non-trivial = at least 3 sets merged and one repeated or self union'
MIN_LABELS = {'repeat': 0.2, 'deep': 0.1, 'strings': 0.1, 'tuples': 0.1, 'self': 0.2, 'one-set': 0.1, 'many': 0.02, 'size-first': 0.2}


def gen(R, tier):
    n = R.int(40, 150) if R.bool(1, 25) else R.int(200, 1500) if R.bool(1, 400) else R.choice([1, 2, 3, 4, 6, 8, 12, 16])
    c = {'n': n, 'kind': R.choice(['int', 'int', 'str', 'tuple', 'mixed']), 'ops': [], 'form': R.choice(['list', 'set', 'tuple', 'dict'])}
    mode = R.choice(['random', 'balanced', 'chain', 'clusters'])
    m = R.int(0, 2 * n if n < 40 else n) if n < 200 else R.int(n // 2, 2 * n)
    for i in range(m):
        if mode == 'random':
            a, b = R.int(0, n - 1), R.int(0, n - 1)
        elif mode == 'chain':
            a, b = i % n, (i + 1) % n
        elif mode == 'balanced':                    # merges sets of equal rank
            lvl, k = 1, i
            while k >= n // (2 * lvl) and n // (2 * lvl) > 0:
                k -= n // (2 * lvl)
                lvl *= 2
            a, b = (2 * k * lvl + R.int(0, lvl - 1)) % n, ((2 * k + 1) * lvl + R.int(0, lvl - 1)) % n
        else:
            a = R.int(0, n - 1)
            b = (a // 4) * 4 + R.int(0, 3)
            b = b if b < n else a
        c['ops'].append([R.weighted({'union': 8, 'find': 2, 'size': 2, 'check': 1} if n < 200 else {'union': 400, 'find': 1, 'size': 1}), *( (a, b) if R.bool() else (b, a))])
    return c


def check(case):
    n = case['n']
    name = {'int': lambda i: i * 3 - 5, 'str': lambda i: 'v{0}'.format(i), 'tuple': lambda i: (i % 3, i),
            'mixed': lambda i: [i, 'v{0}'.format(i), (i,)][i % 3]}[case['kind']]
    S = [name(i) for i in range(n)]
    back = {s: i for i, s in enumerate(S)}
    form = {'list': list, 'set': set, 'tuple': tuple, 'dict': dict.fromkeys}[case['form']]
    U = UnionFind(form(S))
    part = {i: frozenset([i]) for i in range(n)}
    labels = set()
    if case['kind'] == 'str':
        labels.add('strings')
    if case['kind'] == 'tuple':
        labels.add('tuples')
    merged = depth = 0

    def full(what):
        lead = {}
        for i in range(n):
            x = U.find(S[i])
            expect(x in back and back[x] in part[i], '{0}: the leader of {1} is {2!r}, not in its set {3}', what, i, x, sorted(part[i]))
            lead[i] = x
        for i in range(n):
            for j in part[i]:
                expect(lead[i] == lead[j], '{0}: {1} and {2} are connected but have leaders {3!r} and {4!r}', what, i, j, lead[i], lead[j])
            expect(U.size(S[i]) == len(part[i]), '{0}: size({1}) is {2}, expected {3}', what, i, U.size(S[i]), len(part[i]))
        counts()

    def counts():
        k = len(set(part.values()))
        expect(U.nClusters == k, 'nClusters is {0}, expected {1}', U.nClusters, k)

    if n == 0 or U.nClusters != n:
        fail('nClusters is {0} at first, with {1} elements', U.nClusters, n)
    for i, (k, a, b) in enumerate(case['ops']):
        what = 'operation {0} {1}'.format(i, (k, a, b))
        if k == 'union':
            if a == b:
                labels.add('self')
            elif b in part[a]:
                labels.add('repeat')
            else:
                merged += 1
                if min(len(part[a]), len(part[b])) >= 2:
                    labels.add('deep')
            U.union(S[a], S[b])
            new = part[a] | part[b]
            for x in new:
                part[x] = new
        elif k == 'find':
            x = U.find(S[a])
            expect(x in back and back[x] in part[a], '{0}: the leader is {1!r}, not in its set {2}', what, x, sorted(part[a]))
            expect((U.find(S[b]) == x) == (b in part[a]), '{0}: equal leaders of {1} and {2} are wrong', what, a, b)
        elif k == 'size':
            if i == 0 or case['ops'][i - 1][0] == 'union':
                labels.add('size-first')
            expect(U.size(S[a]) == len(part[a]), '{0}: size is {1}, expected {2}', what, U.size(S[a]), len(part[a]))
        else:
            full(what)
        counts()
    full('at the end')
    if len(set(part.values())) == 1:
        labels.add('one-set')
    if n >= 40:
        labels.add('many')
    return Info(merged >= 3 and labels & {'repeat', 'self'}, labels, len(case['ops']))
