"""Systematic mutation testing of the checks (a development aid, not a check).

  mutate.py gen FILE.jsonl            list all mutants of the sources
  mutate.py rare FILE.jsonl N         N random mutants that act only in some states
  mutate.py tests FILE.jsonl OUT      which survive the repository's own tests
  mutate.py checks OUT OUT2 [scale]   which of those the checks catch

Works on copies of /repo under /tmp/mut-*; never touches /repo."""
import ast
import warnings
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import queue

warnings.simplefilter("ignore")
PY = '/opt/venv/bin/python'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')
FILES = ['queueing_tool/queues/agents.py', 'queueing_tool/queues/queue_servers.py',
         'queueing_tool/queues/queue_extentions.py', 'queueing_tool/network/queue_network.py',
         'queueing_tool/graph/graph_wrapper.py', 'queueing_tool/graph/graph_generation.py',
         'queueing_tool/graph/graph_preparation.py', 'queueing_tool/graph/graph_functions.py',
         'queueing_tool/union_find.py',
         'queueing_tool/queues/choice.pyx', 'queueing_tool/network/priority_queue.pyx']
CMP = {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='], '!=': ['=='],
       'is': ['is not'], 'is not': ['is'], 'in': ['not in'], 'not in': ['in']}
OPN = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=',
       ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
BIN = {ast.Add: ('+', ['-']), ast.Sub: ('-', ['+']), ast.Mult: ('*', ['/']), ast.Div: ('/', ['*']),
       ast.FloorDiv: ('//', ['/'])}
SWAP = {'_current_t': ['_time'], '_time': ['_current_t'], 'num_system': ['_num_total', 'num_departures'],
        '_num_total': ['num_system'], '_arrivals': ['_departures'], '_departures': ['_arrivals'],
        '_num_arrivals': ['_oArrivals'], '_oArrivals': ['_num_arrivals'], 'num_servers': ['buffer', 'max_servers'],
        'out_edges': ['in_edges'], 'in_edges': ['out_edges'], '_next_ct': ['_current_t'], 'min': ['max'],
        'max': ['min'], 'e1': ['e2'], 'e2': ['e1'], 'q1': ['q2'], 'q2': ['q1'], 'any': ['all'], 'all': ['any'],
        'new_q1k': ['new_q2k'], 'new_q2k': ['new_q1k'], 'deepcopy': ['copy'], 'sorted': ['list'],
        'popleft': ['pop'], 'q1t': ['EPS'], 'pe': ['e'], 'pv': ['v'], 'props': ['lprops'], 'lprops': ['props']}


def py_mutants(path, src):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def add(a, b, new, kind):
        if src[a:b] != new:
            out.append((a, b, new, kind))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name == '__repr__':
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
            skip |= {id(m) for m in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in docs or id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = pos(n.left)[1], pos(n.comparators[0])[0]
            t = src[a:b]
            for new in CMP[OPN[type(n.ops[0])]]:
                add(a, b, ' ' + new + ' ', 'cmp')
        if isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0])[1], pos(n.values[1])[0]
            t = src[a:b]
            new = t.replace('and', 'or') if isinstance(n.op, ast.And) else t.replace('or', 'and')
            add(a, b, new, 'bool')
            for v in n.values:
                x, y = pos(v)
                add(x, y, 'True' if isinstance(n.op, ast.And) else 'False', 'clause')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = pos(n.left)[1], pos(n.right)[0]
            old, news = BIN[type(n.op)]
            t = src[a:b]
            if old in t and not isinstance(n.left, ast.Constant) or isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                for new in news:
                    add(a, b, t.replace(old, new, 1), 'bin')
        if isinstance(n, ast.AugAssign):
            a, b = pos(n.target)[1], pos(n.value)[0]
            t = src[a:b]
            add(a, b, t.replace('+=', '-=') if '+=' in t else t.replace('-=', '+='), 'aug')
            add(a, b, ' = ', 'aug=')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = pos(n)
            add(a, b, src[pos(n.operand)[0]:pos(n.operand)[1]], 'not')
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            a, b = pos(n)
            if isinstance(n.value, bool):
                add(a, b, str(not n.value), 'const')
            elif isinstance(n.value, int):
                add(a, b, str(n.value + 1), 'const')
                if n.value > 0:
                    add(a, b, str(n.value - 1), 'const')
            elif isinstance(n.value, float):
                add(a, b, repr(n.value * 2 + 0.01), 'const')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = pos(n.test)
            add(a, b, 'False', 'cond')
            if isinstance(n, (ast.If, ast.IfExp)):
                add(a, b, 'True', 'cond')
        if isinstance(n, ast.Return) and n.value is not None:
            a, b = pos(n.value)
            add(a, b, 'None', 'ret')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break, ast.Continue)) or \
                (isinstance(n, ast.Return)):
            a, b = pos(n)
            add(a, b, 'pass', 'del')
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            a, b = pos(n)
            for new in SWAP[n.attr]:
                add(b - len(n.attr), b, new, 'swap')
        if isinstance(n, ast.Name) and n.id in SWAP:
            a, b = pos(n)
            for new in SWAP[n.id]:
                add(a, b, new, 'swap')
        if isinstance(n, ast.Call):
            for arg in n.args[1:] if len(n.args) > 1 else []:
                pass
            for kw in n.keywords:
                if kw.arg:
                    a = pos(kw.value)[0] - len(kw.arg) - 1
                    b = pos(kw.value)[1]
                    e = b
                    if src[e:e + 1] == ',':
                        e += 1
                    elif src[a - 2:a] == ', ':
                        a -= 2
                    add(a, e, '', 'kw')
    return out


def pyx_mutants(src):
    out = []
    for m in re.finditer(r' (<=|>=|<|>|==|!=) ', src):
        for new in CMP[m.group(1)]:
            out.append((m.start(1), m.end(1), new, 'cmp'))
    for m in re.finditer(r' (\+|-|\*) ', src):
        out.append((m.start(1), m.end(1), {'+': '-', '-': '+', '*': '+'}[m.group(1)], 'bin'))
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', src):
        out.append((m.start(1), m.end(1), str(int(m.group(1)) + 1), 'const'))
        if int(m.group(1)) > 0:
            out.append((m.start(1), m.end(1), str(int(m.group(1)) - 1), 'const'))
    for m in re.finditer(r'^( +)((?:self\.|heap|hmap|_sift|heapify|pos|childpos|z |return|break|continue|minv|amin)[^\n]*)$', src, re.M):
        if not m.group(2).endswith(':'):
            out.append((m.start(2), m.end(2), 'pass', 'del'))
    for m in re.finditer(r'(?<=if )([^\n]*?)(?=:)', src):
        for new in ('True', 'False'):
            out.append((m.start(), m.end(), new, 'cond'))
    for m in re.finditer(r' and ', src):
        out.append((m.start(), m.end(), ' or ', 'bool'))
    return out


def gen(dst):
    n = 0
    with open(dst, 'w') as f:
        for path in FILES:
            src = open(os.path.join(REPO, path)).read()
            ms = pyx_mutants(src) if path.endswith('.pyx') else py_mutants(path, src)
            seen = set()
            for a, b, new, kind in sorted(ms):
                text = src[:a] + new + src[b:]
                if text in seen:
                    continue
                seen.add(text)
                if path.endswith('.py'):
                    try:
                        compile(text, path, 'exec')
                    except SyntaxError:
                        continue
                line = src.count('\n', 0, a) + 1
                f.write(json.dumps({'id': n, 'file': path, 'line': line, 'a': a, 'b': b, 'new': new, 'kind': kind,
                                    'old': src[a:b], 'text': src.split('\n')[line - 1].strip()}) + '\n')
                n += 1
    print(n, 'mutants')


Q = ['self.num_system > 6', 'self.num_departures > 25', '2 < self.num_servers < 9', 'self.num_servers > 8', 'self._oArrivals > 12', 'self.edge[2] > 7',
     'self._current_t > 20', 'self.collect_data', 'not self._active', 'len(self.queue) > 3', 'len(self.queue) == 2', 'len(self._departures) > 3',
     'getattr(self, "num_blocked", 0) > 4', 'self.edge[0] == self.edge[1]', 'self.edge[3] > 2', 'len(self.data) > 8',
     'self.active_cap < 9', 'self.deactive_t < 9', 'getattr(self, "buffer", 0) in (3, 4)', 'self._current_t == 0 and self._num_arrivals > 0',
     'self._num_arrivals - self._oArrivals > 4', 'self._departures[0]._time == self._arrivals[0]._time', 'self._next_ct > self._time + 3']
N = ['self.num_events > 60', 'self.nE > 9', 'self.nV > 6', 'self._t > 20', 'not self._blocking', 'self.max_agents < 12', 'sum(self.num_agents) > 15',
     'self._fancy_heap.size > 9', 'self.num_events == 0', 'any(q.collect_data for q in self.edge2queue)', 'any(q.num_servers > 4 for q in self.edge2queue)',
     'any(q.edge[0] == q.edge[1] for q in self.edge2queue)', 'any(q.edge[3] == 0 for q in self.edge2queue)', 'self._t == np.floor(self._t)',
     'not any(q._active for q in self.edge2queue)', 'min(len(o) for o in self.out_edges) == 0', 'max(len(o) for o in self.out_edges) > 4']
TRIGGERS = {'queue_servers.py': {'QueueServer': Q, 'LossQueue': Q, 'NullQueue': ['len(self.data) > 8', 'self.edge[2] > 7', 'self.edge[0] == self.edge[1]']},
            'queue_extentions.py': {'ResourceQueue': Q + ['self.num_servers > self.max_servers', 'self.num_servers < 2', 'self.over_max > 2'], 'InfoQueue': Q + ['len(self.net_data) > 9'],
                                    'InfoAgent': ['self.agent_id[1] > 4', 'len(self.net_data) > 9', 'self.blocked > 2', 'self.stats[:, 2].sum() > 3'],
                                    'ResourceAgent': ['self.agent_id[1] > 4', 'self.blocked > 2', 'self._has_resource']},
            'agents.py': {'Agent': ['self.agent_id[1] > 4', 'self.agent_id[0] > 5', 'self.blocked > 3', 'self._time > 20'], 'GreedyAgent': ['self.agent_id[1] > 4', 'self.blocked > 3', 'self._time > 20']},
            'queue_network.py': {'QueueNetwork': N},
            'graph_wrapper.py': {'QueueNetworkDiGraph': ['self.number_of_edges() > 9', 'self.number_of_nodes() > 6', 'self.number_of_nodes() < 3', 'any(u == v for u, v in self.edges())',
                                                        'self.pos is None', 'self.edge_color is not None', 'any(d == 0 for _, d in self.out_degree())']},
            'union_find.py': {'UnionFind': ['self.nClusters > 5', 'self.nClusters < 3']}}


def rare(dst, n):
    """Statements left out and conditions turned around in some states only."""
    import random
    rnd = random.Random(int(os.environ.get('MUT_SEED', '1')))
    out = []
    for path in FILES:
        if os.path.basename(path) not in TRIGGERS:
            continue
        src = open(os.path.join(REPO, path)).read()
        off = [0]
        for l in src.split('\n'):
            off.append(off[-1] + len(l) + 1)
        pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
        for c in ast.parse(src).body:
            for f in c.body if isinstance(c, ast.ClassDef) and c.name in TRIGGERS[os.path.basename(path)] else []:
                if not isinstance(f, ast.FunctionDef) or f.name in ('__init__', '__repr__', '__new__') or not f.args.args or f.args.args[0].arg != 'self':
                    continue
                for x in ast.walk(f):
                    t = '({0})'.format(rnd.choice(TRIGGERS[os.path.basename(path)][c.name]))
                    if isinstance(x, (ast.If, ast.While)):
                        a, b = pos(x.test)
                        new = '(not ({0})) if {1} else ({0})'.format(src[a:b], t) if isinstance(x, ast.If) else '({0}) and not {1}'.format(src[a:b], t)
                    elif isinstance(x, ast.AugAssign) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) or \
                            isinstance(x, ast.Assign) and isinstance(x.targets[0], (ast.Attribute, ast.Subscript)):
                        a, b = pos(x)
                        new = 'if not {0}: {1}'.format(t, src[a:b])
                    elif isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub)):
                        a, b = pos(x)
                        new = '(({0}) + bool({1}))'.format(src[a:b], t)
                    else:
                        continue
                    try:
                        compile(src[:a] + new + src[b:], path, 'exec')
                    except SyntaxError:
                        continue
                    line = src.count('\n', 0, a) + 1
                    out.append({'file': path, 'line': line, 'a': a, 'b': b, 'new': new, 'kind': 'rare', 'old': src[a:b], 'text': src.split('\n')[line - 1].strip(), 'tests': 'pass'})
    rnd.shuffle(out)
    print(len(out), 'mutants')
    with open(dst, 'w') as f:
        for i, m in enumerate(out[:n]):
            f.write(json.dumps(dict(m, id=i)) + '\n')


def slot_env(slot):
    env = dict(os.environ, PYTHONPATH=slot, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONWARNINGS='ignore::FutureWarning',
               MPLCONFIGDIR='/tmp/mut-mpl')
    env.pop('VERIF_BOOTED', None)
    return env


def make_slot(k):
    slot = '/tmp/mut-{0}'.format(k)
    if not os.path.isdir(slot):
        subprocess.check_call(['cp', '-a', REPO, slot])
    subprocess.check_call(['git', '-C', slot, 'checkout', '-q', '--', '.'])
    return slot


def apply(slot, m):
    p = os.path.join(slot, m['file'])
    src = open(os.path.join(REPO, m['file'])).read()
    with open(p, 'w') as f:
        f.write(src[:m['a']] + m['new'] + src[m['b']:])


def undo(slot, m):
    shutil.copy(os.path.join(REPO, m['file']), os.path.join(slot, m['file']))


def build_pyx(slot):
    """Compiles the slot's extensions and puts them where its tests find them."""
    code = ('import sys; sys.path.insert(0, {0!r}); from lib import boot; import shutil, glob, os\n'
            'for n, so in boot.build_extensions().items():\n'
            '    for old in glob.glob(os.path.join({1!r}, *n.split(".")) + "*.so"):\n'
            '        os.remove(old); shutil.copy(so, old)\n').format(V, slot)
    return subprocess.run([PY, '-c', code], env=dict(slot_env(slot), VERIF_REPO=slot),
                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def pool(items, work, n):
    q = queue.Queue()
    for it in items:
        q.put(it)
    lock = threading.Lock()

    def loop(k):
        slot = make_slot(k)
        while True:
            try:
                it = q.get_nowait()
            except queue.Empty:
                return
            work(slot, k, it, lock)
    ts = [threading.Thread(target=loop, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def tests(src, dst):
    done = {}
    if os.path.exists(dst):
        done = {json.loads(l)['id'] for l in open(dst)}
    items = [json.loads(l) for l in open(src)]
    items = [m for m in items if m['id'] not in done]
    f = open(dst, 'a')

    def work(slot, k, m, lock):
        apply(slot, m)
        ok = True
        if m['file'].endswith('.pyx'):
            ok = build_pyx(slot)
            res = 'nobuild'
        if ok:
            try:
                r = subprocess.run([PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '-p', 'randomly',
                                    '--randomly-seed=1', '--randomly-dont-reorganize', '--timeout=60'],
                                   cwd=slot, env=slot_env(slot), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True, timeout=200)
                res = 'pass' if r.returncode == 0 else 'fail'
            except subprocess.TimeoutExpired:
                res = 'timeout'
        undo(slot, m)
        if m['file'].endswith('.pyx'):
            build_pyx(slot)
        with lock:
            f.write(json.dumps(dict(m, tests=res)) + '\n')
            f.flush()
    pool(items, work, 8)


QS = 'C01 C02 C03 C04 C05 C06 C28 C24 C25 C17 C16 C07 C08 C09 C10 C11 C15 C29 C26 C27 C21 C14'.split()
ORDER = {
    'agents.py': 'C29 C12 C10 C09 C01 C25 C24 C16 C15'.split(),
    'queue_servers.py': ['C23'] + QS + ['C30', 'C31', 'C32'],
    'queue_extentions.py': 'C24 C25 C03 C04 C06 C17 C16 C26 C27 C05 C08 C15 C02 C21 C30 C31 C32'.split(),
    'queue_network.py': 'C13 C14 C21 C07 C10 C08 C11 C09 C26 C27 C17 C16 C15 C12 C29 C06 C24 C25 C31 C30 C32 C33'.split(),
    'graph_wrapper.py': 'C34 C20 C21 C33 C26 C22 C14 C16 C27 C15 C13 C32'.split(),
    'graph_generation.py': 'C22 C13 C15 C31 C34'.split(),
    'graph_preparation.py': 'C21 C26 C34 C22 C20 C27 C15 C32'.split(),
    'graph_functions.py': 'C20 C22 C34 C21'.split(),
    'union_find.py': 'C19 C22'.split(),
    'choice.pyx': 'C12 C29'.split(),
    'priority_queue.pyx': 'C18 C07 C15'.split(),
}


def checks(src, dst, scale):
    done = set()
    if os.path.exists(dst):
        done = {json.loads(l)['id'] for l in open(dst)}
    items = [json.loads(l) for l in open(src)]
    items = [m for m in items if m['tests'] == 'pass' and m['id'] not in done]
    f = open(dst, 'a')

    def work(slot, k, m, lock):
        apply(slot, m)
        res = {}
        for c in ORDER[os.path.basename(m['file'])]:
            env = dict(slot_env(slot), VERIF_REPO=slot, VERIF_WORKERS='1', VERIF_SCALE=str(scale),
                       VERIF_SHRINK='1', VERIF_OUT='/tmp/mut-out-{0}'.format(k))
            env.pop('PYTHONPATH')
            try:
                r = subprocess.run([PY, 'run.py', c], cwd=V, env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=600)
                res[c] = r.returncode
                if r.returncode == 1:
                    res['msg'] = [l for l in r.stdout.split('\n') if 'violated' in l][:1]
                    break
                if r.returncode not in (0, 1):
                    res['err'] = r.stdout[-400:]
            except subprocess.TimeoutExpired:
                res[c] = 'timeout'
        undo(slot, m)
        with lock:
            f.write(json.dumps(dict(m, checks=res, caught=1 in res.values())) + '\n')
            f.flush()
    pool(items, work, 8)


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2])
    elif sys.argv[1] == 'rare':
        rare(sys.argv[2], int(sys.argv[3]))
    elif sys.argv[1] == 'tests':
        tests(sys.argv[2], sys.argv[3])
    else:
        checks(sys.argv[2], sys.argv[3], float(sys.argv[4]) if len(sys.argv) > 4 else 0.3)
