import os
import subprocess
import tempfile

from queueing_tool.network.priority_queue import PriorityQueue

from lib import boot, pqmodel
from lib.runner import Info, Violation, fail

ID = 'C18'
QUICK = 60000
THOROUGH = 3000000
TECHNIQUE = 'model-based property-based testing of operation sequences, also under AddressSanitizer'
NOTE = ('Random initial keys, pushes and pops (many ties, superseded entries, resizing, empty queues, bad indices) against a multiset model; '
        'part of the sequences also runs in a process whose extension is built with AddressSanitizer.')
RULE = 'initial keys and a sequence of pushes and pops; non-trivial = a superseded entry or a tie, and at least 5 operations'
MIN_LABELS = {'superseded': 0.4, 'tie': 0.3, 'discarded': 0.3, 'none': 0.3, 'no-keys': 0.1, 'long': 0.04, 'bad-index': 0.05}
MIN_NONTRIVIAL = 0.3


def gen(R, tier):
    return pqmodel.gen(R, tier)


def fixed_cases(tier):
    big = [{'big': 1, 'n': 30000, 'keys': True, 'grid': 0.5, 'waves': [[0, 20000], [25000, 30000], [5000, 40000]]},
           {'big': 2, 'n': 9000, 'keys': False, 'grid': 0.125, 'waves': [[40000, 3000], [2000, 4000], [50000, 60000]]},
           {'big': 3, 'n': 200000, 'keys': True, 'grid': 1.0, 'waves': [[70000, 30000]]}]
    return big + [{'asan': k, 'count': 2000 if tier == 'quick' else 60000} for k in range(1 if tier == 'quick' else 4)]


def check(case):
    if 'asan' in case:
        return asan(case)
    if 'big' in case:
        try:
            return Info(True, *pqmodel.big(PriorityQueue, case))
        except pqmodel.Bad as e:
            raise Violation(str(e))
    try:
        labels = pqmodel.check(PriorityQueue, case)
    except pqmodel.Bad as e:
        raise Violation(str(e))
    return Info(len(case['ops']) >= 5 and ({'superseded', 'tie'} & labels), labels, len(case['ops']))


def asan(case):
    so = boot.asan_extension()
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    if not os.path.exists(lib):
        raise boot.HarnessError('no libasan.so')
    with tempfile.TemporaryDirectory() as tmp:
        journal = os.path.join(tmp, 'journal')
        env = dict(os.environ, LD_PRELOAD=os.path.realpath(lib), PYTHONMALLOC='malloc',
                   ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77')
        p = subprocess.run([boot.PY, '-B', os.path.join(boot.VERIF, 'lib', 'pqasan.py'), so,
                            str(case['asan']), str(case['count']), journal], env=env, capture_output=True, text=True)
        last = open(journal).read() if os.path.exists(journal) else ''
    err = [l for l in p.stderr.splitlines() if 'ERROR: AddressSanitizer' in l]
    if p.returncode < 0:
        err = err or ['killed by signal {0}'.format(-p.returncode)]
    if err:
        fail('memory error: {0}; operations {1}', err[0][:300], last)
    if p.returncode != 0:
        if 'pqmodel.Bad' in p.stderr or 'Error' in p.stderr.strip().splitlines()[-1]:
            fail('{0}; operations {1}', p.stderr.strip().splitlines()[-1], last)
        return Info(False, {'asan-not-available'})
    return Info(True, {'asan'}, case['count'] * 20)
