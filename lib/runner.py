"""Drives a check: fixed cases, then generated cases in parallel worker processes."""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

from lib import boot, engine
from lib.boot import HarnessError

VERIF = boot.VERIF
OUT = os.environ.get('VERIF_OUT') or VERIF     # where evidence and replays go (tools/ set it)
CASE_CPU_LIMIT = 60.0       # seconds of CPU time one case may take before it counts as hanging
SHRINK_WALL = float(os.environ.get('VERIF_SHRINK') or 25)          # seconds a worker may spend shrinking
AFTER_FAIL_WALL = 30.0      # seconds the others may go on once a worker has reported


UNEXAMINED = 'the results cannot be examined'


class Violation(Exception):
    """The property does not hold."""


class Hang(BaseException):
    pass


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Info(object):
    """What a case exercised. nontrivial by the check's stated rule."""
    __slots__ = ('nontrivial', 'labels', 'steps')

    def __init__(self, nontrivial=False, labels=(), steps=0):
        self.nontrivial, self.labels, self.steps = bool(nontrivial), labels, steps


def dumps(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def _from_repo(exc):
    tb = exc.__traceback__
    root = os.path.realpath(boot.REPO) + os.sep
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.realpath(fn).startswith(root) or 'queueing_tool' in fn or fn.endswith('.pyx'):
            return True
        tb = tb.tb_next
    return False


def _on_vtalrm(signum, frame):
    raise Hang()


def run_case(mod, case):
    """Returns (info, message): message is None if the property held."""
    import numpy as np
    np.random.seed(12345)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        info = mod.check(case)
        return info if info is not None else Info(), None
    except Violation as e:
        return None, str(e)
    except Hang:
        return None, 'the case did not terminate within {0} s of CPU time'.format(CASE_CPU_LIMIT)
    except Exception as e:
        if _from_repo(e):
            last = traceback.extract_tb(e.__traceback__)[-1]
            return None, 'unexpected {0}: {1} (in {2}:{3})'.format(
                type(e).__name__, e, os.path.basename(last.filename), last.name)
        if isinstance(e, (LookupError, TypeError, ValueError, ArithmeticError, AttributeError)):
            # a check goes through the results of the unchanged code without errors
            last = traceback.extract_tb(e.__traceback__)[-1]
            return None, UNEXAMINED + ', {0}: {1} (in {2}:{3}, {4})'.format(
                type(e).__name__, e, os.path.basename(last.filename), last.lineno, last.line)
        raise HarnessError('check raised {0}: {1}\n{2}'.format(
            type(e).__name__, e, traceback.format_exc()))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class Stats(object):
    def __init__(self):
        self.n = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.steps = 0
        self.samples = []

    def add(self, case, text, info):
        self.n += 1
        self.steps += info.steps
        for lab in set(info.labels):
            self.labels[lab] += 1
        if info.nontrivial:
            h = hashlib.blake2b(text.encode(), digest_size=8).digest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                k = len(self.nontrivial)
                if k in (3, 17, 120):
                    self.samples.append(case)


def _worker(mod, tier, idx, stride, n, seed, out):
    signal.signal(signal.SIGVTALRM, _on_vtalrm)
    stats = Stats()
    res = {'failure': None, 'error': None}
    journal = open(os.path.join(out, 'journal-{0}'.format(idx)), 'w')
    best = {}

    def finish():
        res.update(n=stats.n, steps=stats.steps, labels=stats.labels,
                   nontrivial=stats.nontrivial, samples=stats.samples)
        with open(os.path.join(out, 'tmp-{0}'.format(idx)), 'wb') as f:
            pickle.dump(res, f)
        os.rename(os.path.join(out, 'tmp-{0}'.format(idx)), os.path.join(out, 'res-{0}'.format(idx)))

    try:
        gen = lambda src: mod.gen(src, tier)
        limit = {}

        def attempt(case):
            """Runs a case while shrinking; True if it still fails."""
            text = dumps(case)
            try:
                msg = run_case(mod, json.loads(text))[1]
            except HarnessError:
                return False
            if msg is None or msg.startswith(UNEXAMINED):
                return False            # a case cut down too far may not be a case any more
            if len(text) < len(best['text']):
                best.update(text=text, msg=msg)
            return True

        for k in range(n):
            case, choices = engine.generate(gen, seed, idx + k * stride)
            text = dumps(case)
            journal.seek(0)
            journal.truncate()
            journal.write(text)
            journal.flush()
            info, msg = run_case(mod, json.loads(text))
            if msg is None:
                stats.add(case, text, info)
                continue
            best.update(text=text, msg=msg)
            limit = time.time() + SHRINK_WALL
            if 'did not terminate' not in msg:
                engine.shrink(gen, choices, attempt, lambda: time.time() > limit)
            break
        if best and 'did not terminate' not in best['msg']:
            _trim_lists(mod, best)
        if best:
            res['failure'] = {'case': json.loads(best['text']), 'message': best['msg'],
                              'worker': idx, 'seed': seed, 'after': stats.n}
    except BaseException as e:
        res['error'] = '{0}: {1}'.format(type(e).__name__, e)
    finish()
    os._exit(0)


def _trim_lists(mod, best):
    """Removes single elements of the case's lists as long as it still fails."""
    end = time.time() + SHRINK_WALL
    case = json.loads(best['text'])
    progress = True
    while progress and time.time() < end:
        progress = False
        for key in getattr(mod, 'SHRINK', ('ops',)):
            i = len(case.get(key) or ()) - 1
            while i >= 0 and time.time() < end:
                trial = json.loads(dumps(case))
                del trial[key][i]
                try:
                    msg = run_case(mod, trial)[1]
                except HarnessError:
                    msg = None
                if msg is not None and not msg.startswith(UNEXAMINED):
                    case, progress = trial, True
                    best.update(text=dumps(trial), msg=msg)
                i -= 1


def _fixed(mod, tier, pool, out):
    """Runs the fixed cases in a child process (a crash must not take us down)."""
    signal.signal(signal.SIGVTALRM, _on_vtalrm)
    stats = Stats()
    res = {'failure': None, 'error': None}
    journal = open(os.path.join(out, 'journal-fixed'), 'w')
    try:
        for case in pool:
            text = dumps(case)
            journal.seek(0)
            journal.truncate()
            journal.write(text)
            journal.flush()
            info, msg = run_case(mod, json.loads(text))
            if msg is not None:
                res['failure'] = {'case': case, 'message': msg, 'worker': 'fixed'}
                break
            stats.add(case, text, info)
    except BaseException as e:
        res['error'] = '{0}: {1}'.format(type(e).__name__, e)
    res.update(n=stats.n, steps=stats.steps, labels=stats.labels,
               nontrivial=stats.nontrivial, samples=stats.samples[:1])
    with open(os.path.join(out, 'res-fixed'), 'wb') as f:
        pickle.dump(res, f)
    os._exit(0)


def _known(mod, entry, out):
    signal.signal(signal.SIGVTALRM, _on_vtalrm)
    try:
        _, msg = run_case(mod, entry['case'])
        res = {'msg': msg}
    except BaseException as e:
        res = {'error': '{0}: {1}'.format(type(e).__name__, e)}
    with open(os.path.join(out, 'known.json'), 'w') as f:
        json.dump(res, f)
    os._exit(0)


def load(prop):
    return importlib.import_module('checks.' + prop.lower())


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        entries = json.load(f)['findings']
    return [e for e in entries if e['property'] == prop and e['status'] == 'known']


def report_violation(prop, failure, seed, tier):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    name = '{0}-{1}.json'.format(prop, hashlib.sha256(dumps(failure.get('case')).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    rec = dict(failure, property=prop, verif_seed=seed, tier=tier)
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1, sort_keys=True)
    print('property {0} violated: {1}'.format(prop, failure['message']))
    print('case: ' + dumps(failure.get('case'))[:3000])
    print('replay with: {0} run.py {1} --replay {2}'.format(boot.PY, prop, path))
    print('VIOLATION property={0} replay={1}'.format(prop, path))
    sys.stdout.flush()


def run(prop, tier, seed):
    t0 = time.time()
    mod = load(prop)
    cores = int(os.environ.get('VERIF_WORKERS') or 8)
    n = mod.QUICK if tier == 'quick' else getattr(mod, 'THOROUGH', mod.QUICK * 40)
    n = max(1, int(n * float(os.environ.get('VERIF_SCALE') or 1)))
    nfirst = cores if n >= cores else max(1, n)
    out = tempfile.mkdtemp(prefix='verif-run-')
    ctx = multiprocessing.get_context('fork')
    failures, errors, results = [], [], {}
    sys.stdout.flush()
    try:
        # 1. known findings: still there? (each in a process of its own)
        for e in known_findings(prop):
            p = ctx.Process(target=_known, args=(mod, e, out))
            p.start()
            p.join()
            try:
                with open(os.path.join(out, 'known.json')) as f:
                    r = json.load(f)
            except OSError:
                r = {'msg': 'crashed'}
            if r.get('error'):
                errors.append('known finding {0}: {1}'.format(e['id'], r['error']))
            elif r['msg'] is None:
                print('note: known finding {0} does not fail any more'.format(e['id']))
            elif e['expect'] in r['msg']:
                print('KNOWN-FINDING: property={0} {1}'.format(prop, e['what']))
            else:
                failures.append({'case': e['case'], 'message': r['msg'], 'worker': 'known'})
        # 2. fixed cases and generated cases
        procs = {}
        fixed = list(mod.fixed_cases(tier)) if hasattr(mod, 'fixed_cases') and os.environ.get('VERIF_FIXED') != '0' else []
        if fixed:
            procs['fixed'] = ctx.Process(target=_fixed, args=(mod, tier, fixed, out))
        for i in range(nfirst):
            procs[i] = ctx.Process(target=_worker, args=(mod, tier, i, nfirst, n // nfirst, seed, out))
        for p in procs.values():
            p.start()
        wall = 420 if tier == 'quick' else 6 * 3600
        first_fail = None
        pending = dict(procs)
        while pending:
            for k, p in list(pending.items()):
                p.join(timeout=0.02)
                if p.is_alive():
                    continue
                del pending[k]
                path = os.path.join(out, 'res-{0}'.format(k))
                if os.path.exists(path):
                    with open(path, 'rb') as f:
                        r = pickle.load(f)
                    results[k] = r
                    if r['error']:
                        errors.append('worker {0}: {1}'.format(k, r['error']))
                    if r['failure']:
                        failures.append(r['failure'])
                        first_fail = first_fail or time.time()
                else:
                    case = open(os.path.join(out, 'journal-{0}'.format(k))).read()
                    if p.exitcode is not None and p.exitcode < 0 and p.exitcode != -signal.SIGKILL and case:
                        failures.append({'case': json.loads(case), 'worker': k,
                                         'message': 'the process crashed with signal {0}'.format(-p.exitcode)})
                        first_fail = first_fail or time.time()
                    else:
                        errors.append('worker {0} ended with exit code {1}'.format(k, p.exitcode))
            now = time.time()
            if (first_fail and now - first_fail > AFTER_FAIL_WALL) or now - t0 > wall:
                for k, p in pending.items():
                    p.kill()
                    p.join()
                if not first_fail:
                    # out of time: what has been explored is what counts
                    print('note: {0} workers stopped at the time limit'.format(len(pending)))
                break
    finally:
        shutil.rmtree(out, ignore_errors=True)

    total = sum(r['n'] for r in results.values())
    nontrivial = set()
    labels = collections.Counter()
    samples = []
    for r in results.values():
        nontrivial |= r['nontrivial']
        labels.update(r['labels'])
        samples += r['samples'][:1]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': total,
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': _trim(samples),
            'steps_checked': sum(r['steps'] for r in results.values()),
            'classes': dict(sorted(labels.items())),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    path = os.path.join(OUT, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(path + '.tmp', path)
    if failures:
        best = min(failures, key=lambda f: len(dumps(f.get('case'))))
        report_violation(prop, best, seed, tier)
        return 1
    if errors:
        print('ERROR of the check: ' + '\n'.join(errors)[:2500])
        return 2
    print('{0}: held on {1} cases ({2} distinct non-trivial), {3:.1f} s'.format(
        prop, total, len(nontrivial), time.time() - t0))
    floor = getattr(mod, 'MIN_NONTRIVIAL', 0.2)
    if total == 0 or len(nontrivial) < floor * 0.5 * total:
        # A generator that stopped producing interesting cases is an error of
        # the check, not a pass.
        print('ERROR of the check: only {0} of {1} cases non-trivial'.format(len(nontrivial), total))
        return 2
    for lab, share in getattr(mod, 'MIN_LABELS', {}).items():
        if labels[lab] < share * total:
            print('ERROR of the check: class {0!r} in only {1} of {2} cases'.format(lab, labels[lab], total))
            return 2
    return 0


def _trim(samples):
    outp, size = [], 0
    for s in samples:
        t = len(dumps(s))
        if t > 6000:
            s = {'truncated': dumps(s)[:3000]}
            t = 3000
        if size + t > 30000:
            break
        size += t
        outp.append(s)
    return outp


def replay(prop, path):
    mod = load(prop)
    with open(path) as f:
        rec = json.load(f)
    case = rec['case'] if isinstance(rec, dict) and 'case' in rec else rec
    signal.signal(signal.SIGVTALRM, _on_vtalrm)
    _, msg = run_case(mod, case)
    if msg is None:
        print('{0}: the property holds on {1}'.format(prop, path))
        return 0
    print('property {0} violated: {1}'.format(prop, msg))
    print('VIOLATION property={0} replay={1}'.format(prop, path))
    return 1
