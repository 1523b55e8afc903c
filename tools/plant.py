"""Makes and confirms the planted bugs of /verif/seeded from tools/bugs/*.py.

  plant.py make [ID...]     write seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json)
  plant.py try [ID...]      confirm: tests pass, demo 0 clean / nonzero patched; run the property's check

Each bug file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (source text).
Works on copies of /repo under /tmp/plant-*; /repo is never touched."""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import threading
import queue
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import mutate

REPO = os.environ.get('PLANT_REPO', '/repo')
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
# run with cwd = the repository, after its build
exec env PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore PYTHONPATH="$PWD" \\
    timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def load(ids):
    out = []
    for p in sorted(glob.glob(os.path.join(V, 'tools', 'bugs', '*.txt'))):
        ns = {}
        text = open(p).read()
        exec(compile(text, p, 'exec'), ns)
        for bid, b in ns['BUGS'].items():
            if not ids or bid in ids or any(bid.startswith(i) for i in ids):
                out.append((bid, b))
    return out


def make(bid, b, slot):
    subprocess.check_call(['git', '-C', slot, 'checkout', '-q', '--', '.'])
    for path, old, new in b['edits']:
        p = os.path.join(slot, path)
        src = open(p).read()
        if src.count(old) != 1:
            raise SystemExit('{0}: {1!r} occurs {2} times in {3}'.format(bid, old, src.count(old), path))
        with open(p, 'w') as f:
            f.write(src.replace(old, new))
    diff = subprocess.check_output(['git', '-C', slot, 'diff'], text=True)
    subprocess.check_call(['git', '-C', slot, 'checkout', '-q', '--', '.'])
    d = os.path.join(V, 'seeded', bid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, f, indent=1)
        f.write('\n')
    # the changed lines must be the original repository's
    base = subprocess.check_output(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
    bad, file, ln, orig = [], None, 0, 0
    blame = {}
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            file = l[6:]
            if file not in blame:
                t = subprocess.check_output(['git', '-C', REPO, 'blame', '-s', '-l', file], text=True)
                blame[file] = [x.split()[0].lstrip('^') for x in t.split('\n') if x]
        elif l.startswith('@@'):
            ln = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-'):
            if base.startswith(blame[file][ln - 1][:39]):
                orig += 1
            else:
                bad.append(ln)
            ln += 1
        elif l.startswith(' '):
            ln += 1
    if bad or not orig:
        print('{0}: NOT ORIGINAL lines {1} (original changed: {2})'.format(bid, bad, orig))


def attempt(bid, b, slot, k, full):
    d = os.path.join(V, 'seeded', bid)
    env = mutate.slot_env(slot)
    res = {}
    pyx = any(p.endswith('.pyx') for p, _, _ in b['edits'])
    run = lambda: subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=slot, env=env, stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, text=True)
    r = run()
    res['demo_clean'] = r.returncode
    if r.returncode:
        res['out'] = r.stdout[-600:]
    subprocess.check_call(['git', '-C', slot, 'apply', os.path.join(d, 'patch.diff')])
    if pyx:
        res['build'] = mutate.build_pyx(slot)
    r = run()
    res['demo_patched'] = r.returncode
    res['demo_says'] = r.stdout.strip().split('\n')[-1][:150]
    r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'randomly',
                        '--randomly-seed=1', '--randomly-dont-reorganize', '--timeout=100'],
                       cwd=slot, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    res['tests'] = r.returncode
    if r.returncode:
        res['test_out'] = [l for l in r.stdout.split('\n') if l.startswith('FAILED')][:4]
    cenv = dict(env, VERIF_REPO=slot, VERIF_OUT='/tmp/plant-out-{0}'.format(k), VERIF_WORKERS='2', VERIF_SHRINK='5')
    cenv.pop('PYTHONPATH')
    t = time.time()
    r = subprocess.run([PY, 'run.py', b['property']], cwd=V, env=cenv, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    res['check'] = r.returncode
    res['check_s'] = round(time.time() - t)
    res['check_says'] = ([l for l in r.stdout.split('\n') if 'violated' in l] or r.stdout.strip().split('\n')[-1:])[0][:220]
    subprocess.check_call(['git', '-C', slot, 'checkout', '-q', '--', '.'])
    if pyx:
        mutate.build_pyx(slot)
    return res


def main():
    ids = sys.argv[2:]
    bugs = load(ids)
    slots = []
    n = 1 if sys.argv[1] == 'make' else min(4, len(bugs))
    for k in range(n):
        s = '/tmp/plant-{0}'.format(k)
        if os.path.isdir(s):
            shutil.rmtree(s)
        subprocess.check_call(['cp', '-a', REPO, s])
        slots.append(s)
    for bid, b in bugs:
        make(bid, b, slots[0])
    if sys.argv[1] == 'try':
        q = queue.Queue()
        for it in bugs:
            q.put(it)
        lock = threading.Lock()

        def loop(k):
            while True:
                try:
                    bid, b = q.get_nowait()
                except queue.Empty:
                    return
                res = attempt(bid, b, slots[k], k, True)
                ok = res['demo_clean'] == 0 and res['demo_patched'] != 0 and res['tests'] == 0
                with lock:
                    print('{0} {1}: {2} {3}'.format(bid, b['property'], 'COUNTS' if ok else 'INVALID',
                                                   {1: 'caught', 0: 'MISSED'}.get(res['check'], 'ERROR')), flush=True)
                    if ok and res['check'] == 1:
                        print('    ' + res['check_says'] + ' [{0} s]'.format(res['check_s']), flush=True)
                    else:
                        print('    ' + json.dumps(res), flush=True)
        ts = [threading.Thread(target=loop, args=(k,)) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    for s in slots:
        shutil.rmtree(s)


main()
