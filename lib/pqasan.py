"""pqasan.py SO SEED COUNT JOURNAL: runs the priority queue model in a process
with AddressSanitizer loaded. The last case is in the journal."""
import importlib.machinery
import importlib.util
import json
import os
import sys
import types

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from lib import engine, pqmodel

so, seed, count, journal = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
for pkg in ('queueing_tool', 'queueing_tool.network'):       # the package itself needs numpy and more
    sys.modules[pkg] = types.ModuleType(pkg)
    sys.modules[pkg].__path__ = []
name = 'queueing_tool.network.priority_queue'
loader = importlib.machinery.ExtensionFileLoader(name, so)
mod = importlib.util.module_from_spec(importlib.util.spec_from_file_location(name, so, loader=loader))
loader.exec_module(mod)
with open(journal, 'w') as f:
    for k in range(count):
        if seed.startswith('{'):
            case = json.loads(seed)
        else:
            case = engine.generate(lambda R: pqmodel.gen(R, 'quick'), 'asan' + seed, k)[0]
        f.seek(0)
        f.truncate()
        f.write(json.dumps(case))
        f.flush()
        pqmodel.check(mod.PriorityQueue, case)
print('done')
