"""Makes the code under test importable: the Python sources come straight from
/repo, the two Cython extensions are compiled from /repo's current .pyx files
into /verif/build/<content hash>/ (never into /repo)."""
import glob
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
EXT = {
    'queueing_tool.network.priority_queue': 'queueing_tool/network/priority_queue.pyx',
    'queueing_tool.queues.choice': 'queueing_tool/queues/choice.pyx',
}
ENV = {
    'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONWARNINGS': 'ignore', 'PIP_NO_INDEX': '1',
    'PIP_DISABLE_PIP_VERSION_CHECK': '1',
}


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test."""


def _digest(extra=''):
    sha = hashlib.sha256()
    paths = []
    for ext in ('pyx', 'pxd', 'pxi', 'h'):
        paths += glob.glob(REPO + '/queueing_tool/**/*.' + ext, recursive=True)
    for p in sorted(paths):
        with open(p, 'rb') as f:
            sha.update(os.path.relpath(p, REPO).encode() + b'\0' + f.read() + b'\0')
    sha.update((sys.version + extra).encode())
    return sha.hexdigest()[:20]


def build_extensions(flags=('-O2',), tag='', only=None):
    """Returns {module name: path of the .so built from the current sources}."""
    root = os.path.join(VERIF, 'build')
    dest = os.path.join(root, _digest(tag + ' '.join(flags)) + tag)
    names = {n: p for n, p in EXT.items() if os.path.exists(os.path.join(REPO, p)) and only in (None, n)}
    out = {n: os.path.join(dest, n + '.so') for n in names}
    if os.path.exists(os.path.join(dest, 'ok')):
        return out
    os.makedirs(root, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=root)
    for p in glob.glob(REPO + '/queueing_tool/**/*', recursive=True):
        if p.endswith(('.pyx', '.pxd', '.pxi', '.h', '__init__.py')):
            q = os.path.join(tmp, os.path.relpath(p, REPO))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if p.endswith('__init__.py'):
                open(q, 'w').close()
            else:
                shutil.copy(p, q)
    procs = []
    for n, p in names.items():
        c = os.path.join(tmp, n + '.c')
        so = os.path.join(tmp, n + '.so')
        sh = '"{py}" -m cython -2 -w "{tmp}" -o "{c}" "{p}" && gcc -shared -fPIC -w {fl} -I"{inc}" "{c}" -o "{so}"'.format(
            py=PY, tmp=tmp, c=c, p=p, so=so, fl=' '.join(flags), inc=sysconfig.get_paths()['include'])
        procs.append((n, subprocess.Popen(['bash', '-c', sh], stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, text=True)))
    for n, pr in procs:
        text = pr.communicate()[0]
        if pr.returncode != 0:
            raise HarnessError('building {0} failed:\n{1}'.format(n, text[-3000:]))
    final = os.path.join(tmp, 'final')
    os.makedirs(final)
    for n in names:
        shutil.copy(os.path.join(tmp, n + '.so'), os.path.join(final, n + '.so'))
    open(os.path.join(final, 'ok'), 'w').close()
    try:
        os.rename(final, dest)
    except OSError:
        if not os.path.exists(os.path.join(dest, 'ok')):
            raise
    shutil.rmtree(tmp, ignore_errors=True)
    return out


def asan_extension():
    name = 'queueing_tool.network.priority_queue'
    return build_extensions(('-O1', '-g', '-fsanitize=address'), '-asan', only=name)[name]


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, table):
        self.table = table

    def find_spec(self, fullname, path=None, target=None):
        so = self.table.get(fullname)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(fullname, so)
        return importlib.util.spec_from_file_location(fullname, so, loader=loader)


def setup_env():
    """Environment for this process and its children; re-executes once."""
    if os.environ.get('VERIF_BOOTED') != '1':
        env = dict(os.environ)
        env.update(ENV)
        env['VERIF_BOOTED'] = '1'
        os.execve(PY, [PY, '-B'] + sys.argv, env)


def activate(so=None):
    """Puts /repo and the freshly built extensions on the path."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'verif-no-pycache')
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if so is None:
        so = build_extensions()
    sys.meta_path.insert(0, _Finder(so))
    import warnings
    warnings.simplefilter('ignore')
    if 'MPLCONFIGDIR' not in os.environ:
        os.environ['MPLCONFIGDIR'] = os.path.join(VERIF, 'build', 'mpl')
        os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)
    try:
        import queueing_tool
    except Exception:
        # e.g. the code under test does not import: for a property this is a
        # failure of the tree, which the caller reports as an error.
        raise
    where = os.path.realpath(queueing_tool.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError('queueing_tool was imported from ' + where)
    return queueing_tool
