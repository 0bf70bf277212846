"""Build the extension module from /repo's current working tree and expose it as a shadow package.

Nothing is ever written below /repo.  Compiled objects live in /verif/.cache (git-ignored): a
ccache directory, and finished .so files keyed by a hash of every file the build reads.  A check
copies treecorr/*.py from /repo's working tree next to that .so in a scratch directory which is
removed at exit, and imports treecorr from there.
"""
import atexit, glob, hashlib, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
PY = '/opt/venv/bin/python'
SOURCES = ['Cell', 'Corr2', 'Corr3', 'Field', 'KMeans', 'module']

# The flags setup.py uses for gcc (see DESIGN.md), so that the checks run the code users run.
CXXFLAGS = ['-std=c++11', '-fPIC', '-fopenmp', '-O3', '-ffast-math', '-fvisibility=hidden', '-DNDEBUG',
            '-w']


class BuildError(Exception):
    pass


def _includes():
    out = subprocess.check_output(
        [PY, '-c', 'import sysconfig, pybind11; print(sysconfig.get_paths()["include"]); '
                   'print(pybind11.get_include())'], text=True).split()
    return ['-I' + p for p in out]


def _tree_hash(extra):
    h = hashlib.sha256()
    files = sorted(glob.glob(os.path.join(REPO, 'src', '*'))
                   + glob.glob(os.path.join(REPO, 'include', '*'))
                   + glob.glob(os.path.join(REPO, 'include', '*', '*')))
    for f in files:
        if os.path.isfile(f) and f.endswith(('.cpp', '.h', '.hpp', '.c', '.inl')):
            h.update(os.path.relpath(f, REPO).encode())
            with open(f, 'rb') as fin:
                h.update(fin.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:32]


def _sources():
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))
    if not srcs:
        raise BuildError('no C++ sources in %s/src' % REPO)
    return srcs


def build_so(variant='plain', flags=None, cxx='g++', link=None, extra_objs=(), extra_key=None):
    """Return the path of an extension module built from REPO's working tree."""
    flags = list(CXXFLAGS if flags is None else flags)
    link = ['-fopenmp'] if link is None else list(link)
    key = _tree_hash([variant, flags, cxx, link, extra_key])
    sodir = os.path.join(CACHE, 'so')
    os.makedirs(sodir, exist_ok=True)
    so = os.path.join(sodir, '%s-%s.so' % (variant, key))
    if os.path.exists(so):
        return so
    env = dict(os.environ)
    env.update(CCACHE_DIR=os.path.join(CACHE, 'ccache'), CCACHE_MAXSIZE='2G', CCACHE_NOHASHDIR='1',
               CCACHE_SLOPPINESS='time_macros,include_file_mtime,include_file_ctime',
               LANG='C.UTF-8', TMPDIR=tempfile.gettempdir())
    os.makedirs(env['CCACHE_DIR'], exist_ok=True)
    have_ccache = shutil.which('ccache') is not None
    work = tempfile.mkdtemp(prefix='mcbuild-')
    try:
        inc = ['-I' + os.path.join(REPO, 'include')] + _includes()

        def comp(src):
            obj = os.path.join(work, os.path.basename(src)[:-4] + '.o')
            cmd = (['ccache'] if have_ccache else []) + [cxx] + flags + inc + ['-c', src, '-o', obj]
            p = subprocess.run(cmd, env=env, cwd=work, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise BuildError('compiling %s failed:\n%s' % (src, p.stdout[-4000:]))
            return obj
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, _sources()))
        tmp = so + '.%d.tmp' % os.getpid()
        p = subprocess.run([cxx, '-shared', '-fPIC'] + objs + list(extra_objs) + link + ['-o', tmp],
                           cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError('linking failed:\n%s' % p.stdout[-4000:])
        os.rename(tmp, so)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return so


_shadow = {}


def _rm(path, pid):
    if os.getpid() == pid:
        shutil.rmtree(path, ignore_errors=True)


def scratch(prefix='mc-', shm=False):
    """A scratch directory removed when the process that made it exits (shm: in memory, if possible)."""
    d = tempfile.mkdtemp(prefix=prefix, dir='/dev/shm' if shm and os.access('/dev/shm', os.W_OK) else None)
    atexit.register(_rm, d, os.getpid())
    return d


def shadow(so):
    d = scratch('mcshadow-')
    pkg = os.path.join(d, 'treecorr')
    shutil.copytree(os.path.join(REPO, 'treecorr'), pkg, symlinks=False,
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', 'include'))
    shutil.copy(so, os.path.join(pkg, '_treecorr.cpython-312-x86_64-linux-gnu.so'))
    if os.path.isdir(os.path.join(REPO, 'scripts')):
        shutil.copytree(os.path.join(REPO, 'scripts'), os.path.join(d, 'scripts'))
    return d


def activate(variant='plain', **kw):
    """Build, make the shadow package and put it first on sys.path.  Returns the shadow dir."""
    t = time.time()
    so = build_so(variant, **kw)
    d = shadow(so)
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != REPO]
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    os.environ['MC_SHADOW'] = d
    return d
