"""Builds the extension module with a controlled OpenMP scheduler, and enumerates its schedules."""
import ctypes, os, subprocess, tempfile
from mc import build

HERE = os.path.dirname(os.path.abspath(__file__))
WRAP = ['malloc', 'free', 'calloc', 'realloc', '_Znwm', '_Znam', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm',
        'memcpy', 'memmove', 'memset', '__cxa_guard_acquire', '__cxa_guard_release']


def prebuild(make=build.build_so):
    src = os.path.join(HERE, 'shim.cpp')
    text = open(src).read()
    d = build.scratch('mcshim-')
    obj = os.path.join(d, 'shim.o')
    subprocess.check_call(['g++', '-O2', '-fPIC', '-c', src, '-o', obj])
    flags = [f for f in build.CXXFLAGS if f != '-O3'] + ['-O1', '-fsanitize=thread']
    link = ['-pthread', '-Wl,-Bsymbolic'] + ['-Wl,--wrap=' + w for w in WRAP]
    return make('sched', flags=flags, link=link, extra_objs=[obj], extra_key=text)


def activate():
    return prebuild(build.activate)


_lib = None


def lib():
    global _lib
    if _lib is None:
        from treecorr import _treecorr
        _lib = ctypes.CDLL(_treecorr.__file__)
        _lib.mc_race.restype = ctypes.c_char_p
        _lib.mc_naccess.restype = ctypes.c_long
        _lib.mc_nops.restype = ctypes.c_long
    return _lib


class Run(object):
    """What one execution did."""
    def __init__(self, L):
        n = L.mc_depth()
        a, b = (ctypes.c_int * max(n, 1))(), (ctypes.c_int * max(n, 1))()
        L.mc_trace(a, b)
        self.nopt, self.chosen = list(a[:n]), list(b[:n])
        n = L.mc_nregions()
        a, b = (ctypes.c_int * max(n, 1))(), (ctypes.c_int * max(n, 1))()
        L.mc_regions(a, b)
        self.regions, self.ran = list(a[:n]), list(b[:n])
        self.races = [L.mc_race(i).decode() for i in range(L.mc_nraces())]
        n = L.mc_nracy()
        p = (ctypes.c_void_p * max(n, 1))()
        L.mc_racy(p)
        self.racy = set(p[:n])
        self.naccess, self.nops = L.mc_naccess(), L.mc_nops()
        self.newsite = bool(L.mc_newsite())


def points(pcs):
    """Take these instructions (found by their races) as points where threads can be switched."""
    a = (ctypes.c_void_p * max(len(pcs), 1))(*sorted(pcs))
    lib().mc_points(a, len(pcs))


def execute(func, prefix=(), bound=-1):
    L = lib()
    a = (ctypes.c_int * max(len(prefix), 1))(*prefix)
    L.mc_begin(a, len(prefix), bound)
    out = func()
    return out, Run(L)


def explore(func, bound=-1, limit=100000):
    """Yield (result, run) of every schedule of func(), depth first.  Sets explore.capped."""
    explore.capped = False
    while True:
        stack, n, again = [[]], 0, False
        while stack:
            prefix = stack.pop()
            out, run = execute(func, prefix, bound)
            n += 1
            yield out, run
            if run.newsite and not again:
                again = True       # a critical section turned out to matter: the choices change
                break
            for i in range(len(run.chosen) - 1, len(prefix) - 1, -1):
                for alt in range(run.nopt[i] - 1, 0, -1):
                    stack.append(run.chosen[:i] + [alt])
            if n >= limit and stack:
                explore.capped = True
                return
        if not again:
            return
