"""Builds the extension module with every random number a choice, and enumerates the choices."""
import ctypes, os, subprocess
from mc import build

HERE = os.path.dirname(os.path.abspath(__file__))


def prebuild(make=build.build_so):
    src = os.path.join(HERE, 'shim.c')
    obj = os.path.join(build.scratch('mcrnd-'), 'shim.o')
    subprocess.check_call(['gcc', '-O2', '-fPIC', '-c', src, '-o', obj])
    return make('rand', link=['-fopenmp', '-Wl,--wrap=rand', '-Wl,--wrap=srand'], extra_objs=[obj], extra_key=open(src).read())


def activate():
    return prebuild(build.activate)


_lib = None


def lib():
    global _lib
    if _lib is None:
        from treecorr import _treecorr
        _lib = ctypes.CDLL(_treecorr.__file__)
    return _lib


def explore(func, K, ends=False, depth=12, limit=100000, skip=0):
    """Yield (result, choices made, number of random numbers used) for every outcome of the random numbers in func():
    each of the first `depth` is one of K equally spaced values (and the extremes); K may be a list, with one entry for each
    of them.  The first `skip` are not varied.  Sets explore.capped."""
    L = lib()
    explore.capped = False
    Ks = list(K) if isinstance(K, (list, tuple)) else [K] * depth
    Ks += [1] * (depth - len(Ks))
    ck = (ctypes.c_int * max(depth, 1))(*Ks[:depth])
    stack, n = [[0] * skip], 0
    t = (ctypes.c_int * (depth + 1))()
    while stack:
        prefix = stack.pop()
        a = (ctypes.c_int * max(len(prefix), 1))(*prefix)
        L.mc_rand_begin(a, len(prefix), ck, int(ends), depth)
        try:
            out = func()
        finally:
            used = L.mc_rand_end(t)
        chosen = list(t[:min(used, depth)])
        n += 1
        yield out, chosen, used
        for i in range(len(chosen) - 1, len(prefix) - 1, -1):
            for alt in range(Ks[i] + (2 if ends else 0) - 1, 0, -1):
                stack.append(chosen[:i] + [alt])
        if n >= limit and stack:
            explore.capped = True
            return
