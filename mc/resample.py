"""Covariance definitions (docs/cov.rst) and helpers for checks of resampled statistics."""
import itertools
import numpy as np
from mc import ref2


class EnumRNG(np.random.RandomState):
    """A RandomState whose choice() with replacement walks through all index vectors in order."""
    def __init__(self, n):
        np.random.RandomState.__init__(self, 1234)
        self.n = n
        self.restart()

    def restart(self):
        self.used = False
        self.it = itertools.cycle(itertools.product(range(self.n), repeat=self.n))

    def choice(self, a, size=None, replace=True, p=None):
        if replace and size == self.n and p is None and np.size(a) in (1, self.n):
            self.used = True
            return np.array(next(self.it))
        return np.random.RandomState.choice(self, a, size, replace, p)


def covariance(method, v, w):
    n = len(v)
    d = v - v.mean(axis=0)
    if method == 'jackknife':
        return (1. - 1. / n) * np.conj(d).T.dot(d)
    if method == 'sample':
        f = w / w.sum()
        return (np.conj(d).T * f).dot(d) / (n - 1)
    return np.conj(d).T.dot(d) / (n - 1)


ATTRS = ['weight', 'npairs', 'meanr', 'meanlogr', 'xi', 'xi_im', 'xip', 'xim', 'xip_im', 'xim_im', 'varxi',
         'varxip', 'varxim', 'tot', 'npatch1', 'npatch2', 'raw_xi', 'ntri', 'zeta', 'varzeta', 'weightr', 'weighti',
         'meand1', 'meand2', 'meand3', 'meanu', 'meanv', 'meanlogd1', 'meanlogd2', 'meanlogd3', 'meanphi']


def snapshot(co):
    out = {}
    for a in ATTRS:
        try:
            v = getattr(co, a, None)
        except (AssertionError, RuntimeError):      # arrays of another kind of binning
            continue
        if v is not None:
            out[a] = np.array(v).copy()
    for key, r in co.results.items():
        out[key] = np.array(r.weight).copy()
    return out


def same(a, b):
    return a.keys() == b.keys() and all(a[k].shape == b[k].shape and np.array_equal(a[k], b[k], equal_nan=True) for k in a)


def with_rng(co, rng, method, func=None):
    """Design matrix with a given generator on a copy-free path; (None,None) when it is refused."""
    try:
        import copy
        co.__dict__['_rng'] = rng
        return co.build_cov_design_matrix(method, func=func)
    except RuntimeError:
        return None, None


def stat_of(cls, s):
    """Data vector and total getWeight of a dict of sums."""
    W = s['weight']
    Ws = np.where(W != 0, W, 1.)
    d = {n: np.where(W != 0, v / Ws, 0.) for n, v in s.items() if n.startswith('xi')}
    if 'xip' in d:
        return np.concatenate([d['xip'], d['xim']]), 2 * W.sum()
    if cls == 'NN':
        return W.copy(), W.sum()
    return d['xi'], W.sum()


def key_sums(cls, P, B, k, p1, p2, npatch1, npatch2, local, auto):
    """Sums of every pair of patches, as the documented resamplings see them."""
    a, b = np.asarray(p1)[P.i], np.asarray(p2)[P.j]
    out = {}
    if auto and not local:
        a, b = np.minimum(a, b), np.maximum(a, b)
    if local and npatch1 > 1 and npatch2 > 1:
        b = a                  # everything around a patch counts as that patch
    for key in set(zip(a.tolist(), b.tolist())):
        kk = np.where((a == key[0]) & (b == key[1]), k, -1)
        s = ref2.base_sums(P, B, kk)
        s.update({n: v[0] for n, v in ref2.value_sums(P, B, kk, cls).items()})
        out[key] = s
    return out


def total(cls, keys, mult, B):
    tot = None
    for key, s in keys.items():
        m = mult(key)
        if m:
            tot = {n: m * v for n, v in s.items()} if tot is None else {n: tot[n] + m * v for n, v in s.items()}
    if tot is None:
        z = np.zeros(B.n)
        names = list(next(iter(keys.values()))) if keys else []
        tot = {n: z for n in names}
    return tot


def close(a, b, scale):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 3e-6 * scale + 1e-12))


def mults(method, npatch, one1, one2, index_sets):
    """For every resampling, the number of times each pair of patches is used (a function of its key)."""
    if method == 'jackknife':
        for i in range(npatch):
            if one2:
                yield lambda key: key[0] != i
            elif one1:
                yield lambda key: key[1] != i
            else:
                yield lambda key: key[0] != i and key[1] != i
    elif method == 'sample':
        for i in range(npatch):
            if one2 or not one1:
                yield lambda key: key[0] == i
            else:
                yield lambda key: key[1] == i
    else:
        for idx in index_sets:
            cnt = np.bincount(idx, minlength=npatch)
            if one2:
                yield lambda key: cnt[key[0]]
            elif one1:
                yield lambda key: cnt[key[1]]
            elif method == 'marked_bootstrap':
                yield lambda key: cnt[key[0]]
            else:
                def m(key):
                    if key[0] == key[1]:
                        return cnt[key[0]]
                    return cnt[key[0]] * cnt[key[1]]
                yield m
