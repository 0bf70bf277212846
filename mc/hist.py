"""State of a correlation object as plain arrays, and the arithmetic the reference models use on it."""
import numpy as np

XI2 = {'NN': [], 'NK': ['raw_xi'], 'KK': ['xi'], 'GG': ['xip', 'xip_im', 'xim', 'xim_im'],
       'NG': ['raw_xi', 'raw_xi_im'], 'KG': ['xi', 'xi_im'], 'NZ': ['raw_xi', 'raw_xi_im'],
       'KZ': ['xi', 'xi_im'], 'NV': ['raw_xi', 'raw_xi_im'], 'NT': ['raw_xi', 'raw_xi_im'],
       'NQ': ['raw_xi', 'raw_xi_im'], 'KV': ['xi', 'xi_im'], 'KT': ['xi', 'xi_im'], 'KQ': ['xi', 'xi_im']}
for _c in ('ZZ', 'VV', 'TT', 'QQ'):
    XI2[_c] = XI2['GG']
AUTO2 = ['NN', 'KK', 'ZZ', 'VV', 'GG', 'TT', 'QQ']
GGG = ['gam%d%s' % (i, x) for i in range(4) for x in 'ri']


def names(cls, bin_type=None):
    """(summed arrays, the weight array they are divided by when finalizing)"""
    if len(cls) == 2:
        return ['npairs', 'weight', 'meanr', 'meanlogr'] + XI2[cls]
    n = ['ntri', 'weightr', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3']
    if bin_type != 'LogMultipole':
        n += ['meand1', 'meanlogd1', 'meanu']
    else:
        n += ['weighti']
    if bin_type == 'LogRUV':
        n += ['meanv']
    if cls == 'KKK':
        n += ['zeta']
    elif cls == 'GGG':
        n += ['gam0', 'gam1', 'gam2', 'gam3']
    return n


def arrays(c, cls, bin_type=None):
    out = {n: np.array(getattr(c, n)) for n in names(cls, bin_type)}
    if cls in ('NN', 'NNN'):
        out['tot'] = np.array(float(c.tot))
    return out


def res(c, cls, bin_type=None):
    """results dict -> {key: arrays}; minimal entries (no pairs, only the total) included."""
    out = {}
    for k, e in c.results.items():
        out[tuple(int(i) for i in k)] = arrays(e, cls, bin_type)
    return out


def add(a, b):
    if a is None:
        return b
    return {n: a[n] + b[n] for n in a}


def zero_like(a):
    return {n: 0 * a[n] for n in a}


def same(a, b, rtol=1e-9, atol=1e-11):
    for n in a:
        x, y = a[n], b[n]
        if n in ('npairs', 'ntri'):
            if not np.array_equal(x, y):
                return n
        elif x.shape != y.shape or not np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True):
            return n
    return None


def same_results(got, want, tots=False):
    """Equal as sums per key; a key whose entry is all zero may be absent."""
    for k in set(got) | set(want):
        g, w = got.get(k), want.get(k)
        if g is None:
            g = zero_like(w)
        if w is None:
            w = zero_like(g)
        bad = same(w, g)
        if bad:
            return k, bad, g[bad], w[bad]
    return None
