"""Two-point configurations of the checks, and the comparison of a correlation with the reference."""
import numpy as np
from mc import ref2

# Slop modes: (name, kwargs, which results are promised to be exact)
EXACT = [('b0a0', dict(bin_slop=0, angle_slop=0), 'all'),
         ('brute', dict(brute=True), 'all'),
         ('b0', dict(bin_slop=0), 'counts')]


def cfg(bin_type="Log", metric="Euclidean", per=None, **kw):
    return dict(bin_type=bin_type, metric=metric, period=per, kw=kw)


# Per coordinate system: binning x metric.  Bin edges are incommensurate with every separation of
# the point alphabets, so no pair sits on an edge.
BINS = {
    'flat': [
        cfg('Log', min_sep=0.0521, max_sep=9.37, nbins=7),
        cfg('Log', min_sep=0.4713, max_sep=3.91, nbins=2),
        cfg('Log', min_sep=0.00123, bin_size=0.913, nbins=9),
        cfg('Linear', min_sep=0.3317, max_sep=6.713, nbins=5),
        cfg('Linear', min_sep=0., max_sep=4.519, nbins=3),
        cfg('Linear', min_sep=1.2131, bin_size=0.3177, max_sep=3.0),
        cfg('TwoD', max_sep=4.337, nbins=5),
        cfg('TwoD', max_sep=3.1379, nbins=4, min_sep=0.4171),
        cfg('Log', 'Periodic', (5.9, 5.3, 0), min_sep=0.0521, max_sep=2.37, nbins=5, xperiod=5.9, yperiod=5.3),
        cfg('Linear', 'Periodic', (6.7, 6.7, 0), min_sep=0.111, max_sep=3.3, nbins=4, period=6.7),
    ],
    'sphere': [
        cfg('Log', min_sep=0.213, max_sep=171., nbins=7, sep_units='deg'),
        cfg('Linear', min_sep=0.5, max_sep=11.7, nbins=5, sep_units='deg'),
        cfg('Log', 'Arc', min_sep=12.13, max_sep=9000., nbins=6, sep_units='arcmin'),
        cfg('Linear', 'Arc', min_sep=0.071, max_sep=3.01, nbins=4),
        cfg('Log', min_sep=0.0021, max_sep=1.713, nbins=5),
        cfg('Linear', 'Arc', min_sep=1.217, max_sep=3.2, nbins=4),
        cfg('Log', 'Arc', min_sep=0.0113, max_sep=0.2137, nbins=3),
    ],
    '3d': [
        cfg('Log', min_sep=0.0521, max_sep=19.37, nbins=7),
        cfg('Linear', min_sep=0.3317, max_sep=6.713, nbins=5),
        cfg('Log', 'Periodic', (9.1, 8.3, 7.9), min_sep=0.0521, max_sep=3.37, nbins=5, xperiod=9.1, yperiod=8.3, zperiod=7.9),
        cfg('Log', 'Rperp', min_sep=0.0321, max_sep=7.37, nbins=6),
        cfg('Log', 'FisherRperp', min_sep=0.0321, max_sep=7.37, nbins=6, min_rpar=-1.917, max_rpar=1.917),
        cfg('Linear', 'Rperp', min_sep=0.1321, max_sep=4.37, nbins=4, min_rpar=-0.717, max_rpar=2.317),
        cfg('Log', 'OldRperp', min_sep=0.0321, max_sep=7.37, nbins=6),
        cfg('Log', 'Rlens', min_sep=0.0321, max_sep=7.37, nbins=6),
        cfg('Log', 'Rlens', min_sep=0.0321, max_sep=7.37, nbins=6, min_rpar=0.113),
        cfg('Log', 'Arc', min_sep=0.0121, max_sep=1.47, nbins=5),
        cfg('Log', min_sep=0.0521, max_sep=19.37, nbins=7, min_rpar=-0.917, max_rpar=3.317),
    ],
    'radecr': [
        cfg('Log', min_sep=0.0121, max_sep=3.37, nbins=6),
        cfg('Log', 'Rperp', min_sep=0.0121, max_sep=3.37, nbins=6, min_rpar=-0.5017, max_rpar=0.5017),
        cfg('Linear', 'Arc', min_sep=0.5, max_sep=41.7, nbins=5, sep_units='deg'),
        cfg('Log', 'Rlens', min_sep=0.0121, max_sep=3.37, nbins=6),
        cfg('Log', 'Arc', min_sep=0.0113, max_sep=0.2137, nbins=3),
    ],
}

# Options that must not change any exact result.
OPTIONS = [{}, dict(max_top=0), dict(min_top=3, max_top=3), dict(split_method='median'),
           dict(split_method='middle'), dict(split_method='random', min_top=0), dict(min_top=6)]

_corr = {}


def corr(cls, c, slop, opt, coords=''):
    import treecorr
    kw = dict(c['kw'])
    kw.update(slop)
    kw.update(opt)
    key = (cls, coords, c['metric'], c['bin_type'], repr(sorted(kw.items())))
    if key not in _corr:
        if len(_corr) > 500:
            _corr.clear()
        _corr[key] = getattr(treecorr, cls + 'Correlation')(bin_type=c['bin_type'], **kw)
    return _corr[key]


def binning(cls, c):
    import treecorr
    # min/max/nbins are taken from documented inputs, except when bin_size replaces one of them
    kw = c['kw']
    unit = ref2.UNITS[kw.get('sep_units', 'radians')]
    mn, mx, nb = kw.get('min_sep', 0.), kw.get('max_sep'), kw.get('nbins')
    if mx is None:
        mx = mn * np.exp(nb * kw['bin_size'])
    if nb is None:
        nb = int(np.ceil((mx - mn) / kw['bin_size']))
    return ref2.Binning(c['bin_type'], mn, mx, nb, unit, kw.get('min_rpar'), kw.get('max_rpar'))


def compare(rec, corr_, cls, P, B, k, exact, label, scale=1):
    """Compare a finalized correlation with the direct sums (times scale: 2 when a documented mode
    counts each pair in both orders)."""
    base = ref2.base_sums(P, B, k)
    if scale != 1:
        base = {a: scale * b for a, b in base.items()}
    shape = corr_.weight.shape
    W = base['weight']
    got_n, got_w = corr_.npairs.flatten(), corr_.weight.flatten()
    lab = dict(config=label, cls=cls)
    if not rec.check(np.array_equal(got_n, base['npairs']), 'npairs differs from the direct count',
                     got=got_n, want=base['npairs'], **lab):
        return
    rec.check(np.allclose(got_w, W, rtol=1e-9, atol=1e-12), 'weight differs from the direct sum',
              got=got_w, want=W, **lab)
    m = W > 0
    if exact == 'all':
        for nm, key in (('meanr', 'sum_r'), ('meanlogr', 'sum_logr')):
            got = getattr(corr_, nm).flatten()
            if P.P1.coords == 'sphere' and P.metric == 'Euclidean':
                # docs/metric.rst: accumulated as chords, converted to great circles at the end
                if nm == 'meanr':
                    got = 2 * np.sin(got * B.unit / 2) / B.unit
                else:
                    got = np.log(2 * np.sin(np.exp(got) * B.unit / 2) / B.unit)
            got = got * W
            tol = np.abs(base[key]) + W * (1 if nm == 'meanlogr' else 0)
            good = np.abs(got - base[key]) <= 3e-7 * tol + 1e-13
            if nm == 'meanlogr':
                # r=0 pairs have log(0); what they add to meanlogr is not specified
                good |= np.bincount(k[(k >= 0) & (P.r == 0)], minlength=B.n).astype(bool)
            rec.check(bool(np.all(good[m])), nm + ' differs from the direct sum',
                      got=got, want=base[key], **lab)
    if P.metric == 'Periodic' and any(ref2.SPIN[x] for x in cls):
        Pu = unwrapped(P)
        alt = ref2.value_sums(Pu, B, k, cls)
    else:
        alt = None
    for name, (s, sabs) in ref2.value_sums(P, B, k, cls).items():
        s, sabs = scale * s, scale * sabs
        if name == 'xip_im' and P.auto:
            continue          # sign depends on which of the two points is called the first
        if exact == 'counts' and cls not in ref2.COUNT_CLASSES + ['NZ', 'KZ', 'ZZ']:
            continue
        got = getattr(corr_, name).ravel() * W
        bad0 = np.bincount(k[(k >= 0) & P.undef], minlength=B.n).astype(bool)
        good = np.abs(got - s) <= 2e-6 * sabs + 1e-12
        if any(ref2.SPIN[x] for x in cls):
            good |= bad0      # direction of a pair at zero separation is undefined
        tag = None
        if alt is not None and np.all(np.abs(got - scale * alt[name][0]) <= 2e-6 * sabs + 1e-12):
            tag = 'periodic-projection'
        rec.check(bool(np.all(good)), name + '*weight differs from the direct sum', tag,
                  got=got, want=s, **lab)


def unwrapped(P):
    if not hasattr(P, '_unw'):
        P._unw = ref2.Pairs(P.P1, None if P.auto else P.P2)
    return P._unw
