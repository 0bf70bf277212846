"""Three-point configurations of the checks, and the comparison of a correlation with the reference."""
import math
import numpy as np
from mc import ref2, ref3


def cfg(bin_type, metric='Euclidean', per=None, **kw):
    return dict(bin_type=bin_type, metric=metric, period=per, kw=kw)


BINS = {
    'flat': [
        cfg('LogRUV', min_sep=0.1021, max_sep=6.37, nbins=3, nubins=3, nvbins=2),
        cfg('LogRUV', min_sep=0.3117, max_sep=4.91, nbins=2, nubins=2, min_u=0.1713, max_u=0.9117, nvbins=2, min_v=0.0917, max_v=0.8173),
        cfg('LogSAS', min_sep=0.0921, max_sep=6.37, nbins=3, nphi_bins=4),
        cfg('LogSAS', min_sep=0.3121, max_sep=4.87, nbins=2, nphi_bins=3, min_phi=17.3, max_phi=141.7, phi_units='deg'),
        cfg('LogMultipole', min_sep=0.0921, max_sep=6.37, nbins=3, max_n=4),
        cfg('LogMultipole', min_sep=0.3713, max_sep=2.917, nbins=2, max_n=0),
        cfg('LogRUV', 'Periodic', (22.9, 21.3, 0), min_sep=0.1021, max_sep=5.17, nbins=3, nubins=2, nvbins=2, xperiod=22.9, yperiod=21.3),
        cfg('LogRUV', 'Periodic', (6.9, 6.3, 0), min_sep=0.1021, max_sep=1.47, nbins=3, nubins=2, nvbins=2, xperiod=6.9, yperiod=6.3),
        cfg('LogSAS', 'Periodic', (6.9, 6.9, 0), min_sep=0.1021, max_sep=1.67, nbins=2, nphi_bins=3, period=6.9),
        cfg('LogMultipole', 'Periodic', (6.9, 6.9, 0), min_sep=0.1021, max_sep=2.17, nbins=2, max_n=3, period=6.9),
    ],
    'sphere': [
        cfg('LogRUV', min_sep=0.213, max_sep=100., nbins=4, nubins=3, nvbins=2, sep_units='deg'),
        cfg('LogSAS', min_sep=0.213, max_sep=100., nbins=3, nphi_bins=4, sep_units='deg'),
        cfg('LogRUV', 'Arc', min_sep=12.13, max_sep=5000., nbins=4, nubins=2, nvbins=2, sep_units='arcmin'),
        cfg('LogSAS', 'Arc', min_sep=0.0071, max_sep=1.91, nbins=3, nphi_bins=4),
        cfg('LogMultipole', min_sep=0.0071, max_sep=1.71, nbins=3, max_n=3),
        cfg('LogMultipole', 'Arc', min_sep=0.513, max_sep=111., nbins=3, max_n=3, sep_units='deg'),
        cfg('LogRUV', 'Arc', min_sep=0.0113, max_sep=0.2137, nbins=2, nubins=2, nvbins=2),
        cfg('LogSAS', 'Arc', min_sep=0.0113, max_sep=0.1937, nbins=2, nphi_bins=3),
        cfg('LogMultipole', 'Arc', min_sep=0.0113, max_sep=0.2137, nbins=2, max_n=2),
    ],
    '3d': [
        cfg('LogRUV', min_sep=0.1021, max_sep=7.37, nbins=3, nubins=3, nvbins=2),
        cfg('LogSAS', min_sep=0.0921, max_sep=7.37, nbins=3, nphi_bins=4),
        cfg('LogRUV', 'Arc', min_sep=0.0121, max_sep=1.91, nbins=3, nubins=2, nvbins=2),
        cfg('LogSAS', 'Arc', min_sep=0.0121, max_sep=1.91, nbins=3, nphi_bins=3),
        cfg('LogRUV', 'Periodic', (9.1, 8.3, 7.9), min_sep=0.1021, max_sep=1.91, nbins=3, nubins=2, nvbins=2, xperiod=9.1, yperiod=8.3, zperiod=7.9),
    ],
    'radecr': [
        cfg('LogRUV', min_sep=0.0121, max_sep=2.37, nbins=3, nubins=3, nvbins=2),
        cfg('LogSAS', min_sep=0.0121, max_sep=2.37, nbins=3, nphi_bins=3),
        cfg('LogSAS', 'Arc', min_sep=0.5, max_sep=91.7, nbins=3, nphi_bins=3, sep_units='deg'),
        cfg('LogSAS', 'Arc', min_sep=0.0113, max_sep=0.1937, nbins=2, nphi_bins=3),
    ],
}

# narrow ranges of the opening angle, where LogSAS can discard pairs of cells by phi
RANGES = [(0., 0.3517), (1.0513, 1.9217), (2.4419, math.pi), (1.7513, math.pi), (0.6131, 1.0519), (2.4077, 2.9111)]
PHI = {k: [cfg('LogSAS', met, nphi_bins=2, nbins=2, min_phi=a, max_phi=b, min_sep=lo, max_sep=hi)
           for met, lo, hi in M for a, b in RANGES]
       for k, M in {'flat': [('Euclidean', 0.3121, 6.87), ('Euclidean', 1.613, 17.3)],
                    'sphere': [('Euclidean', 0.0113, 1.917), ('Arc', 0.0113, 3.02), ('Arc', 0.5119, 2.217)],
                    '3d': [('Euclidean', 0.3121, 6.87)],
                    'radecr': [('Euclidean', 0.0513, 2.37), ('Arc', 0.1113, 2.917)]}.items()}

UV = [(u, v) for u in ((0., 0.3117), (0.6013, 1.), (0.3917, 0.7119)) for v in ((0., 0.2113), (0.7919, 1.), (0.3117, 0.6013))]
for k, M in {'flat': [('Euclidean', 0.3121, 6.87), ('Euclidean', 1.613, 4.31)], 'sphere': [('Euclidean', 0.0113, 1.917), ('Arc', 0.0113, 3.02)],
             '3d': [('Euclidean', 0.3121, 6.87)], 'radecr': [('Arc', 0.1113, 2.917)]}.items():
    PHI[k] += [cfg('LogRUV', met, nubins=2, nvbins=1, nbins=2, min_u=u[0], max_u=u[1], min_v=v[0], max_v=v[1], min_sep=lo, max_sep=hi)
               for met, lo, hi in M for u, v in UV]

# ranges of separation well below and above the size of the catalogs, where whole cells can be discarded
FULL = {k: [cfg('LogRUV', met, nubins=2, nvbins=2, nbins=2, min_sep=lo, max_sep=hi) for met, lo, hi in M] +
           [cfg('LogSAS', met, nphi_bins=3, nbins=2, min_sep=lo, max_sep=hi) for met, lo, hi in M] +
           [cfg('LogMultipole', met, max_n=2, nbins=2, min_sep=lo, max_sep=hi) for met, lo, hi in M if k in ('flat', 'sphere')]
        for k, M in {'flat': [('Euclidean', 0.3121, 1.417), ('Euclidean', 0.5613, 2.931), ('Euclidean', 2.113, 4.317)],
                     'sphere': [('Euclidean', 0.0513, 0.3917), ('Arc', 0.1113, 0.7019), ('Euclidean', 0.3717, 1.317)],
                     '3d': [('Euclidean', 0.5121, 2.813), ('Euclidean', 2.213, 5.871)],
                     'radecr': [('Euclidean', 0.1513, 0.9371), ('Arc', 0.1113, 0.917)]}.items()}

EXACT = [('b0a0', dict(bin_slop=0, angle_slop=0)), ('brute', dict(brute=True))]
OPTIONS = [{}, dict(max_top=0), dict(min_top=3, max_top=3), dict(split_method='median'),
           dict(split_method='middle'), dict(split_method='random', min_top=0)]


def bins(c):
    kw = c['kw']
    return ref3.Bins3(c['bin_type'], kw['min_sep'], kw['max_sep'], kw['nbins'], ref2.UNITS[kw.get('sep_units', 'radians')],
                      u=(kw.get('min_u', 0.), kw.get('max_u', 1.), kw.get('nubins')),
                      v=(kw.get('min_v', 0.), kw.get('max_v', 1.), kw.get('nvbins')),
                      phi=(kw.get('min_phi', 0.), kw.get('max_phi', math.pi), kw.get('nphi_bins')),
                      phi_unit=ref2.UNITS[kw.get('phi_units', 'radians')], max_n=kw.get('max_n'))


_corr = {}


def corr(cls, c, slop, opt, coords=''):
    import treecorr
    kw = dict(c['kw'])
    kw.update(slop)
    kw.update(opt)
    key = (cls, coords, c['metric'], c['bin_type'], repr(sorted(kw.items())))
    if key not in _corr:
        if len(_corr) > 300:
            _corr.clear()
        _corr[key] = getattr(treecorr, cls + 'Correlation')(bin_type=c['bin_type'], **kw)
    return _corr[key]


def unmeans(co, nm, T, B):
    """The accumulated mean as it was before the documented conversion of chords to angles."""
    a = np.array(getattr(co, nm)).ravel()
    if T.coords == 'sphere' and T.metric == 'Euclidean':
        if nm.startswith('meanlogd'):
            return np.log(2 * np.sin(np.exp(a) * B.unit / 2) / B.unit)
        if nm.startswith('meand'):
            return 2 * np.sin(a * B.unit / 2) / B.unit
        if nm == 'meanphi':
            d2, d3 = [np.array(getattr(co, x)).ravel() * B.unit for x in ('meand2', 'meand3')]
            c2, c3 = 2 * np.sin(d2 / 2), 2 * np.sin(d3 / 2)
            c = np.cos(a * B.phi_unit) * np.sqrt((1 - c2**2 / 4) * (1 - c3**2 / 4)) + 0.25 * c2 * c3
            return np.arccos(np.clip(c, -1, 1))
    if nm == 'meanphi':
        return a * B.phi_unit
    return a


def compare(rec, co, cls, T, B, S, label, values=True, tag=None):
    lab = dict(config=label, cls=cls)
    mp = B.bin_type == 'LogMultipole'
    c0 = (slice(None), slice(None), B.max_n) if mp else Ellipsis
    n = co.ntri[c0].ravel()
    if not rec.check(np.array_equal(n, S['ntri']), 'ntri differs from the direct count', tag, got=n, want=S['ntri'], **lab):
        return
    if mp and T.metric == 'Periodic':
        tag = 'multipole-periodic'
    elif mp and B.twins:
        tag = 'multipole-coincident'
    if mp:
        rec.check(np.array_equal(co.ntri, np.repeat(co.ntri[c0][:, :, None], 2 * B.max_n + 1, axis=2)),
                  'ntri depends on n', tag, **lab)
        W = co.weight.reshape(S['W'].shape)
        good = np.abs(W - S['W']) <= 2e-6 * S['absw'][:, None] + 1e-12
        rec.check(bool(good.all()), 'weight (multipoles) differs from the direct sum', tag, got=np.abs(W - S['W']).max(), **lab)
    else:
        w = co.weight.ravel()
        if not rec.check(np.allclose(w, S['weight'], rtol=1e-9, atol=1e-12), 'weight differs from the direct sum', tag,
                         got=w, want=S['weight'], **lab):
            return
    names = ['meand2', 'meand3', 'meanlogd2', 'meanlogd3'] + ([] if mp else ['meand1', 'meanlogd1'])
    names += {'LogRUV': ['meanu', 'meanv'], 'LogSAS': ['meanphi']}.get(B.bin_type, [])
    m = S['weight'] != 0
    for nm in names:
        want = S['meanu' if nm == 'meanphi' else nm]
        a = unmeans(co, nm, T, B)
        if mp:
            a = a.reshape(co.ntri.shape)[c0].ravel()
        got = a * S['weight']
        tol = 4e-7 * (np.abs(want) + S['absw'])
        if nm == 'meanphi':
            tol = 1e-6 * (np.abs(want) + S['absw'])
        good = np.abs(got - want) <= tol + 1e-12
        rec.check(bool(good[m].all()), nm + ' differs from the direct sum', tag, got=got, want=want, **lab)
    if not values:
        return
    if cls == 'KKK':
        if mp:
            z = co.zeta.reshape(S['Z'].shape)
            rec.check(bool((np.abs(z - S['Z']) <= 2e-6 * S['abszeta'][:, None] + 1e-12).all()),
                      'zeta (multipoles) differs from the direct sum', tag, got=np.abs(z - S['Z']).max(), **lab)
        else:
            z = co.zeta.ravel() * S['weight']
            rec.check(bool((np.abs(z - S['zeta']) <= 2e-6 * S['abszeta'] + 1e-12)[m].all()),
                      'zeta*weight differs from the direct sum', tag, got=z, want=S['zeta'], **lab)
    if cls == 'GGG':
        for a in range(4):
            if mp:
                g = getattr(co, 'gam%d' % a).reshape(S['Gam%d' % a].shape)
                good = np.abs(g - S['Gam%d' % a]) <= 4e-6 * S['absgam'][:, None] + 1e-12
                good |= S['undef'][:, None]
            else:
                g = getattr(co, 'gam%d' % a).ravel() * S['weight']
                good = np.abs(g - S['gam%d' % a]) <= 4e-6 * S['absgam'] + 1e-12
                good |= S['undef'] | ~m
            rec.check(bool(good.all()), 'gam%d differs from the direct sum' % a, tag, got=g if not mp else None,
                      want=S['gam%d' % a] if not mp else None, **lab)


def to_sas(S, T, B, lo, hi, n, gam=True):
    """The LogSAS arrays that the Fourier series with the multipoles S describes.

    Bins in phi (radians): n bins in [lo, hi).  The sides are the means of the multipole bins.
    """
    dphi = (hi - lo) / n
    phi = lo + dphi * (np.arange(n) + 0.5)
    N = np.arange(-B.max_n, B.max_n + 1)
    e = np.exp(1j * N[:, None] * phi) * dphi / (2 * np.pi)
    out = {'weight': (S['W'] @ e).real.ravel(), 'absw': np.repeat(S['absw'], n) * (2 * B.max_n + 1) * dphi / (2 * np.pi)}
    w = out['weight'].reshape(-1, n)
    tot = w.sum(axis=1)
    ok = tot != 0
    out['ntri'] = np.where(ok[:, None], w / np.where(ok, tot, 1)[:, None] * S['ntri'][:, None] * n * dphi / (2 * np.pi), 0).ravel()
    out['ntri_bad'] = np.repeat(np.abs(tot) < 1e-7 * S['absw'] + 1e-300, n)
    if 'Z' in S:
        out['zeta'] = (S['Z'] @ e).real.ravel()
        out['abszeta'] = np.repeat(S['abszeta'], n) * (2 * B.max_n + 1)
    if 'Gam0' in S and gam:
        w0 = S['weight']
        with np.errstate(all='ignore'):
            d2, d3 = [np.where(w0 != 0, S[x] / w0, np.nan) for x in ('meand2', 'meand3')]
        if T.coords == 'sphere' and T.metric == 'Euclidean':
            d2, d3 = [2 * np.arcsin(d * B.unit / 2) / B.unit for d in (d2, d3)]
        p1 = np.zeros((len(w0), n), complex)
        p2 = d3[:, None] * np.exp(1j * phi)
        p3 = np.repeat(d2[:, None].astype(complex), n, axis=1)
        c = (p1 + p2 + p3) / 3
        mid = p2 / np.abs(p2) + p3 / np.abs(p3)
        rot = []
        for now, then in ((mid, c - p1), (p2, c - p2), (p3, c - p3)):
            rot.append((now * now / np.abs(now * now)) * np.conj(then * then / np.abs(then * then)))
        for a in range(4):
            r = 1
            for b in range(3):
                r = r * (np.conj(rot[b]) if b + 1 == a else rot[b])
            out['gam%d' % a] = ((S['Gam%d' % a] @ e) * r).ravel()
        out['absgam'] = np.repeat(S['absgam'], n) * (2 * B.max_n + 1)
        out['gam_bad'] = np.repeat((w0 == 0) | S['undef'], n) | ~np.isfinite(out['gam0'])
    return out, phi
