"""Reference model for two-point sums: every pair, one at a time in principle, no trees.

Written from the documented definitions (docs/binning.rst, docs/metric.rst, docs/shear.rst), in
double precision, independent of the C++ code.
"""
import math
import numpy as np

SPIN = {'N': None, 'K': 0, 'Z': 0, 'V': 1, 'G': 2, 'T': 3, 'Q': 4}
CLASSES = ['NN', 'NK', 'NZ', 'NV', 'NG', 'NT', 'NQ', 'KK', 'KZ', 'KV', 'KG', 'KT', 'KQ',
           'ZZ', 'VV', 'GG', 'TT', 'QQ']
AUTO_CLASSES = ['NN', 'KK', 'ZZ', 'VV', 'GG', 'TT', 'QQ']
COUNT_CLASSES = ['NN', 'NK', 'KK']        # exact already at bin_slop=0 (no projection)
UNITS = {'radians': 1., 'rad': 1., 'deg': math.pi / 180, 'degrees': math.pi / 180,
         'arcmin': math.pi / 10800, 'arcsec': math.pi / 648000, 'hours': math.pi / 12}


class Pts(object):
    """Positions, weights and values of one catalog, with zero-weight points removed."""
    def __init__(self, kw):
        self.coords = 'flat'
        if 'ra' in kw:
            u = UNITS[kw.get('ra_units', 'rad')]
            v = UNITS[kw.get('dec_units', 'rad')]
            ra, dec = np.asarray(kw['ra'], float) * u, np.asarray(kw['dec'], float) * v
            e = np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)]).T
            self.coords = 'sphere'
            if kw.get('r') is not None:
                e = e * np.asarray(kw['r'], float)[:, None]
                self.coords = '3d'
        else:
            x, y = np.asarray(kw['x'], float), np.asarray(kw['y'], float)
            z = kw.get('z')
            if z is not None:
                self.coords = '3d'
            e = np.array([x, y, np.zeros_like(x) if z is None else np.asarray(z, float)]).T
        n = len(e)
        w = np.asarray(kw['w'], float) if kw.get('w') is not None else np.ones(n)
        keep = w != 0
        self.p = e[keep]
        self.w = w[keep]
        self.n = int(keep.sum())
        self.val = {}
        for L in 'KZVGTQ':
            if L == 'K':
                if kw.get('k') is not None:
                    self.val['K'] = np.asarray(kw['k'], float)[keep].astype(complex)
            elif kw.get(L.lower() + '1') is not None:
                self.val[L] = (np.asarray(kw[L.lower() + '1'], float)
                               + 1j * np.asarray(kw[L.lower() + '2'], float))[keep]


def _unit(v):
    return v / np.sqrt((v * v).sum(axis=-1))[..., None]


def _sky_dir(a, b):
    """exp(i alpha) of the great circle from a towards b, at a: alpha measured at a from local
    west... east-is-left orientation used on the sky is handled by the sign of the east axis."""
    a, b = _unit(a), _unit(b)
    east = np.array([-a[:, 1], a[:, 0], np.zeros(len(a))]).T
    north = np.array([-a[:, 2] * a[:, 0], -a[:, 2] * a[:, 1], a[:, 0]**2 + a[:, 1]**2]).T
    t = b - (a * b).sum(axis=1)[:, None] * a
    # On the sky x increases to the west when north is up and one looks out from the origin.
    c = (t * east).sum(axis=1) * -1. + 1j * (t * north).sum(axis=1)
    return c


class Pairs(object):
    """All pairs between two point sets (auto: i<j), with separation and directions."""

    def __init__(self, P1, P2=None, metric='Euclidean', period=None, ordered=False):
        auto = P2 is None
        if auto:
            P2 = P1
            i, j = np.triu_indices(P1.n, 1)
            if ordered:
                i, j = np.concatenate([i, j]), np.concatenate([j, i])
        else:
            i, j = [a.ravel() for a in np.meshgrid(np.arange(P1.n), np.arange(P2.n), indexing='ij')]
        self.i, self.j, self.P1, self.P2, self.auto = i, j, P1, P2, auto
        p1, p2 = P1.p[i], P2.p[j]
        d = p2 - p1
        if metric == 'Periodic':
            for a in range(3):
                L = period[a]
                if L:
                    d[:, a] -= L * np.round(d[:, a] / L)
        self.d = d
        self.p1, self.p2 = p1, p2
        self.metric = metric
        self.rpar = np.zeros(len(i))
        dsq = (d * d).sum(axis=1)
        if metric in ('Euclidean', 'Periodic'):
            r = np.sqrt(dsq)
        elif metric == 'Arc':
            u1, u2 = _unit(p1), _unit(p2)
            cr = np.cross(u1, u2)
            r = np.arctan2(np.sqrt((cr * cr).sum(axis=1)), (u1 * u2).sum(axis=1))
        elif metric in ('Rperp', 'FisherRperp'):
            L = 0.5 * (p1 + p2)
            cr = np.cross(p1, p2)
            nl = np.sqrt((L * L).sum(axis=1))
            r = np.sqrt((cr * cr).sum(axis=1)) / np.where(nl > 0, nl, 1.)
        elif metric == 'OldRperp':
            r1, r2 = np.sqrt((p1 * p1).sum(axis=1)), np.sqrt((p2 * p2).sum(axis=1))
            r = np.sqrt(np.maximum(dsq - (r2 - r1)**2, 0.))
        elif metric == 'Rlens':
            cr = np.cross(p1, p2)
            r = np.sqrt((cr * cr).sum(axis=1) / (p2 * p2).sum(axis=1))
        else:
            raise KeyError(metric)
        self.r = r
        if P1.coords == '3d':
            if metric == 'OldRperp':
                r1, r2 = np.sqrt((p1 * p1).sum(axis=1)), np.sqrt((p2 * p2).sum(axis=1))
                self.rpar = r2 - r1
            else:
                L = 0.5 * (p1 + p2)
                nl = np.sqrt((L * L).sum(axis=1))
                self.rpar = (d * L).sum(axis=1) / np.where(nl > 0, nl, 1.)
        self._dirs = None
        self.undef = r == 0     # pairs for which the direction is not defined

    def dirs(self):
        """Unit complex directions at point 1 and point 2 of the line running from 1 to 2."""
        if self._dirs is None:
            if self.P1.coords == 'flat':
                c = self.d[:, 0] + 1j * self.d[:, 1]
                a = np.abs(c)
                c = np.where(a > 0, c / np.where(a > 0, a, 1.), 1.)
                self._dirs = (c, c)
            else:
                c1 = _sky_dir(self.p1, self.p2)
                c2 = -_sky_dir(self.p2, self.p1)
                self.undef = (np.abs(c1) < 1e-7) | (np.abs(c2) < 1e-7)
                c1 = c1 / np.where(np.abs(c1) > 0, np.abs(c1), 1)
                c2 = c2 / np.where(np.abs(c2) > 0, np.abs(c2), 1)
                self._dirs = (c1, c2)
        return self._dirs


class Binning(object):
    """min_sep/max_sep in user units; unit = radians per user unit."""
    def __init__(self, bin_type, min_sep, max_sep, nbins, unit=1., min_rpar=None, max_rpar=None):
        self.bin_type, self.min_sep, self.max_sep, self.nbins = bin_type, min_sep, max_sep, nbins
        self.unit, self.min_rpar, self.max_rpar = unit, min_rpar, max_rpar
        if bin_type == 'Log':
            self.bs = math.log(max_sep / min_sep) / nbins
        elif bin_type == 'Linear':
            self.bs = (max_sep - min_sep) / nbins
        else:
            self.bs = 2. * max_sep / nbins
        self.n = nbins**2 if bin_type == 'TwoD' else nbins

    def index(self, P):
        """Bin of every pair (-1: outside), and whether any pair is too close to an edge to call."""
        r = P.r / self.unit
        if len(r) == 0:
            return np.zeros(0, int), False
        eps = 1.e-8 * self.max_sep
        ok = (r >= self.min_sep) & (r < self.max_sep)
        if self.bin_type == 'Log':
            with np.errstate(divide='ignore'):
                f = np.where(r > 0, (np.log(np.maximum(r, 1e-300)) - math.log(self.min_sep)) / self.bs, -1e9)
            k = np.floor(f)
        elif self.bin_type == 'Linear':
            f = (r - self.min_sep) / self.bs
            k = np.floor(f)
        else:
            fx = (P.d[:, 0] / self.unit + self.max_sep) / self.bs
            fy = (P.d[:, 1] / self.unit + self.max_sep) / self.bs
            ok = ((np.abs(P.d[:, 0]) < self.max_sep * self.unit)
                  & (np.abs(P.d[:, 1]) < self.max_sep * self.unit) & (r >= self.min_sep)
                  & (r > 0))     # TwoD never counts a pair at zero separation
            k = np.floor(fx) + self.nbins * np.floor(fy)
        amb = False
        if self.bin_type == 'TwoD':
            for f in (fx, fy):
                near = np.abs(f - np.round(f)) < 1e-8
                amb = amb or bool(np.any(near & (r > 0) & (f > -0.5) & (f < self.nbins + 0.5)))
            if self.min_sep > 0:
                amb = amb or bool(np.any(np.abs(r - self.min_sep) < eps))
        else:
            near = (np.abs(f - np.round(f)) < 1e-8) & (f > -0.5) & (f < self.nbins + 0.5)
            if self.min_sep == 0:
                near &= r > 0
            amb = bool(np.any(near))
        if self.min_rpar is not None or self.max_rpar is not None:
            lo = -1e300 if self.min_rpar is None else self.min_rpar
            hi = 1e300 if self.max_rpar is None else self.max_rpar
            ok = ok & (P.rpar >= lo) & (P.rpar <= hi)
            amb = amb or bool(np.any(np.minimum(np.abs(P.rpar - lo), np.abs(P.rpar - hi)) < 1e-9))
        return np.where(ok, k, -1).astype(int), amb


def base_sums(P, B, k):
    m = k >= 0
    kk = k[m]
    w = (P.P1.w[P.i] * P.P2.w[P.j])[m]
    r = P.r[m] / B.unit
    n = B.n
    with np.errstate(divide='ignore'):
        lr = np.where(r > 0, np.log(np.where(r > 0, r, 1.)), 0.)
    return dict(npairs=np.bincount(kk, minlength=n).astype(float),
                weight=np.bincount(kk, weights=w, minlength=n),
                sum_r=np.bincount(kk, weights=w * r, minlength=n),
                sum_logr=np.bincount(kk, weights=w * lr, minlength=n))


def value_sums(P, B, k, cls):
    """Weighted sums of the projected products.  name -> (sum, sum of absolute values)."""
    a, b = cls
    m = k >= 0
    kk = k[m]
    i, j = P.i[m], P.j[m]
    w = P.P1.w[i] * P.P2.w[j]
    n = B.n

    def bc(x):
        return np.bincount(kk, weights=x, minlength=n), np.bincount(kk, weights=np.abs(x), minlength=n)
    if cls == 'NN':
        return {}
    sa, sb = SPIN[a], SPIN[b]
    va = P.P1.val[a][i] if a != 'N' else 1.
    vb = P.P2.val[b][j]
    if (sa or 0) or (sb or 0):
        e1, e2 = P.dirs()
        e1, e2 = e1[m], e2[m]
        if sa:
            va = va * np.conj(e1)**sa
        if sb:
            vb = vb * np.conj(e2)**sb
    if cls in ('NK', 'KK'):
        return {'xi': bc(w * (va * vb).real)}
    if a in 'NK':
        v = w * va * vb
        if b == 'G':
            v = -v           # tangential shear
        return {'xi': bc(v.real), 'xi_im': bc(v.imag)}
    p = w * va * np.conj(vb)
    q = w * va * vb
    return {'xip': bc(p.real), 'xip_im': bc(p.imag), 'xim': bc(q.real), 'xim_im': bc(q.imag)}
