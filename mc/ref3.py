"""Reference model for three-point sums: every triangle on its own, no trees.

Written from the documented definitions (class doc of Corr3 and of its subclasses): which triangles
count, which bin they go into, and what they contribute.
"""
import itertools, math
import numpy as np
from mc.ref2 import UNITS, _unit, _sky_dir


def norm(v):
    return np.sqrt((v * v).sum(axis=-1))


class Tri(object):
    """All triangles in their allowed role assignments: P1, P2, P3 index arrays into all points.

    sets: list of 1, 2 or 3 point sets.  mode: 'auto', 'cross12', 'cross123', and whether ordered.
    """
    def __init__(self, sets, ordered, metric='Euclidean', period=None):
        off = np.cumsum([0] + [s.n for s in sets])
        self.sets = sets
        self.p = np.concatenate([s.p for s in sets])
        self.w = np.concatenate([s.w for s in sets])
        self.val = {L: np.concatenate([s.val[L] for s in sets]) for L in sets[0].val}
        self.coords, self.metric, self.period = sets[0].coords, metric, period
        own = [np.arange(off[m], off[m + 1]) for m in range(len(sets))]
        if len(sets) == 1:
            roles = [(0, 0, 0)]
        elif len(sets) == 2:
            roles = [(0, 1, 1)] if ordered else [(0, 1, 1), (1, 0, 1), (1, 1, 0)]
        else:
            roles = [(0, 1, 2)] if ordered else list(itertools.permutations(range(3)))
        I, J, K = [], [], []
        for r in roles:
            a, b, c = [x.ravel() for x in np.meshgrid(own[r[0]], own[r[1]], own[r[2]], indexing='ij')]
            ok = (a != b) & (b != c) & (a != c)
            I.append(a[ok])
            J.append(b[ok])
            K.append(c[ok])
        self.i, self.j, self.k = np.concatenate(I), np.concatenate(J), np.concatenate(K)
        self.geometry()

    def diff(self, a, b):
        d = self.p[b] - self.p[a]
        if self.metric == 'Periodic':
            for m in range(3):
                L = self.period[m]
                if L:
                    d[:, m] -= L * np.round(d[:, m] / L)
        return d

    def dist(self, a, b):
        if self.metric == 'Arc':
            u, v = _unit(self.p[a]), _unit(self.p[b])
            return np.arctan2(norm(np.cross(u, v)), (u * v).sum(axis=1))
        return norm(self.diff(a, b))

    def geometry(self):
        i, j, k = self.i, self.j, self.k
        self.d1, self.d2, self.d3 = self.dist(j, k), self.dist(i, k), self.dist(i, j)
        a, b = self.diff(i, j), self.diff(i, k)      # towards P2 and P3
        cr = np.cross(a, b)
        if self.coords == 'flat':
            o = cr[:, 2]
            self.orient = o / np.maximum(norm(a) * norm(b), 1e-300)
        else:
            # as viewed from the origin
            o = -(cr * self.p[i]).sum(axis=1)
            self.orient = o / np.maximum(norm(a) * norm(b) * norm(self.p[i]), 1e-300)
        # orient > 0: P1,P2,P3 counter-clockwise
        with np.errstate(all='ignore'):
            if self.metric == 'Arc':
                c = ((np.cos(self.d1) - np.cos(self.d2) * np.cos(self.d3))
                     / (np.sin(self.d2) * np.sin(self.d3)))
                # the angle between the two great circles, numerically stable
                u, v = _sky_dir(self.p[i], self.p[j]), _sky_dir(self.p[i], self.p[k])
                phi = np.abs(np.angle(u * np.conj(v)))
                self.phi = phi
            else:
                self.phi = np.arctan2(norm(np.cross(a, b)), (a * b).sum(axis=1))
                if self.metric == 'Periodic':
                    c = (self.d2**2 + self.d3**2 - self.d1**2) / (2 * self.d2 * self.d3)
                    self.phi = np.arccos(np.clip(c, -1, 1))
        self.degenerate = (self.d2 == 0) | (self.d3 == 0)
        # A multipole sum does not look at d1.
        own = np.concatenate([np.full(s.n, m) for m, s in enumerate(self.sets)])
        self.twins = (self.d1 == 0) & (own[j] == own[k])

    def zphi(self):
        """exp(i phi), phi the angle from the direction of P3 to that of P2, counter-clockwise."""
        i, j, k = self.i, self.j, self.k
        if self.coords == 'flat':
            a, b = self.diff(i, j), self.diff(i, k)
            a, b = a[:, 0] + 1j * a[:, 1], b[:, 0] + 1j * b[:, 1]
        else:
            a, b = _sky_dir(self.p[i], self.p[j]), _sky_dir(self.p[i], self.p[k])
        z = a * np.conj(b)
        n = np.abs(z)
        return np.where(n > 0, z / np.where(n > 0, n, 1), 1.)

    def gammas(self, proj):
        """Weighted triple products of shears projected to the centroid, or by the x projection."""
        i, j, k = self.i, self.j, self.k
        self.undef = np.zeros(len(i), bool)
        if self.coords == 'flat':
            a, b = self.diff(i, j), self.diff(i, k)
            a, b = a[:, 0] + 1j * a[:, 1], b[:, 0] + 1j * b[:, 1]
            if proj == 'centroid':
                c = (a + b) / 3.
                e = [c, c - a, c - b]
            else:
                ua, ub = a / np.maximum(np.abs(a), 1e-300), b / np.maximum(np.abs(b), 1e-300)
                e = [ua + ub, ua, ub]
        else:
            u = _unit(self.p)
            if proj == 'centroid':
                c = _unit((u[i] + u[j] + u[k]) / 3.)
                e = [_sky_dir(u[x], c) for x in (i, j, k)]
            else:
                a, b = _sky_dir(u[i], u[j]), _sky_dir(u[i], u[k])
                ua, ub = a / np.maximum(np.abs(a), 1e-300), b / np.maximum(np.abs(b), 1e-300)
                e = [ua + ub, _sky_dir(u[j], u[i]), _sky_dir(u[k], u[i])]
        g = []
        for x, d in zip((i, j, k), e):
            m = np.abs(d)
            self.undef |= m < 1e-6
            d = d / np.maximum(m, 1e-300)
            g.append(self.val['G'][x] * self.w[x] * np.conj(d)**2)
        g1, g2, g3 = g
        return [g1 * g2 * g3, np.conj(g1) * g2 * g3, g1 * np.conj(g2) * g3, g1 * g2 * np.conj(g3)]


class Bins3(object):
    def __init__(self, bin_type, min_sep, max_sep, nbins, unit=1., u=(0., 1., None), v=(0., 1., None),
                 phi=(0., math.pi, None), phi_unit=1., max_n=None):
        self.bin_type, self.min_sep, self.max_sep, self.nbins, self.unit = bin_type, min_sep, max_sep, nbins, unit
        self.u, self.v, self.phi, self.phi_unit, self.max_n = u, v, phi, phi_unit, max_n
        self.bs = math.log(max_sep / min_sep) / nbins
        self.n = {'LogRUV': lambda: nbins * u[2] * 2 * v[2], 'LogSAS': lambda: nbins * nbins * phi[2],
                  'LogMultipole': lambda: nbins * nbins}[bin_type]()

    def _lin(self, x, spec, tol):
        lo, hi, n = spec
        f = (x - lo) / (hi - lo) * n
        near = (np.abs(f - np.round(f)) < tol) & (f > -0.5) & (f < n + 0.5)
        return np.where((x >= lo) & (x < hi), np.floor(f), -1).astype(int), near

    def _log(self, d):
        r = d / self.unit
        with np.errstate(divide='ignore'):
            f = np.where(r > 0, np.log(np.maximum(r, 1e-300) / self.min_sep) / self.bs, -1e9)
        near = (np.abs(f - np.round(f)) < 1e-8) & (f > -0.5) & (f < self.nbins + 0.5)
        ok = (r >= self.min_sep) & (r < self.max_sep)
        return np.where(ok, np.floor(f), -1).astype(int), near

    def index(self, T):
        """Bin of every role assignment (-1: does not count), whether anything is too close to call."""
        live = ~T.degenerate
        if self.bin_type != 'LogMultipole':
            live &= T.d1 > 0
        amb = np.zeros(len(live), bool)
        flatish = np.abs(T.orient) < 1e-8
        if self.bin_type == 'LogRUV':
            big = np.maximum(T.d1, np.maximum(T.d2, T.d3))
            k2, near = self._log(T.d2)
            tie = (np.abs(T.d1 - T.d2) < 1e-8 * big) | (np.abs(T.d2 - T.d3) < 1e-8 * big)
            inr = (k2 >= 0) | near
            amb |= inr & (near | tie | flatish)
            ok = live & (T.d1 >= T.d2) & (T.d2 >= T.d3) & (k2 >= 0)
            d3 = np.where(T.d3 > 0, T.d3, 1.)
            d2 = np.where(T.d2 > 0, T.d2, 1.)
            uu, vv = T.d3 / d2, (T.d1 - T.d2) / d3
            ku, nu = self._lin(uu, self.u, 1e-8)
            kv, nv = self._lin(vv, self.v, 1e-7)
            amb |= ok & (nu | (nv & (ku >= 0)))
            ok &= (ku >= 0) & (kv >= 0)
            kv = np.where(T.orient > 0, self.v[2] + kv, self.v[2] - 1 - kv)
            self.uval, self.vval = uu, np.where(T.orient > 0, vv, -vv)
            idx = (k2 * self.u[2] + ku) * 2 * self.v[2] + kv
        else:
            k2, n2 = self._log(T.d2)
            k3, n3 = self._log(T.d3)
            amb |= (n2 & ((k3 >= 0) | n3)) | (n3 & ((k2 >= 0) | n2))
            ok = live & (k2 >= 0) & (k3 >= 0)
            if self.bin_type == 'LogSAS':
                amb |= ok & flatish
                ok &= T.orient < 0           # P1,P3,P2 counter-clockwise
                ph = T.phi
                kp, near = self._lin(ph, tuple(x * self.phi_unit for x in self.phi[:2]) + (self.phi[2],), 1e-6)
                amb |= ok & near
                ok &= kp >= 0
                self.uval = ph
                idx = (k2 * self.nbins + k3) * self.phi[2] + kp
            else:
                idx = k2 * self.nbins + k3
        amb &= live
        self.twins = bool((T.twins & ~T.degenerate).any())
        return np.where(ok, idx, -1), bool(amb.any())


def sums(T, B, idx, kinds=('K', 'G')):
    m = idx >= 0
    ii = idx[m]
    i, j, k = T.i[m], T.j[m], T.k[m]
    w = T.w[i] * T.w[j] * T.w[k]
    bc = lambda x: np.bincount(ii, weights=x, minlength=B.n)
    bz = lambda x: bc(x.real) + 1j * bc(x.imag)
    out = dict(ntri=np.bincount(ii, minlength=B.n).astype(float), weight=bc(w), absw=bc(np.abs(w)))
    for nm in ('d1', 'd2', 'd3'):
        d = getattr(T, nm)[m] / B.unit
        out['mean' + nm] = bc(w * d)
        out['meanlog' + nm] = bc(w * np.log(d))
    if B.bin_type != 'LogMultipole':
        out['meanu'] = bc(w * B.uval[m])
    if B.bin_type == 'LogRUV':
        out['meanv'] = bc(w * B.vval[m])
    if B.bin_type == 'LogMultipole':
        z = np.conj(T.zphi()[m])
        N = B.max_n
        zn = [z**n for n in range(-N, N + 1)]
        out['W'] = np.array([bz(w * x) for x in zn]).T
    if 'K' in kinds and 'K' in T.val:
        v = w * (T.val['K'][i] * T.val['K'][j] * T.val['K'][k]).real
        out['zeta'] = bc(v)
        out['abszeta'] = bc(np.abs(v))
        if B.bin_type == 'LogMultipole':
            out['Z'] = np.array([bz(v * x) for x in zn]).T
    if 'G' in kinds and 'G' in T.val:
        gg = T.gammas('x' if B.bin_type == 'LogMultipole' else 'centroid')
        out['absgam'] = bc(np.abs(gg[0][m]))
        out['undef'] = bc(T.undef[m].astype(float)) > 0
        for a in range(4):
            g = gg[a][m]
            if B.bin_type == 'LogMultipole':
                out['Gam%d' % a] = np.array([bz(g * x) for x in zn]).T
            else:
                out['gam%d' % a] = bz(g)
    if B.bin_type == 'LogMultipole':
        # Rounding also comes from the P2=P3 terms, which are added and then subtracted again.
        a, b = np.meshgrid(np.arange(len(T.p)), np.arange(len(T.p)), indexing='ij')
        a, b = a.ravel(), b.ravel()
        d = T.dist(a, b)
        k, _ = B._log(np.where(d > 0, d, 1e-300))
        ok = (a != b) & (k >= 0)
        a, b, k = a[ok], b[ok], k[ok] * (B.nbins + 1)
        for nm, v in (('absw', None), ('abszeta', 'K'), ('absgam', 'G')):
            if nm in out:
                x = np.abs(T.w if v is None else T.w * T.val[v])
                out[nm] = out[nm] + np.bincount(k, weights=x[a] * x[b]**2, minlength=B.n)
    return out
