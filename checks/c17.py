"""C17: what is asked for is honoured exactly, and requests that make no sense are refused."""
import itertools, math, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core
build.activate()
import numpy as np
import treecorr

UNIT = {'': 1., 'radians': 1., 'arcmin': math.pi / 10800, 'degrees': math.pi / 180, 'deg': math.pi / 180, 'hours': math.pi / 12,
        'arcsec': math.pi / 648000, 'rad': 1., 'hour': math.pi / 12, 'hr': math.pi / 12}
C2 = ['NN', 'NK', 'KK', 'NZ', 'KZ', 'ZZ', 'NV', 'KV', 'VV', 'NG', 'KG', 'GG', 'NT', 'KT', 'TT', 'NQ', 'KQ', 'QQ']
C3 = ['NNN', 'KKK', 'GGG']


def cls(name):
    return getattr(treecorr, name + 'Correlation')


def attempt(func):
    """(result, None) or (None, name of the exception)."""
    try:
        return func(), None
    except Exception as e:
        return None, type(e).__name__


def near(a, b, tol=1e-10):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


# ------------------------------------------------------------------------- separations
def spec(bin_type, nbins, bin_size, min_sep, max_sep):
    """The documented rule: (error,) or the four values; None where rounding of a tie decides."""
    if bin_type == 'TwoD':
        given = [v is not None for v in (nbins, bin_size, max_sep)]
        if sum(given) != 2:
            return ('TypeError',)
        lo = min_sep or 0.
        if max_sep is not None and lo >= max_sep:
            return ('ValueError',)
        if nbins is None:
            q = 2 * max_sep / bin_size
            nbins = math.ceil(q)
            bin_size = 2 * max_sep / nbins
        elif bin_size is None:
            bin_size = 2 * max_sep / nbins
        else:
            max_sep = nbins * bin_size / 2
            if lo >= max_sep:
                return None
        return nbins, bin_size, lo, max_sep
    given = [v is not None for v in (nbins, bin_size, min_sep, max_sep)]
    if sum(given) != 3:
        return ('TypeError',)
    if min_sep is not None and max_sep is not None and min_sep >= max_sep:
        return ('ValueError',)
    if bin_type == 'Linear':
        f, inv = (lambda x: x), (lambda x: x)
    else:
        f, inv = math.log, math.exp
    if nbins is None:
        q = (f(max_sep) - f(min_sep)) / bin_size
        if abs(q - round(q)) < 1e-9 and (bin_type != 'Linear' or q != round(q)):
            return None
        nbins = math.ceil(q)
        bin_size = (f(max_sep) - f(min_sep)) / nbins
    elif bin_size is None:
        bin_size = (f(max_sep) - f(min_sep)) / nbins
    elif max_sep is None:
        max_sep = inv(f(min_sep) + nbins * bin_size)
    else:
        min_sep = inv(f(max_sep) - nbins * bin_size)
        if min_sep < 0:
            return None
    return nbins, bin_size, min_sep, max_sep


def build_corr(name, kw, via, rec):
    """Construct with the parameters as arguments, in a dict, overriding a dict, or around absent ones given as None."""
    rec.step()
    C = cls(name)
    if via == 'kwargs':
        return attempt(lambda: C(**kw))
    if via == 'config':
        return attempt(lambda: C(dict(kw, unrelated=3, file_name='x', npatch=7)))
    if via == 'override':
        wrong = {k: {'nbins': 77, 'bin_size': 9.9, 'min_sep': 1.e-3, 'max_sep': 1.e9, 'bin_type': kw.get('bin_type', 'Log'), 'sep_units': 'hours'}.get(k, v)
                 for k, v in kw.items()}
        return attempt(lambda: C(wrong, **kw))
    if via == 'none':
        full = dict({k: None for k in ('nbins', 'bin_size', 'min_sep', 'max_sep')}, **kw)
        return attempt(lambda: C(**full))
    if via == 'text':
        return attempt(lambda: C({k: str(v) for k, v in kw.items()}))
    raise ValueError(via)


def check_refusal(rec, c, err, want, lab):
    if want[0] is None:
        return
    rec.check(c is None and err in want, 'a request that is not allowed was not refused as documented', got=err, want=want, **lab)
    rec.outcome('refused', want[0])


def check_bins(rec, c, want, bt, units, lab):
    nb, bs, lo, hi = want
    lab = dict(lab, want=want, got=[c.nbins, c.bin_size, c.min_sep, c.max_sep])
    if not rec.check(c.nbins == nb and isinstance(c.nbins, int) and near([c.bin_size, c.min_sep, c.max_sep], [bs, lo, hi]),
                     'the binning is not the one asked for', **lab):
        return False
    rec.check(c.bin_type == bt and UNIT.get(c.sep_units) == UNIT[units] and bool(c.sep_units) == bool(units), 'bin type or units are not those asked for', **lab)
    rec.nontrivial += 1
    if bt == 'TwoD':
        mid = -hi + bs * (np.arange(nb) + 0.5)
        dx, dy = np.meshgrid(mid, mid)
        r = np.hypot(dx, dy)
        h = bs / 2
        ok = (near(c.dxnom, dx) and near(c.dynom, dy) and near(c.left_edges, dx - h) and near(c.right_edges, dx + h)
              and near(c.bottom_edges, dy - h) and near(c.top_edges, dy + h) and near(c.rnom, r))
        with np.errstate(divide='ignore'):
            m = r > 1e-9 * hi
            ok = ok and near(c.logr[m], np.log(r[m]))
        shape = (nb, nb)
    elif bt == 'Linear':
        e = lo + bs * np.arange(nb + 1)
        with np.errstate(divide='ignore'):
            ok = (near(c.left_edges, e[:-1]) and near(c.right_edges, e[1:]) and near(c.rnom, (e[1:] + e[:-1]) / 2)
                  and near(c.logr, np.log((e[1:] + e[:-1]) / 2)))
        shape = (nb,)
    else:
        e = np.log(lo) + bs * np.arange(nb + 1)
        ok = (near(np.log(c.left_edges), e[:-1]) and near(np.log(c.right_edges), e[1:]) and near(c.logr, (e[1:] + e[:-1]) / 2)
              and near(np.log(c.rnom), (e[1:] + e[:-1]) / 2))
        shape = (nb,)
    rec.check(ok, 'centers or edges of the bins are not those of the binning asked for', **lab)
    for k in ('weight', 'npairs', 'meanr', 'meanlogr'):
        v = getattr(c, k)
        rec.check(v.shape == shape and not v.any(), '%s of a new object is not an array of zeros of the shape of the bins' % k, **lab)
    rec.outcome(bt, nb, round(bs, 9), round(lo, 9), round(hi, 9))
    return True


VALUES = {'nbins': [1, 4, 7], 'bin_size': [0.1, 0.37, 2.0], 'min_sep': [0.5, 3.0, 20.0], 'max_sep': [5.0, 19.0]}


def combos(values):
    keys = list(values)
    for vals in itertools.product(*[[None] + values[k] for k in keys]):
        yield {k: v for k, v in zip(keys, vals) if v is not None}


def run_sep2(case, rec):
    _, name, bt, units, via = case
    for kw in combos(VALUES):
        want = spec(bt, *[kw.get(k) for k in ('nbins', 'bin_size', 'min_sep', 'max_sep')])
        full = dict(kw, bin_type=bt)
        if bt == 'Log' and via == 'kwargs':
            full.pop('bin_type')      # It is the default.
        if units:
            full['sep_units'] = units
        lab = dict(config=full, cls=name, via=via)
        c, err = build_corr(name, full, via, rec)
        if want is None:
            continue
        if len(want) == 1:
            check_refusal(rec, c, err, want, lab)
        elif rec.check(c is not None, 'an allowed request was refused', err=err, **lab):
            check_bins(rec, c, want, bt, units, lab)


# ------------------------------------------------------------------------- where pairs go
def place(coords, metric, r, ang, units):
    """Catalog keywords of points at metric distance r (sep units) and direction ang from the origin point."""
    r, ang = np.asarray(r), np.asarray(ang)
    u = UNIT[units]
    if coords == 'flat':
        d = dict(x=r * np.cos(ang), y=r * np.sin(ang))
        if units:
            d.update(x_units=units, y_units=units)
        return d
    if coords == '3d':
        return dict(x=r * np.cos(ang), y=r * np.sin(ang) * 0.6, z=100 + r * np.sin(ang) * 0.8)
    th = r * u if metric == 'Arc' else 2 * np.arcsin(np.minimum(1., r * u / 2))
    return dict(ra=np.arctan2(np.sin(th) * np.sin(ang), np.cos(th)), dec=np.arcsin(np.sin(th) * np.cos(ang)),
                ra_units='rad', dec_units='rad')


def run_pairs(case, rec):
    _, name, bt, coords, metric, units, kw, opt = case
    full = dict(kw, bin_type=bt, metric=metric, **opt)
    if units:
        full['sep_units'] = units
    c = cls(name)(full)
    rec.step()
    want = spec(bt, *[kw.get(k) for k in ('nbins', 'bin_size', 'min_sep', 'max_sep')])
    lab = dict(config=full, coords=coords, cls=name)
    if not check_bins(rec, c, want, bt, units, lab):
        return
    nb, bs, lo, hi = want
    eps = 1e-7
    if bt == 'TwoD':
        f = [eps, 0.3, 1 - eps]
        e = [(-hi + bs * (i + a), i) for i in range(nb) for a in f] + [(-hi * (1 + eps), -1), (hi * (1 + eps), -1)]
        pts = [(x, y, (j, i) if i >= 0 and j >= 0 else None) for x, i in e for y, j in e]
        pts = [(x, y, (b if b and lo <= math.hypot(x, y) else None)) for x, y, b in pts if abs(math.hypot(x, y) - lo) > eps]
        r = np.array([math.hypot(p[0], p[1]) for p in pts])
        ang = np.array([math.atan2(p[1], p[0]) for p in pts])
        bins = [p[2] for p in pts]
        shape = (nb, nb)
    else:
        rr, bins = [], []
        for i in range(nb):
            for a in (eps, 0.2, 0.5, 0.9, 1 - eps):
                rr.append(lo + bs * (i + a) if bt == 'Linear' else lo * math.exp(bs * (i + a)))
                bins.append(i)
        for x in (lo * (1 - eps), lo / 2, hi * (1 + eps), hi * 1.3):
            rr.append(x)
            bins.append(None)
        r = np.array(rr)
        ang = np.arange(len(r)) * 2.4
        shape = (nb,)
    if coords == 'sphere' and (r * UNIT[units] > 1.9).any():
        return
    w = 1 + np.arange(len(r)) * 0.25
    o = place(coords, metric, np.zeros(1), np.zeros(1), units)
    p = place(coords, metric, r, ang, units)
    a = np.full(len(r), 0.3)
    kwf = {'N': {}, 'K': dict(k=a), 'G': dict(g1=a, g2=a)}
    o.update({k: v[:1] for k, v in kwf[name[0]].items()})
    p.update(kwf[name[1]], w=w)
    c.process(treecorr.Catalog(**o), treecorr.Catalog(**p))
    rec.step()
    n, ww, wr, wl = (np.zeros(shape) for _ in range(4))
    ang_r = r
    if coords == 'sphere' and metric == 'Euclidean':
        ang_r = 2 * np.arcsin(r * UNIT[units] / 2) / UNIT[units]
    tol = 1e-6
    for b, x, y in zip(bins, w, ang_r):
        if b is not None:
            n[b] += 1
            ww[b] += x
            wr[b] += x * y
            wl[b] += x * math.log(y)
    m = n > 0
    rec.check(np.array_equal(c.npairs, n), 'pairs are not in the bins their separations say', got=c.npairs, want=n, **lab)
    rec.check(near(c.weight, ww, 1e-9), 'weights are not in the bins the separations say', got=c.weight, want=ww, **lab)
    if np.array_equal(c.npairs, n):
        # The mean separations are in sep_units.  (On the sphere with Euclidean, means are of chords, converted at the end.)
        t = 1e-6 if not (coords == 'sphere' and metric == 'Euclidean') else 3e-2
        rec.check(near(c.meanr[m], wr[m] / ww[m], t) and near(c.meanlogr[m], wl[m] / ww[m], t), 'mean separations are not in the units asked for',
                  got=c.meanr, want=wr[m] / ww[m], **lab)
    rec.nontrivial += int(m.sum())
    rec.outcome(c.npairs)


# ------------------------------------------------------------------------- three-point bins
def side(n, size, lo, hi, default_size, top, scale=1.):
    """The documented rule for u, v or phi.  Allowed results: list of (n, size, lo, hi) or errors."""
    glo, ghi = lo is not None, hi is not None
    l = (lo if glo else 0.) * scale
    h = hi * scale if ghi else top
    bad = []
    if l < 0 or h > top * (1 + 1e-12) or l >= h:
        bad.append('ValueError')
    if None not in (n, size, lo, hi):
        bad.append('TypeError')
    if bad:
        return bad
    s = size if size is not None else default_size
    if n is None:
        q = (h - l) / s
        if abs(q - round(q)) < 1e-8:
            return None
        n = math.ceil(q)
        return [(n, (h - l) / n, l, h)]
    if size is None or (glo and ghi):
        return [(n, (h - l) / n, l, h)]
    res = []
    if glo or not ghi:
        res.append((l, min(l + n * s, top)))
    if ghi or not glo:
        res.append((max(h - n * s, 0.), h))
    return [((n, (b - a) / n, a, b)) for a, b in res]


def match(got, want):
    for w in want:
        if not isinstance(w, str) and got[0] == w[0] and near(got[1:], w[1:]):
            return w
    return None


def run_sep3(case, rec):
    _, name, bt, units, via, extra = case
    for kw in combos(VALUES):
        want = spec('Log', *[kw.get(k) for k in ('nbins', 'bin_size', 'min_sep', 'max_sep')])
        full = dict(kw, bin_type=bt, **extra)
        if bt == 'LogSAS' and via == 'kwargs':
            full.pop('bin_type')      # It is the default.
        if units:
            full['sep_units'] = units
        lab = dict(config=full, cls=name, via=via)
        c, err = build_corr(name, full, via, rec)
        if want is None:
            continue
        if len(want) == 1:
            check_refusal(rec, c, err, want, lab)
        elif rec.check(c is not None, 'an allowed request was refused', err=err, **lab):
            check3(rec, c, want, bt, units, kw, extra, lab)


def check3(rec, c, want, bt, units, kw, extra, lab):
    nb, bs, lo, hi = want
    lab = dict(lab, want=want, got=[c.nbins, c.bin_size, c.min_sep, c.max_sep])
    if not rec.check(c.nbins == nb and near([c.bin_size, c.min_sep, c.max_sep], [bs, lo, hi]), 'the binning is not the one asked for', **lab):
        return
    rec.check(c.bin_type == bt and UNIT.get(c.sep_units) == UNIT[units] and bool(c.sep_units) == bool(units), 'bin type or units are not those asked for', **lab)
    logr = math.log(lo) + bs * (np.arange(nb) + 0.5)
    rec.check(near(c.logr1d, logr) and near(np.log(c.rnom1d), logr), 'centers of the separation bins are wrong', **lab)
    dflt = kw.get('bin_size', bs)
    one = np.ones
    if bt == 'LogRUV':
        dims = []
        for v in 'uv':
            w = side(extra.get('n%sbins' % v), extra.get('%sbin_size' % v), extra.get('min_' + v), extra.get('max_' + v), dflt, 1.)
            if w is None:
                return
            got = [getattr(c, k % v) for k in ('n%sbins', '%sbin_size', 'min_%s', 'max_%s')]
            w1 = match(got, w)
            if not rec.check(w1 is not None, 'the %s bins are not the ones asked for' % v, got_=got, want_=w, **lab):
                return
            dims.append(got)
        u = dims[0][2] + dims[0][1] * (np.arange(dims[0][0]) + 0.5)
        v = dims[1][2] + dims[1][1] * (np.arange(dims[1][0]) + 0.5)
        v = np.concatenate([-v[::-1], v])
        shape = (nb, len(u), len(v))
        U, V, L = np.broadcast_arrays(u[None, :, None], v[None, None, :], logr[:, None, None])
        ok = near(c.u1d, u) and near(c.v1d, v) and near(c.u, U) and near(c.v, V) and near(c.logr, L) and near(np.log(c.rnom), L)
    elif bt == 'LogSAS':
        pu = UNIT[extra.get('phi_units', '')]
        w = side(extra.get('nphi_bins'), extra.get('phi_bin_size'), extra.get('min_phi'), extra.get('max_phi'), dflt, math.pi, pu)
        if w is None:
            return
        got = [c.nphi_bins, c.phi_bin_size, c.min_phi, c.max_phi]
        if not rec.check(match(got, w) is not None, 'the phi bins are not the ones asked for', got_=got, want_=w, **lab):
            return
        phi = got[2] + got[1] * (np.arange(got[0]) + 0.5)
        shape = (nb, nb, len(phi))
        A, B, P = np.broadcast_arrays(logr[:, None, None], logr[None, :, None], phi[None, None, :])
        ok = near(c.phi1d, phi) and near(c.phi, P) and near(c.logd2, A) and near(c.logd3, B) and near(np.log(c.d2nom), A) and near(np.log(c.d3nom), B)
    else:
        mx = extra['max_n']
        n = np.arange(-mx, mx + 1)
        shape = (nb, nb, 2 * mx + 1)
        A, B, N = np.broadcast_arrays(logr[:, None, None], logr[None, :, None], n[None, None, :])
        ok = c.max_n == mx and near(c.n1d, n) and near(c.n, N) and near(c.logd2, A) and near(c.logd3, B) and near(np.log(c.d2nom), A)
    rec.check(ok, 'centers of the bins are not those of the binning asked for', **lab)
    for k in ('weight', 'ntri', 'meand1', 'meand2', 'meand3', 'meanlogd1', 'meanlogd2', 'meanlogd3'):
        v = getattr(c, k)
        rec.check(v.shape == shape and not v.any(), '%s of a new object is not an array of zeros of the shape of the bins' % k, **lab)
    rec.nontrivial += 1
    rec.outcome(bt, shape, round(bs, 9), round(lo, 9))


SIDE = {'u': {'nubins': [1, 4], 'ubin_size': [0.09, 0.3, 0.7], 'min_u': [0., 0.15, 0.6, -0.1], 'max_u': [0.5, 1.0, 1.1]},
        'v': {'nvbins': [1, 4], 'vbin_size': [0.09, 0.3, 0.7], 'min_v': [0., 0.15, 0.6, -0.1], 'max_v': [0.5, 1.0, 1.1]},
        'phi': {'nphi_bins': [1, 5], 'phi_bin_size': [0.11, 0.5, 2.1], 'min_phi': [0., 0.3, 2.0, -0.1], 'max_phi': [1.1, 3.0, 3.3]}}
FOREIGN = {'LogRUV': ['min_phi', 'max_phi', 'nphi_bins', 'phi_bin_size', 'max_n'],
           'LogSAS': ['min_u', 'max_u', 'nubins', 'ubin_size', 'min_v', 'max_v', 'nvbins', 'vbin_size'],
           'LogMultipole': ['min_u', 'max_u', 'nubins', 'ubin_size', 'min_v', 'max_v', 'nvbins', 'vbin_size', 'min_phi', 'max_phi', 'nphi_bins',
                            'phi_bin_size']}
BASE3 = [dict(nbins=3, min_sep=1., max_sep=20.), dict(bin_size=0.43, min_sep=1., max_sep=20.), dict(nbins=3, bin_size=0.37, max_sep=20.)]


def run_side(case, rec):
    _, name, v, via, base, punits = case
    bt = 'LogSAS' if v == 'phi' else 'LogRUV'
    keys = list(SIDE[v])
    want = spec('Log', *[base.get(k) for k in ('nbins', 'bin_size', 'min_sep', 'max_sep')])
    for extra in combos(SIDE[v]):
        pu = UNIT[punits]
        if punits:
            extra = dict(extra, phi_units=punits)
            for k in ('min_phi', 'max_phi'):
                if k in extra:
                    extra[k] = extra[k] / pu
        full = dict(base, bin_type=bt, **extra)
        lab = dict(config=full, cls=name, via=via)
        top = math.pi if v == 'phi' else 1.
        w = side(*[extra.get(k) for k in keys], base.get('bin_size', want[1]), top, pu if v == 'phi' else 1.)
        c, err = build_corr(name, full, via, rec)
        if w is None:
            continue
        if isinstance(w[0], str):
            check_refusal(rec, c, err, w, lab)
        elif rec.check(c is not None, 'an allowed request was refused', err=err, **lab):
            check3(rec, c, want, bt, '', base, extra, lab)


def run_foreign(case, rec):
    _, name, bt, base, via = case
    own = {'LogMultipole': dict(max_n=3)}.get(bt, {})
    for key in FOREIGN[bt]:
        val = 2 if key.startswith('n') or key == 'max_n' else 0.2
        full = dict(base, bin_type=bt, **dict(own, **{key: val}))
        c, err = build_corr(name, full, via, rec)
        check_refusal(rec, c, err, ('TypeError',), dict(config=full, cls=name))
    if bt == 'LogMultipole':
        for mx, want in ((None, 'TypeError'), (-1, 'ValueError'), (0, None), (5, None)):
            full = dict(base, bin_type=bt)
            if mx is not None:
                full['max_n'] = mx
            c, err = build_corr(name, full, via, rec)
            if want:
                check_refusal(rec, c, err, (want,), dict(config=full, cls=name))
            else:
                rec.check(c is not None and c.max_n == mx, 'an allowed request was refused', config=full, err=err)
    for key, val in (('bin_type', 'Log'), ('bin_type', 'TwoD'), ('metric', 'Rperp'), ('metric', 'Rlens'), ('metric', 'Foo'), ('var_method', 'Foo'),
                     ('split_method', 'Foo'), ('sep_units', 'Foo'), ('verbose', 9)):
        full = dict(base, bin_type=bt, **own)
        full[key] = val
        rec.step()
        c, err = attempt(lambda: cls(name)(**full))
        check_refusal(rec, c, err, ('ValueError', 'TypeError'), dict(config=full, cls=name))
    rec.step()
    c, err = attempt(lambda: cls(name)(**dict(base, bin_type=bt, nbinz=3, **own)))
    check_refusal(rec, c, err, ('TypeError',), dict(config='unknown parameter nbinz', cls=name))


def run_other2(case, rec):
    _, name, base, bt = case
    for key, val, want in (('bin_type', 'RUV', 1), ('metric', 'Foo', 1), ('var_method', 'Foo', 1), ('split_method', 'Foo', 1), ('sep_units', 'Foo', 1),
                           ('verbose', 9, 1), ('brute', 3, 1), ('m2_uform', 'Foo', 1), ('nbinz', 3, 1), ('max_n', 3, 1), ('min_u', 0.1, 1),
                           ('brute', 1, 0), ('brute', 2, 0), ('brute', True, 0), ('brute', False, 0),
                           ('split_method', 'median', 0), ('split_method', 'middle', 0), ('split_method', 'random', 0),
                           ('bin_slop', 0.3, 0), ('bin_slop', 0, 0), ('angle_slop', 0.02, 0), ('angle_slop', 0, 0), ('min_top', 4, 0), ('max_top', 5, 0), ('max_top', 0, 0),
                           ('min_rpar', -3., 0), ('max_rpar', 3., 0), ('xperiod', 3., 0), ('yperiod', 2., 0), ('zperiod', 1., 0),
                           ('var_method', 'bootstrap', 0), ('num_bootstrap', 17, 0), ('output_dots', True, 0)):
        full = dict(base, bin_type=bt)
        full[key] = val
        rec.step()
        c, err = attempt(lambda: cls(name)(**full))
        lab = dict(config=full, cls=name)
        if want:
            check_refusal(rec, c, err, ('ValueError', 'TypeError'), lab)
            continue
        if rec.check(c is not None, 'an allowed request was refused', err=err, **lab):
            got = getattr(c, key)
            rec.check(got == val and (key != 'brute' or type(got) is type(val)), 'a parameter is not the one asked for', got=got, **lab)
            dflt = cls(name)(**dict(base, bin_type=bt))
            for k in ('brute', 'split_method', 'bin_slop', 'angle_slop', 'min_top', 'max_top', 'min_rpar', 'max_rpar', 'xperiod', 'yperiod', 'zperiod', 'var_method',
                      'num_bootstrap', 'nbins', 'bin_size', 'min_sep', 'max_sep', 'bin_type', 'sep_units'):
                if k != key:
                    rec.check(getattr(c, k) == getattr(dflt, k), 'one parameter changes another', key=key, other=k, **lab)
    full = dict(base, bin_type=bt, period=7.)
    c = cls(name)(**full)
    rec.check((c.xperiod, c.yperiod, c.zperiod) == (7., 7., 7.), 'period does not set all three')
    c = cls(name)(**dict(full, yperiod=3.))
    rec.check((c.xperiod, c.yperiod, c.zperiod) == (7., 3., 7.), 'yperiod does not override period')
    rec.step(2)
    c, err = attempt(lambda: cls(name)(**dict(base, bin_type=bt, min_rpar=2., max_rpar=1.)))
    check_refusal(rec, c, err, ('ValueError',), dict(config='min_rpar > max_rpar'))
    c = cls(name)(**dict(base, bin_type=bt, min_rpar=-2., max_rpar=1.))
    rec.check((c.min_rpar, c.max_rpar) == (-2., 1.), 'min_rpar, max_rpar not as asked for')


# ------------------------------------------------------------------------- which combinations make sense
def letters(name):
    a = np.array([0.3, -0.2, 0.5, 0.1])
    d = {}
    for l in name:
        d.update({'N': {}, 'K': dict(k=a)}.get(l, {l.lower() + '1': a, l.lower() + '2': -a[::-1]}))
    return d


def cat(coords, name, shift=0):
    a = np.array([0.1, 0.9, 1.7, 2.2]) + 0.13 * shift
    b = np.array([0.3, 1.1, 0.2, 1.9]) - 0.07 * shift
    f = letters(name)
    if coords == 'flat':
        return treecorr.Catalog(x=a, y=b, **f)
    if coords == 'spherical':
        return treecorr.Catalog(ra=a, dec=b * 0.5, ra_units='rad', dec_units='rad', **f)
    return treecorr.Catalog(ra=a, dec=b * 0.5, r=a + b + 1, ra_units='rad', dec_units='rad', **f)


def allowed(metric, coords, bt, rpar, period, units, three):
    """Documented validity: True, False, or None where the documentation does not say."""
    c1, c2 = coords[0], coords[-1]
    auto = len(coords) == 1
    eff = c1
    if metric == 'Rlens':
        if auto or c1 != '3d' or any(c == 'flat' for c in coords):
            return False
        if rpar and c2 == 'spherical':
            return None
    elif metric == 'Arc':
        if 'flat' in coords:
            return False
        if 'spherical' in coords:
            eff = 'spherical'
    else:
        if len(set(coords)) > 1:
            return False
        if metric in ('Rperp', 'FisherRperp', 'OldRperp') and c1 != '3d':
            return False
        if metric == 'Periodic' and c1 == 'spherical':
            return False
    if metric == 'Periodic':
        if 'x' not in period or 'y' not in period or (eff == '3d' and 'z' not in period):
            return False
    elif period:
        return False
    if rpar and eff != '3d':
        return False
    if bt == 'TwoD' and (eff != 'flat' or metric != 'Euclidean'):
        return False
    if units and eff == '3d' and metric != 'Arc':
        return False
    return True


def state(c):
    return [np.array(getattr(c, k)) for k in (('weight', 'npairs', 'meanr', 'meanlogr') if hasattr(c, 'npairs') else ('weight', 'ntri', 'meand1', 'meanlogd2'))] + \
        [np.array(getattr(c, '_xi%d' % i)) for i in range(1, 5) if hasattr(c, '_xi%d' % i)]


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def run_valid(case, rec):
    _, name, bt, metric, how, rpar, period, units = case
    three = len(name) == 3
    kw = dict(nbins=3, min_sep=0.1, max_sep=2.5, bin_type=bt)
    if bt == 'TwoD':
        kw = dict(nbins=3, max_sep=2.5, bin_type=bt)
    if bt == 'LogMultipole':
        kw['max_n'] = 2
    if bt == 'LogSAS':
        kw['nphi_bins'] = 3
    if bt == 'LogRUV':
        kw.update(nubins=2, nvbins=2)
    kw.update(rpar)
    p = {'': {}, 'xyz': dict(period=9.), 'xy': dict(xperiod=9., yperiod=9.), 'x': dict(xperiod=9.), 'z': dict(zperiod=9.), 'yz': dict(yperiod=9., zperiod=9.),
         'xyz3': dict(xperiod=8., yperiod=9., zperiod=10.)}[period]
    kw.update(p)
    if units:
        kw['sep_units'] = units
    if how == 'config':
        kw['metric'] = metric
    arg = {} if how == 'config' else dict(metric=metric)
    if how == 'replace':
        kw['metric'] = 'Arc' if metric != 'Arc' else 'Euclidean'
    lab = dict(config=kw, cls=name, metric=metric)
    kinds = ['flat', 'spherical', '3d']
    if three:
        sets = [(a,) for a in kinds] + list(itertools.product(kinds, repeat=2)) + list(itertools.product(kinds, repeat=3))
        if name[1] != name[2] or name[0] != name[1]:
            sets = [s for s in sets if len(s) == 3 or (len(s) == 2 and name[1] == name[2])]
    else:
        sets = [(a,) for a in kinds] + list(itertools.product(kinds, repeat=2))
        if name[0] != name[1]:
            sets = [s for s in sets if len(s) > 1]
    c = cls(name)(**kw)
    fresh = state(c)
    good = []
    for s in sets:
        cats = [cat(k, l, i) for i, (k, l) in enumerate(zip(s, name if len(s) != 2 or not three else [name[0], name[1]]))]
        if three and len(set(s)) > 1 and metric == 'Rlens':
            continue
        want = allowed(metric, s, bt, rpar, period, units, three)
        rec.step()
        _, err = attempt(lambda: c.process(*cats, **arg))
        if want is None:
            c.clear()
            c = c.copy()
            continue
        if want:
            if not rec.check(err is None, 'an allowed combination was refused', coords=s, err=err, **lab):
                continue
            good.append((cats, state(c)))
            c.clear()
            c = c.copy()      # (The extension notes a change of coordinates of one object on stderr.)
            rec.nontrivial += 1
        else:
            rec.check(err in ('ValueError', 'TypeError'), 'a combination that makes no sense was not refused', coords=s, err=err, **lab)
            rec.check(same(state(c), fresh), 'a refused request changed the results', coords=s, **lab)
        rec.outcome(want, bt, metric, s, units, period, bool(rpar))
    for cats, st in good:
        c2 = cls(name)(**kw)
        c2.process(*cats, **arg)
        rec.step()
        rec.check(same(state(c2), st), 'refused requests in between change a later result', **lab)


# ------------------------------------------------------------------------- catalogs
POS = ['x', 'y', 'z', 'ra', 'dec', 'r']
UN = ['x_units', 'y_units', 'ra_units', 'dec_units']


def run_catpos(case, rec):
    _, xyz = case
    col = dict(x=[1., 2., 3.5], y=[0.5, -1., 2.], z=[4., 5., 7.], ra=[10., 20., 31.], dec=[-5., 0., 44.], r=[1.5, 2.5, 4.])
    un = dict(x_units='deg', y_units='arcmin', ra_units='deg', dec_units='deg')
    for n in range(64):
        pos = [k for i, k in enumerate(POS) if n >> i & 1]
        for m in range(16):
            u = [k for i, k in enumerate(UN) if m >> i & 1]
            kw = {k: col[k] for k in pos}
            kw.update({k: un[k] for k in u})
            if xyz:
                kw['allow_xyz'] = True
            has = set(pos)
            bad = False
            if ('x' in has) != ('y' in has) or ('ra' in has) != ('dec' in has):
                bad = True
            if 'x' not in has and 'ra' not in has:
                bad = True
            if 'x' in has and not xyz and (has & {'ra', 'dec', 'r'}):
                bad = True
            if 'x' not in has and 'z' in has:
                bad = True
            if ('x_units' in u) != ('y_units' in u) or ('x_units' in u and 'x' not in has):
                bad = True
            if 'ra' in has:
                bad = bad or 'ra_units' not in u or 'dec_units' not in u
            else:
                bad = bad or 'ra_units' in u or 'dec_units' in u
            if not bad and 'x' in has and 'r' in has and 'ra' not in has:
                continue    # allow_xyz with r alone: not documented
            rec.step()
            c, err = attempt(lambda: treecorr.Catalog(**kw))
            lab = dict(config=kw)
            if bad:
                rec.check(c is None, 'columns that do not define positions were not refused', **lab)
                rec.outcome('refused', err)
                continue
            if not rec.check(c is not None, 'an allowed catalog was refused', err=err, **lab):
                continue
            if 'x' not in has or has >= {'ra', 'dec'}:
                want = '3d' if 'r' in has else 'spherical'
            else:
                want = '3d' if 'z' in has else 'flat'
            rec.check(c.coords == want, 'wrong coordinate system', got=c.coords, want=want, **lab)
            rec.check(c.ntot == c.nobj == 3 and np.array_equal(c.w, np.ones(3)), 'wrong number of objects or weights', **lab)
            for k in pos:
                f = 1.
                if k in un:
                    f = UNIT[un[k]]
                if k + '_units' in u:
                    f = UNIT[un[k + '_units']]
                rec.check(near(getattr(c, k), np.array(col[k]) * f), 'a position column does not hold what was given', col=k, got=getattr(c, k), **lab)
            rec.nontrivial += 1
            rec.outcome(c.coords, tuple(pos), tuple(u))


def run_catlen(case, rec):
    _, col, coords = case
    n = 5
    base = dict(x=np.arange(n) * 1., y=np.arange(n) * 2.) if coords == 'flat' else \
        dict(ra=np.arange(n) * 1., dec=np.arange(n) * 2., ra_units='deg', dec_units='deg')
    pair = {a + i: a + j for a in 'zvgtq' for i, j in ('12', '21')}
    whole = dict(flag=np.zeros(n, int), patch=np.arange(n))
    for m in (n, n - 1, n + 1, 1, 0, None):
        kw = dict(base)
        if col in pair:
            kw[pair[col]] = np.ones(n)
        if m is None:
            kw.pop(col, None)
            if col not in pair and col not in base:
                continue
        else:
            v = (np.arange(m) if col == 'patch' else np.zeros(m, int) if col == 'flag' else np.arange(m) + 1.)
            kw[col] = v
        lab = dict(config='%s with %s elements of %d' % (col, m, n), coords=coords)
        if m == 1 and col == 'patch':
            continue   # one number may stand for all objects
        rec.step()
        c, err = attempt(lambda: treecorr.Catalog(**kw))
        if m == n:
            if rec.check(c is not None, 'an allowed catalog was refused', err=err, **lab):
                if col != 'flag':
                    f = UNIT['deg'] if col in ('ra', 'dec') else 1.
                    rec.check(near(getattr(c, col), v * f), 'a column does not hold what was given', got=getattr(c, col), **lab)
                rec.nontrivial += 1
        else:
            rec.check(c is None and err in ('ValueError', 'TypeError'), 'a catalog whose columns do not fit together was not refused', err=err, **lab)
        rec.outcome(col, m, err)


def run_catpair(case, rec):
    """Every presence pattern of the two components of the five complex fields."""
    _, first = case
    n = 3
    vals = np.arange(n) + 1.
    names = 'zvgtq'
    for pat in itertools.product(range(4), repeat=4):
        pat = (first,) + pat
        kw = dict(x=vals, y=vals * 2)
        for l, p in zip(names, pat):
            for bit, i in ((1, '1'), (2, '2')):
                if p & bit:
                    kw[l + i] = vals * (10 * bit + names.index(l))
        rec.step()
        c, err = attempt(lambda: treecorr.Catalog(**kw))
        if any(p in (1, 2) for p in pat):
            rec.check(c is None and err == 'TypeError', 'half of a complex field was not refused', config=sorted(kw), err=err)
        elif rec.check(c is not None, 'an allowed catalog was refused', config=sorted(kw), err=err):
            ok = all((getattr(c, l + i) is None) if p == 0 else np.array_equal(getattr(c, l + i), kw[l + i])
                     for l, p in zip(names, pat) for i in '12')
            rec.check(ok, 'a field does not hold what was given', config=sorted(kw))
            rec.nontrivial += 1
        rec.outcome(pat)


def run_catrows(case, rec):
    _, n = case
    x = np.arange(n) + 0.5
    for first in (None, 0, 1, 2, n, n + 1):
        for last in (None, -1, 1, 2, n - 1, n, n + 3):
            for nth in (None, 0, 1, 2, 3, n + 1):
                kw = {k: v for k, v in (('first_row', first), ('last_row', last), ('every_nth', nth)) if v is not None}
                f = 1 if first is None else first
                l = n if last is None or last <= 0 else last
                e = 1 if nth is None else nth
                want = None if f < 1 or e < 1 or l < f else list(range(f - 1, min(l, n), e))
                rec.step()
                c, err = attempt(lambda: treecorr.Catalog(x=x, y=-x, k=x * 2, w=x + 1, **kw))
                lab = dict(config=kw, n=n)
                if not want:
                    rec.check(c is None and err == 'ValueError', 'a selection of rows that is not possible was not refused', err=err, **lab)
                elif rec.check(c is not None, 'an allowed catalog was refused', err=err, **lab):
                    rec.check(np.array_equal(c.x, x[want]) and np.array_equal(c.y, -x[want]) and np.array_equal(c.k, 2 * x[want])
                              and np.array_equal(c.w, x[want] + 1) and c.ntot == len(want), 'the rows are not the ones asked for', got=c.x, want=want, **lab)
                    rec.nontrivial += 1
                rec.outcome(first, last, nth, want)


def run_catpatch(case, rec):
    _, coords = case
    n = 6
    base = dict(x=np.arange(n) * 1., y=(np.arange(n) * 2.) % 5) if coords == 'flat' else \
        dict(ra=np.arange(n) * 10., dec=np.arange(n) * 12., ra_units='deg', dec_units='deg')
    cen = np.array([[1., 1.], [4., 2.]]) if coords == 'flat' else np.array([[1., 0, 0], [0, 0.6, 0.8]])
    arr = np.array([0, 1, 1, 2, 0, 2])
    for patch in (None, 'arr', 0, 1, 2):
        for npatch in (None, 0, 1, 2, 3, 5, n + 1):
            for pc in (None, 'good', 'bad'):
                kw = dict(base)
                if patch is not None:
                    kw['patch'] = arr if patch == 'arr' else patch
                if npatch is not None:
                    kw['npatch'] = npatch
                if pc:
                    kw['patch_centers'] = cen if pc == 'good' else cen[:, :1]
                lab = dict(config=dict(patch=patch, npatch=npatch, patch_centers=pc), coords=coords)
                want = None
                if patch == 'arr' and pc:
                    want = 'ValueError'
                elif pc and npatch is not None and npatch != 2:
                    want = 'ValueError'
                elif npatch is not None and npatch < 1:
                    want = 'ValueError'
                elif pc == 'bad':
                    want = 'ValueError'
                elif patch == 'arr' and npatch == 1:
                    continue      # 1 is also the default
                elif patch == 'arr' and npatch == 2:
                    want = 'ValueError'
                elif patch in (1, 2) and npatch is None and not pc:
                    want = 'ValueError'
                elif patch is None and npatch is not None and npatch > n:
                    want = 'ValueError'
                elif isinstance(patch, int):
                    continue      # one patch out of several: C14
                rec.step()
                c, err = attempt(lambda: treecorr.Catalog(rng=np.random.default_rng(5), **kw))
                if want:
                    rec.check(c is None and (err == want or pc == 'bad'), 'patches that do not fit together were not refused', err=err, **lab)
                elif rec.check(c is not None, 'an allowed catalog was refused', err=err, **lab):
                    if pc:
                        k = 2
                    elif patch == 'arr':
                        k = max(3, npatch or 0)
                    else:
                        k = npatch or 1
                    rec.check(c.npatch == k, 'wrong number of patches', got=c.npatch, want=k, **lab)
                    if patch == 'arr':
                        rec.check(np.array_equal(c.patch, arr), 'patch numbers are not the ones given', **lab)
                    elif k > 1:
                        rec.check(c.patch is not None and len(c.patch) == n and set(c.patch) <= set(range(k)), 'patch numbers out of range', **lab)
                    else:
                        rec.check(c.patch is None, 'patch numbers without patches', **lab)
                    rec.nontrivial += 1
                rec.outcome(patch, npatch, pc, err)


RUN = {'sep2': run_sep2, 'pairs': run_pairs, 'sep3': run_sep3, 'side': run_side, 'foreign': run_foreign, 'other2': run_other2, 'valid': run_valid,
       'catpos': run_catpos, 'catlen': run_catlen, 'catpair': run_catpair, 'catrows': run_catrows, 'catpatch': run_catpatch}


def run(case, rec):
    RUN[case[0].split('-')[0]](case, rec)


def cases(thorough):
    for bt in ('Log', 'Linear', 'TwoD'):
        for units in ('', 'arcmin', 'degrees', 'hours'):
            for via in ('kwargs', 'config', 'override', 'none', 'text'):
                for name in C2 if thorough or (via == 'kwargs' and units == '') else ('NN', 'GG'):
                    yield ('sep2', name, bt, units, via)
    sizes = {'Log': [dict(nbins=n, min_sep=a, max_sep=b) for n in (1, 2, 5) for a, b in ((0.5, 5.), (3., 3.5), (1., 40.))]
             + [dict(bin_size=s, min_sep=0.5, max_sep=b) for s in (0.1, 0.37, 2.) for b in (5., 19.)]
             + [dict(nbins=4, bin_size=s, **{k: 3.}) for s in (0.1, 0.37) for k in ('min_sep', 'max_sep')]}
    sizes['Linear'] = [dict(nbins=n, min_sep=a, max_sep=b) for n in (1, 2, 5) for a, b in ((0.5, 5.), (3., 3.5), (0.001, 10.))] \
        + [dict(bin_size=s, min_sep=0.5, max_sep=b) for s in (0.5, 0.37, 2.) for b in (5., 19.)] \
        + [dict(nbins=4, bin_size=s, **{k: 3.}) for s in (0.1, 0.37) for k in ('min_sep', 'max_sep')]
    sizes['TwoD'] = [dict(nbins=n, max_sep=b, **m) for n in (1, 2, 3, 4, 5) for b in (2., 7.) for m in ({}, dict(min_sep=0.7))] \
        + [dict(bin_size=s, max_sep=5.) for s in (0.9, 2., 2.5)] + [dict(bin_size=1.1, nbins=n) for n in (3, 4)]
    for bt in sizes:
        for kw in sizes[bt]:
            for opt in (dict(bin_slop=0, angle_slop=0), dict(brute=True), dict(bin_slop=0, angle_slop=0, max_top=0), dict(bin_slop=0, angle_slop=0, min_top=0, max_top=2)):
                for coords, metric, units in [('flat', 'Euclidean', u) for u in ('', 'arcmin', 'degrees')] + \
                        ([('sphere', m, u) for m in ('Arc', 'Euclidean') for u in ('arcmin', 'degrees', 'hours', '', 'arcsec')] + [('3d', 'Euclidean', '')]
                         if bt != 'TwoD' else []):
                    for name in ('NN', 'NK', 'NG') if thorough else ('NN',) if opt.get('max_top') != 0 else ('NG',):
                        yield ('pairs-' + coords, name, bt, coords, metric, units, kw, opt)
    for bt, extra in (('LogRUV', dict(nubins=2, nvbins=3)), ('LogRUV', {}), ('LogSAS', dict(nphi_bins=3)), ('LogSAS', {}), ('LogMultipole', dict(max_n=2))):
        for via in ('kwargs', 'config', 'override', 'none', 'text'):
            if via == 'text' and 'nubins' in extra:
                continue
            for units in ('', 'arcmin'):
                for name in C3 if thorough or (via == 'kwargs' and units == '' and extra) else ('NNN', 'GGG'):
                    yield ('sep3', name, bt, units, via, extra)
    for v in ('u', 'v', 'phi'):
        for base in BASE3:
            for via in ('kwargs', 'config'):
                for pu in ('',) if v != 'phi' else ('', 'deg', 'arcmin', 'hours'):
                    for name in C3 if thorough else ('NNN', 'KKK'):
                        yield ('side-' + v, name, v, via, base, pu)
    for name in C3:
        for bt in FOREIGN:
            for base in BASE3:
                yield ('foreign', name, bt, base, 'kwargs')
    for name in C2:
        for bt, base in (('Log', dict(nbins=3, min_sep=1., max_sep=20.)), ('Linear', dict(nbins=3, min_sep=1., max_sep=20.)), ('TwoD', dict(nbins=3, max_sep=20.))):
            yield ('other2', name, base, bt)
    rp = [{}, dict(min_rpar=-1.), dict(max_rpar=1.), dict(min_rpar=-1., max_rpar=1.)]
    per = ['', 'xyz', 'xy', 'x', 'z', 'yz', 'xyz3']
    for name in C2 if thorough else ('NN', 'NK', 'GG', 'KZ'):
        for bt in ('Log', 'Linear', 'TwoD'):
            for metric in ('Euclidean', 'Rperp', 'FisherRperp', 'OldRperp', 'Rlens', 'Arc', 'Periodic'):
                for how in ('config', 'arg', 'replace'):
                    for rpar in rp:
                        for period in per:
                            for units in ('', 'degrees'):
                                yield ('valid', name, bt, metric, how, rpar, period, units)
    for name in C3 if thorough else ('NNN', 'GGG'):
        for bt in ('LogRUV', 'LogSAS', 'LogMultipole'):
            for metric in ('Euclidean', 'Arc', 'Periodic'):
                for how in ('config', 'arg', 'replace'):
                    for period in per:
                        for units in ('', 'degrees'):
                            yield ('valid', name, bt, metric, how, {}, period, units)
    for xyz in (False, True):
        yield ('catpos', xyz)
    for col in ['w', 'wpos', 'k', 'flag', 'patch', 'z', 'x', 'y'] + [a + i for a in 'zvgtq' for i in '12']:
        yield ('catlen', col, 'flat')
    for col in ['w', 'wpos', 'k', 'flag', 'patch', 'r', 'ra', 'dec'] + [a + i for a in 'zvgtq' for i in '12']:
        yield ('catlen', col, 'sphere')
    for first in range(4):
        yield ('catpair', first)
    for n in (1, 2, 5, 8):
        yield ('catrows', n)
    for coords in ('flat', 'sphere'):
        yield ('catpatch', coords)


if __name__ == '__main__':
    ck = core.Check('C17', bounds=(
        'every subset of nbins, bin_size, min_sep, max_sep x 2-3 values each x bin types x units x five ways of passing them x classes; every '
        'subset of the four u, v and phi parameters x 2-4 values; every foreign or unknown parameter; pairs at 5 places of each bin and outside; '
        'every metric x coordinate systems of the catalogs x bin type x rpar x periods x units, as a history of refused and allowed requests on one object; '
        'every subset of position columns x units, presence pattern of complex fields, wrong length, row selection, patch specification'))
    ck.run(cases(ck.thorough), run)
    ck.finish()
