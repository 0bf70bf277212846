"""C14: finding points near a place, and sampling pairs."""
import itertools, math, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom, ref2, rnd, two
SHADOW = rnd.activate()
import numpy as np

POSN = ('x', 'y', 'z', 'ra', 'dec', 'r', 'ra_units', 'dec_units')


def points(spec, coords, wtype, cols=()):
    kw = geom.catalog_kwargs(spec, coords, 0, wtype)
    kw = {k: v for k, v in kw.items() if k in POSN or k == 'w' or k in cols}
    return kw


def xyz(kw, unit=False):
    if 'ra' in kw:
        ra, dec = np.radians(kw['ra']), np.radians(kw['dec'])
        p = np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)]).T
        if 'r' in kw and not unit:
            p = p * np.asarray(kw['r'])[:, None]
        return p
    return np.array([kw['x'], kw['y'], kw['z'] if 'z' in kw else np.zeros(len(kw['x']))]).T


# ------------------------------------------------------------------ near
FIELDS = [dict(), dict(min_size=0.31), dict(min_size=2.7), dict(max_top=0), dict(min_top=4), dict(brute=True), dict(split_method='median'),
          dict(split_method='middle', min_size=0.05), dict(split_method='random', max_top=1), dict(max_size=1.1)]
COLS = {'N': (), 'K': ('k',), 'Z': ('z1', 'z2'), 'V': ('v1', 'v2'), 'G': ('g1', 'g2'), 'T': ('t1', 't2'), 'Q': ('q1', 'q2')}


def targets(p, coords, kw):
    """Places to look from: some of the points, midpoints, and others."""
    n = len(p)
    t = [p[i] for i in sorted(set([0, n // 2, n - 1]))]
    t += [0.5 * (p[0] + p[n - 1]), p.mean(axis=0) + 0.01, p[0] + [3., -2., 0.], p[0] * 1.0001]
    t += [np.array([100., 40., 0.]), np.zeros(3)]
    if coords == 'flat':
        t = [a * [1, 1, 0] for a in t]
    if coords == 'sphere':
        t = [a / np.sqrt((a * a).sum()) for a in t if (a * a).sum() > 1e-6]
        t.append(-t[0])
    return t


def run_near(rec, coords, spec, wtype, which, io, opt):
    import treecorr, coord
    kw = points(spec, coords, wtype, COLS[which])
    cat = treecorr.Catalog(keep_zero_weight=(io % 2 == 0), **kw)
    w = kw.get('w', np.ones(len(kw.get('x', kw.get('ra')))))
    keep = np.ones(len(w), bool) if io % 2 == 0 else w != 0
    sph = coords == 'sphere'
    p = xyz(kw)[keep]
    fcoords = coords
    o = dict(opt)
    if coords == 'radecr' and (io + len(p)) % 3 == 0:
        o['coords'] = 'spherical'
        p = xyz(kw, True)[keep]
        fcoords, sph = 'sphere', True
    f = getattr(cat, 'get%sField' % which)(**o)
    far = 10. * (1 + np.abs(p).max())
    ext = np.sqrt(((p.max(axis=0) - p.min(axis=0))**2).sum())
    for t in targets(p, fcoords, kw):
        d = np.sqrt(((p - t)**2).sum(axis=1))
        s = np.unique(np.round(d, 9))
        s = s[s > 1e-6]
        mid = list(0.5 * (s[1:] + s[:-1]))
        seps = [1e-7 + 1e-6 * ext] + mid[::max(1, len(mid) // 8)] + ([0.5 * s[0], s[-1] * 1.0001] if len(s) else []) + [far]
        if len(s) > 1:
            seps += [s[len(s) // 2] * 1.000001, s[len(s) // 2] * 0.999999]
        for j, sep in enumerate(seps):
            # (cell sizes are single precision numbers)
            if np.min(np.abs(d - sep)) < 2e-7 * (np.abs(p - t).max() + ext):
                continue
            want = np.nonzero(d <= sep)[0]
            if sph:
                if sep >= 2. * math.sin(0.5 * math.pi) - 1e-9:
                    ang = math.pi        # everything
                    if np.abs(d - 2).min() < 1e-6:
                        continue
                else:
                    ang = 2. * math.asin(sep / 2.)
                ra, dec = math.atan2(t[1], t[0]), math.asin(max(-1, min(1, t[2])))
                # (the parsed separation must be the chord of this angle)
                a = [lambda: ((ra, dec, ang), dict(ra_units='rad', dec_units='rad', sep_units='rad')),
                     lambda: ((), dict(ra=math.degrees(ra), dec=math.degrees(dec), sep=math.degrees(ang) * 60, ra_units='deg', dec_units='deg', sep_units='arcmin')),
                     lambda: ((coord.CelestialCoord(ra * coord.radians, dec * coord.radians), ang * coord.radians), {})][j % 3]()
            elif coords == 'flat':
                a = [lambda: ((t[0], t[1], sep), {}), lambda: ((), dict(x=t[0], y=t[1], sep=sep)), lambda: ((t[0], t[1]), dict(sep=sep))][j % 3]()
            else:
                a = [lambda: ((t[0], t[1], t[2], sep), {}), lambda: ((), dict(x=t[0], y=t[1], z=t[2], sep=sep)),
                     lambda: ((t[0], t[1], t[2]), dict(sep=sep))][j % 3]()
            rec.step(2)
            got = f.get_near(*a[0], **dict(a[1]))
            num = f.count_near(*a[0], **dict(a[1]))
            rec.check(np.array_equal(got, want), 'get_near does not return the points within sep', got=got, want=want, sep=sep, target=t, opt=o)
            rec.check(num == len(want), 'count_near is not the number of points within sep', got=num, want=len(want), sep=sep, target=t, opt=o)
            rec.outcome(want)
            rec.nontrivial += 0 < len(want) < len(p)


def run_args(rec, coords):
    """Every documented way of giving the place and separation means the same; others are refused."""
    import treecorr, coord
    spec = ['st', 'halton', 40, 0]
    kw = points(spec, coords, 'w')
    cat = treecorr.Catalog(**kw)
    f = cat.getNField()
    p = xyz(kw)
    t = p[3] + 0.01 * p[5] if coords in ('flat', '3d') else p[3]
    sep = 2.1 if coords in ('flat', '3d') else 0.05 if coords == 'sphere' else 0.3
    forms, bad = [], []
    if coords == 'flat':
        v = dict(x=t[0], y=t[1], sep=sep)
        forms = [((t[0], t[1], sep), {}), ((t[0], t[1]), dict(sep=sep)), ((), v)]
        bad = [((t[0],), dict(y=t[1], sep=sep)), ((t[0], t[1]), {}), ((), dict(x=t[0], y=t[1])), ((), dict(x=t[0], sep=sep)), ((), dict(y=t[1], sep=sep)),
               ((t[0], t[1], 0., sep), {}), ((), {}), ((), dict(v, z=3)), ((), dict(v, sep_units='deg')), ((t[0], t[1], sep), dict(x=2))]
    if coords in ('3d', 'radecr'):
        v = dict(x=t[0], y=t[1], z=t[2], sep=sep)
        forms = [((t[0], t[1], t[2], sep), {}), ((t[0], t[1], t[2]), dict(sep=sep)), ((), v)]
        r = math.sqrt((t * t).sum())
        ra, dec = math.atan2(t[1], t[0]), math.asin(t[2] / r)
        A = lambda x: x * coord.radians
        c = coord.CelestialCoord(A(ra), A(dec))
        for un, sc in (('deg', math.pi / 180), ('hours', math.pi / 12), ('arcmin', math.pi / 10800)):
            u = dict(ra_units=un, dec_units=un)
            q = (ra / sc, dec / sc)
            forms += [(q + (r, sep), u), (q + (r,), dict(u, sep=sep)), (q, dict(u, r=r, sep=sep)), ((), dict(u, ra=q[0], dec=q[1], r=r, sep=sep))]
        u = dict(ra_units='deg', dec_units='rad')
        forms += [((math.degrees(ra), dec, r, sep), u)]
        forms += [((A(ra), A(dec), r, sep), {}), ((A(ra), A(dec), r), dict(sep=sep)), ((A(ra), A(dec)), dict(r=r, sep=sep)), ((), dict(ra=A(ra), dec=A(dec), r=r, sep=sep)),
                  ((c, r, sep), {}), ((c, r), dict(sep=sep)), ((c,), dict(r=r, sep=sep))]
        bad = [((c,), dict(sep=sep)), ((c,), dict(r=r)), ((c, r), {}), ((3.,), dict(sep=sep, r=r)), ((ra, dec), dict(r=r, sep=sep)), ((), dict(ra=ra, dec=dec, r=r, sep=sep)),
               ((t[0], t[1], t[2]), {}), ((), dict(x=t[0], y=t[1], sep=sep)), ((), dict(x=t[0], z=t[1], sep=sep)), ((), dict(v, ra=3.)), ((t[0], t[1], t[2], sep, 3.), {}),
               ((), dict(ra=A(ra), dec=A(dec), sep=sep)), ((), {}), ((), dict(x=1., y=1., z=1.))]
    if coords == 'sphere':
        ra, dec = math.atan2(t[1], t[0]), math.asin(t[2])
        A = lambda x: x * coord.radians
        c = coord.CelestialCoord(A(ra), A(dec))
        for un, sc in (('deg', math.pi / 180), ('hours', math.pi / 12), ('arcmin', math.pi / 10800)):
            u = dict(ra_units=un, dec_units=un, sep_units=un)
            q = (ra / sc, dec / sc)
            forms += [(q + (sep / sc,), u), (q, dict(u, sep=sep / sc)), ((), dict(u, ra=q[0], dec=q[1], sep=sep / sc)), ((c, sep / sc), dict(sep_units=un)),
                      ((c,), dict(sep=sep / sc, sep_units=un)), ((A(ra), A(dec), sep / sc), dict(sep_units=un)), ((A(ra), A(dec)), dict(sep=A(sep)))]
        forms += [((A(ra), A(dec), A(sep)), {}), ((), dict(ra=A(ra), dec=A(dec), sep=A(sep))), ((c, A(sep)), {}), ((c,), dict(sep=A(sep))),
                  ((math.degrees(ra), A(dec), A(sep)), dict(ra_units='deg'))]
        bad = [((ra, dec, sep), {}), ((ra, dec, A(sep)), dict(ra_units='rad')), ((c, sep), {}), ((c,), {}), ((3.,), dict(sep=A(sep))), ((ra, dec), dict(ra_units='rad', dec_units='rad')),
               ((), dict(ra=A(ra), sep=A(sep))), ((), dict(dec=A(ra), sep=A(sep))), ((), dict(ra=A(ra), dec=A(dec))), ((), dict(x=1., y=2., z=3., sep=A(sep))),
               ((A(ra), A(dec), 1., A(sep)), {}), ((), {}), ((A(ra), A(dec), A(sep)), dict(r=3.))]
    for min_size in (0, 0.7):
        g = cat.getNField(min_size=min_size)
        d = np.sqrt(((p - t)**2).sum(axis=1))
        s = 2 * math.sin(sep / 2.) if coords == 'sphere' else sep
        want = np.nonzero(d <= s)[0]
        assert np.abs(d - s).min() > 1e-6
        for a, k in forms:
            for nm in ('get_near', 'count_near'):
                rec.step()
                got = getattr(g, nm)(*a, **dict(k))
                rec.check(np.array_equal(got, want) if nm == 'get_near' else got == len(want), '%s depends on how the place is given' % nm,
                          args=[a, k], got=got, want=want)
        for a, k in bad:
            for nm in ('get_near', 'count_near'):
                rec.step()
                try:
                    got = getattr(g, nm)(*a, **dict(k))
                except (TypeError, ValueError, AttributeError):
                    rec.check(True, '')
                else:
                    rec.fail('%s accepts arguments that do not say a place and a separation' % nm, args=[a, k], got=got)
        rec.nontrivial += 0 < len(want) < len(p)
        rec.outcome(want)


# ------------------------------------------------------------------ sample_pairs
# (correlation options, metric given, coords, metric meant, period, separations)
CONF = {
    'flat': [
        (dict(min_sep=0.31, max_sep=5.3, nbins=6), None, 'Euclidean', None),
        (dict(bin_type='Linear', min_sep=0.1, max_sep=5.3, nbins=4), None, 'Euclidean', None),
        (dict(bin_type='TwoD', max_sep=5.3, nbins=6), None, 'Euclidean', None),
        (dict(min_sep=0.31, max_sep=2.3, nbins=3, period=5.9), 'Periodic', 'Periodic', (5.9, 5.9, 0)),
        (dict(min_sep=0.31, max_sep=2.3, nbins=3, period=5.9, metric='Periodic'), None, 'Periodic', (5.9, 5.9, 0)),
    ],
    'sphere': [
        (dict(min_sep=0.31, max_sep=50., nbins=6, sep_units='deg'), None, 'Euclidean', None),
        (dict(min_sep=0.01, max_sep=2., nbins=3), 'Arc', 'Arc', None),
    ],
    '3d': [
        (dict(min_sep=0.31, max_sep=7., nbins=5), None, 'Euclidean', None),
        (dict(min_sep=0.11, max_sep=7., nbins=5, min_rpar=-1.9, max_rpar=1.7), 'Rperp', 'Rperp', None),
        (dict(min_sep=0.11, max_sep=7., nbins=5), 'Rlens', 'Rlens', None),
        (dict(min_sep=0.11, max_sep=7., nbins=5), 'OldRperp', 'OldRperp', None),
    ],
    'radecr': [
        (dict(min_sep=0.03, max_sep=1.3, nbins=5), None, 'Euclidean', None),
        (dict(min_sep=2., max_sep=100., nbins=3, sep_units='deg'), 'Arc', 'Arc', None),
    ],
}
EXACT = [dict(brute=True), dict(bin_slop=0), dict(bin_slop=0, angle_slop=0)]
CLS = ['NN', 'NK', 'KK', 'NG', 'GG', 'KG', 'ZZ', 'NQ']


def true_pairs(kw1, kw2, metric, period, okw):
    """Separation of every (i1,i2), inf where it is not allowed by min/max_rpar."""
    P1, P2 = ref2.Pts(kw1), ref2.Pts(kw2)
    P = ref2.Pairs(P1, P2, metric, period)
    unit = ref2.UNITS[okw.get('sep_units', 'rad')] if P1.coords == 'sphere' or metric == 'Arc' else 1.
    r = P.r / unit
    r = np.where((P.rpar >= okw.get('min_rpar', -np.inf)) & (P.rpar <= okw.get('max_rpar', np.inf)), r, np.inf)
    two_d = np.abs(P.d[:, :2]).max(axis=1)
    return r.reshape(P1.n, P2.n), two_d.reshape(P1.n, P2.n), P1.coords


def edges(sep, okw, twod):
    """Ranges of separations that none of the pairs is at the edge of."""
    s = np.unique(np.round(sep[np.isfinite(sep)], 10))
    mn, mx, nb = okw.get('min_sep', 0.), okw['max_sep'], okw['nbins']
    if okw.get('bin_type') in ('Linear', 'TwoD'):
        e = np.linspace(mn, mx, nb + 1)
    else:
        e = np.exp(np.linspace(math.log(mn), math.log(mx), nb + 1))
    out = [(e[0], e[-1]), (e[1], e[2]), (e[nb // 2], e[-1]), (0.31 * e[0] + 0.69 * e[1], 0.77 * e[2] + 0.23 * e[3]), (0.7 * e[0] + 0.01, 1.13 * e[-1]),
           (0.013, 0.5 * e[1] + 0.5 * e[2]), (0.5 * e[-1] + 0.5 * e[-2], 1.9 * e[-1])]
    s = s[s > 1e-3]
    if len(s) > 4:
        m = 0.5 * (s[1:] + s[:-1])
        out += [(m[0], m[len(m) // 2]), (m[len(m) // 3], m[len(m) // 3 + 1]), (m[len(m) // 4], m[-1])]
        if len(s) > 12:
            k = len(m) // 5
            out += [(m[i], m[i + k]) for i in range(k, 4 * k, k)]
    return [(a, b) for a, b in out if len(s) == 0 or (np.abs(s / a - 1).min() > 1e-8 and np.abs(s / b - 1).min() > 1e-8)]


def sep_ok(sep, d, coords, metric, unit):
    """The separation, or (spherical, Euclidean) the angle of this chord."""
    ok = np.abs(sep - d) <= 1e-7 * (d + 1e-6)
    if coords == 'sphere' and metric == 'Euclidean':
        ok |= np.abs(sep - 2 * np.arcsin(np.minimum(d * unit / 2, 1.)) / unit) <= 1e-7 * (d + 1e-6)
    return bool(ok.all())


def inrange(r, td, a, b, twod):
    # (a TwoD correlation never takes points at zero separation, which might be the same one)
    return (r >= a) & (td < b) & (r > 0) if twod else (r >= a) & (r < b)


def history(which, co, cat1, cat2, okw, metric):
    """Things done with the catalogs before (which must not matter)."""
    import treecorr
    if which == 'field':
        cat1._keep = cat1.getNField(min_size=1.3, max_size=3.)
        cat2._keep = cat2.getKField(brute=False, split_method='median', min_size=0.9)
    elif which == 'process':
        a = treecorr.NNCorrelation(dict(okw, bin_slop=3.))
        a.process(cat1, cat2, metric=metric, num_threads=1)
    elif which == 'own':
        co.process(cat1, cat2, metric=metric, num_threads=1)
    elif which == 'sphere':
        if cat1.coords == '3d' and cat1.ra is not None:
            cat1._keep = cat1.getNField(coords='spherical')
            cat2._keep = cat2.getNField(coords='spherical', min_size=0.1)


def run_all(rec, coords, spec1, spec2, ic, hist, which):
    """All of the pairs in a range, when there are no more than asked for."""
    import treecorr
    okw, metric, meant, period = CONF[coords][ic]
    cols = tuple(c for v in COLS.values() for c in v)
    kw1 = points(spec1, coords, 'w', cols)
    kw2 = kw1 if spec2 is None else points(spec2, coords, 'unit', cols)
    r, td, cc = true_pairs(kw1, kw2, meant, period, okw)
    twod = okw.get('bin_type') == 'TwoD'
    unit = ref2.UNITS[okw.get('sep_units', 'rad')]
    for j, slop in enumerate(EXACT):
        for o in ({}, dict(max_top=0), dict(split_method='median', min_top=3)):
            cat1 = treecorr.Catalog(**kw1)
            cat2 = cat1 if spec2 is None else treecorr.Catalog(**kw2)
            co = getattr(treecorr, which + 'Correlation')(dict(okw, **o), **slop)
            history(hist, co, cat1, cat2, okw, metric)
            m = None if hist == 'own' else metric   # (by default, the metric that was used)
            m = metric if hist != 'own' else None
            for a, b in edges(td if twod else r, okw, twod):
                want = np.argwhere(inrange(r, td, a, b, twod))
                for n in sorted(set([len(want), len(want) + 3])):
                    rec.step()
                    i1, i2, sep = co.sample_pairs(n, cat1, cat2, min_sep=a, max_sep=b, metric=m)
                    lab = dict(range=(a, b), slop=slop, opt=o, n=n, hist=hist, conf=ic)
                    got = sorted(zip(i1.tolist(), i2.tolist()))
                    if not rec.check(got == [tuple(x) for x in want.tolist()], 'sample_pairs: not the pairs with separations in the range', got=got[:30], nwant=len(want), ngot=len(got),
                                     extra=sorted(set(got) - set(map(tuple, want.tolist())))[:5], missing=sorted(set(map(tuple, want.tolist())) - set(got))[:5], **lab):
                        continue
                    if 'brute' in slop and n:
                        rec.check(sep_ok(sep, r[i1, i2], cc, meant, unit), 'sample_pairs: separations are not those of the pairs', got=sep, want=r[i1, i2], **lab)
                    rec.nontrivial += len(want) > 0
                rec.outcome(len(want), want)


class FakeRng(object):
    def random(self, *a):
        return 0.375


def run_random(rec, coords, spec1, spec2, ic, n, K, depth, exact, limit, slop):
    """Which pairs are sampled, over all outcomes of the random numbers."""
    import treecorr
    okw, metric, meant, period = CONF[coords][ic]
    kw1 = points(spec1, coords, 'w')
    kw2 = kw1 if spec2 is None else points(spec2, coords, 'unit')
    r, td, cc = true_pairs(kw1, kw2, meant, period, okw)
    twod = okw.get('bin_type') == 'TwoD'
    unit = ref2.UNITS[okw.get('sep_units', 'rad')]
    cat1 = treecorr.Catalog(**kw1)
    cat2 = cat1 if spec2 is None else treecorr.Catalog(**kw2)
    co = treecorr.NNCorrelation(okw, **slop)
    ed = edges(td if twod else r, okw, twod)
    for a, b in ed[:1] + ed[-2:]:
        want = set(map(tuple, np.argwhere(inrange(r, td, a, b, twod)).tolist()))
        nt = len(want)
        for nn in ([n] if n > 0 else sorted(set([1, nt // 3, nt // 2, nt - 2, nt - 1]))):
            if not 0 < nn < nt:
                continue
            run_one(rec, co, cat1, cat2, a, b, metric, want, nn, K or nt, depth, exact, limit, r, cc, meant, unit, slop)


def run_one(rec, co, cat1, cat2, a, b, metric, want, n, K, depth, exact, limit, r, cc, meant, unit, slop):
    tot, bad, cut = {}, 0, False
    # (the first random number is only for starting the sequence)
    for (i1, i2, sep), ch, used in rnd.explore(lambda: co.sample_pairs(n, cat1, cat2, min_sep=a, max_sep=b, metric=metric), K, not exact, depth, limit, skip=1):
        rec.step()
        got = list(zip(i1.tolist(), i2.tolist()))
        lab = dict(range=(a, b), n=n, nwant=len(want), choices=ch, K=K)
        ok = rec.check(len(got) == n and len(set(got)) == n, 'sample_pairs: not n different pairs', got=got[:30], **lab)
        ok &= rec.check(set(got) <= want, 'sample_pairs: a sampled pair is not in the range', got=got[:30], extra=sorted(set(got) - want)[:5], **lab)
        if ok and 'brute' in slop:
            rec.check(sep_ok(sep, r[i1, i2], cc, meant, unit), 'sample_pairs: separations are not those of the pairs', got=sep, want=r[i1, i2], **lab)
        bad += not ok
        if bad > 3:
            return
        rec.outcome(sorted(got))
        if exact:
            if used > depth:      # a repeated number was drawn again and again
                cut = True
                continue
            key = frozenset(got)
            tot[key] = tot.get(key, 0) + 1. / np.prod(np.array(K[1:len(ch)], float))
    rec.nontrivial += 1
    if exact and not rnd.explore.capped and not cut:
        nset = math.comb(len(want), n)
        rec.check(len(tot) == nset and max(abs(v * nset - 1) for v in tot.values()) < 1e-9,
                  'sample_pairs: some sets of pairs are more likely than others', n=n, nwant=len(want), nset=nset, got=sorted(tot.values()), K=K, range=(a, b))
        rec.counters['distributions over all outcomes'] += 1


def run_slop(rec, coords, spec1, spec2, ic, slop):
    """With some slop: still n different, valid pairs, with separations within the slop of the range."""
    import treecorr
    okw, metric, meant, period = CONF[coords][ic]
    kw1 = points(spec1, coords, 'w')
    kw2 = kw1 if spec2 is None else points(spec2, coords, 'unit')
    r, td, cc = true_pairs(kw1, kw2, meant, period, okw)
    twod = okw.get('bin_type') == 'TwoD'
    for hist in ('none', 'process'):
        cat1 = treecorr.Catalog(**kw1)
        cat2 = cat1 if spec2 is None else treecorr.Catalog(**kw2)
        co = treecorr.NNCorrelation(okw, bin_slop=slop)
        if hist == 'process':
            co.process(cat1, cat2, metric=metric, num_threads=1)
        lin = okw.get('bin_type') in ('Linear', 'TwoD')
        bs = co.bin_size
        for a, b in edges(td if twod else r, okw, twod):
            N = r.size
            i1, i2, sep = co.sample_pairs(N, cat1, cat2, min_sep=a, max_sep=b, metric=metric)
            rec.step()
            got = list(zip(i1.tolist(), i2.tolist()))
            lab = dict(range=(a, b), slop=slop, hist=hist, conf=ic)
            if not rec.check(len(set(got)) == len(got) and (len(got) == 0 or (i1.min() >= 0 and i2.min() >= 0 and i1.max() < r.shape[0] and i2.max() < r.shape[1])),
                             'sample_pairs: not different pairs of the catalogs', got=got[:20], **lab):
                continue
            tol = slop * bs * (1 if lin else b) * 1.0001 * (1.5 if twod else 1)
            if meant == 'Euclidean' and (lin or cc != 'sphere'):
                m = (td if twod else r)
                g = np.zeros(r.shape, bool)
                g[i1, i2] = True
                wrong = g & ((m > b + tol) | (r < a - tol))
                rec.check(not wrong.any(), 'sample_pairs: a pair is outside the range by more than the slop', got=np.argwhere(wrong)[:5], sep=r[wrong][:5], tol=tol, **lab)
                miss = ~g & (m < b - tol) & (r > a + tol)
                rec.check(not miss.any(), 'sample_pairs: a pair well inside the range is missing', got=np.argwhere(miss)[:5], sep=r[miss][:5], tol=tol, **lab)
            rec.check(len(sep) == 0 or (sep.min() >= a * (1 - 1e-9) and sep.max() < b * (1 + 1e-9) * (1.4143 if twod else 1)), 'sample_pairs: a returned separation is not in the range', got=(sep.min(), sep.max()) if len(sep) else None, **lab)
            rec.outcome(got)
            rec.nontrivial += len(got) > 0


def run(case, rec):
    globals()['run_' + case[1]](rec, *case[2:])


def cases(thorough):
    st = lambda name, n, k=0: ['st', name, n, k]
    q = 0
    for co in ('flat', '3d', 'sphere', 'radecr'):
        yield ('args', 'args', co)
        for n in (1, 2, 3, 4):
            for c in itertools.combinations_with_replacement(range(8), n):
                q += 1
                if q % {1: 1, 2: 1, 3: 4, 4: 17}[n] and not thorough:
                    continue
                for io, o in enumerate(FIELDS):
                    q += 1
                    if thorough or q % 3 == 0:
                        yield ('near-' + co, 'near', co, ['ms', list(c)], ('unit', 'w', 'zeros')[q % 3] if n > 2 else 'w', 'NKZVGTQ'[q % 7], io, o)
        for name in geom.STRUCTS:
            for n in (9, 40, 200) if thorough else (9, 40):
                for k in ((0, 11) if co in ('sphere', 'radecr') else (0, 1)):
                    for io, o in enumerate(FIELDS):
                        q += 1
                        if thorough or n == 40 or q % 2:
                            yield ('near-' + co, 'near', co, st(name, n, k), ('unit', 'w', 'zeros')[(q + n) % 3], 'NKZVGTQ'[q % 7], io, o)
        for ic in range(len(CONF[co])):
            for i, name in enumerate(geom.STRUCTS):
                if thorough or (i + ic) % 2 == 0:
                    for other in (None, geom.STRUCTS[(i + 3) % 8]):
                        for hist in ('none', 'field', 'process', 'own', 'sphere'):
                            q += 1
                            k = (0, 11)[q % 2] if co in ('sphere', 'radecr') else q % 2
                            if hist == 'sphere' and co != 'radecr' or not thorough and q % 2:
                                continue
                            yield ('all-' + co, 'all', co, st(name, 25, k), None if other is None else st(other, 17, k), ic, hist, CLS[q % 8])
                    for slop in (0.3, 1., 3.):
                        for other in (None, geom.STRUCTS[(i + 3) % 8]):
                            q += 1
                            yield ('slop-' + co, 'slop', co, st(name, 30, q % 2), None if other is None else st(other, 12, q % 2), ic, slop)
            for c in itertools.combinations_with_replacement(range(8), 3):
                q += 1
                if q % 9 == 0 or thorough:
                    yield ('all-' + co, 'all', co, ['ms', list(c)], ['ms', [(j + 2) % 8 for j in c]], ic, ('none', 'field', 'process', 'own')[q % 4], CLS[q % 8])
            # random outcomes
            for i, name in enumerate(geom.STRUCTS):
                for n1, n2 in ((3, 3), (6, 5), (12, 9)):
                    q += 1
                    if thorough or (i + ic) % 2:
                        for slop in EXACT[:2]:
                            yield ('random-' + co, 'random', co, st(name, n1, q % 2), st(geom.STRUCTS[(i + 5) % 8], n2, q % 2), ic, 0, 0, 2, False, 2000, slop)
    # exactly uniform: the resolution is a multiple of what each number is used for
    sets = [([0, 2], [4, 5]), ([0, 0], [2, 2]), ([0, 0], [2, 4]), ([0, 0], [2, 2, 4]), ([0, 0], [4, 2, 2]), ([0, 2, 4], [5, 6]), ([0, 0], [2, 4, 4]),
            ([0, 2, 2], [4, 5]), ([0], [2, 2, 4, 4]), ([0], [2, 2, 2, 4, 5]), ([0], [2, 2, 4, 5, 5]), ([0, 0], [2, 2, 4, 4]), ([0, 0, 0], [2, 4]), ([0, 0, 0], [2, 2]),
            ([0], [2, 2, 4, 4, 5, 5]), ([0], [4, 2, 2, 2, 2]), ([0], [2, 2, 2, 2, 2, 4, 4]), ([0, 0], [4, 2, 2, 2])]
    for a, b in sets:
        for n in range(1, len(a) * len(b)):
            for slop in EXACT:
                yield ('uniform', 'uniform', a, b, n, slop, 40000 if thorough else 3000)


def blocks(a, b):
    """Every way that the pairs might come: in blocks of the pairs of coincident points, or several of these together."""
    base = [a.count(i) * b.count(j) for i in sorted(set(a)) for j in sorted(set(b))]
    out = set()
    def rec(left, done):
        if not left:
            out.add(done)
            return
        for m in range(1, len(left) + 1):
            for c in itertools.combinations(range(len(left)), m):
                rec([left[i] for i in range(len(left)) if i not in c], done + (sum(left[i] for i in c),))
    rec(base, ())
    return out


def draws(bl, n):
    """What each random number is used for: one of this many."""
    k, d = 0, []
    for m in bl:
        if k + m <= n:
            pass
        elif m <= n:
            d += [q + 1 for q in range(max(k, n), k + m)]
        elif k + m > 3 * n:
            d += [k + m] * n
        else:
            d += [k + m - i for i in range(n)]
        k += m
    return d


def run_uniform(rec, a, b, n, slop, limit):
    import treecorr
    kw1, kw2 = points(['ms', a], 'flat', 'w'), points(['ms', b], 'flat', 'unit')
    cat1, cat2 = treecorr.Catalog(**kw1), treecorr.Catalog(**kw2)
    lo, hi = 0.31, 9.3
    r, td, cc = true_pairs(kw1, kw2, 'Euclidean', None, {})
    want = set(map(tuple, np.argwhere((r >= lo) & (r < hi)).tolist()))
    assert len(want) == len(a) * len(b)
    D = [draws(x, n) for x in blocks(a, b)]
    K = [int(np.lcm.reduce([d[i] for d in D if len(d) > i])) for i in range(max(len(d) for d in D))]
    while len(K) > 1 and np.prod(np.array(K, float)) > 1e6:
        K.pop()
    for okw in (dict(min_sep=lo, max_sep=hi, nbins=5), dict(min_sep=0.01, max_sep=10., nbins=2, bin_type='Linear'), dict(max_sep=9.3, nbins=4, bin_type='TwoD')):
        for rng in ((None, FakeRng()) if n % 2 else (None,)):
            co = treecorr.NNCorrelation(okw, rng=rng, **slop)
            run_one(rec, co, cat1, cat2, lo, hi, None, want, n, [1] + K, len(K) + 1, True, limit, r, cc, 'Euclidean', 1., slop)


if __name__ == '__main__':
    ck = core.Check('C14', bounds=(
        'near: point configurations of up to 4 of 8 sites (stride for 3 and 4) and structured sets of 9 and 40 points x 10 kinds of field x 4 coordinate systems x about 10 places x up to 12 separations; '
        'every documented argument form and about 12 wrong ones; sample_pairs: 13 configurations of binning and metric x up to 14 ranges x 3 exact modes x 3 tree options x 5 histories; uniformity: '
        '18 configurations of up to 9 pairs (coincident ones too) x every n x 3 binnings, all outcomes of the random numbers at a resolution that represents each number exactly '
        '(up to 3000 outcomes; the rest are checked for validity only)'),
        assumptions=['a separation closer than single precision to the size of a cell decides either way', 'pairs with zero weight are not looked at in sample_pairs'])
    ck.run(cases(ck.thorough), run)
    ck.finish()
