"""Reference model of what a Catalog holds, given a table of columns and the documented options."""
import os
import numpy as np

N = 11
FIELDS = ['k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1', 't2', 'q1', 'q2']
POS = ['x', 'y', 'z', 'ra', 'dec', 'r']
ALL = POS + ['w', 'wpos'] + FIELDS
UNITS = {'rad': 1., 'radians': 1., 'deg': np.pi / 180, 'degrees': np.pi / 180, 'hours': np.pi / 12, 'arcmin': np.pi / 10800,
         'arcsec': np.pi / 648000}


def table(n=N, variant=0):
    """Columns whose values are all different, so that a mix-up of rows or columns shows."""
    i = np.arange(n) + 100. * variant
    t = {'x': ((i * 37) % 101) / 10.1 + 0.013 * i, 'y': ((i * 53) % 97) / 9.7 + 0.017 * i, 'z': ((i * 29) % 89) / 8.9 + 0.011 * i,
         'ra': 12.5 + ((i * 31) % 67) * 1.25, 'dec': -41.5 + ((i * 43) % 61) * 1.375, 'r': 1.5 + ((i * 19) % 23) * 0.25,
         'w': 0.5 + ((i * 7) % 13) * 0.125, 'wpos': 0.25 + ((i * 5) % 17) * 0.375}
    for j, f in enumerate(FIELDS):
        t[f] = ((i * (11 + 2 * j) + 5 * j) % 59 - 29) / (16. + j)
    t['flag'] = np.array([[0, 1, 2, 4, 3, 0, 8, 5, 0, 6, 1, 12, 0, 2][a % 14] for a in range(n)])
    t['patch'] = np.array([[2, 0, 1, 2, 4, 0, 2, 1, 4, 4, 0, 1][a % 12] for a in range(n)])
    t['w0'] = np.where(np.arange(n) % 4 == 2, 0., t['w'])
    t['wpos0'] = np.where(np.arange(n) % 5 == 1, 0., t['wpos'])
    t['knan'] = np.where(np.arange(n) % 6 == 4, np.nan, t['k'])
    t['xnan'] = np.where(np.arange(n) % 7 == 3, np.nan, t['x'])
    t['ranan'] = np.where(np.arange(n) % 7 == 3, np.nan, t['ra'])
    t['g2nan'] = np.where(np.arange(n) % 5 == 0, np.nan, t['g2'])
    t['wnan'] = np.where(np.arange(n) % 4 == 1, np.nan, t['w'])
    t['wposnan'] = np.where(np.arange(n) % 6 == 5, np.nan, t['wpos'])
    t['wneg'] = np.where(np.arange(n) % 4 == 1, -0.25, t['w'])
    return t


class Bad(Exception):
    """The options are invalid or leave no weight: the Catalog must refuse."""


EVALS = {'x+2*y': lambda t: t['x'] + 2 * t['y'], 'np.sqrt(w)': lambda t: np.sqrt(t['w']), 'k*w - 1': lambda t: t['k'] * t['w'] - 1,
         'numpy.where(flag > 2, flag, 0)': lambda t: np.where(t['flag'] > 2, t['flag'], 0),
         'math.pi * g1': lambda t: np.pi * t['g1'], 'g1 - t1': lambda t: t['g1'] - t['t1'], 'patch // 2': lambda t: t['patch'] // 2,
         'ra - 10': lambda t: t['ra'] - 10, '-dec': lambda t: -t['dec'], 'y': lambda t: t['y'], 'r*r': lambda t: t['r']**2,
         'z - x': lambda t: t['z'] - t['x'], 'coord.degrees.value*g2': lambda t: np.pi / 180 * t['g2']}


def expected(t, o):
    """What a catalog made from table t with options o holds.

    o: cols {quantity: column}, evals {quantity: formula}, rows (first, last, nth), units {x,y,ra,dec}, flips [..],
    keep, ignore_flag, ok_flag, single (patch number to select), centers, is_rand
    """
    n = len(t['x'])
    first, last, nth = o.get('rows', (1, -1, 1))
    rows = np.arange(n)[first - 1:(last if last > 0 else None):nth]
    e = dict.fromkeys(ALL + ['patch', 'flag'])
    for q, c in o['cols'].items():
        e[q] = np.array(t[c])[rows]
    for q, f in o.get('evals', {}).items():
        e[q] = np.array(EVALS[f](t))[rows]
    if o.get('is_rand'):
        for f in FIELDS:
            e[f] = None
    for q, u in o.get('units', {}).items():
        e[q] = e[q] * UNITS[u]
    for q in o.get('flips', ()):
        if e[q] is not None:
            e[q] = -e[q]
    for q in ALL:
        if e[q] is not None:
            e[q] = np.array(e[q], dtype=float)
    for q in ('patch', 'flag'):
        if e[q] is not None:
            e[q] = np.array(e[q]).astype(int)
    if e['x'] is None:
        c = np.cos(e['dec'])
        r = 1 if e['r'] is None else e['r']
        xyz = dict(x=r * np.cos(e['ra']) * c, y=r * np.sin(e['ra']) * c, z=r * np.sin(e['dec']))
    else:
        xyz = {}
    e['npatch'] = o.get('npatch') or 1
    if e['patch'] is not None and len(e['patch']):
        e['npatch'] = max(e['npatch'], e['patch'].max() + 1)
    single = o.get('single')
    if o.get('centers') is not None:
        cen = np.array(o['centers'])
        p = dict(e, **xyz)
        P = np.array([p[a] for a in 'xyz'[:cen.shape[1]]]).T
        e['patch'] = np.argmin(((np.where(np.isnan(P), 0, P)[:, None, :] - cen)**2).sum(axis=2), axis=1)
        e['npatch'] = len(cen)
    keep = np.ones(len(rows), dtype=bool)
    if single is not None:
        if e['patch'] is not None:
            keep = e['patch'] == single
        e['patch'] = None

    def pick(keep):
        for q in list(ALL) + ['patch', 'flag']:
            if e[q] is not None:
                e[q] = e[q][keep]
    pick(keep)
    m = keep.sum()
    # weights
    trivial = e['w'] is None
    w = np.ones(m) if trivial else e['w'].copy()
    if e['flag'] is not None:
        trivial = False
        ign = o['ignore_flag'] if 'ignore_flag' in o else ~o.get('ok_flag', 0)
        hit = (e['flag'] & ign) != 0
        w[hit] = 0
        if e['wpos'] is not None:
            e['wpos'][hit] = 0
    e['w'] = w
    for q in ALL:
        if e[q] is not None:
            bad = np.isnan(e[q])
            if bad.any():
                trivial = False
                w[bad] = 0
                e[q][bad] = 0
    if e['wpos'] is not None and (e['wpos'] == 0).any():
        trivial = False
        w[e['wpos'] == 0] = 0
    if not trivial and w.sum() == 0:
        raise Bad('sumw == 0' if m else 'no objects')
    e['sumw'] = w.sum()
    if e['x'] is None:
        c = np.cos(e['dec'])
        r = 1 if e['r'] is None else e['r']
        e.update(x=r * np.cos(e['ra']) * c, y=r * np.sin(e['ra']) * c, z=r * np.sin(e['dec']))
    if not trivial and not o.get('keep'):
        wp = w if e['wpos'] is None else e['wpos']
        pick(wp != 0)
        w = e['w']
    e['nontrivial_w'] = not trivial
    e['ntot'] = len(w)
    e['nobj'] = int((w != 0).sum())
    e['sumw2'] = (w**2).sum()
    for f in 'kzvgtq':
        v = []
        for q in ('k',) if f == 'k' else (f + '1', f + '2'):
            if e[q] is None:
                v.append(0.)
            else:
                mean = (w * e[q]).sum() / e['sumw']
                v.append((w**2 * (e[q] - mean)**2).sum() / e['sumw'])
        e['var' + f] = np.mean(v)
    e['coords'] = ('spherical' if e['r'] is None else '3d') if e['ra'] is not None else 'flat' if e['z'] is None else '3d'
    e['single'] = single
    return e


def subset(e, p):
    """Expected content of patch p of an expected catalog."""
    d = dict(e)
    m = e['patch'] == p
    for q in ALL:
        if d[q] is not None:
            d[q] = d[q][m]
    d['patch'] = None
    d['single'] = p
    w = d['w']
    d.update(ntot=len(w), nobj=int((w != 0).sum()), sumw=w.sum(), sumw2=(w**2).sum())
    for f in 'kzvgtq':
        d.pop('var' + f, None)
    return d


def same(a, b, tol=1e-12):
    if (a is None) != (b is None):
        return False
    if a is None:
        return True
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=tol, atol=tol))


def compare(rec, cat, e, what, tol=1e-12, tag=None, skip=(), **lab):
    """Every public attribute of the catalog against the expectation."""
    ok = True
    for q in ALL:
        if q in skip:
            continue
        got = getattr(cat, q)
        ok &= rec.check(same(got, e[q], tol), '%s: %s is not what the input and options say' % (what, q), tag, got=got, want=e[q], **lab)
    got = cat.patch
    want = e['patch'] if e['single'] is None else e['single']
    if 'patch' not in skip:
        if e['single'] is not None:
            ok &= rec.check(got is not None and np.all(np.asarray(got) == want), '%s: patch' % what, tag, got=got, want=want, **lab)
        else:
            ok &= rec.check(same(got, want, 0), '%s: patch' % what, tag, got=got, want=want, **lab)
    for q in ('ntot', 'nobj', 'sumw', 'sumw2', 'varg', 'vark', 'varz', 'varv', 'vart', 'varq', 'coords', 'nontrivial_w', 'npatch'):
        if q in e and q not in skip:
            got = getattr(cat, q)
            good = got == e[q] if isinstance(e[q], (str, bool, np.bool_)) else abs(got - e[q]) <= 10 * tol * max(1, abs(e[q]))
            ok &= rec.check(bool(good), '%s: %s is wrong' % (what, q), tag, got=got, want=e[q], **lab)
    return ok


# ------------------------------------------------------------------ files
SOURCES = ['array', 'fits', 'fits2', 'hdf', 'hdfgroup', 'parquet', 'ascii', 'asciiname', 'asciinp', 'csv']
NAMES = ['x', 'y', 'z', 'ra', 'dec', 'r', 'w', 'wpos'] + FIELDS + ['flag', 'patch', 'w0', 'wpos0', 'knan', 'xnan', 'ranan', 'g2nan',
                                                                     'wnan', 'wposnan', 'wneg']


def write_file(t, source, path):
    """Write the table with the libraries themselves, not with treecorr's writers."""
    names = [c for c in NAMES if c in t]
    if source in ('fitsext', 'hdfext'):
        # The same columns with other values in two extensions.
        t2 = table(len(t['x']), 1)
        path += '.fits' if source == 'fitsext' else '.hdf5'
        if source == 'fitsext':
            import fitsio
            with fitsio.FITS(path, 'rw', clobber=True) as f:
                for ext, tt in (('one', t), ('two', t2)):
                    f.write([np.asarray(tt[c]) for c in names], names=names, extname=ext)
        else:
            import h5py
            with h5py.File(path, 'w') as f:
                for ext, tt in (('one', t), ('two', t2)):
                    g = f.create_group(ext)
                    for c in names:
                        g.create_dataset(c, data=tt[c])
    elif source in ('fits', 'fits2'):
        import fitsio
        data = np.empty(len(t['x']), dtype=[(c, 'i4' if c in ('flag', 'patch') else 'f8') for c in names])
        for c in names:
            data[c] = t[c]
        path += '.fits'
        with fitsio.FITS(path, 'rw', clobber=True) as f:
            if source == 'fits2':
                other = data.copy()
                for c in names:
                    other[c] = -7
                f.write(other)
            f.write(data, extname='data')
    elif source in ('hdf', 'hdfgroup'):
        import h5py
        path += '.hdf5'
        with h5py.File(path, 'w') as f:
            g = f if source == 'hdf' else f.create_group('data')
            for c in names:
                g.create_dataset(c, data=t[c])
    elif source == 'parquet':
        # No engine for Parquet is installed that works with this numpy: read_parquet is replaced (stand_in) by a
        # reader of pickled DataFrames, so that treecorr's own code for them still runs.
        import pandas
        path += '.parquet'
        pandas.DataFrame({c: t[c] for c in names}).to_pickle(path)
    else:
        sep = ',' if source == 'csv' else '  '
        mark = '%' if source == 'csv' else '#'
        path += '.csv' if source == 'csv' else '.dat'
        with open(path, 'w') as f:
            f.write('%s first line of comment\n' % mark)
            if source in ('asciiname', 'asciinp'):
                f.write('# ' + ' '.join(names) + '\n')
            else:
                f.write('%s and a second one that names nothing\n' % mark)
            for i in range(len(t['x'])):
                f.write(sep.join(('%d' % t[c][i] if c in ('flag', 'patch') else repr(float(t[c][i]))) for c in names) + '\n')
    return path


def stand_in():
    import pandas
    pandas.read_parquet = pandas.read_pickle


def column(source, c, t):
    """How a column is called in the options."""
    if source in ('ascii', 'csv'):
        return 1 + [n for n in NAMES if n in t].index(c)
    return c


def source_kwargs(source):
    return {'fits2': {'ext': 'data'}, 'hdfgroup': {'ext': 'data'}, 'fitsext': {'ext': 'one'}, 'hdfext': {'ext': 'one'}, 'csv': {'delimiter': ',', 'comment_marker': '%'}}.get(source, {})
