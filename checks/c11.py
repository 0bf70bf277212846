"""C11: a catalog holds exactly the selected rows, whatever the source and however it is reached."""
import itertools, os, pickle, re, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, cats
build.activate()
import numpy as np

ROOT = build.scratch("c11-")
T = {}
FILES = {}
_dir = []


def tab(key):
    if key not in T:
        n, variant = key
        T[key] = cats.table(n, variant)
    return T[key]


def scratch():
    if not _dir or _dir[0][1] != os.getpid():
        _dir[:] = [(tempfile.mkdtemp(dir=ROOT), os.getpid())]
        FILES.clear()
    return _dir[0][0]


def filename(key, source):
    d = scratch()
    s = 'ascii' if source == 'asciinp' else source
    s = source
    if (key, s) not in FILES:
        FILES[key, s] = cats.write_file(tab(key), s, os.path.join(d, 't%d_%d_%s' % (key[0], key[1], s)))
    return FILES[key, s]


def arguments(key, source, o, aslist=False):
    """(args, kwargs) for treecorr.Catalog"""
    t = tab(key)
    kw = {}
    first, last, nth = o.get('rows', (1, -1, 1))
    if first != 1:
        kw['first_row'] = first
    if last != -1:
        kw['last_row'] = last
    if nth != 1:
        kw['every_nth'] = nth
    for q, u in o.get('units', {}).items():
        kw[q + '_units'] = u
    for q in o.get('flips', ()):
        kw['flip_' + q] = True
    for q in ('ignore_flag', 'ok_flag'):
        if q in o:
            kw[q] = o[q]
    if o.get('keep'):
        kw['keep_zero_weight'] = True
    if o.get('allow_xyz'):
        kw['allow_xyz'] = True
    if o.get('npatch'):
        kw['npatch'] = o['npatch']
    if o.get('single') is not None:
        kw['patch'] = o['single']
    if o.get('centers') is not None:
        kw['patch_centers'] = np.array(o['centers'])
    if o.get('is_rand'):
        kw['is_rand'] = True
    args = []
    if source == 'array':
        for q, c in o['cols'].items():
            kw[q] = t[c].copy()
        for q, f in o.get('evals', {}).items():
            kw[q] = cats.EVALS[f](t)
    else:
        args = [filename(key, source)]
        kw.update(cats.source_kwargs(source))
        for q, c in o['cols'].items():
            kw[q + '_col'] = cats.column(source, c, t)
        for q in o.get('exts', ()):
            kw[q + '_ext'] = 'two'
        need = set()
        for q, f in o.get('evals', {}).items():
            kw[q + '_eval'] = f
            need |= set(a for a in re.findall(r'[a-z0-9]+', f) if a in t)
        if need:
            kw['extra_cols'] = sorted(need)
    return args, kw


class Plain(object):
    """Read ASCII files with numpy instead of pandas."""
    def __init__(self, source):
        self.on = source == 'asciinp'

    def __enter__(self):
        import treecorr.catalog as c
        self.old = c.PandasReader
        if self.on:
            c.PandasReader = c.AsciiReader

    def __exit__(self, *a):
        import treecorr.catalog as c
        c.PandasReader = self.old


def run(case, rec):
    import treecorr
    cats.stand_in()
    treecorr.set_max_omp_threads(1)
    group, key, source, o, ops = case
    with Plain(source):
        _run(rec, treecorr, group, tuple(key), source, o, ops)


def _run(rec, treecorr, group, key, source, o, ops):
    t = tab(key)
    args, kw = arguments(key, source, o)
    tag0 = None
    if 'exts' in o:
        two = tab((key[0], 1))
        t = dict(t, **{c + '@two': v for c, v in two.items()})
        qs = list(o['cols'])
        if any(o['cols'][a] == o['cols'][b] and (a in o['exts']) != (b in o['exts']) for a in qs for b in qs):
            tag0 = 'same-column-name'
        o = dict(o, cols={q: c + '@two' if q in o['exts'] else c for q, c in o['cols'].items()})
    if 'config' in ops:
        # The same options in a config dict, with a list of values of which number num applies.
        num = ops[1]
        extra = {a: kw.pop(a) for a in ('patch', 'patch_centers', 'is_rand') if a in kw}
        cfg = {}
        for a, v in kw.items():
            if source == 'array' and a in cats.ALL + ['patch', 'flag']:
                extra[a] = v
                continue
            listable = a in treecorr.Catalog._valid_params and treecorr.Catalog._valid_params[a][1] and a not in ('file_type', 'delimiter', 'comment_marker')
            cfg[a] = [v if j == num else None for j in range(3)] if listable and a.endswith(('_col', '_row', 'nth', '_eval', 'flag', 'flip_g1', 'flip_g2')) else v
            if isinstance(cfg[a], list):
                d = 1 if a.endswith(('_row', 'nth')) else 0 if a.endswith('_col') or a == 'ok_flag' else None
                other = {'_col': '0', 'row': 1}.get(a[-4:], None)
                cfg[a] = [v if j == num else ('0' if a.endswith('_col') else 1 if a in ('first_row', 'every_nth') else -1 if a == 'last_row' else
                                              False if a.startswith('flip') else 0 if a.endswith('flag') else None) for j in range(3)]
        cfg['irrelevant_key'] = 17
        make = lambda: treecorr.Catalog(*args, config=cfg, num=num, **dict(extra))
    else:
        make = lambda: treecorr.Catalog(*args, **dict(kw))
    lab = dict(source=source, opts=repr(o), ops=ops, config=group + ':' + source)
    held = {a: v.copy() for a, v in kw.items() if isinstance(v, np.ndarray)}
    try:
        e = cats.expected(t, o)
    except cats.Bad as err:
        if 'objects' in str(err):
            rec.counters['empty'] += 1
            return
        e = None
    if e is not None and e['ntot'] == 0:
        rec.counters['empty'] += 1
        return
    try:
        cat = make()
        if 'unread' not in ops:
            cat.load()
    except ValueError as err:
        rec.step()
        rec.outcome('refused')
        rec.check(e is None and 'sumw' in str(err), 'refused: %s' % err, **lab)
        return
    rec.step()
    if not rec.check(e is not None, 'a catalog with sumw == 0 was accepted', **lab):
        return
    rec.outcome(e['ntot'], e['sumw'], e['x'])
    rec.nontrivial += 1
    tol = 1e-9 if source in ('ascii', 'asciiname', 'asciinp', 'csv') else 1e-12
    tol = 1e-12
    if 'unread' not in ops:
        cats.compare(rec, cat, e, 'loaded', tol, tag0, **lab)
    for a, v in held.items():
        rec.check(np.array_equal(kw[a], v, equal_nan=True), 'the array given for %s was changed' % a, **lab)
    # Patches with no weight at all are refused, like such catalogs are.
    zero = e['patch'] is not None and any(np.sum(e['w'][e['patch'] == i]) == 0 for i in set(e['patch']))
    for op in ops:
        if op == 'reload':
            cat.unload()
            rec.check(source == 'array' or not cat.loaded, 'unload left the data in memory', **lab)
            cats.compare(rec, cat, e, 'reloaded', tol, tag0, **lab)
            rec.step(2)
        elif op == 'copy':
            c2 = cat.copy()
            cats.compare(rec, c2, e, 'copy', tol, **lab)
            rec.check(c2 == cat, 'a copy is not equal to the original', **lab)
            rec.step(1)
        elif op == 'pickle':
            c2 = pickle.loads(pickle.dumps(cat))
            cats.compare(rec, c2, e, 'pickled', tol, **lab)
            rec.check(c2 == cat, 'the unpickled catalog is not equal to the original', **lab)
            rec.step(2)
        elif op == 'repr':
            cat.load()
            with np.printoptions(precision=17, threshold=10**6):
                s = repr(cat)
            c2 = eval(s, {'treecorr': treecorr, 'array': np.array, 'np': np})
            cats.compare(rec, c2, e, 'repr', 1e-12, skip=('npatch', 'coords') if e['single'] is None else ('npatch', 'patch'), **lab)
            rec.step(2)
        elif op in ('fits', 'hdf', 'ascii'):
            f = os.path.join(scratch(), 'out.' + {'fits': 'fits', 'hdf': 'hdf5', 'ascii': 'txt'}[op])
            cat.write(f)
            back = {}
            if e['ra'] is not None:
                back.update(ra_col='ra', dec_col='dec', ra_units=o['units']['ra'], dec_units=o['units']['dec'])
                if e['r'] is not None:
                    back['r_col'] = 'r'
            else:
                back.update(x_col='x', y_col='y')
                if e['z'] is not None:
                    back['z_col'] = 'z'
                if 'units' in o:
                    back.update(x_units=o['units']['x'], y_units=o['units']['y'])
            for q in cats.FIELDS + ['wpos']:
                if e[q] is not None:
                    back[q + '_col'] = q
            if e['nontrivial_w']:
                back['w_col'] = 'w'
            if e['patch'] is not None:
                back['patch_col'] = 'patch'
            if o.get('keep'):
                back['keep_zero_weight'] = True
            c2 = treecorr.Catalog(f, **back)
            tol2 = 1e-12 if op != 'ascii' else 1e-12
            cats.compare(rec, c2, e, 'written as %s and read back' % op, tol2,
                         skip=('npatch',) if e['single'] is None else ('npatch', 'patch'), **lab)
            rec.step(2)
            os.remove(f)
        elif op in ('patches', 'lowmem', 'saved', 'savedlow', 'savedfirst'):
            if op.startswith('saved'):
                d = tempfile.mkdtemp(dir=scratch())
                cat = treecorr.Catalog(*args, save_patch_dir=d, **dict(kw))
                if op == 'savedfirst' and e['npatch'] > 1:
                    try:
                        cat.get_patches(low_mem=True)
                    except (OSError, ValueError) as err:
                        if not ('sumw' in str(err) and zero):
                            rec.fail('%s: %s' % (op, err), **lab)
                        continue
                    cat = treecorr.Catalog(*args, save_patch_dir=d, **dict(kw))
            if e['single'] is not None or e['npatch'] == 1:
                ps = cat.get_patches(low_mem=op != 'patches')
                rec.check(len(ps) == 1 and ps[0] == cat, 'the only patch is not the catalog', **lab)
                continue
            tag = None
            try:
                ps = cat.get_patches(low_mem=op in ('lowmem', 'savedlow', 'savedfirst'))
            except (OSError, ValueError) as err:
                if not ('sumw' in str(err) and zero):
                    rec.fail('%s: %s' % (op, err), tag, **lab)
                continue
            rec.step()
            present = sorted(set(e['patch']))
            if op == 'lowmem' and source != 'array' and e.get('npatch') and o.get('centers') is not None:
                ps2 = [p for p in ps if p.ntot > 0]
                rec.check(len(ps) in (len(ps2), e['npatch']), 'number of patches', **lab)
                ps = ps2
            if not rec.check(len(ps) == len(present), 'number of patches', tag, got=len(ps), want=len(present), **lab):
                continue
            if zero:
                continue
            for p, i in zip(ps, present):
                cats.compare(rec, p, cats.subset(e, i), 'patch of ' + op, 1e-12, tag, **lab)
                if op in ('lowmem', 'savedlow', 'savedfirst'):
                    p.unload()
                    cats.compare(rec, p, cats.subset(e, i), 'patch of %s after unload' % op, 1e-12, tag, **lab)
            tot = treecorr.Catalog.combine(ps)
            e2 = dict(e)
            order = np.argsort(e['patch'], kind='stable')
            for q in cats.ALL:
                if e[q] is not None:
                    e2[q] = e[q][order]
            e2['single'] = None
            e2['patch'] = None
            cats.compare(rec, tot, e2, 'combined patches', 1e-12, tag, skip=('npatch', 'nontrivial_w'), **lab)
            if op.startswith('saved'):
                import shutil
                shutil.rmtree(d)
    if 'again' in ops:
        cats.compare(rec, cat, e, 'at the end', tol, tag0, **lab)


def cases(thorough):
    F = {'none': [], 'k': ['k'], 'g': ['g1', 'g2'], 'all': cats.FIELDS}
    XY = {'x': 'x', 'y': 'y'}
    COORDS = {'xy': (XY, {}, {}), 'xyz': (dict(XY, z='z'), {}, {}), 'xyu': (XY, {'x': 'arcmin', 'y': 'deg'}, {}),
              'rd': ({'ra': 'ra', 'dec': 'dec'}, {'ra': 'deg', 'dec': 'deg'}, {}),
              'rdh': ({'ra': 'ra', 'dec': 'dec'}, {'ra': 'hours', 'dec': 'arcmin'}, {}),
              'rdr': ({'ra': 'ra', 'dec': 'dec', 'r': 'r'}, {'ra': 'deg', 'dec': 'deg'}, {}),
              'rdxyz': ({'ra': 'ra', 'dec': 'dec', 'x': 'x', 'y': 'y', 'z': 'z'}, {'ra': 'deg', 'dec': 'deg'}, {'allow_xyz': True})}
    W = {'none': {}, 'w': {'w': 'w'}, 'w0': {'w': 'w0'}, 'wpos': {'w': 'w', 'wpos': 'wpos'}, 'wpos0': {'w': 'w', 'wpos': 'wpos0'},
         'wposonly': {'wpos': 'wpos'}, 'wposonly0': {'wpos': 'wpos0'}, 'w0wpos': {'w': 'w0', 'wpos': 'wpos'}, 'wnan': {'w': 'wnan'},
         'wposnan': {'w': 'w', 'wpos': 'wposnan'}, 'wneg': {'w': 'wneg'}}
    FL = {'-': ({}, {}), 'flag': ({'flag': 'flag'}, {}), 'ign': ({'flag': 'flag'}, {'ignore_flag': 5}), 'ok': ({'flag': 'flag'}, {'ok_flag': 3}),
          'ign0': ({'flag': 'flag'}, {'ignore_flag': 0})}
    NAN = {'-': {}, 'k': {'k': 'knan'}, 'x': {'x': 'xnan'}, 'ra': {'ra': 'ranan'}, 'g': {'g1': 'g1', 'g2': 'g2nan'}}
    CEN2 = [[2., 2.], [8., 3.], [5., 8.], [1., 9.]]
    CEN3 = {'rd': [[0.9, 0.2, -0.3], [0.5, 0.7, -0.5], [0.4, 0.8, 0.4]], 'xyz': [[2., 2., 2.], [8., 3., 5.], [5., 8., 7.]]}

    def opt(co='xy', w='none', fl='-', nan='-', fields='k', patch=False, **kw):
        c, u, x = COORDS[co]
        cols = dict(c)
        cols.update(W[w])
        cols.update(FL[fl][0])
        cols.update({f: f for f in F[fields]})
        cols.update({a: b for a, b in NAN[nan].items() if a in cols or a[0] in 'kg'})
        if patch:
            cols['patch'] = 'patch'
        o = dict(cols=cols, **x)
        if u:
            o['units'] = u
        o.update(FL[fl][1])
        o.update(kw)
        return o
    key = [cats.N, 0]
    S = cats.SOURCES
    SQ = ['array', 'fits', 'hdf', 'parquet', 'ascii']
    named = [s for s in S if s not in ('ascii', 'csv', 'asciinp', 'array')]
    rows = [(f, l, n) for f in ((1, 2, 4, 11) if thorough else (1, 3)) for l in ((-1, 4, 7, 11, 15) if thorough else (-1, 6, 11)) for n in ((1, 2, 3, 5) if thorough else (1, 2, 3)) if l < 0 or l >= f]
    # which rows, from every source and for every kind of coordinates, and with patches
    for s in S:
        for r in rows:
            yield ('rows', key, s, opt(rows=r, w='w', fields='g'), ('reload', 'again'))
            if s != 'array':
                yield ('rows-low', key, s, opt(rows=r, w='w0', fields='k', patch=True), ('lowmem',))
                for p in (0, 2, 4):
                    yield ('rows-single', key, s, opt(rows=r, w='w', fields='g', patch=True, single=p), ('reload',))
                    yield ('rows-cen', key, s, opt(rows=r, w='w', fields='g', single=p % 4, centers=CEN2), ('reload',))
                yield ('rows-lowcen', key, s, opt(rows=r, w='none', fields='k', centers=CEN2), ('lowmem',))
            yield ('rows-patch', key, s, opt(rows=r, w='w', patch=True, fl='flag'), ('patches', 'reload', 'again'))
        for co in COORDS:
            for r in ((1, -1, 1), (3, 9, 2)):
                for f in F:
                    if co == 'rdxyz':
                        yield ('coords', key, s, opt(co, rows=r, fields=f), ('reload', 'copy', 'pickle', 'again'))
                        continue
                    yield ('coords', key, s, opt(co, rows=r, fields=f), ('reload', 'copy', 'pickle', 'repr', 'fits', 'hdf', 'ascii', 'again'))
                    yield ('coords', key, s, opt(co, rows=r, fields=f, patch=True, w='wpos'),
                           ('reload', 'copy', 'pickle', 'repr', 'fits', 'hdf', 'ascii', 'again'))
    # weights, flags and NaNs
    for s in S:
        for w in W:
            for fl in FL:
                for nan in NAN:
                    for keep in (False, True):
                        co = 'rd' if nan == 'ra' else 'xy'
                        yield ('weights', key, s, opt(co, w=w, fl=fl, nan=nan, keep=keep), ('reload', 'again'))
                        if s in ('array', 'fits', 'ascii') or thorough:
                            yield ('weights-p', key, s, opt(co, w=w, fl=fl, nan=nan, keep=keep, patch=True), ('patches', 'lowmem', 'again'))
                        if s in ('array', 'hdf') and w in ('none', 'w0', 'wpos0', 'wposonly0') or thorough:
                            yield ('weights-c', key, s, opt(co, w=w, fl=fl, nan=nan, keep=keep), ('copy', 'pickle', 'repr', 'fits', 'ascii'))
        for rand in (False, True):
            for flips in ([], ['g1'], ['g2'], ['z1', 'v2'], ['z2', 'v1', 'q1'], ['t1', 'q2'], ['t2', 'g1', 'g2']):
                if rand and s == 'array':
                    continue
                yield ('flips', key, s, opt('rd', fields='all', flips=flips, is_rand=rand), ('reload', 'again'))
                yield ('flips', key, s, opt('rd', fields='all', flips=flips, is_rand=rand, patch=True), ('patches', 'again'))
                yield ('flips', key, s, opt('rd', fields='all', flips=flips, is_rand=rand, patch=True), ('lowmem', 'again'))
                yield ('flips', key, s, opt('rd', fields='all', flips=flips, is_rand=rand, patch=True), ('savedlow', 'again'))
    # patches: column, one of them, centers, total number
    for s in S:
        for co in ('xy', 'rd', 'xyz', 'rdr'):
            for w in ('none', 'w', 'w0') if thorough or s in SQ else ('none', 'w0'):
                cen = CEN2 if co == 'xy' else CEN3['xyz' if co == 'xyz' else 'rd']
                for npatch in (None, 5, 7) if thorough else (None, 7):
                    for o in (dict(patch=True), dict(patch=True, single=1), dict(patch=True, single=4), dict(single=3), dict(single=0)):
                        if o.get('single') and npatch is None and not o.get('patch'):
                            continue
                        if s == 'array' and o.get('single') is not None and o.get('patch'):
                            continue
                        for ops in (('patches',), ('lowmem',), ('unread', 'lowmem'), ('unread', 'patches')):
                            yield ('patch', key, s, opt(co, w, npatch=npatch, **o), ops + ('reload', 'again'))
                        if o.get('patch') and o.get('single') is None:
                            for ops in (('saved',), ('savedlow',), ('savedfirst',)):
                                yield ('saved', key, s, opt(co, w, npatch=npatch, **o), ops + ('again',))
                for o in [dict()] + [dict(single=p) for p in range(len(cen))]:
                    for ops in (('patches',), ('lowmem',), ('unread', 'lowmem'), ('saved',), ('savedlow',), ('savedfirst',)):
                        yield ('centers', key, s, opt(co, w, centers=cen, **o), ops + ('reload', 'again') if ops[0][:5] != 'saved' else ops + ('again',))
    # formulas, from files
    for s in named:
        for ev in ({'x': 'x+2*y'}, {'y': 'z - x'}, {'k': 'k*w - 1'}, {'w': 'np.sqrt(w)'}, {'g1': 'g1 - t1', 'g2': 'coord.degrees.value*g2'},
                   {'flag': 'numpy.where(flag > 2, flag, 0)'}, {'patch': 'patch // 2'}, {'wpos': 'r*r'}, {'z1': 'math.pi * g1', 'z2': 'y'},
                   {'v1': 'y', 'v2': 'g1 - t1'}, {'t1': 'y', 't2': 'x+2*y'}, {'q1': 'y', 'q2': 'g1 - t1'}, {'k': 'y'},
                   {'g2': 'g1 - t1'}, {'z1': 'math.pi * g1'}, {'v2': 'y'}, {'t1': 'y'}, {'q2': 'g1 - t1'},
                   {'ra': 'ra - 10', 'dec': '-dec'}, {'ra': 'ra - 10', 'dec': '-dec', 'r': 'r*r'}, {'z': 'r*r'}):
            co = 'rd' if 'ra' in ev else 'xyz' if 'z' in ev else 'xy'
            for base in (dict(), dict(patch=True), dict(rows=(2, 10, 2)), dict(single=1, patch=True), dict(single=1, centers=CEN2 if co == 'xy' else CEN3[co])):
                o = opt(co, fields='none' if 'k' in ev or 'g1' in ev else 'all' if len(ev) == 1 and list(ev)[0][0] in 'zvgtq' and list(ev)[0] != 'z' else 'k', **base)
                o['evals'] = ev
                for q in ev:
                    o['cols'].pop(q, None)
                if 'patch' in ev and base.get('centers'):
                    continue
                for ops in (('reload',), ('patches',), ('lowmem',), ('unread', 'lowmem'), ('savedfirst',)):
                    yield ('eval', key, s, o, ops + ('again',))
    # columns from different extensions
    for s in ('fitsext', 'hdfext'):
        for co, w in (('xy', 'w'), ('rdr', 'wpos')):
            o = opt(co, w, fields='g', patch=True)
            qs = list(o['cols'])
            for n in range(len(qs) + 1):
                for ex in itertools.combinations(qs, n):
                    for ops in (('reload', 'again'), ('unread', 'lowmem')):
                        yield ('ext', key, s, dict(o, exts=list(ex)), ops)
                    if n in (1, 2):
                        yield ('ext', key, s, dict(o, exts=list(ex), single=2), ('reload', 'again'))
                        yield ('ext', key, s, dict(o, exts=list(ex), rows=(2, 9, 2)), ('reload', 'again'))
        for ex in (['k'], ['x', 'y'], []):
            yield ('ext', key, s, dict(cols={'x': 'x', 'y': 'y', 'k': 'x'}, exts=ex), ('reload', 'again'))
    # the same options given as lists in a config dict
    for s in S:
        for num in (0, 1, 2):
            for o in (opt(w='w', fields='g', rows=(2, 9, 2), flips=['g1']), opt('rd', w='w0', fields='k', patch=True),
                      opt('rdr', w='wpos', fl='ok', fields='all', flips=['g2']), opt('xyz', w='w', fields='k', patch=True, npatch=6),
                      opt('rd', w='w0', fields='k', fl='ign', patch=True, single=2), opt(w='w', fields='g', centers=CEN2)):
                if s == 'array' and o.get('single') is not None:
                    continue
                for ops in (('reload',), ('patches',), ('lowmem',), ('copy', 'pickle'), ('unread', 'copy'), ('unread', 'pickle')):
                    if 'units' in o and 'ascii' == s:
                        pass
                    yield ('config', key, s, o, ('config', num) + ops + ('again',))


if __name__ == '__main__':
    ck = core.Check('C11', bounds='tables of 11 rows; every combination of the options of each group: rows (first,last,nth), coordinates x units, '
                    'weights x flags x NaN x keep_zero_weight, flips x is_rand, patches (column, one, centers, npatch), formulas, config lists; '
                    'from arrays and 9 kinds of files; then copy, pickle, repr, write+read, unload+reload, patches (in memory, low_mem, saved)')
    ck.run(cases(ck.thorough), run)
    ck.finish()
