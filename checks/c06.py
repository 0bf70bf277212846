"""C06: no history of operations changes what a catalog is."""
import collections, itertools, os, pickle, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, cats
build.activate()
import numpy as np

ROOT = build.scratch("c06-")
N = 11
T = cats.table(N, 0)
FL = {'x': 'x', 'y': 'y'}
RD = {'ra': 'ra', 'dec': 'dec'}
CEN = [[0.9, 0.2, -0.3], [0.5, 0.7, -0.5], [0.4, 0.8, 0.4]]
# kind: (source, options)
KINDS = {
    'array-patch': ('array', dict(cols=dict(FL, w='w', k='k', g1='g1', g2='g2', patch='patch'))),
    'array-sphere': ('array', dict(cols=dict(RD, k='k'), units={'ra': 'deg', 'dec': 'deg'})),
    'array-rdr': ('array', dict(cols=dict(RD, r='r', w='w', k='k', patch='patch'), units={'ra': 'hours', 'dec': 'deg'})),
    'array-kmeans': ('array', dict(cols=dict(FL, k='k', w='w'), npatch=3)),
    'array-keep': ('array', dict(cols=dict(FL, w='w0', k='k', patch='patch'), keep=True)),
    'fits-patch': ('fits', dict(cols=dict(FL, w='w', k='k', patch='patch'))),
    'fits-units': ('fits', dict(cols=dict(FL, k='k', patch='patch', wpos='wpos'), units={'x': 'arcmin', 'y': 'deg'})),
    'fits-one': ('fits', dict(cols=dict(RD, k='k'), units={'ra': 'deg', 'dec': 'arcmin'})),
    'hdf-centers': ('hdf', dict(cols=dict(RD, k='k', w='w0'), units={'ra': 'deg', 'dec': 'deg'}, centers=CEN)),
    'fits-single': ('fits', dict(cols=dict(FL, w='w', k='k', patch='patch'), single=2)),
    'fits-kmeans': ('fits', dict(cols=dict(RD, k='k', w='w'), units={'ra': 'deg', 'dec': 'deg'}, npatch=3)),
}
SEL = {'sel': np.array([0, 2, 3, 4, 6, 7, 9]), 'sel2': np.array([5, 1, 0, 3])}
FILES = {}
EXP = {}


def constructor(kind, treecorr):
    source, o = KINDS[kind]
    kw = {q + '_units': u for q, u in o.get('units', {}).items()}
    if o.get('keep'):
        kw['keep_zero_weight'] = True
    if o.get('npatch'):
        kw['npatch'] = o['npatch']
        kw['rng'] = np.random.RandomState(1234)
    if o.get('centers') is not None:
        kw['patch_centers'] = np.array(o['centers'])
    if o.get('single') is not None:
        kw['patch'] = o['single']
    if source == 'array':
        kw.update({q: T[c].copy() for q, c in o['cols'].items()})
        return treecorr.Catalog(**kw)
    if (source, os.getpid()) not in FILES:
        FILES[source, os.getpid()] = cats.write_file(T, source, os.path.join(tempfile.mkdtemp(dir=ROOT), 't'))
    kw.update({q + '_col': c for q, c in o['cols'].items()})
    return treecorr.Catalog(FILES[source, os.getpid()], **kw)


def expect(kind, treecorr):
    if kind not in EXP:
        source, o = KINDS[kind]
        if o.get('npatch') and 'patch' not in o['cols']:
            # The patches that k-means finds are those of the first load; nothing may change them afterwards.
            e = cats.expected(T, dict(o, npatch=None))
            c = constructor(kind, treecorr)
            e['patch'] = c.patch.copy()
            e['npatch'] = o['npatch']
            EXP[kind] = e
        else:
            EXP[kind] = cats.expected(T, o)
    return EXP[kind]


def chosen(e, idx):
    d = dict(e)
    n = len(e['w'])
    idx = idx[idx < n]
    for q in cats.ALL + ['patch']:
        if d[q] is not None:
            d[q] = d[q][idx]
    w = d['w']
    d.update(ntot=len(w), nobj=int((w != 0).sum()), sumw=w.sum(), sumw2=(w**2).sum())
    for f, q in (('k', 'k'), ('g', 'g1')):
        d.pop('var' + f, None)
    if d['k'] is not None:
        m = (w * d['k']).sum() / w.sum()
        d['vark'] = (w**2 * (d['k'] - m)**2).sum() / w.sum()
    return d


def xyz(e):
    if e['ra'] is not None:
        return np.array([e['x'], e['y'], e['z']]).T
    return np.array([e['x'], e['y']]).T


def scale(e):
    return dict(min_sep=0.1, max_sep=2.) if e['r'] is None and e['ra'] is not None else dict(min_sep=0.5, max_sep=40.)


def unit(e):
    return 1 if 'arc' not in e else 1


def dist(e):
    p = xyz(e)
    return np.sqrt(((p[:, None] - p[None])**2).sum(axis=2))


def want_nn(e, kw):
    d = dist(e)
    ok = np.triu((d >= kw['min_sep']) & (d < kw['max_sep']), 1)
    i = np.floor((np.log(d + (d == 0)) - np.log(kw['min_sep'])) / (np.log(kw['max_sep'] / kw['min_sep']) / 3)).astype(int)
    w = e['w']
    k = e['k']
    use = ok & (w[:, None] != 0) & (w[None] != 0)
    n = np.array([np.sum(use & (i == b)) for b in range(3)], float)
    ww = np.array([np.sum((w[:, None] * w[None])[use & (i == b)]) for b in range(3)])
    kk = np.array([np.sum((w[:, None] * w[None] * k[:, None] * k[None])[use & (i == b)]) for b in range(3)])
    return n, ww, kk


class Skip(Exception):
    pass


def run(case, rec):
    import treecorr
    group, kind, ops = case
    d = None
    if any(o in ('wp', 'rp', 'wr', 'wc') for o in ops):
        d = tempfile.mkdtemp(dir=ROOT)
    try:
        _run(rec, treecorr, kind, ops, d)
    except Skip:
        rec.counters['not applicable'] += 1
    finally:
        if d is not None:
            shutil.rmtree(d)


def _run(rec, treecorr, kind, ops, tmp):
    source, o = KINDS[kind]
    e = expect(kind, treecorr)
    e0 = e
    isfile = source != 'array'
    cat = constructor(kind, treecorr)
    written = None      # the expectation of the patch files in tmp
    held = []           # (object, expectation) of copies made on the way: the later operations must not change them
    selected = False
    cachesize = 1
    fields = collections.OrderedDict()
    rng = {'rng': np.random.RandomState(7)}

    def lab(what):
        return dict(kind=kind, ops=ops, config=kind + ':' + what)

    def patches(ps, what, e, same=False):
        if e['npatch'] == 1 or e['single'] is not None:
            rec.check(len(ps) == 1, '%s: number of patches' % what, got=len(ps), **lab(what))
            cats.compare(rec, ps[0], e, what, skip=('patch', 'npatch') if e['single'] is None else (), **lab(what))
            return
        present = sorted(set(e['patch']))
        if isfile and o.get('centers') is not None:
            ps = [p for p in ps if p.ntot > 0]
        if rec.check(len(ps) == len(present), '%s: number of patches' % what, got=len(ps), want=len(present), **lab(what)):
            for p, i in zip(ps, present):
                cats.compare(rec, p, cats.subset(e, i), 'patch after ' + what, **lab(what))

    def field(kind_, **kw):
        f = getattr(cat, 'get%sField' % kind_)(**kw)
        rec.check(cat.field is f, 'cat.field is not the last field', **lab('field'))
        sep = scale(e)['max_sep'] / 3
        p = xyz(e)
        for j in (0, len(p) - 1):
            c = dict(x=p[j, 0], y=p[j, 1]) if p.shape[1] == 2 else dict(x=p[j, 0], y=p[j, 1], z=p[j, 2])
            if e['ra'] is not None and e['r'] is None:
                c = dict(ra=e['ra'][j], dec=e['dec'][j], ra_units='rad', dec_units='rad', sep_units='rad')
                dd = 2 * np.arcsin(np.minimum(1, dist(e)[j] / 2))
            elif e['ra'] is not None:
                c = dict(ra=e['ra'][j], dec=e['dec'][j], r=e['r'][j], ra_units='rad', dec_units='rad')
                dd = dist(e)[j]
            else:
                dd = dist(e)[j]
            got = f.count_near(sep=sep, **c)
            want = int(np.sum(dd < sep))
            rec.check(got == want, 'count_near of the %s field' % kind_, got=got, want=want, **lab('field'))
        key = (kind_, tuple(sorted(kw.items())))
        # the cache: a field of the same arguments is the same object as long as it is one of the most recently used
        known = fields.pop(key, None)
        mine = [k for k in fields if k[0] == kind_]
        if known is not None:
            rec.check(f is known, 'the cached %s field was not used' % kind_, **lab('cache'))
        else:
            rec.check(all(f is not x for x in fields.values()), 'a field was taken for another', **lab('cache'))
        fields[key] = f
        while len([k for k in fields if k[0] == kind_]) > cachesize:
            del fields[next(k for k in fields if k[0] == kind_)]

    for op in ops:
        rec.step()
        if op == 'load':
            cat.load()
        elif op == 'unload':
            if selected and isfile:
                raise Skip     # what unload means for a trimmed catalog from a file is not defined
            cat.unload()
            fields.clear()
            rec.check(cat.loaded == (not isfile), 'loaded after unload', **lab(op))
            rec.check(cat.field is None, 'a field is left after unload', **lab(op))
        elif op == 'nf':
            field('N')
        elif op == 'nf2':
            field('N', max_top=0, split_method='median')
        elif op == 'nf3':
            field('N', min_size=0.01, brute=True)
        elif op == 'kf':
            field('K')
        elif op == 'clear':
            cat.clear_cache()
            fields.clear()
            rec.check(cat.field is None, 'a field is left after clear_cache', **lab(op))
        elif op in ('r0', 'r1', 'r2'):
            cachesize = int(op[1])
            cat.resize_cache(cachesize)
            for kk in 'NK':
                while len([k for k in fields if k[0] == kk]) > cachesize:
                    del fields[next(k for k in fields if k[0] == kk)]
        elif op in SEL:
            cat.load()
            idx = SEL[op][SEL[op] < e['ntot']]
            if op == 'sel' and e['patch'] is None:
                use = np.zeros(e['ntot'], bool)
                use[idx] = True
                cat.select(use)
            else:
                cat.select(idx)
            e = chosen(e, idx)
            selected = True
            written = None
            fields.clear()
        elif op in ('pat', 'low'):
            if op == 'low' and selected and isfile:
                raise Skip
            patches(cat.get_patches(low_mem=op == 'low'), op, e)
        elif op == 'wp':
            cat.write_patches(tmp)
            written = e
        elif op == 'rp':
            if written is None or (e['single'] is not None) or (isfile and selected):
                raise Skip
            cat.read_patches(tmp)
            patches(cat.get_patches(), op, e)
        elif op in ('copy', 'pickle'):
            held.append((cat, e, op))
            cat = cat.copy() if op == 'copy' else pickle.loads(pickle.dumps(cat))
            fields.clear()
            # whether a copy keeps the size of the cache is not specified
            cachesize = cat.nfields.size if hasattr(cat, '_nfields') else 1
            cat.resize_cache(1)
            cachesize = 1
        elif op in ('nn', 'kk'):
            kw = dict(scale(e), nbins=3, bin_slop=0, angle_slop=0)
            if op == 'kk' and isfile and selected:
                raise Skip
            c = treecorr.NNCorrelation(**kw) if op == 'nn' else treecorr.KKCorrelation(**kw)
            c.process(cat, num_threads=1, low_mem=op == 'kk')
            n, ww, kk = want_nn(e, kw)
            rec.check(np.array_equal(c.npairs, n), '%s: npairs' % op, got=c.npairs, want=n, **lab(op))
            rec.check(np.allclose(c.weight, ww, rtol=1e-10, atol=1e-12), '%s: weight' % op, got=c.weight, want=ww, **lab(op))
            if op == 'nn':
                tot = e['sumw']**2 / 2
                rec.check(abs(c.tot - 0.5 * (e['sumw']**2 - (0 if True else 0))) < 1e-8 * tot, 'nn: tot', got=c.tot, want=tot, **lab(op))
            else:
                rec.check(np.allclose(c.xi * c.weight, kk, rtol=1e-9, atol=1e-10), 'kk: xi', got=c.xi * c.weight, want=kk, **lab(op))
            fields.clear()
            for k in ('N', 'K'):
                cat_cache = getattr(cat, k.lower() + 'fields')
                cat_cache.clear()
        elif op == 'cen':
            ce = e
            if o.get('centers') is not None:
                want = np.array(o['centers'])
            elif o.get('npatch'):
                cat.load()
                want = None
            elif e['patch'] is not None and len(set(e['patch'])) < e['npatch']:
                try:
                    cat.get_patch_centers()
                    rec.fail('centers of a patch without objects', **lab(op))
                except RuntimeError:
                    pass
                continue
            else:
                p = xyz(e)
                ww = e['w']
                ids = e['patch'] if e['patch'] is not None else np.zeros(len(ww), int)
                want = np.array([(p[ids == i] * ww[ids == i, None]).sum(axis=0) / ww[ids == i].sum() for i in sorted(set(ids))])
                if e['ra'] is not None and e['r'] is None:
                    want /= np.sqrt((want**2).sum(axis=1))[:, None]
            got = cat.patch_centers
            if want is not None:
                rec.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-12), 'patch_centers', got=got, want=want, **lab(op))
            f = os.path.join(ROOT, 'cen-%d.fits' % os.getpid())
            cat.write_patch_centers(f)
            back = cat.read_patch_centers(f)
            rec.check(np.allclose(back, got, rtol=1e-14), 'centers read back', got=back, want=got, **lab(op))
            os.remove(f)
        elif op == 'wr':
            f = os.path.join(tmp, 'out.fits')
            cat.write(f)
            back = {q + '_units': u for q, u in o.get('units', {}).items()}
            for q in ['ra', 'dec', 'r'] if e['ra'] is not None else ['x', 'y', 'z']:
                if e[q] is not None:
                    back[q + '_col'] = q
            for q in cats.FIELDS + ['wpos', 'patch']:
                if e[q] is not None:
                    back[q + '_col'] = q
            if e['nontrivial_w']:
                back['w_col'] = 'w'
            back['keep_zero_weight'] = bool(o.get('keep'))
            c2 = treecorr.Catalog(f, **back)
            cats.compare(rec, c2, e, 'written and read back', skip=('npatch',) if e['single'] is None else ('npatch', 'patch'), **lab(op))
            os.remove(f)
    rec.step()
    cats.compare(rec, cat, e, 'at the end', **lab('end'))
    for c, ee, op in held:
        cats.compare(rec, c, ee, 'the catalog that was copied (%s)' % op, **lab('held'))
    rec.nontrivial += 1
    rec.outcome(e['ntot'], len(e['w']), kind, tuple(sorted(set(ops))))


OPS = ['load', 'unload', 'nf', 'nf2', 'nf3', 'kf', 'clear', 'r0', 'r1', 'r2', 'sel', 'sel2', 'pat', 'low', 'wp', 'rp', 'copy', 'pickle',
       'nn', 'kk', 'cen', 'wr']
MAIN = ['unload', 'nf', 'sel', 'pat', 'low', 'wp', 'rp', 'copy', 'kk', 'cen']
CACHE = ['nf', 'nf2', 'nf3', 'kf', 'clear', 'r0', 'r1', 'r2', 'unload', 'sel']
FILE = ['wp', 'rp', 'low', 'pat', 'unload', 'wr']


def seqs(alphabet, n):
    return itertools.product(alphabet, repeat=n)


def lru(case, rec):
    """LRU_Cache against a model of it: every history of calls, resizes and clears."""
    from treecorr.util import LRU_Cache
    _, size, ops = case
    calls = []

    def func(*key, extra=None):
        calls.append(key)
        return ('value', key, len(calls))
    c = LRU_Cache(func, size)
    model = collections.OrderedDict()
    last = None
    for n, op in enumerate(ops):
        rec.step()
        if op[0] == 'k':
            before = len(calls)
            got = c(op, 1, extra=n)
            hit = (op, 1) in model
            rec.check(hit == (len(calls) == before), 'the function was %s although the key %s' %
                      (('called', 'is cached') if hit else ('not called', 'is not cached')), config='lru', ops=ops)
            rec.check(got == (model[op, 1] if hit else ('value', (op, 1), len(calls))), 'wrong value', got=got, config='lru', ops=ops)
            model[op, 1] = got
            model.move_to_end((op, 1))
        elif op == 'clear':
            c.clear()
            model.clear()
        else:
            size = int(op[1:])
            c.resize(size)
        while len(model) > size:
            model.popitem(last=False)
        rec.check(c.size == size, 'size', got=c.size, want=size, config='lru', ops=ops)
        rec.check(sorted(c.values()) == sorted(model.values()), 'values', got=c.values(), want=list(model.values()), config='lru', ops=ops)
        rec.check(c.count == len(model), 'count', got=c.count, want=len(model), config='lru', ops=ops)
        rec.check(c.last_value == (list(model.values())[-1] if model else None), 'last_value', got=c.last_value, config='lru', ops=ops)
    rec.nontrivial += 1
    rec.outcome(tuple(model))


FOPT = [{}, dict(min_size=0.3), dict(max_size=1.2), dict(max_size=1.2, min_size=0.3, max_top=4), dict(split_method='median'),
        dict(split_method='middle'), dict(brute=True, min_size=0.3), dict(min_top=1), dict(max_top=0), dict(max_top=2, min_top=2),
        dict(coords='spherical'), dict(coords='3d'), dict(coords='spherical', max_top=0)]
FKIND = {'N': {}, 'K': ['k'], 'Z': ['z1', 'z2'], 'V': ['v1', 'v2'], 'G': ['g1', 'g2'], 'T': ['t1', 't2'], 'Q': ['q1', 'q2']}


def fieldcat(which, treecorr):
    n = 40
    i = np.arange(n)
    kw = {q: np.cos(0.7 * (j + 1) * i + j) for j, q in enumerate(sum(map(list, FKIND.values()), []))}
    a, b, r = 0.1 + 1.3 * ((i * 0.618034) % 1), -0.5 + 1.1 * ((i * 0.414214) % 1), 1. + 3 * ((i * 0.7320508) % 1)
    if which == 'flat':
        kw.update(x=4 * a, y=4 * b)
    elif which == 'config':
        kw.update(x=4 * a, y=4 * b, config={'split_method': 'median', 'brute': True, 'min_size': 0.5, 'max_top': 1})
    else:
        kw.update(ra=a, dec=b, r=r, ra_units='rad', dec_units='rad')
    return treecorr.Catalog(**kw)


def fdescribe(f):
    return dict(min_size=f.min_size, max_size=f.max_size, split_method=f.split_method, brute=f.brute, min_top=f.min_top, max_top=f.max_top,
                coords=f.coords, _coords=f._coords, ntop=f.nTopLevelNodes, type=type(f).__name__, ntot=f.ntot, nobj=f.data.getNObj(),
                size=f.data.getSize())


_fresh = {}
_pool = {}


def fieldseq(case, rec):
    '''Fields of other options never stand in for the one asked for.'''
    import treecorr
    _, which, size, seq = case
    treecorr.set_omp_threads(1)
    if _pool.get(which, [0])[0] % 50 == 0:
        _pool[which] = [0, fieldcat(which, treecorr)]
    _pool[which][0] += 1
    cat = _pool[which][1]
    cat.clear_cache()
    cat.resize_cache(size)
    held = []
    for kind, o in seq:
        rec.step()
        kw = FOPT[o]
        f = getattr(cat, 'get%sField' % kind)(**kw)
        held.append((f, o, kind))
        rec.check(cat.field is f, 'cat.field is not the last field', config='fields', seq=seq)
        if (which, kind, o) not in _fresh:
            c2 = fieldcat(which, treecorr)
            f2 = getattr(c2, 'get%sField' % kind)(**kw)
            _fresh[which, kind, o] = fdescribe(f2)
            rec.check(f2.coords == kw.get('coords', c2.coords), 'coords', got=f2.coords, config='fields', seq=seq)
            for q in ('max_top', 'split_method', 'min_size', 'max_size'):
                if q in kw and not ('brute' in kw and q == 'min_size'):
                    rec.check(getattr(f2, q) == kw[q], q, got=getattr(f2, q), config='fields', seq=seq)
        got = fdescribe(f)
        rec.check(got == _fresh[which, kind, o], 'field differs from that of a fresh catalog', got=got, want=_fresh[which, kind, o],
                  config='fields', seq=seq)
    for f, o, kind in held:             # the earlier ones are still what they were
        rec.check(fdescribe(f) == _fresh[which, kind, o], 'field changed', config='fields', seq=seq)
    rec.nontrivial += 1
    rec.outcome(which, [o for k, o in seq])


def dispatch(case, rec):
    (lru if case[0] == 'lru' else fieldseq if case[0] == 'fields' else run)(case, rec)


def cases(thorough):
    for n in range(1, 7 if thorough else 6):
        for ops in seqs(['k0', 'k1', 'k2', 'k3', 'r0', 'r1', 'r2', 'r3', 'clear'], n):
            if n < (6 if thorough else 5) or ops[0][0] == 'k' and ops[1] != ops[0]:
                for size in (1, 2) if n < 5 else (1,):
                    yield ('lru', size, ops)
    for which in ('flat', 'config', 'rdr'):
        opts = [o for o in range(len(FOPT)) if which == 'rdr' or 'coords' not in FOPT[o]]
        for a, b in itertools.product(opts, repeat=2):
            for j, k in enumerate(FKIND):
                yield ('fields', which, 1 + (a + b + j) % 2, [(k, a), (k, b), (k, a)])
                if thorough:
                    yield ('fields', which, 2 - (a + b + j) % 2, [(k, a), (k, b), (k, a)])
                for k2 in FKIND:
                    if k2 != k and (thorough or (a + 3 * b + j) % 7 == 0):
                        yield ('fields', which, 1, [(k, a), (k2, b), (k, b), (k2, a)])
    for kind in KINDS:
        for n in (1, 2):
            for ops in seqs(OPS, n):
                yield ('all', kind, ops)
        for n in ((3, 4) if thorough else (3,)):
            for ops in seqs(MAIN, n):
                yield ('main', kind, ops)
        if KINDS[kind][0] == 'array' or thorough:
            for ops in seqs(CACHE, 4 if kind == 'array-patch' or thorough else 3):
                yield ('cache', kind, ops)
        for ops in seqs(FILE, 5 if thorough else 4):
            yield ('file', kind, ops)
        if thorough:
            for ops in seqs(OPS, 3):
                yield ('all', kind, ops)


if __name__ == '__main__':
    ck = core.Check('C06', bounds='11 kinds of catalogs of 11 objects; every sequence of 1 and 2 of 22 operations, of 3 (thorough: 4) of the 10 main ones, '
                    'of 3-4 field cache and of 4 (5) file operations; every field kind x every ordered pair of 13 sets of field options x cache sizes; LRU_Cache: every sequence of up to 5 (6) of 9 operations')
    ck.run(cases(ck.thorough), dispatch)
    ck.finish()
