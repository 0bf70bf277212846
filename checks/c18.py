"""C18: patches never change a three-point result."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom, ref2, ref3
build.activate()
import numpy as np
from mc.three import BINS, EXACT, bins, corr, compare

ONLY = [int(x) for x in os.environ.get('MC_ONLY', '').split(',') if x]
_cats, _refs = {}, {}
EXTRA = {
    # small ranges, so that patches can be too far apart
    'flat': [dict(bin_type='LogRUV', metric='Euclidean', period=None, kw=dict(min_sep=0.1021, max_sep=1.17, nbins=2, nubins=2, nvbins=1)),
             dict(bin_type='LogSAS', metric='Euclidean', period=None, kw=dict(min_sep=0.1021, max_sep=1.17, nbins=2, nphi_bins=2)),
             dict(bin_type='LogMultipole', metric='Euclidean', period=None, kw=dict(min_sep=0.1021, max_sep=1.17, nbins=2, max_n=2))],
    'sphere': [dict(bin_type='LogSAS', metric='Euclidean', period=None, kw=dict(min_sep=0.5, max_sep=21., nbins=2, nphi_bins=2, sep_units='deg')),
               dict(bin_type='LogMultipole', metric='Arc', period=None, kw=dict(min_sep=0.5, max_sep=21., nbins=2, max_n=2, sep_units='deg'))],
    '3d': [dict(bin_type='LogRUV', metric='Euclidean', period=None, kw=dict(min_sep=0.1021, max_sep=1.17, nbins=2, nubins=2, nvbins=1)),
           dict(bin_type='LogSAS', metric='Arc', period=None, kw=dict(min_sep=0.0121, max_sep=0.31, nbins=2, nphi_bins=2))],
    'radecr': [],
}
CFG = {k: BINS[k] + EXTRA[k] for k in BINS}


def make(spec, coords, role, wtype, patch):
    import treecorr
    key = repr((spec, coords, role, wtype, patch))
    if key not in _cats:
        if len(_cats) > 200:
            _cats.clear()
        kw = geom.catalog_kwargs(spec, coords, role, wtype)
        _cats[key] = (treecorr.Catalog(patch=None if patch is None else np.array(patch), **kw), ref2.Pts(kw), kw)
    return _cats[key]


def reference(specs, coords, wtype, ordered, c, ib, pts):
    key = repr((specs, coords, wtype, ordered, ib))
    if key not in _refs:
        if len(_refs) > 300:
            _refs.clear()
        T, B = ref3.Tri(pts, ordered, c['metric'], c['period']), bins(c)
        idx, amb = B.index(T)
        _refs[key] = (T, B, amb, None if amb else ref3.sums(T, B, idx, ['K', 'G']))
    return _refs[key]


def variance(cls, pts, kw):
    """Per-component variance as documented: of the weighted mean of the values, per unit weight."""
    out, names = 0., ['k'] if cls == 'KKK' else ['g1', 'g2']
    w = np.asarray(kw['w'] if 'w' in kw else np.ones(len(kw[names[0]])), dtype=float)
    for nm in names:
        x = np.asarray(kw[nm])
        mean = np.sum(w * x) / np.sum(w)
        out += np.sum(w**2 * (x - mean)**2) / np.sum(w) / len(names)
    return out


def run(case, rec):
    import treecorr
    treecorr.set_omp_threads(1)
    group, coords, specs, patches, wtype, ordered, ib, classes, how = case
    if ONLY and ib not in ONLY:
        return
    made = [make(s, coords, r, wtype, p) for r, (s, p) in enumerate(zip(specs, patches))]
    cats, pts, raw = [m[0] for m in made], [m[1] for m in made], [m[2] for m in made]
    c = CFG[coords][ib]
    T, B, amb, S = reference(specs, coords, wtype, ordered, c, ib, pts)
    if amb or c['bin_type'] == 'LogMultipole' and B.twins:
        rec.counters['ambiguous'] += 1
        return
    rec.outcome(S['ntri'], S['weight'], patches)
    rec.nontrivial += bool(S['ntri'].any())
    mp = c['bin_type'] == 'LogMultipole'
    kw = dict(metric=c['metric'], num_threads=1, ordered=ordered)
    if c['bin_type'] == 'LogSAS':
        kw['algo'] = 'triangle'
    args = list(cats)
    if how == 'low_mem':
        kw['low_mem'] = True
    elif how == 'local':
        kw['patch_method'] = 'local'
    elif how == 'lists':
        args = [x.get_patches() for x in cats]
    elif how == 'locallists':
        args = [x.get_patches() for x in cats]
        kw['patch_method'] = 'local'
    for cls in classes:
        if cls == 'GGG' and c['metric'] == 'Periodic':
            continue
        co = corr(cls, c, EXACT[0][1], {}, coords)
        co.process(*args, **kw)
        rec.step()
        lab = '%s:%s:%s:%s:%s' % (how, c['bin_type'], c['metric'], 'o' if ordered else 'u', ''.join('-' if p is None else 'p' for p in patches))
        compare(rec, co, cls, T, B, S, lab)
        if cls == 'NNN':
            sw = [p.w.sum() for p in pts]
            tot = (sw[0]**3 / 6 if len(sw) == 1 else sw[0] * sw[1]**2 / 2 if len(sw) == 2 else np.prod(sw))
            rec.check(abs(co.tot - tot) <= 1e-9 * abs(tot), 'tot differs from that without patches', got=co.tot, want=tot, config=lab)
        elif not mp:
            # The shot noise is that of all the values, whatever the patches.
            v = [variance(cls, p, pk) for p, pk in zip(pts, raw)]
            want = np.prod(v * 3 if len(v) == 1 else v + v[1:] if len(v) == 2 else v)
            if cls == 'GGG':
                want *= 4
            if c['bin_type'] == 'LogSAS':
                want *= 2
            W = co.weight
            m = W != 0
            for nm in (['varzeta'] if cls == 'KKK' else ['vargam0', 'vargam1', 'vargam2', 'vargam3']):
                got = getattr(co, nm)
                rec.check(np.allclose(got[m] * W[m], want, rtol=1e-7, atol=1e-13) and not np.any(got[~m]),
                          nm + ' is not the shot noise of all the values', config=lab, got=got[m][:3] * W[m][:3], want=want)
        # The per-patch results add up to the whole.
        if co.results:
            c0 = (slice(None), slice(None), B.max_n if mp else slice(None))
            rec.check(np.allclose(sum(r.weight for r in co.results.values()), co.weight, rtol=1e-9, atol=1e-9 * S['absw'].max()),
                      'the results of the patches do not add up to the weight', config=lab, cls=cls)
            rec.check(np.allclose(sum(r.ntri[c0] for r in co.results.values()), co.ntri[c0], rtol=1e-9, atol=1e-9),
                      'the results of the patches do not add up to ntri', config=lab, cls=cls)
            if cls == 'NNN':
                rec.check(abs(sum(r.tot for r in co.results.values()) - co.tot) <= 1e-9 * abs(co.tot),
                          'the results of the patches do not add up to tot', config=lab, cls=cls)


def cases(thorough):
    ms = lambda *x: ['ms', list(x)]
    st = lambda name, n, k=0: ['st', name, n, k]
    every = ('NNN', 'KKK', 'GGG')
    q = 0
    hows = ('global', 'local', 'low_mem', 'lists', 'locallists')

    def ok(c, how):
        return not (c['bin_type'] == 'LogMultipole' and how in ('global_',))
    for co in ('flat', 'sphere', '3d', 'radecr'):
        nb = range(len(CFG[co]))
        step = {'flat': 1, 'sphere': 2, '3d': 2, 'radecr': 4}[co] * (1 if thorough else 3)
        # every assignment of four or five points to at most three patches
        for x in [(0, 1, 2, 3, 4), (0, 2, 5, 7), (3, 4, 6, 7), (1, 3, 5, 6, 7), (0, 4, 5, 6)]:
            for p in itertools.product((0, 1, 2), repeat=len(x)):
                for ib in nb:
                    for how in hows:
                        q += 1
                        if q % (step * 3 + 1):
                            continue
                        yield ('auto-' + co, co, [ms(*x)], [list(p)], 'w', True, ib, (every[q // 7 % 3],) if not thorough else every, how)
        A, Bs, C = (0, 2, 5), (1, 3, 4, 6), (7, 4, 1)
        for pa in [None] + list(itertools.product((0, 1, 2), repeat=3)):
            for pb in [None] + list(itertools.product((0, 1, 2), repeat=4)):
                if pa is not None and pb is not None and max(pa) != max(pb) and max(pa) and max(pb):
                    continue
                for ib in nb:
                    for o in (True, False):
                        for how in hows:
                            q += 1
                            if q % (step * 17 + 1):
                                continue
                            yield ('cross12-' + co, co, [ms(*A), ms(*Bs)], [pa and list(pa), pb and list(pb)], 'w', o, ib,
                                   (every[q // 7 % 3],), how)
        for pa in [None] + list(itertools.product((0, 1), repeat=3)):
            for pb in [None] + list(itertools.product((0, 1), repeat=4)):
                for pc in [None] + list(itertools.product((0, 1), repeat=3)):
                    if len(set(max(p) for p in (pa, pb, pc) if p is not None and max(p))) > 1:
                        continue
                    for ib in nb:
                        for o in (True, False):
                            for how in hows:
                                q += 1
                                if q % (step * 23 + 1):
                                    continue
                                yield ('cross123-' + co, co, [ms(*A), ms(*Bs), ms(*C)], [pa and list(pa), pb and list(pb), pc and list(pc)],
                                       'w', o, ib, (every[q // 7 % 3],), how)
        S = [st('halton', 13, 1), st('clusters', 14), st('halton', 17, 2), st('geom', 11), st('ring', 12)]
        for s in S:
            n = s[2]
            for kind in range(5):
                i = np.arange(n)
                p = [i % 3, i * 3 // n, i * 4 // n, (i % 2) * 2, (i * i) % 4][kind]
                for ib in nb:
                    for how in hows:
                        q += 1
                        if q % 2 and not thorough:
                            continue
                        yield ('sauto-' + co, co, [s], [[int(a) for a in p]], ('w', 'zeros')[kind % 2], True, ib, every if thorough else (every[q // 2 % 3],), how)


if __name__ == '__main__':
    ck = core.Check('C18', bounds=(
        'a fixed share (thorough: all) of: every assignment of 4 or 5 points to 3 patches (auto), of 3+4 points to 3 patches or to no '
        'patches (cross12), of 3+4+3 points to 2 patches or none (cross123, ordered or not), and 5 assignments of structured sets of 11 to '
        '17 points; x every configuration of mc/three.py plus short ranges for which patches are skipped x global, local, low_mem, '
        'lists of catalogs, local with lists x NNN, KKK, GGG; oracle: direct sum over all triangles, total weight, sums over results'))
    ck.run(cases(ck.thorough), run)
    ck.finish()
