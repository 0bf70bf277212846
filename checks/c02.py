"""C02: three-point correlations are the sums over all triangles."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom, ref2, ref3
build.activate()
import numpy as np
from mc import three
from mc.three import EXACT, OPTIONS, bins, corr, compare, to_sas
BINS = {k: v + three.PHI[k] + three.FULL[k] for k, v in three.BINS.items()}

_cats = {}
ONLY = [int(x) for x in os.environ.get('MC_ONLY', '').split(',') if x]


def catalog(spec, coords, role, wtype):
    import treecorr
    key = repr((spec, coords, role, wtype))
    if key not in _cats:
        if len(_cats) > 64:
            _cats.clear()
        kw = geom.catalog_kwargs(spec, coords, role, wtype)
        _cats[key] = (treecorr.Catalog(**kw), ref2.Pts(kw))
    return _cats[key]


def run(case, rec):
    import treecorr
    treecorr.set_omp_threads(1)
    if case[0].startswith('tosas'):
        return run_tosas(case, rec)
    group, coords, specs, wtype, ordered, cfgs, classes, slops, opts = case
    made = [catalog(s, coords, r, wtype) for r, s in enumerate(specs)]
    cats, pts = [m[0] for m in made], [m[1] for m in made]
    if any(p.n == 0 for p in pts):
        return
    tri = {}
    for ib in cfgs:
        if ONLY and ib not in ONLY:
            continue
        c = BINS[coords][ib]
        key = (c['metric'], repr(c['period']))
        if key not in tri:
            tri[key] = ref3.Tri(pts, ordered, c['metric'], c['period'])
        T, B = tri[key], bins(c)
        idx, amb = B.index(T)
        if amb:
            rec.counters['ambiguous'] += 1
            continue
        kinds = (['K'] if 'KKK' in classes else []) + (['G'] if 'GGG' in classes and c['metric'] != 'Periodic' else [])
        S = ref3.sums(T, B, idx, kinds)
        rec.outcome(S['ntri'], S['weight'])
        if S['ntri'].any():
            rec.nontrivial += 1
        for cls in classes:
            for s in slops:
                for o in opts:
                    sn, skw = EXACT[s]
                    co = corr(cls, c, skw, OPTIONS[o], coords)
                    algo = None if c['bin_type'] != 'LogSAS' else 'triangle'
                    co.process(*cats, metric=c['metric'], num_threads=1, ordered=ordered, algo=algo)
                    rec.step()
                    compare(rec, co, cls, T, B, S, '%s:%d:%s:%d:%s' % (coords, ib, sn, o, 'o' if ordered else 'u'),
                            values=c['metric'] != 'Periodic' or cls != 'GGG')
                    if cls == 'NNN':
                        sw = [p.w.sum() for p in pts]
                        tot = (sw[0]**3 / 6 if len(sw) == 1 else sw[0] * sw[1]**2 / 2 if len(sw) == 2 else np.prod(sw))
                        rec.check(abs(co.tot - tot) <= 1e-9 * abs(tot), 'tot differs from the number of triangles',
                                  got=co.tot, want=tot, config=ib)


SASPHI = [dict(nphi_bins=5), dict(nphi_bins=4, min_phi=0.21, max_phi=2.83),
       dict(nphi_bins=3, min_phi=13., max_phi=151., phi_units='deg'), {}]


def run_tosas(case, rec):
    import treecorr
    group, coords, specs, wtype, ordered, ib, ip, cls = case
    made = [catalog(s, coords, r, wtype) for r, s in enumerate(specs)]
    cats, pts = [m[0] for m in made], [m[1] for m in made]
    c = BINS[coords][ib]
    T, B = ref3.Tri(pts, ordered, c['metric'], c['period']), bins(c)
    idx, amb = B.index(T)
    if amb or B.twins:
        rec.counters['ambiguous'] += 1
        return
    S = ref3.sums(T, B, idx, {'KKK': ['K'], 'GGG': ['G'], 'NNN': []}[cls])
    kw = SASPHI[ip]
    unit = ref2.UNITS[kw.get('phi_units', 'radians')]
    lo, hi, n = kw.get('min_phi', 0.) * unit, kw.get('max_phi', np.pi / unit) * unit, kw.get('nphi_bins', B.max_n)
    if n == 0:
        return
    want, phi = to_sas(S, T, B, lo, hi, n)
    rec.outcome(S['ntri'], S['weight'])
    rec.nontrivial += bool(S['ntri'].any())
    co = corr(cls, c, EXACT[0][1], {}, coords)
    co.process(*cats, metric=c['metric'], num_threads=1, ordered=ordered)
    rec.step()
    with np.errstate(all='ignore'):
        sas = co.toSAS(**kw)
    rec.step()
    lab = dict(config='%s:%d:%d:%s' % (coords, ib, ip, 'o' if ordered else 'u'), cls=cls)
    close = lambda a, b, sc: bool((np.abs(a - b) <= 4e-6 * sc + 1e-11).all())
    rec.check(close(sas.weight.ravel(), want['weight'], want['absw']), 'toSAS: weight is not the Fourier sum',
              got=sas.weight.ravel(), want=want['weight'], **lab)
    rec.check(bool((sas.meanphi == sas.meanphi[:1, :1, :]).all()) and np.allclose(sas.meanphi[0, 0] * unit, phi, atol=1e-12),
              'toSAS: meanphi', got=sas.meanphi[0, 0], want=phi / unit, **lab)
    bad = want['ntri_bad'] | (np.abs(want['weight']) > 0) & (np.repeat(np.abs(want['weight'].reshape(-1, n).sum(axis=1)), n) < 1e-5 * want['absw'])
    rec.check(bool((np.abs(sas.ntri.ravel() - want['ntri']) <= 1e-4 * (1 + np.abs(want['ntri'])))[~bad].all()),
              'toSAS: ntri is not the shared out number of triangles', got=sas.ntri.ravel(), want=want['ntri'], **lab)
    for nm in ('meand2', 'meand3', 'meanlogd2', 'meanlogd3'):
        rec.check(bool((getattr(sas, nm) == getattr(co, nm)[:, :, :1]).all()), 'toSAS: %s changed' % nm, **lab)
    d1 = np.sqrt(np.maximum(sas.meand2**2 + sas.meand3**2 - 2 * sas.meand2 * sas.meand3 * np.cos(phi), 0))
    rec.check(np.allclose(sas.meand1, d1, rtol=1e-7, atol=1e-9), 'toSAS: meand1', **lab)
    w = sas.weight.ravel()
    m = np.abs(want['weight']) > 1e-4 * want['absw']
    if cls == 'KKK':
        rec.check(close((sas.zeta.ravel() * w)[m], want['zeta'][m], want['abszeta'][m]), 'toSAS: zeta is not the Fourier sum',
                  got=sas.zeta.ravel() * w, want=want['zeta'], **lab)
    if cls == 'GGG':
        m &= ~want['gam_bad']
        for a in range(4):
            g = getattr(sas, 'gam%d' % a).ravel() * w
            rec.check(close(g[m], want['gam%d' % a][m], want['absgam'][m]), 'toSAS: gam%d is not the rotated Fourier sum' % a,
                      got=g, want=want['gam%d' % a], **lab)
    if cls == 'NNN':
        rec.check(sas.tot == co.tot, 'toSAS: tot', **lab)
    rec.check((sas.coords, sas.metric, sas.npatch1) == (co.coords, co.metric, co.npatch1), 'toSAS: coords or metric', **lab)
    # the default algorithm of LogSAS is the same thing
    if c['kw']['max_n'] and kw:
        k2 = {k: v for k, v in c['kw'].items() if k != 'max_n'}
        key = ('sas', coords, ib, ip, cls)
        if key not in _cats:
            _cats[key] = getattr(treecorr, cls + 'Correlation')(bin_slop=0, angle_slop=0, **k2, **kw)
        d = _cats[key]
        with np.errstate(all='ignore'):
            d.process(*cats, metric=c['metric'], num_threads=1, ordered=ordered, max_n=c['kw']['max_n'])
        rec.step()
        for nm in ['weight', 'ntri', 'meand1', 'meand2', 'meand3', 'meanlogd1', 'meanlogd2', 'meanlogd3', 'meanphi'] + {
                'KKK': ['zeta', 'varzeta'], 'GGG': ['gam0', 'gam1', 'gam2', 'gam3', 'vargam0'], 'NNN': ['tot']}[cls]:
            a, b = [np.array(getattr(x, nm)) for x in (d, sas)]
            rec.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True),
                      'LogSAS by the multipole algorithm: %s is not that of LogMultipole.toSAS' % nm, got=a, want=b, **lab)


def cases(thorough):
    nb = {k: list(range(len(v))) for k, v in three.BINS.items()}
    ph = {k: list(range(len(three.BINS[k]), len(three.BINS[k]) + len(three.PHI[k]))) for k in BINS}
    fu = {k: list(range(len(three.BINS[k]) + len(three.PHI[k]), len(v))) for k, v in BINS.items()}
    st = lambda name, n, k=0: ['st', name, n, k]
    ms = lambda x: ['ms', list(x)]
    every = ('NNN', 'KKK', 'GGG')
    q = 0
    for co in ('flat', 'sphere', '3d', 'radecr'):
        # small scope: every multiset of sites
        mx = 5 if thorough else 4
        for x in geom.multisets(8, mx, 3):
            q += 1
            if len(x) > 3 and not thorough and (q % 1):
                continue
            yield ('auto-' + co, co, [ms(x)], 'w', True, nb[co], every, [0], [1])
        for a in geom.multisets(8, 2, 1):
            for b in geom.multisets(8, 3 if thorough else 2, 2):
                q += 1
                if q % ((1 if co == 'flat' else 2) if not thorough else 1):
                    continue
                for o in (True, False):
                    yield ('cross12-' + co, co, [ms(a), ms(b)], 'w', o, nb[co], every, [0], [1])
        for a, b, d in itertools.product(geom.multisets(8, 1, 1), geom.multisets(8, 2, 1), geom.multisets(8, 2, 1)):
            q += 1
            if q % ((9 if co == 'flat' else 23) if not thorough else 3):
                continue
            for o in (True, False):
                yield ('cross123-' + co, co, [ms(a), ms(b), ms(d)], 'w', o, nb[co], every, [0], [1])
        if co in ('sphere', 'radecr'):      # catalogs that cover much of the sky
            for a in geom.multisets(8, 3, 3):
                for b in geom.multisets(8, 3, 2):
                    q += 1
                    if q % (11 if not thorough else 3) == 0:
                        yield ('wide-' + co, co, [ms(a), ms(b)], 'w', True, nb[co], ('KKK',), [0], [1])
        # narrow ranges of phi
        for x in geom.multisets(8, 4, 3):
            q += 1
            if q % (2 if not thorough else 1) == 0:
                yield ('phi-' + co, co, [ms(x)], 'unit', True, ph[co], ('NNN',), [0], [1])
        for a, b in itertools.product(geom.multisets(8, 2, 1), geom.multisets(8, 4, 3)):
            q += 1
            if q % (31 if not thorough else 5) == 0:
                for o in (True, False):
                    yield ('phi-' + co, co, [ms(a), ms(b)], 'unit', o, ph[co], ('NNN',), [0], [1])
        for sets in ([st('halton', 9)], [st('clusters', 11)], [st('geom', 8), st('halton', 7, 1)], [st('clusters', 7), st('clusters', 13, 2)],
                     [st('halton', 5), st('dups', 6), st('clusters', 9, 1)]):
            for o in (True, False):
                yield ('phi-' + co, co, sets, 'zeros', o, ph[co], ('NNN',), [0, 1], [0, 1, 4])
        # ranges of separation that discard whole cells: larger sets
        full = [[st(nm, n, k)] for nm in ('halton', 'clusters', 'ring') for n in (17, 24, 31) + ((41, 53) if thorough else ()) for k in range(6)]
        full += [[st(x, 13, k), st(y, 17, k + 1)] for x in ('halton', 'clusters', 'ring') for y in ('halton', 'clusters', 'grid') for k in range(3)]
        full += [[st(x, 11, k), st(y, 10, k + 1), st(z, 12, k + 3)] for x, y, z in itertools.product(('halton', 'clusters', 'ring'), repeat=3)
                 for k in range(1 if not thorough else 4)]
        for sets in full:
            for o in (True, False):
                if o or len(sets) > 1:
                    yield ('full-' + co, co, sets, 'unit', o, fu[co], ('NNN',), [0], [0, 1, 3, 4])
        # structured sets, every option
        S = [st('halton', 9), st('halton', 13, 1), st('clusters', 11), st('clusters', 9, 2), st('geom', 11), st('dups', 10),
             st('halton', 17, 2), st('clusters', 19, 1)]
        for n, a in enumerate(S):
            for wt in ('w', 'zeros', 'unit'):
                yield ('sauto-' + co, co, [a], wt, True, nb[co], every, [0, 1], range(len(OPTIONS)) if wt == 'w' and (thorough or co in ('flat', 'sphere')) else [0])
        for ib, c in enumerate(three.BINS[co]):
            if c['bin_type'] == 'LogMultipole' and c['metric'] != 'Periodic':
                for ip in range(len(SASPHI)):
                    for cls in every:
                        for sets in ([S[0]], [S[1]], [S[4]], [st('halton', 5), st('halton', 7, 3)], [ms((0, 1, 2)), st('halton', 6), ms((3, 4))],
                                     [ms((0, 1, 3, 4))], [ms((2, 5, 6))], [ms((0, 4)), ms((1, 6, 7))]):
                            for o in (True, False):
                                if o or len(sets) > 1:
                                    yield ('tosas-' + co, co, sets, 'w', o, ib, ip, cls)
        pool = [st('halton', 5), st('clusters', 7), st('geom', 6), st('dups', 6), ms((0, 1, 2, 3)), ms((2, 4, 5, 6, 7))]
        for a, b in itertools.product(pool, repeat=2):
            for o in (True, False):
                yield ('scross12-' + co, co, [a, b], 'w', o, nb[co], every, [0, 1], [0, 4] if thorough else [0])
        for a, b, d in itertools.product(pool, repeat=3):
            q += 1
            for o in (True, False):
                yield ('scross123-' + co, co, [a, b, d], 'zeros' if q % 3 else 'w', o, nb[co], every, [0], [q % len(OPTIONS)])


if __name__ == '__main__':
    ck = core.Check('C02', bounds=(
        'auto: every multiset of 3 sites, and a fixed share of those of 4 (thorough: all to 5), of 8 sites on flat/sphere/3d/ra-dec-r; '
        'cross12/cross123: a fixed share of all pairs/triples of small multisets, ordered or not; plus structured sets of 9 to 19 points '
        '(halton, clusters, geometric, duplicates); x every configuration of mc/three.py (LogRUV, LogSAS, LogMultipole; Euclidean, Arc, '
        'Periodic) x NNN, KKK, GGG x bin_slop=angle_slop=0 and brute x tree options; toSAS of every LogMultipole configuration for 4 phi '
        'binnings; oracle: direct sum over all triangles (mc/ref3.py)'))
    ck.run(cases(ck.thorough), run)
    ck.finish()
