"""C01: two-point sums equal the direct sum over all pairs."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom, ref2
build.activate()
import numpy as np
from mc.two import BINS, EXACT, OPTIONS, corr, binning, compare

def run(case, rec):
    import treecorr
    treecorr.set_omp_threads(1)
    group, coords, spec1, spec2, wtype, classes, modes, opts, bins = case
    kw1 = geom.catalog_kwargs(spec1, coords, 0, wtype)
    P1 = ref2.Pts(kw1)
    if P1.n == 0:
        return
    cat1 = treecorr.Catalog(**kw1)
    if spec2 is not None:
        kw2 = geom.catalog_kwargs(spec2, coords, 1, wtype)
        P2 = ref2.Pts(kw2)
        if P2.n == 0:
            return
        cat2 = treecorr.Catalog(**kw2)
    else:
        P2 = cat2 = None
    pcache = {}
    clist = ref2.CLASSES if spec2 is not None else ref2.AUTO_CLASSES
    if classes:
        clist = [c for c in clist if c in classes]
    for ib, c in enumerate(BINS[coords]):
        if bins is not None and ib not in bins:
            continue
        if P2 is None:
            if c['metric'] == 'Rlens':
                continue       # not symmetric: which end is "first" is not defined for auto
            mn, mx = c['kw'].get('min_rpar'), c['kw'].get('max_rpar')
            if (mn is not None or mx is not None) and (mn is None or mx is None or mn != -mx):
                continue       # sign of r_parallel is not defined for auto
        if c['metric'] == 'Periodic':
            # TreeCorr documents that points must lie within a box of the period's size
            pass
        key = (c['metric'], c['period'], c['bin_type'] == 'TwoD')
        if key not in pcache:
            pcache[key] = ref2.Pairs(P1, P2, c['metric'], c['period'], ordered=c['bin_type'] == 'TwoD')
        P = pcache[key]
        B = binning(None, c)
        k, amb = B.index(P)
        if P2 is None:
            if c['kw'].get('min_sep', 0.) == 0. and c['bin_type'] == 'Linear' and np.any(P.r == 0):
                continue       # whether coincident points are a pair is not specified at min_sep=0
        if amb:
            rec.counters['ambiguous_edges_skipped'] += 1
            continue
        if k.size and (k >= 0).any():
            rec.nontrivial += 1
        for mode, slop, exact in modes:
            for opt in opts:
                for cls in clist:
                    if coords in ('3d', 'radecr') and c['metric'] in () and cls != 'NN':
                        continue
                    co = corr(cls, c, slop, opt, coords)
                    rec.step()
                    if P2 is None:
                        co.process(cat1, metric=c['metric'], num_threads=1)
                    else:
                        co.process(cat1, cat2, metric=c['metric'], num_threads=1)
                    compare(rec, co, cls, P, B, k, exact, (ib, mode, opt))
                    if len(rec.viol) > 400:
                        return
        rec.outcome(k, ib, coords)


def cases(thorough):
    ALL = None
    ex2 = EXACT[:2]
    if thorough:
        a_n, c_n = 4, (3, 3)
    else:
        a_n, c_n = 3, (1, 2)
    o0 = [dict(max_top=0)]
    coords_list = ['flat', 'sphere', '3d', 'radecr']
    for co in coords_list:
        for idx in geom.multisets(8, a_n, 2):
            yield ('auto-small-' + co, co, ['ms', idx], None, 'w', ALL, EXACT, o0, None)
        for i1 in geom.multisets(8, c_n[0]):
            for n2, i2 in enumerate(geom.multisets(8, c_n[1])):
                if not thorough and co != 'flat' and (n2 + i1[0]) % 2:
                    continue
                yield ('cross-small-' + co, co, ['ms', i1], ['ms', i2], 'w', ALL, EXACT, o0, None)
    # catalogs that cover much of the sky
    for co in ('sphere', 'radecr'):
        q = 0
        for i1 in geom.multisets(8, 4, 3):
            for i2 in geom.multisets(8, 3, 2):
                q += 1
                if q % (47 if not thorough else 5) == 0:
                    yield ('wide-' + co, co, ['ms', i1], ['ms', i2], 'w', ['NN', 'KG'], EXACT, o0, None)
    sizes = (13, 60) if not thorough else (5, 13, 60, 300)
    for co in coords_list:
        for name in geom.STRUCTS:
            for n in sizes:
                for k in ((0, 11) if co in ('sphere', 'radecr') else (0, 1)):
                    for wt in ('w', 'zeros'):
                        s = ['st', name, n, k]
                        opts = OPTIONS if thorough or co == 'flat' else [OPTIONS[(n + k + len(name) + j) % 7] for j in (0, 2, 5)]
                        yield ('auto-struct-' + co, co, s, None, wt, ALL, EXACT, opts, None)
                        other = geom.STRUCTS[(geom.STRUCTS.index(name) + 3) % 8]
                        m = 7 if n == 60 else 2 * n
                        opts = OPTIONS if thorough else [OPTIONS[(n + k + len(name) + j) % 7] for j in (0, 3)]
                        yield ('cross-struct-' + co, co, s, ['st', other, m, k], wt, ALL, EXACT, opts, None)


if __name__ == '__main__':
    ck = core.Check('C01', bounds=(
        'every multiset of points up to the stated size on an 8-site multi-scale alphabet, and '
        'structured sets, x coordinate system x binning x metric x 18 correlation classes x '
        'exact-slop modes x tree options; a case is non-trivial when at least one pair is binned'))
    ck.run(cases(ck.thorough), run)
    ck.finish()
