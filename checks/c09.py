"""C09: patch-based covariances and their design matrices are those recomputed from the points."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom, ref2
build.activate()
import numpy as np
from mc.two import BINS, binning
from mc import resample
from mc.resample import stat_of, key_sums, total, close

SLOP = dict(bin_slop=0, angle_slop=0)
METHODS = ['jackknife', 'sample', 'bootstrap', 'marked_bootstrap']


def run(case, rec):
    import treecorr
    treecorr.set_omp_threads(1)
    group, coords, spec1, p1, spec2, p2, wtype, ib, classes, pm = case
    auto = spec2 is None
    kw1 = geom.catalog_kwargs(spec1, coords, 0, wtype)
    P1 = ref2.Pts(kw1)
    w1 = kw1.get('w', np.ones(len(kw1.get('x', kw1.get('ra')))))
    keep1 = np.asarray(w1) != 0
    P2 = None
    kw2 = None
    if not auto:
        kw2 = geom.catalog_kwargs(spec2, coords, 1, wtype)
        P2 = ref2.Pts(kw2)
    c = BINS[coords][ib]
    B = binning(None, c)
    P = ref2.Pairs(P1, P2, c['metric'], c['period'], ordered=auto and (pm == 'local' or c['bin_type'] == 'TwoD'))
    k, amb = B.index(P)
    if amb or not P1.n or (P2 is not None and not P2.n):
        rec.counters['skipped'] += 1
        return
    n1 = 1 if p1 is None else max(p1) + 1
    n2 = n1 if auto else (1 if p2 is None else max(p2) + 1)
    q1 = np.array([0] * len(keep1) if p1 is None else p1)[keep1]
    q2 = q1 if auto else np.array([0] * len(kw2.get('x', kw2.get('ra'))) if p2 is None else p2)
    if not auto:
        q2 = q2[np.asarray(kw2.get('w', np.ones(len(q2)))) != 0]
    npatch = max(n1, n2)
    cat1 = treecorr.Catalog(patch=None if p1 is None else np.array(p1), **kw1)
    cat2 = None if auto else treecorr.Catalog(patch=None if p2 is None else np.array(p2), **kw2)
    if (k >= 0).any():
        rec.nontrivial += 1
    index_sets = list(itertools.product(range(npatch), repeat=npatch))
    corrs = []
    rows_all = []
    for cls in classes:
        if c['metric'] == 'Periodic' and any(ref2.SPIN[x] for x in cls):
            continue           # known finding of C01 and C03
        if any(ref2.SPIN[x] for x in cls):
            P.dirs()
            if (P.undef & (k >= 0)).any():
                continue       # the direction of coincident and antipodal pairs is undefined
        rng = resample.EnumRNG(npatch)
        co = getattr(treecorr, cls + 'Correlation')(bin_type=c['bin_type'], rng=rng,
                                                   num_bootstrap=len(index_sets), **dict(c['kw'], **SLOP))
        co.process(*([cat1] if auto else [cat1, cat2]), metric=c['metric'], patch_method=pm, num_threads=1)
        rec.step()
        loc = pm == 'local'
        keys = key_sums(cls, P, B, k, q1, q2, n1, n2, loc, auto)
        lab = dict(cls=cls, pm=pm, config=ib)
        one1, one2 = n1 == 1, n2 == 1
        func = (lambda cc: cc.weight.ravel()) if cls == 'NN' else None

        def rows(method):
            vs, ws = [], []
            for m in resample.mults(method, npatch, one1, one2, index_sets):
                v, w = stat_of(cls, total(cls, keys, m, B))
                vs.append(v)
                ws.append(w if cls != 'NN' else np.nan)
            return np.array(vs), np.array(ws)

        if not keys:
            rec.counters['no_pairs'] += 1
            return
        if npatch == 1:
            for method in METHODS:
                try:
                    co.build_cov_design_matrix(method, func=func)
                    rec.fail('a patch-based covariance without patches did not raise an error', method=method, **lab)
                except (ValueError, ZeroDivisionError, FloatingPointError) as e:
                    rec.evals += 1
            continue
        snap = resample.snapshot(co)
        mine = {}
        for method in METHODS:
            want, ww = rows(method)
            sc = np.max(np.abs(want)) if cls != 'NN' else np.max(np.abs(want)) + 1
            sc = max(sc, 3.) if cls != 'NN' else sc
            rng.restart()
            v, w = co.build_cov_design_matrix(method, func=func)
            rec.step()
            enum = rng.used or 'bootstrap' not in method
            if enum:
                rec.check(close(v, want, sc), '%s design matrix differs from the one of the points' % method,
                          got=v, want=want, **lab)
            else:
                rec.counters['bootstrap_by_membership'] += 1
                d = np.abs(v[:, None, :] - want[None]).max(axis=2).min(axis=1) if v.size else np.zeros(0)
                rec.check(bool(np.all(d <= 3e-6 * sc)), '%s design matrix has a row which is no resampling' % method,
                          got=v, **lab)
            if enum and cls != 'NN':
                rec.check(close(w, ww, np.max(ww) + 1), '%s weights differ from those of the points' % method,
                          got=w, want=ww, **lab)
            if cls == 'NN':
                continue
            if not enum:
                want, ww = v, w
            mine[method] = want
            # the covariance itself
            rng.restart()
            try:
                C = co.estimate_cov(method)
            except RuntimeError as e:
                rec.check(method == 'sample' and bool(np.any(ww == 0)), 'estimate_cov(%s) raised %s' % (method, e), **lab)
                continue
            rec.check(not (method == 'sample' and np.any(ww == 0)),
                      'the sample covariance was calculated although some patches have no data', **lab)
            if method == 'sample' and np.any(ww == 0):
                continue
            Cw = resample.covariance(method, want, ww)
            rec.check(close(C, Cw, sc * sc * 3), '%s covariance differs from its definition' % method, got=C, want=Cw, **lab)
        rec.check(resample.same(snap, resample.snapshot(co)), 'estimating the covariance changed the correlation', **lab)
        rec.outcome(k, *[mine[m] for m in mine])
        if cls != 'NN':
            corrs.append(co)
            rows_all.append((mine, lab))
        # the same through the constructor
        if cls != 'NN':
            m = METHODS[(len(q1) + sum(q1) + ib) % 4]
            if m == 'sample' and np.any(rows('sample')[1] == 0):
                m = 'jackknife'
            rng2 = resample.EnumRNG(npatch)
            c2 = getattr(treecorr, cls + 'Correlation')(bin_type=c['bin_type'], rng=rng2, var_method=m,
                                                       num_bootstrap=len(index_sets), **dict(c['kw'], **SLOP))
            c2.process(*([cat1] if auto else [cat1, cat2]), metric=c['metric'], patch_method=pm, num_threads=1)
            want, ww = rows(m)
            if 'bootstrap' not in m or rng2.used:
                Cw = resample.covariance(m, want, ww)
                sc = max(3., np.max(np.abs(want))) ** 2 * 3
                rec.check(close(c2.cov, Cw, sc), 'cov of var_method=%s differs from its definition' % m, got=c2.cov, want=Cw, **lab)
                dg = np.diagonal(Cw).real
                rec.check(close(c2.cov_diag, dg, sc), 'cov_diag of var_method=%s is not the diagonal' % m, **lab)
                nb = B.n
                for nm, sl in ((('varxip', slice(0, nb)), ('varxim', slice(nb, 2 * nb))) if len(dg) == 2 * nb
                               else (('varxi', slice(0, nb)),)):
                    rec.check(close(getattr(c2, nm).ravel(), dg[sl], sc), '%s of var_method=%s is not the diagonal of cov' % (nm, m),
                              got=getattr(c2, nm), want=dg[sl], **lab)
            rec.check(np.allclose(getattr(c2, 'xip' if hasattr(c2, 'xip') else 'xi'),
                                  getattr(co, 'xip' if hasattr(co, 'xip') else 'xi'), rtol=1e-12, atol=1e-14),
                      'the values depend on var_method=%s' % m, **lab)
            # ... and after the object is used again for other data with other patches
            if auto and p1 is not None:
                p3 = [(x + 1) % npatch for x in p1][:-1] + [npatch]      # one patch more
                cat3 = treecorr.Catalog(patch=np.array(p3), **kw1)
                fresh2 = getattr(treecorr, cls + 'Correlation')(bin_type=c['bin_type'], rng=np.random.RandomState(3),
                                                              num_bootstrap=len(index_sets), **dict(c['kw'], **SLOP))
                for o in (co, fresh2):
                    o.process(cat3, metric=c['metric'], patch_method=pm, num_threads=1)
                for meth in METHODS:
                    va, wa = resample.with_rng(co, np.random.RandomState(3), meth)
                    vb, wb = resample.with_rng(fresh2, np.random.RandomState(3), meth)
                    if va is None or vb is None:
                        continue
                    rec.check(close(va, vb, 30.), '%s design matrix of a reused object differs from a fresh one' % meth, **lab)
                corrs.pop()
                rows_all.pop()
                rec.step(2)
    # several statistics at once
    if len(corrs) >= 2:
        for method in METHODS:
            if any(method not in m for m, _ in rows_all):
                continue
            # The correlations are to be sampled together, so the generators of the others, in whatever state they
            # are, must not make a difference (at most decide the order of the rows).
            for i, co in enumerate(corrs):
                co.rng.restart()
                for _ in range(5 * i):
                    next(co.rng.it)
            v, w = treecorr.build_multi_cov_design_matrix(corrs, method)
            if 'bootstrap' in method and not any(co.rng.used for co in corrs):
                continue
            want = np.concatenate([m[method] for m, _ in rows_all], axis=1)
            rolls = range(0, 5 * len(corrs), 5) if 'bootstrap' in method else [0]
            rec.check(any(close(v, np.roll(want, -r, axis=0), 30.) for r in rolls), '%s design matrix of several statistics is not the rows side by side' % method,
                      config=ib, cls=classes)
            f = lambda cs: np.concatenate([cc.getStat() * (2 + i) for i, cc in enumerate(reversed(cs))])
            for co in corrs:
                co.rng.restart()
            v, w = treecorr.build_multi_cov_design_matrix(corrs, method, func=f)
            want = np.concatenate([(2 + i) * m[method] for i, (m, _) in enumerate(reversed(rows_all))], axis=1)
            rec.check(close(v, want, 100.), '%s design matrix of a function of several statistics differs' % method,
                      config=ib, cls=classes)
            rec.step(2)


def cases(thorough):
    label_vecs = [p for p in itertools.product((0, 1, 2), repeat=4)]
    combos = list(itertools.combinations_with_replacement(range(8), 4))
    bins = {'flat': [0, 3, 6, 8], 'sphere': [0, 2], '3d': [0, 3, 4], 'radecr': [1]}
    autoc = ['NN', 'KK', 'GG'] if not thorough else ref2.AUTO_CLASSES
    crossc = ['NK', 'KG', 'NG'] if not thorough else ref2.CLASSES
    for co in ('flat', 'sphere', '3d', 'radecr'):
        step = {'flat': 17, 'sphere': 37, '3d': 61, 'radecr': 61}[co]
        if thorough:
            step = 1
        for ci, ms in enumerate(combos):
            if ci % step:
                continue
            for li, p in enumerate(label_vecs):
                if not thorough and (li + ci) % 3:
                    continue
                for bi, ib in enumerate(bins[co]):
                    if not thorough and (bi + li // 3) % 2:
                        continue
                    pm = ['global', 'local'][(li // 3 + ci) % 2]
                    if thorough:
                        for pm in ('global', 'local'):
                            yield ('auto-' + co, co, ['ms', list(ms)], list(p), None, None, 'w', ib, autoc, pm)
                    else:
                        yield ('auto-' + co, co, ['ms', list(ms)], list(p), None, None, 'w', ib, autoc, pm)
        sets_a = [(0, 2, 5), (1, 3, 4), (0, 0, 6), (2, 5, 7)]
        sets_b = [(1, 2, 3), (0, 5, 6), (4, 4, 7)]
        for a in sets_a if thorough else sets_a[:3]:
            for b in sets_b if thorough else sets_b[:2]:
                for pa in itertools.product((0, 1, 2), repeat=3):
                    for pb in [None] + list(itertools.product((0, 1, 2), repeat=3)):
                        if pb is not None and max(pb) != max(pa) and max(pb) and max(pa):
                            continue
                        if not thorough and (sum(pa) + 2 * sum(pb or ()) + a[1] + b[1] + pa[0] + (pb or (0,))[0]) % (7 if co == 'flat' else 23):
                            continue
                        for bi, ib in enumerate(bins[co][:2]):
                            pm = 'local' if pb is not None and max(pa) == max(pb) and (sum(pa) + bi) % 3 == 0 else 'global'
                            yield ('cross-' + co, co, ['ms', list(a)], list(pa), ['ms', list(b)],
                                   None if pb is None else list(pb), 'w', ib, crossc, pm)
                            if pb is None or not thorough and (sum(pb) % 3):
                                yield ('crossr-' + co, co, ['ms', list(b)], None if pb is None else list(pb),
                                       ['ms', list(a)], list(pa), 'w', ib, crossc, 'global')
    for pa in itertools.product((0, 1, 2), repeat=3):
        for ib in bins['flat'][:3]:
            yield ('cross-local-one', 'flat', ['ms', [0, 2, 5]], list(pa), ['ms', [1, 2, 3]], None, 'w', ib, ['NK', 'KG'], 'local')
            yield ('cross-local-two', 'flat', ['ms', [0, 2, 5]], None, ['ms', [1, 2, 3]], list(pa), 'w', ib, ['NK', 'KG'], 'local')
    for name in geom.STRUCTS:
        n = 25
        for pi in range(3 if not thorough else 6):
            i = np.arange(n)
            p = [(i % 3), (i * 3 // n), (i * 4 // n), ((i * i) % 4), (i * 7 % 5) % 4, (i % 2) * 2][pi]
            p = [int(x) for x in p]
            for co in ('flat', '3d'):
                for ib in bins[co]:
                    yield ('struct-' + co, co, ['st', name, n, 0], p, None, None, 'zeros', ib, autoc, ['global', 'local'][(ib + pi) % 2])
                    yield ('structx-' + co, co, ['st', name, n, 0], p, ['st', 'halton', n, 1], p, 'zeros', ib, crossc, 'global')


if __name__ == '__main__':
    ck = core.Check('C09', bounds=(
        'all assignments of small multisets of sites to at most three patches (both sides, one side, gaps), and structured '
        'sets in up to four patches; every jackknife, sample, and every one of the n^n bootstrap and marked-bootstrap index '
        'vectors; non-trivial: some pair is binned'))
    ck.run(cases(ck.thorough), run)
    ck.finish()
