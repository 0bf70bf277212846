"""C03: dividing the data into patches (or lists of catalogs) never changes a two-point result."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom, ref2
build.activate()
import numpy as np
from mc.two import BINS, corr, binning, compare

SLOP = dict(bin_slop=0, angle_slop=0)


def rgs(n):
    """All set partitions of n labelled points (restricted growth strings)."""
    def rec(p, m):
        if len(p) == n:
            yield list(p)
            return
        for k in range(m + 2):
            yield from rec(p + [k], max(m, k))
    yield from rec([], -1)


def assign(name, kw, n):
    """Deterministic assignments for structured sets."""
    i = np.arange(n)
    if name == 'mod3':
        return i % 3
    if name == 'mod5':
        return (i * 7) % 5
    if name == 'blocks':
        return i * 4 // n
    if name == 'single':               # patch 1 is a single point, the others large
        p = np.where(i % 2 == 0, 0, 2)
        p[n // 2] = 1
        return p
    if name == 'kx':
        x = kw.get('x', kw.get('ra'))
        return (np.argsort(np.argsort(x)) * 4 // n)
    if name == 'ky':
        y = kw.get('y', kw.get('dec'))
        return (np.argsort(np.argsort(y)) * 3 // n)
    raise KeyError(name)


def make(kw, how, p, npatch=None):
    """Catalog argument(s) for process."""
    import treecorr
    n = len(p)
    if how == 'patch':
        return treecorr.Catalog(patch=np.array(p), **kw)
    if how == 'list':          # a list of ordinary catalogs
        out = []
        for k in sorted(set(p)):
            m = np.array(p) == k
            out.append(treecorr.Catalog(**{a: (b[m] if isinstance(b, np.ndarray) else b) for a, b in kw.items()}))
        return out
    if how == 'singles':       # a list of catalogs with given patch number each, in reverse order
        out = []
        for k in sorted(set(p))[::-1]:
            m = np.array(p) == k
            out.append(treecorr.Catalog(patch=int(k), npatch=int(max(p)) + 1,
                                        **{a: (b[m] if isinstance(b, np.ndarray) else b) for a, b in kw.items()}))
        return out
    if how == 'none':
        return treecorr.Catalog(**kw)
    raise KeyError(how)


def run(case, rec):
    import treecorr
    treecorr.set_omp_threads(1)
    group, coords, spec1, how1, p1, spec2, how2, p2, wtype, classes, methods, bins = case
    kw1 = geom.catalog_kwargs(spec1, coords, 0, wtype)
    P1 = ref2.Pts(kw1)
    n1 = len(kw1.get('x', kw1.get('ra')))
    if isinstance(p1, str):
        p1 = assign(p1, kw1, n1)
    if P1.n == 0:
        return
    P2 = None
    if spec2 is not None:
        kw2 = geom.catalog_kwargs(spec2, coords, 1, wtype)
        P2 = ref2.Pts(kw2)
        if P2.n == 0:
            return
        if isinstance(p2, str):
            p2 = assign(p2, kw2, len(kw2.get('x', kw2.get('ra'))))
    if how1 in ('list', 'singles') and wtype == 'zeros':
        w = kw1['w']
        if any(not np.any(w[np.array(p1) == k]) for k in set(p1)):
            return             # an ordinary catalog may not have zero total weight
    cat1 = make(kw1, how1, p1)
    cat2 = make(kw2, how2, p2) if spec2 is not None else None
    clist = [c for c in (ref2.CLASSES if spec2 is not None else ref2.AUTO_CLASSES) if c in classes]
    pcache = {}
    for ib, c in enumerate(BINS[coords]):
        if bins is not None and ib not in bins:
            continue
        if P2 is None:
            mn, mx = c['kw'].get('min_rpar'), c['kw'].get('max_rpar')
            if c['metric'] == 'Rlens' or (mn is not None or mx is not None) and \
                    (mn is None or mx is None or mn != -mx):
                continue
        key = (c['metric'], c['period'], c['bin_type'] == 'TwoD')
        if key not in pcache:
            pcache[key] = ref2.Pairs(P1, P2, c['metric'], c['period'], ordered=c['bin_type'] == 'TwoD')
        P = pcache[key]
        B = binning(None, c)
        k, amb = B.index(P)
        if P2 is None and c['kw'].get('min_sep', 0.) == 0. and c['bin_type'] == 'Linear':
            continue
        if amb:
            rec.counters['ambiguous_edges_skipped'] += 1
            continue
        if (k >= 0).any() and len(set(p1)) > 1:
            rec.nontrivial += 1
        for method in methods:
            low_mem = method == 'low_mem'
            pm = 'local' if method == 'local' else 'global'
            for cls in clist:
                co = corr(cls, c, SLOP, {}, coords)
                rec.step()
                kw = dict(metric=c['metric'], num_threads=1, low_mem=low_mem, patch_method=pm)
                if P2 is None:
                    co.process(cat1, **kw)
                else:
                    co.process(cat1, cat2, **kw)
                scale = 1
                if pm == 'local' and P2 is None and max(p1) > 0:
                    scale = 2          # the local method counts each pair from both ends
                    if c['bin_type'] == 'TwoD':
                        scale = 1
                compare(rec, co, cls, P, B, k, 'all', (ib, method), scale)
                if cls == 'NN':
                    W1, W2 = P1.w.sum(), (P1 if P2 is None else P2).w.sum()
                    want = W1 * W2 * (0.5 if P2 is None else 1.)
                    if pm == 'local' and P2 is None and max(p1) > 0:
                        want *= 2
                    rec.check(abs(co.tot - want) <= 1e-9 * want, 'NN tot differs from the total of all pairs',
                              got=co.tot, want=want, config=(ib, method))
                if len(rec.viol) > 100:
                    return
        rec.outcome(k, ib, coords, list(p1))


LET = dict(K=('vark', ['k']), Z=('varz', ['z1', 'z2']), V=('varv', ['v1', 'v2']), G=('varg', ['g1', 'g2']),
           T=('vart', ['t1', 't2']), Q=('varq', ['q1', 'q2']))


def run_var(case, rec):
    """The shot-noise variances and the covariance made of them do not depend on the patches."""
    import treecorr
    treecorr.set_omp_threads(1)
    group, coords, spec, how, p, wtype, given = case
    kws = [geom.catalog_kwargs(spec, coords, role, wtype) for role in (0, 1)]
    user = {}
    if given:
        user = {v: 0.37 + 0.11 * i for i, (v, _) in enumerate(LET.values())}
    P = [ref2.Pts(k) for k in kws]
    n = len(kws[0].get('x', kws[0].get('ra')))
    if isinstance(p, str):
        p = assign(p, kws[0], n)
    for kw in kws:
        w = np.asarray(kw.get('w', np.ones(n)))
        if how in ('list', 'singles') and any(not np.any(w[np.array(p) == k]) for k in set(p)):
            return
        if not np.any(w):
            return
        kw.update(user)
    cats = [make(kw, how, p) for kw in kws]
    var = []
    for kw, ca in zip(kws, cats):
        out = {}
        cl = ca if isinstance(ca, list) else ca.get_patches()
        w = np.asarray(kw.get('w', np.ones(n)), dtype=float)
        for a, (v, names) in LET.items():
            if given:
                want = user[v]
            else:
                want = 0.
                for nm in names:
                    x = np.asarray(kw[nm])
                    mean = np.sum(w * x) / np.sum(w)
                    want += np.sum(w**2 * (x - mean)**2) / np.sum(w) / len(names)
            out[a] = want
            for low_mem in (False, True):
                got = getattr(treecorr, 'calculateVar' + a)(cl, low_mem=low_mem)
                rec.step()
                rec.check(abs(got - want) <= 1e-9 * abs(want) + 1e-12, 'variance of the values differs from its definition',
                          var=v, got=got, want=want, low_mem=low_mem, given=given)
            if not isinstance(ca, list):
                got = getattr(ca, v)
                rec.check(abs(got - want) <= 1e-9 * abs(want) + 1e-12, 'variance of the catalog differs from its definition',
                          var=v, got=got, want=want, given=given)
        var.append(out)
    c = BINS[coords][0]
    num = lambda a, b, o1, o2: (1. if a == 'N' else o1[a]) * (1. if b == 'N' else o2[b])
    for cls in ref2.CLASSES:
        if cls == 'NN':
            continue
        for cross in ((False, True) if cls in ref2.AUTO_CLASSES else (True,)):
            for method in ('global', 'low_mem', 'local'):
                if method == 'local' and not cross:
                    continue         # counts every pair twice
                if how == 'none' and method != 'global':
                    continue
                co = corr(cls, c, SLOP, {}, coords)
                args = cats if cross else cats[:1]
                co.process(*args, metric=c['metric'], num_threads=1, low_mem=method == 'low_mem',
                           patch_method='local' if method == 'local' else 'global')
                rec.step()
                want = num(cls[0], cls[1], var[0], var[1] if cross else var[0])
                # Two components of equal spin: each of the two sums has both components' noise
                if cls[0] not in 'NK' and cls[1] not in 'NK':
                    want *= 2
                W = co.weight.ravel()
                m = W > 0
                if m.any():
                    rec.nontrivial += 1
                for nm in ('varxi', 'varxip', 'varxim'):
                    if not hasattr(co, nm):
                        continue
                    got = getattr(co, nm).ravel()
                    ww = W[m]
                    rec.check(np.allclose(got[m], want / ww, rtol=1e-8, atol=1e-14), nm + ' with patches is not the shot noise of all the values',
                              cls=cls, cross=cross, method=method, got=got[m][:3], want=(want / ww)[:3], given=given)
                    rec.check(not np.any(got[~m]), nm + ' of an empty bin is not zero', cls=cls, got=got)
                d = co.estimate_cov('shot')
                d = np.diag(d) if d.ndim == 2 else d
                mm = np.tile(m, len(d) // len(m))
                WW = np.tile(W, len(d) // len(m))
                rec.check(np.allclose(d[mm], want / WW[mm], rtol=1e-8, atol=1e-14), 'shot covariance differs from varxi',
                          cls=cls, cross=cross, method=method)
    rec.outcome(coords, how, list(p), wtype, given)


def run_any(case, rec):
    (run_var if case[0].startswith('var-') else run)(case, rec)


def cases(thorough):
    for co in ('flat', 'sphere') + (('3d', 'radecr') if thorough else ()):
        for wt in ('w', 'zeros', 'unit'):
            for given in (0, 1):
                for n in (2, 3) + ((4,) if thorough else ()):
                    ms = [0, 1, 2, 3][:n]
                    for p in rgs(n):
                        hows = ('none',) if max(p) == 0 else ('patch', 'list', 'singles')
                        for how in hows:
                            yield ('var-small-' + co, co, ['ms', ms], how, p, wt, given)
                for name in geom.STRUCTS[:3]:
                    for a in ('mod3', 'single', 'kx'):
                        for how in ('patch', 'list'):
                            yield ('var-struct-' + co, co, ['st', name, 13, 0], how, a, wt, given)
    coords_list = ['flat', 'sphere', '3d', 'radecr']
    small = ['NN', 'GG'] if not thorough else ['NN', 'KK', 'ZZ', 'VV', 'GG', 'TT', 'QQ']
    xsmall = ['NN', 'KG'] if not thorough else ref2.CLASSES
    both = ['global', 'local']
    for co in coords_list:
        for n in (2, 3) + ((4,) if thorough else ()):
            for ms in itertools.combinations_with_replacement(range(8), n):
                for p in rgs(n):
                    if max(p) == 0:
                        continue
                    bb = None if thorough or n == 2 else [b for b in range(12) if (b + sum(ms) + sum(p)) % 2]
                    yield ('auto-small-' + co, co, ['ms', list(ms)], 'patch', p, None, None, None, 'w', small, both, bb)
        # every assignment on a smaller alphabet with labels permuted and gaps between them
        for ms in itertools.combinations((0, 1, 3, 5, 6), 3):
            for p in itertools.product((0, 1, 3), repeat=3):
                yield ('auto-labels-' + co, co, ['ms', list(ms)], 'patch', list(p), None, None, None, 'w', ['NN', 'KK'],
                       both + ['low_mem'], None)
                for how in ('list', 'singles'):
                    if len(set(p)) > 1:
                        yield ('auto-list-' + co, co, ['ms', list(ms)], how, list(p), None, None, None, 'w', ['NN', 'KK'],
                               ['global'], None)
        # cross: the same patches on both sides, or patches on one side only
        for a in itertools.combinations((0, 2, 4, 5, 7), 2):
            for b in itertools.combinations((1, 2, 5, 6), 2):
                for pa, pb in (([0, 1], [0, 1]), ([0, 1], [1, 0]), ([0, 1], [0, 0]), ([0, 0], [0, 1]), ([1, 0], [1, 1])):
                    h1 = 'none' if max(pa) == 0 else 'patch'
                    h2 = 'none' if max(pb) == 0 else 'patch'
                    if pb == [1, 1]:
                        # all of catalog 2 in the second patch; first is empty
                        h2 = 'singles'
                    yield ('cross-small-' + co, co, ['ms', list(a)], h1, pa, ['ms', list(b)], h2, pb, 'w', xsmall,
                           both + ['low_mem'], None)
        sizes = (13, 40) if not thorough else (13, 40, 150)
        for name in geom.STRUCTS:
            for n in sizes:
                for k in ((0, 11) if co in ('sphere', 'radecr') else (0, 1)):
                    for wt in ('w', 'zeros'):
                        for ai, a in enumerate(('mod3', 'mod5', 'blocks', 'single', 'kx', 'ky')):
                            if not thorough and (ai + n + k + (wt == 'w')) % 3:
                                continue
                            s = ['st', name, n, k]
                            bb = None if thorough else [b for b in range(12) if (b + ai // 2 + n + k) % 2]
                            yield ('auto-struct-' + co, co, s, 'patch', a, None, None, None, wt, small,
                                   both + ['low_mem'], bb)
                            other = geom.STRUCTS[(geom.STRUCTS.index(name) + 3) % 8]
                            s2 = ['st', other, n + 9, k]
                            if a in ('mod3', 'kx', 'single'):
                                yield ('cross-struct-' + co, co, s, 'patch', a, s2, 'patch', a, wt, xsmall,
                                       both + ['low_mem'], bb)
                            yield ('cross-one-' + co, co, s, 'patch', a, s2, 'none', [0], wt, xsmall, ['global', 'low_mem'], bb)
                            yield ('cross-two-' + co, co, s, 'none', [0], s2, 'patch', a, wt, xsmall, ['global', 'low_mem'], bb)


if __name__ == '__main__':
    ck = core.Check('C03', bounds=(
        'all set partitions (and label permutations with gaps) of all small multisets of sites into patches, '
        'structured sets with several kinds of assignment, lists of catalogs, patches on one or both sides, '
        'x patch method x binning x metric; non-trivial: at least two patches and at least one pair binned'))
    ck.run(cases(ck.thorough), run_any)
    ck.finish()
