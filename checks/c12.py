"""C12: with bin_slop and angle_slop, no pair is misplaced by more than the documented amount."""
import itertools, math, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom, ref2
build.activate()
import numpy as np
from mc.two import BINS, cfg, binning, compare

FINE = {
    'flat': [cfg('Log', min_sep=0.0521, max_sep=9.37, nbins=40), cfg('Log', min_sep=0.2113, max_sep=7.37, nbins=11),
             cfg('Linear', min_sep=0.3317, max_sep=6.713, nbins=23), cfg('TwoD', max_sep=4.337, nbins=16)],
    'sphere': [cfg('Log', min_sep=0.213, max_sep=171., nbins=31, sep_units='deg'), cfg('Linear', 'Arc', min_sep=0.071, max_sep=3.01, nbins=37)],
    '3d': [cfg('Log', min_sep=0.0521, max_sep=19.37, nbins=29), cfg('Log', 'Rperp', min_sep=0.0321, max_sep=7.37, nbins=26),
           cfg('Linear', 'Periodic', (9.1, 8.3, 7.9), min_sep=0.111, max_sep=3.3, nbins=24, xperiod=9.1, yperiod=8.3, zperiod=7.9)],
    'radecr': [cfg('Log', 'Rlens', min_sep=0.0121, max_sep=3.37, nbins=21), cfg('Log', min_sep=0.0121, max_sep=3.37, nbins=33)],
}
CFG = {k: BINS[k] + FINE[k] for k in BINS}
_cats = {}


def make(spec, coords, role, wtype, option):
    import treecorr
    key = repr((spec, coords, role, wtype, option))
    if key not in _cats:
        if len(_cats) > 100:
            _cats.clear()
        kw = geom.catalog_kwargs(spec, coords, role, wtype)
        kw['k'] = np.abs(kw['k'])             # so that sums over any set of pairs are monotonic
        n = len(kw['k'])
        if option == 'patch':
            kw['patch'] = np.arange(n) % 3
        _cats[key] = treecorr.Catalog(**kw), ref2.Pts(kw)
    return _cats[key]


def corr(cls, c, **kw):
    import treecorr
    d = dict(c['kw'])
    d.update(kw)
    return getattr(treecorr, cls + 'Correlation')(bin_type=c['bin_type'], **d)


def position(P, B):
    """Where the pairs are along each binned axis, in units of bins."""
    r = P.r / B.unit
    if B.bin_type == 'TwoD':
        return [(P.d[:, 0] / B.unit + B.max_sep) / B.bs, (P.d[:, 1] / B.unit + B.max_sep) / B.bs]
    if B.bin_type == 'Linear':
        return [(r - B.min_sep) / B.bs]
    return [np.where(r > 0, (np.log(np.maximum(r, 1e-300)) - math.log(B.min_sep)) / B.bs, -1e9)]


def bounds(rec, got, val, f, ok, dn, up, n, label):
    """got: binned totals of the nonnegative val.  Whatever set of adjacent bins one takes, it holds at least the
    pairs that are inside it by the slop, and at most those inside or outside by no more than the slop."""
    tol = 1e-6
    scale = 1e-6 * np.sum(np.abs(val)) + 1e-9
    if len(f) == 1:
        o = np.argsort(f[0][ok])
        x = f[0][ok][o]
        cs = np.concatenate([[0.], np.cumsum(val[ok][o])])
        cg = np.concatenate([[0.], np.cumsum(got.ravel())])
        e = np.arange(n + 1)
        at = lambda y, side: cs[np.searchsorted(x, y, side)]
        i, j = np.triu_indices(n + 1, 1)          # the bins i .. j-1
        tot = cg[j] - cg[i]
        must = at(e - dn - tol, 'right')[j] - at(e + up + tol, 'left')[i]
        may = at(e + up + tol, 'right')[j] - at(e - dn - tol, 'left')[i]
        bad = np.nonzero((tot < must - scale) | (tot > may + scale))[0]
        m = bad[0] if len(bad) else 0
        return rec.check(len(bad) == 0, 'bins hold pairs further from them than the slop, or miss pairs well inside',
                         bins=[int(i[m]), int(j[m]) - 1], got=tot[m], at_least=must[m], at_most=may[m], dn=dn, up=up, **label)
    else:
        got = got.reshape(n, n)               # y, x
        step = 1 if n < 8 else 3
        for a, b in itertools.combinations(range(0, n + 1, step), 2):
            for c, d in itertools.combinations(range(0, n + 1, step), 2):
                tot = got[c:d, a:b].sum()
                x, y = f
                must = val[ok & (x >= a + up + tol) & (x <= b - dn - tol) & (y >= c + up + tol) & (y <= d - dn - tol)].sum()
                may = val[ok & (x >= a - dn - tol) & (x <= b + up + tol) & (y >= c - dn - tol) & (y <= d + up + tol)].sum()
                if not rec.check(must - scale <= tot <= may + scale, 'bins hold pairs further from them than the slop, or miss pairs well inside',
                                 bins=[a, b, c, d], got=tot, at_least=must, at_most=may, dn=dn, up=up, **label):
                    return False
    return True


def run_bin(case, rec):
    import treecorr
    treecorr.set_omp_threads(1)
    group, coords, spec1, spec2, wtype, ib, slop, opt, option = case
    c = CFG[coords][ib]
    cat1, P1 = make(spec1, coords, 0, wtype, option)
    cat2, P2 = (None, None) if spec2 is None else make(spec2, coords, 1, wtype, option)
    if P2 is None:
        mn, mx = c['kw'].get('min_rpar'), c['kw'].get('max_rpar')
        if c['metric'] == 'Rlens' or (mn is not None or mx is not None) and (mn is None or mx is None or mn != -mx):
            return
        if c['kw'].get('min_sep', 0.) == 0. and c['bin_type'] == 'Linear':
            return
    twod = c['bin_type'] == 'TwoD'
    P = ref2.Pairs(P1, P2, c['metric'], c['period'], ordered=twod)
    B = binning(None, c)
    f = position(P, B)
    ok = np.ones(len(P.r), dtype=bool)
    if B.min_rpar is not None:
        ok &= P.rpar >= B.min_rpar
    if B.max_rpar is not None:
        ok &= P.rpar <= B.max_rpar
    if twod:
        ok &= P.r > 0
    w = P1.w[P.i] * (P1 if P2 is None else P2).w[P.j]
    k, amb = B.index(P)
    for cls in ('NN', 'KK') if P2 is None else ('NN', 'NK', 'KK'):
        kw = dict(slop)
        kw.update(opt)
        co = corr(cls, c, **kw)
        if cls == 'NN':
            want = slop.get('bin_slop', -1)
            if want < 0:
                if B.bin_type == 'Log':
                    want = 1. if B.bs <= 0.1 else 0.1 / B.bs
                    rec.check(abs(co.bin_slop - want) < 1e-12, 'default bin_slop is not the documented one', got=co.bin_slop, want=want)
                else:
                    want = co.bin_slop
                    rec.check(0. < want <= 1., 'default bin_slop out of range', got=want)
            slope = want
        if cat2 is None:
            co.process(cat1, metric=c['metric'], num_threads=1)
        else:
            co.process(cat1, cat2, metric=c['metric'], num_threads=1)
        rec.step()
        b = slope * B.bs
        if B.bin_type == 'Log':
            if b >= 1.:
                return
            dn, up = -math.log(1 - b) / B.bs, b / B.bs
        else:
            dn = up = slope
        lab = dict(config=ib, cls=cls, slop=slop, opt=opt)
        if twod and B.min_sep:
            continue             # an annulus of the plane: not a set of bins
        good = bounds(rec, co.npairs, (w != 0) * 1., f, ok, dn, up, B.nbins, lab)
        good = good and bounds(rec, co.weight, w, f, ok, dn, up, B.nbins, lab)
        if cls != 'NN':
            v2 = P1.val['K'][P.j] if P2 is None else P2.val['K'][P.j]
            v = w * (v2 if cls == 'NK' else P1.val['K'][P.i] * v2)
            good = good and bounds(rec, co.xi * co.weight, v.real, f, ok, dn, up, B.nbins, lab)
        if not good:
            return
        rec.outcome(coords, ib, co.npairs)
        if not amb:
            base = ref2.base_sums(P, B, k)
            rec.nontrivial += not np.array_equal(base['npairs'], co.npairs.ravel())
        # mean separations lie within the (fuzzy) bins
        m = co.weight.ravel() > 0
        if not twod and P.P1.coords != 'sphere':
            mr = co.meanr.ravel()[m]
            e = np.arange(B.nbins + 1)
            if B.bin_type == 'Log':
                lo, hi = [B.min_sep * np.exp(B.bs * x) for x in (e[:-1][m] - 1e-6, e[1:][m] + 1e-6)]
            else:
                lo, hi = [B.min_sep + B.bs * x for x in (e[:-1][m] - 1e-6, e[1:][m] + 1e-6)]
            rec.check(bool(np.all((mr >= lo) & (mr <= hi))), 'meanr outside its bin', got=mr, lo=lo, hi=hi, **lab)


def run_brute(case, rec):
    """brute=1 or 2 with a single place in the other catalog is the full calculation."""
    import treecorr
    treecorr.set_omp_threads(1)
    group, coords, spec, ib, brute, wtype = case
    c = CFG[coords][ib]
    one = ['ms', [2]]
    s1, s2 = (one, spec) if brute == 2 else (spec, one)
    cats = [geom.catalog_kwargs(s, coords, i, wtype) for i, s in enumerate((s1, s2))]
    P1, P2 = [ref2.Pts(k) for k in cats]
    if P1.n == 0 or P2.n == 0:
        return
    P = ref2.Pairs(P1, P2, c['metric'], c['period'], ordered=c['bin_type'] == 'TwoD')
    B = binning(None, c)
    k, amb = B.index(P)
    if amb:
        return
    cats = [treecorr.Catalog(**kw) for kw in cats]
    for cls in ('NN', 'KG', 'VV', 'GG'):
        if c['metric'] == 'Periodic' and cls != 'NN':
            continue
        co = corr(cls, c, brute=brute, bin_slop=1.)
        co.process(*cats, metric=c['metric'], num_threads=1)
        rec.step()
        rec.nontrivial += bool((k >= 0).any())
        compare(rec, co, cls, P, B, k, 'all', (ib, brute), 1)


def run_angle(case, rec):
    """bin_slop=0 and an angle_slop: exact counts, and projections off by at most angle_slop per unit of spin."""
    import treecorr
    treecorr.set_omp_threads(1)
    group, coords, spec1, spec2, wtype, ib, a, opt = case
    c = CFG[coords][ib]
    kws = [geom.catalog_kwargs(s, coords, i, wtype) for i, s in enumerate((spec1, spec2)) if s is not None]
    pts = [ref2.Pts(k) for k in kws]
    twod = c['bin_type'] == 'TwoD'
    P = ref2.Pairs(pts[0], pts[1] if len(pts) > 1 else None, c['metric'], c['period'], ordered=twod)
    B = binning(None, c)
    k, amb = B.index(P)
    if amb:
        return
    cats = [treecorr.Catalog(**kw) for kw in kws]
    base = ref2.base_sums(P, B, k)
    zero = np.bincount(k[(k >= 0) & (P.r == 0)], minlength=B.n).astype(bool)
    for cls in (ref2.CLASSES if len(pts) > 1 else ref2.AUTO_CLASSES):
        co = corr(cls, c, bin_slop=0, **dict(opt, **({} if a is None else dict(angle_slop=a))))
        co.process(*cats, metric=c['metric'], num_threads=1)
        rec.step()
        aa = 0.1 if a is None else a
        d = math.asin(min(aa * (1 + 1e-6) + 1e-7, 1.))
        W = base['weight']
        lab = dict(config=ib, cls=cls, angle_slop=a, opt=opt)
        rec.check(np.array_equal(co.npairs.ravel(), base['npairs']) and np.allclose(co.weight.ravel(), W, rtol=1e-9),
                  'counts with bin_slop=0 differ', got=co.npairs.ravel(), want=base['npairs'], **lab)
        if aa < 1:
            rec.check(bool(np.all(np.abs(co.meanr.ravel() * W - base['sum_r']) <= aa / (1 - aa) * base['sum_r'] + 1e-6 * W)),
                      'meanr off by more than the slop allows', got=co.meanr.ravel() * W, want=base['sum_r'], **lab)
        for name, (s, sabs) in ref2.value_sums(P, B, k, cls).items():
            if name == 'xip_im' and P.auto:
                continue
            got = getattr(co, name).ravel() * W
            sp = (ref2.SPIN[cls[0]] or 0) + (ref2.SPIN[cls[1]] or 0)
            if name.startswith('xip'):
                sp = 0
            amp = np.bincount(k[k >= 0], weights=amplitude(P, cls, k), minlength=B.n)
            lim = 2 * math.sin(min(sp * d, math.pi) / 2) * amp + 3e-6 * amp + 1e-11
            bad = np.abs(got - s) > lim
            bad &= ~zero
            rec.check(not bad.any(), name + ' differs by more than angle_slop allows', got=got, want=s, limit=lim, **lab)
            rec.nontrivial += bool(np.any(np.abs(got - s) > 1e-5 * amp))
    rec.outcome(spec1, ib, base['npairs'])


def amplitude(P, cls, k):
    m = k >= 0
    i, j = P.i[m], P.j[m]
    va = np.abs(P.P1.val[cls[0]][i]) if cls[0] != 'N' else 1.
    vb = np.abs(P.P2.val[cls[1]][j]) if cls[1] != 'N' else 1.
    return P.P1.w[i] * P.P2.w[j] * va * vb * np.ones(len(i))


def run(case, rec):
    return dict(bin=run_bin, brute=run_brute, angle=run_angle)[case[0].split('-')[0]](case, rec)


def cases(thorough):
    q = 0
    slops = [dict(bin_slop=s, angle_slop=a) for s in (0.1, 0.3, 0.5, 1., 2.) for a in (1e9, 0.1, 0.5)] + [{}, dict(angle_slop=1e9)]
    opts = [dict(max_top=0), {}, dict(max_top=0, split_method='median'), dict(max_top=0, brute=1), dict(max_top=0, brute=2),
            dict(max_top=0, split_method='middle'), dict(min_top=4)]
    for co in ('flat', 'sphere', '3d', 'radecr'):
        names = geom.STRUCTS[:7]
        for name in names:
            for n in ((40, 90) if not thorough else (17, 40, 90, 200)):
                for k in ((0, 11) if co in ('sphere', 'radecr') else (0, 1)):
                    for ib in range(len(CFG[co])):
                        for slop in slops:
                            for opt in opts:
                                for cross in (0, 1):
                                    for wt in ('w', 'zeros'):
                                        for option in ('', 'patch'):
                                            q += 1
                                            if not thorough and q % 37 or thorough and q % 5:
                                                continue
                                            if 'brute' in opt and not cross:
                                                continue
                                            s1 = ['st', name, n, k]
                                            s2 = ['st', geom.STRUCTS[(geom.STRUCTS.index(name) + 3) % 7], n // 2 + 9, k] if cross else None
                                            yield ('bin-' + co, co, s1, s2, wt, ib, slop, opt, option)
    for co in ('flat', 'sphere', '3d', 'radecr'):
        for name in geom.STRUCTS:
            for n in (13, 40) + ((150,) if thorough else ()):
                for ib in range(len(CFG[co])):
                    for brute in (1, 2):
                        for wt in ('w', 'zeros'):
                            yield ('brute-' + co, co, ['st', name, n, 0], ib, brute, wt)
    for ib, c in enumerate(CFG['flat']):
        if c['metric'] == 'Periodic':
            continue
        for name in geom.STRUCTS[:7]:
            for n in (23, 60) + ((150,) if thorough else ()):
                for a in (None, 0.03, 0.1, 0.3, 0.7):
                    for opt in (dict(max_top=0), dict(max_top=0, split_method='median'), {}):
                        for cross in (0, 1):
                            q += 1
                            if not thorough and q % 3:
                                continue
                            if c['kw'].get('min_sep', 0.) == 0. and c['bin_type'] == 'Linear' and not cross:
                                continue
                            s2 = ['st', geom.STRUCTS[(geom.STRUCTS.index(name) + 3) % 7], n // 2 + 9, 0] if cross else None
                            yield ('angle-flat', 'flat', ['st', name, n, 0], s2, 'w', ib, a, opt)


if __name__ == '__main__':
    ck = core.Check('C12', bounds=(
        'structured sets of up to 90 (thorough 200) points x every binning x metric of C01 and finer ones x bin_slop 0.1..2 and default x angle_slop x '
        'tree options x brute=1,2 x patches: for every interval (rectangle) of bins, the totals of counts, weights and products of nonnegative '
        'values lie between those of the pairs inside by the slop and within the slop; non-trivial: the slop changed some count'))
    ck.run(cases(ck.thorough), run)
    ck.finish()
