"""C13: the random-subtracted estimators and their covariances are those recomputed from the points."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom, ref2
build.activate()
import numpy as np
from mc.two import BINS, binning
from mc import resample
from mc.resample import stat_of, key_sums, total, close

SLOP = dict(bin_slop=0, angle_slop=0)
METHODS = ['jackknife', 'bootstrap', 'marked_bootstrap', 'sample']
LB = {'K': 'rk', 'G': 'rg', 'Z': 'rz', 'V': 'rv', 'T': 'rt', 'Q': 'rq'}


class Side(object):
    """One catalog: points, patch labels, treecorr catalog."""
    def __init__(self, spec, coords, role, wtype, p):
        import treecorr
        kw = geom.catalog_kwargs(spec, coords, role, wtype)
        self.P = ref2.Pts(kw)
        n = len(kw.get('x', kw.get('ra')))
        keep = np.asarray(kw.get('w', np.ones(n))) != 0
        self.q = np.asarray([0] * n if p is None else p)[keep]
        self.npatch = 1 if p is None else max(p) + 1
        self.cat = treecorr.Catalog(patch=None if p is None else np.array(p), **kw)
        self.w = np.bincount(self.q, weights=self.P.w, minlength=self.npatch)


class Corr(object):
    """A processed correlation and its reference sums per pair of patches."""
    def __init__(self, cls, c, B, s1, s2, **kw):
        import treecorr
        self.cls, self.auto = cls, s2 is None
        self.co = getattr(treecorr, cls + 'Correlation')(bin_type=c['bin_type'], **dict(c['kw'], **dict(SLOP, **kw)))
        self.co.process(*([s1.cat] if self.auto else [s1.cat, s2.cat]), metric=c['metric'], num_threads=1)
        t2 = s1 if self.auto else s2
        P = ref2.Pairs(s1.P, None if self.auto else s2.P, c['metric'], c['period'],
                       ordered=self.auto and c['bin_type'] == 'TwoD')
        k, self.amb = B.index(P)
        if any(ref2.SPIN[x] for x in cls):
            P.dirs()
            self.amb = self.amb or (P.undef & (k >= 0)).any()
        self.n1, self.n2 = s1.npatch, t2.npatch
        self.npatch = max(self.n1, self.n2)
        self.keys = key_sums(cls, P, B, k, s1.q, t2.q, self.n1, self.n2, False, self.auto)
        z = dict(npairs=np.zeros(B.n), weight=np.zeros(B.n), sum_r=np.zeros(B.n), sum_logr=np.zeros(B.n))
        for n in ref2.value_sums(P, B, k, cls):
            z[n] = np.zeros(B.n)
        for i in range(self.n1):
            for j in range(self.n2):
                if self.auto and j < i:
                    continue
                key = (i, j)
                self.keys.setdefault(key, {n: v for n, v in z.items()})
                self.keys[key]['tot'] = s1.w[i] * t2.w[j] * (0.5 if self.auto and i == j else 1.)
        self.B = B

    def sum(self, mult):
        return total(self.cls, self.keys, mult, self.B)


def landy(dd, rr, dr, rd):
    """Estimator from sums (dicts with weight and tot)."""
    f = dd['tot'] / rr['tot'] if rr['tot'] else 0.
    den = rr['weight'] * f
    a = dd['weight'].copy()
    if dr is None and rd is None:
        num = a - den
    elif dr is not None and rd is not None:
        num = a - dr['weight'] * dd['tot'] / dr['tot'] - rd['weight'] * dd['tot'] / rd['tot'] + den
    else:
        x = dr if dr is not None else rd
        num = a - 2 * x['weight'] * dd['tot'] / x['tot'] + den
    return num / np.where(den == 0, 1., den)


one = lambda key: 1


def run_nn(case, rec):
    import treecorr
    group, coords, d1, p1, d2, p2, r1, q1, r2, q2, which, ib, wtype = case
    c = BINS[coords][ib]
    B = binning(None, c)
    D1, R1 = Side(d1, coords, 0, wtype, p1), Side(r1, coords, 1, wtype, q1)
    auto = d2 is None
    D2, R2 = (D1, R1) if auto else (Side(d2, coords, 2, wtype, p2), Side(r2, coords, 3, wtype, q2))
    n = max(D1.npatch, D2.npatch)
    index_sets = list(itertools.product(range(n), repeat=n))
    rng = resample.EnumRNG(n)
    dd = Corr('NN', c, B, D1, None if auto else D2, rng=rng, num_bootstrap=len(index_sets))
    rr = Corr('NN', c, B, R1, None if auto else R2)
    dr = Corr('NN', c, B, D1, R2) if 'dr' in which else None
    rd = Corr('NN', c, B, R1, D2) if 'rd' in which else None
    parts = [x for x in (dd, rr, dr, rd) if x is not None]
    rec.step(len(parts))
    if any(x.amb for x in parts):
        rec.counters['ambiguous'] += 1
        return
    snaps = [resample.snapshot(x.co) for x in parts]
    lab = dict(which=which, config=ib)
    # calculateXi with another combination first must leave no trace
    if 'again' in which:
        dd.co.calculateXi(rr=rr.co)
        if dr is not None and (n == 1 or dr.npatch > 1):
            dd.co.calculateXi(rr=rr.co, dr=dr.co)
    unlike = n > 1 and any(x is not None and x.npatch == 1 for x in (dr, rd))
    try:
        xi, varxi = dd.co.calculateXi(rr=rr.co, dr=None if dr is None else dr.co, rd=None if rd is None else rd.co)
    except RuntimeError as e:
        # documented: cross terms without any patches cannot go with data that have patches
        rec.check(unlike and 'must be run with the same patches' in str(e), 'calculateXi refuses valid input: %s' % e, **lab)
        rec.outcome('refused', which)
        return
    rec.check(not unlike, 'calculateXi accepts cross terms without the patches of the data', **lab)
    rec.step()
    S = [None if x is None else x.sum(one) for x in (dd, rr, dr, rd)]
    want = landy(*S)
    sc = 3. + np.max(np.abs(want))
    rec.check(close(xi.ravel(), want, sc), 'xi differs from the estimator of the direct sums', got=xi, want=want, **lab)
    rec.check(xi is dd.co.xi or np.array_equal(xi, dd.co.xi), 'calculateXi returns something else than xi', **lab)
    # shot noise: positive where there are pairs, unaffected by patches
    rec.outcome(want, which, ib)
    if (S[0]['weight'] > 0).any():
        rec.nontrivial += 1
    if n > 1:
        for method in METHODS:
            wants = []
            bad = False
            for m in resample.mults(method, n, dd.n1 == 1, dd.n2 == 1, index_sets):
                sdd = dd.sum(m)
                if rr.npatch > 1:
                    srr = rr.sum(m)
                else:
                    # unpatched randoms: normalisation scaled by the fraction of the area, for which the
                    # square root of the auto pair totals stands
                    srr = dict(rr.sum(one))
                    if dd.n1 > 1 and dd.n2 > 1:
                        fr = (sum(m(key) * v['tot']**0.5 for key, v in dd.keys.items() if key[0] == key[1])
                              / sum(v['tot']**0.5 for key, v in dd.keys.items() if key[0] == key[1]))
                    else:
                        fr = sum(m(key) * v['tot'] for key, v in dd.keys.items()) / sum(v['tot'] for v in dd.keys.values())
                    sdd = dict(sdd, tot=fr * dd.sum(one)['tot'])

                def mm(x, side):
                    if x is None:
                        return None
                    if dd.n1 > 1 and dd.n2 > 1:
                        if side == 'dr' and x.n2 == 1:
                            return x.sum(lambda key: m((key[0], key[0])))
                        if side == 'rd' and x.n1 == 1:
                            return x.sum(lambda key: m((key[1], key[1])))
                    return x.sum(m)
                sdr, srd = mm(dr, 'dr'), mm(rd, 'rd')
                if not sdd or any(s is not None and not s.get('tot') for s in (srr, sdr, srd)) or not sdd.get('tot'):
                    bad = True         # no points at all in one of them
                    wants.append(None)
                    continue
                wants.append(landy(sdd, srr, sdr, srd))
            rng.restart()
            v, w = dd.co.build_cov_design_matrix(method)
            rec.step()
            if 'bootstrap' in method and not rng.used:
                d = np.array([x for x in wants if x is not None])
                ok = all(np.abs(d - row).max(axis=1).min() < 1e-5 * sc for row in v) if not bad else True
            else:
                ok = all(x is None or close(v[i], x, sc + np.abs(x).max()) for i, x in enumerate(wants)) and len(v) == len(wants)
            if bad:
                rec.counters['rows_without_data'] += 1
            rec.check(ok, '%s design matrix of xi differs from the estimator of the points' % method,
                      got=v, want=[None if x is None else x.tolist() for x in wants], **lab)
            if method in ('jackknife', 'bootstrap') and ok and not bad and ('bootstrap' not in method or rng.used):
                rng.restart()
                C = dd.co.estimate_cov(method)
                Cw = resample.covariance(method, np.array(wants), w)
                rec.check(close(C, Cw, np.abs(Cw).max() + sc), '%s covariance of xi differs from its definition' % method, **lab)
        rec.check(np.allclose(dd.co.xi.ravel(), want, rtol=1e-6, atol=1e-9), 'estimating the covariance changed xi', **lab)
    for x, s, nm in zip(parts, snaps, ('dd', 'rr', 'dr', 'rd')):
        t = resample.snapshot(x.co)
        if nm == 'dd':
            for key in ('xi', 'varxi'):
                s.pop(key, None)
                t.pop(key, None)
            for key in [a for a in t if a not in s]:
                # pairs of patches which only the randoms have may be added, with nothing in them
                if not np.any(t[key]):
                    t.pop(key)
        rec.check(resample.same(s, t), 'calculateXi or estimate_cov changed %s' % nm, **lab)


def run_nx(case, rec):
    import treecorr
    group, coords, cls, d1, p1, d2, p2, r1, q1, ib, wtype = case
    c = BINS[coords][ib]
    if c['metric'] == 'Periodic' and ref2.SPIN[cls[1]]:
        return
    B = binning(None, c)
    D1, D2, R1 = Side(d1, coords, 0, wtype, p1), Side(d2, coords, 1, wtype, p2), Side(r1, coords, 2, wtype, q1)
    n = max(D1.npatch, D2.npatch)
    index_sets = list(itertools.product(range(n), repeat=n))
    rng = resample.EnumRNG(n)
    dk = Corr(cls, c, B, D1, D2, rng=rng, num_bootstrap=len(index_sets))
    rk = Corr(cls, c, B, R1, D2)
    rec.step(2)
    if dk.amb or rk.amb:
        rec.counters['ambiguous'] += 1
        return
    lab = dict(cls=cls, config=ib)
    snap, snapr = resample.snapshot(dk.co), resample.snapshot(rk.co)
    raw = np.array(dk.co.xi)
    got = dk.co.calculateXi(**{LB[cls[1]]: rk.co})
    rec.step()

    im = 'xi_im' in dk.sum(one)

    def est(sd, sr):
        out = {}
        for nm in ('xi', 'xi_im'):
            if nm in dk.sum(one):
                a = np.where(sd['weight'] != 0, sd[nm] / np.where(sd['weight'] != 0, sd['weight'], 1.), 0.)
                b = np.where(sr['weight'] != 0, sr[nm] / np.where(sr['weight'] != 0, sr['weight'], 1.), 0.)
                out[nm] = a - b
        return out
    want = est(dk.sum(one), rk.sum(one))
    sc = 4.
    rec.outcome(want['xi'], cls, ib)
    if (dk.sum(one)['weight'] > 0).any():
        rec.nontrivial += 1
    for nm in want:
        rec.check(close(getattr(dk.co, nm).ravel(), want[nm], sc), '%s differs from the data minus the randoms' % nm,
                  got=getattr(dk.co, nm), want=want[nm], **lab)
    rec.check(np.array_equal(got[0], dk.co.xi) and (not im or np.array_equal(got[1], dk.co.xi_im)),
              'calculateXi returns something else than xi', **lab)
    rec.check(np.array_equal(dk.co.raw_xi, raw), 'calculateXi changed raw_xi', **lab)
    if n > 1:
        names = ['xi', 'xi_im', 'npairs', 'meanr'] if im else ['xi', 'npairs', 'meanr']
        func = lambda co: np.concatenate([getattr(co, a).ravel() for a in names])
        for method in METHODS:
            wants = []
            for m in resample.mults(method, n, dk.n1 == 1, dk.n2 == 1, index_sets):
                sd = dk.sum(m)
                if dk.n1 > 1 and dk.n2 > 1 and rk.n1 == 1:
                    sr = rk.sum(lambda key: m((key[1], key[1])))
                elif dk.n1 > 1 and dk.n2 == 1 and rk.npatch == 1:
                    sr = rk.sum(one)           # nothing of the randoms belongs to a patch
                else:
                    sr = rk.sum(m)
                for s in (sd, sr):
                    for a in dk.sum(one):
                        s.setdefault(a, np.zeros(B.n))
                e = est(sd, sr)
                W = sd['weight']
                e['npairs'] = sd['npairs']
                e['meanr'] = np.where(W > 0, sd['sum_r'] / np.where(W > 0, W, 1.), np.nan)
                wants.append(np.concatenate([e[a] for a in names]))
            wants = np.array(wants)
            rng.restart()
            v, w = dk.co.build_cov_design_matrix(method, func=func)
            rec.step()
            if 'bootstrap' in method and not rng.used:
                continue
            good = np.abs(v - wants) <= 3e-6 * (3. + np.abs(np.nan_to_num(wants)))
            good |= np.isnan(wants)
            if P_sphere(coords, c):
                good[:, -B.n:] = True      # meanr there is an angle of a chord
            bad = sorted(set(names[int(j) // B.n] for i, j in np.argwhere(~good)))
            rec.check(not bad, '%s design matrix (%s) differs from the estimator of the points' % (method, ','.join(bad)),
                      got=v, want=wants, **lab)
            if method == 'jackknife' and not bad:
                C = dk.co.estimate_cov(method)
                Cw = resample.covariance(method, wants[:, :B.n], w)
                rec.check(close(C, Cw, 30.), 'jackknife covariance of xi differs from its definition', **lab)
        for nm in want:
            rec.check(close(getattr(dk.co, nm).ravel(), want[nm], sc), 'estimating the covariance changed %s' % nm, **lab)
    t = resample.snapshot(dk.co)
    for s in (snap, t):
        for key in ('xi', 'xi_im', 'varxi'):
            s.pop(key, None)
    for key in [a for a in t if a not in snap]:
        if isinstance(key, tuple) and not np.any(t[key]):
            t.pop(key)
    rec.check(resample.same(snap, t), 'calculateXi or estimate_cov changed the sums of the data', **lab)
    rec.check(resample.same(snapr, resample.snapshot(rk.co)), 'calculateXi or estimate_cov changed the random correlation', **lab)
    # without randoms again
    dk.co.calculateXi()
    rec.check(np.array_equal(dk.co.xi, raw), 'calculateXi without randoms does not go back to the raw values', **lab)
    if n > 1:
        v, w = dk.co.build_cov_design_matrix('jackknife')
        wants = [est(dk.sum(m), {a: np.zeros(B.n) for a in dk.sum(one)})['xi']
                 for m in resample.mults('jackknife', n, dk.n1 == 1, dk.n2 == 1, index_sets) if dk.sum(m)]
        if len(wants) == n:
            rec.check(close(v, np.array(wants), 4.), 'the covariance still has the randoms in it after calculateXi without randoms', **lab)


def P_sphere(coords, c):
    return coords == 'sphere' and c['metric'] == 'Euclidean'


def run(case, rec):
    import treecorr
    treecorr.set_omp_threads(1)
    (run_nn if case[0].startswith('nn') else run_nx)(case, rec)


def cases(thorough):
    st = lambda name, n, k=0: ['st', name, n, k]
    ms = lambda *a: ['ms', list(a)]
    data = [ms(0, 1, 3), ms(0, 2, 5, 6), st('halton', 9), st('clusters', 14), st('ring', 11)]
    rand = [st('halton', 21, 1), st('grid', 25), ms(0, 1, 2, 3, 4, 5)]

    def npts(s):
        return len(s[1]) if s[0] == 'ms' else s[2]

    def lab(s, kind):
        i = np.arange(npts(s))
        if kind is None:
            return None
        if kind == 'mod2':
            p = i % 2
        elif kind == 'mod3':
            p = (i * 5) % 3
        elif kind == 'block3':
            p = i * 3 // len(i)
        elif kind == 'gap':                # patch 1 is empty
            p = (i % 2) * 2
        elif kind == 'gap2':               # patch 0 is empty
            p = 1 + i % 2
        return [int(x) for x in p]
    kinds = {'flat': [0, 3, 6, 9], 'sphere': [0, 2], '3d': [0, 3], 'radecr': [1]}
    WHICH = ['', 'dr', 'rd', 'dr+rd', 'dr+again']
    for co in ('flat', 'sphere', '3d', 'radecr'):
        for ib in kinds[co]:
            full = thorough or ib == kinds[co][0]
            whichs = WHICH if full else ['', 'dr+rd']
            for k, (a, r) in enumerate(itertools.product(data, rand)):
                if not full and (k + ib) % 2:
                    continue
                for w in whichs:
                    yield ('nn-auto-' + co, co, a, None, None, None, r, None, None, None, w, ib, 'w')
                    for kd, kr in (('mod2', 'mod2'), ('mod3', 'mod3'), ('block3', 'mod3'), ('mod3', 'block3'), ('mod3', 'gap'),
                                   ('gap', 'mod3'), ('gap2', 'mod3'), ('mod3', 'gap2'), ('mod3', None), ('block3', None), ('gap', None)):
                        if co != 'flat' and kd[0] == 'g' and not thorough:
                            continue
                        if kr is None and 'rd' in w:
                            # RD with unpatched randoms, auto data
                            pass
                        yield ('nn-autop-' + co, co, a, lab(a, kd), None, None, r, lab(r, kr), None, None, w, ib, 'w')
            for a, b in ((data[0], data[1]), (data[2], data[3]), (data[3], data[1])):
                for r, s in ((rand[0], rand[1]), (rand[2], rand[0])):
                    for w in whichs:
                        yield ('nn-cross-' + co, co, a, None, b, None, r, None, s, None, w, ib, 'w')
                        for kk in (('mod2',) * 4, ('mod3', 'block3', 'block3', 'mod3'), ('mod3', 'gap', 'mod3', 'gap'),
                                   ('mod3', None, 'mod3', None), (None, 'mod3', None, 'mod3'), ('block3', 'mod3', None, None),
                                   ('mod3', None, None, None), (None, 'block3', None, None), (None, 'gap', None, None)):
                            if kk[2] is None and kk[3] is None and ('rd' in w or 'dr' in w) and co != 'flat':
                                continue
                            yield ('nn-crossp-' + co, co, a, lab(a, kk[0]), b, lab(b, kk[1]), r, lab(r, kk[2]), s, lab(s, kk[3]), w, ib, 'w')
            for cls in ('NK', 'NG') + (('NZ', 'NV', 'NT', 'NQ') if thorough or co == 'flat' else ()):
                for a, b in ((data[0], data[1]), (data[1], data[4]), (data[2], data[3]), (data[3], data[1])):
                    for r in rand:
                        if cls[1] in 'ZVTQ' and not (thorough or full and r is rand[0]) or not full and r is rand[1]:
                            continue
                        yield ('nx-' + co, co, cls, a, None, b, None, r, None, ib, 'w')
                        for kk in (('mod2',) * 3, ('mod3', 'block3', 'mod3'), ('block3', 'mod3', 'block3'), ('mod3', 'gap', 'mod3'),
                                   ('gap', 'mod3', 'mod3'), ('gap2', 'mod3', 'mod3'), ('mod3', 'mod3', 'gap2'), ('mod3', None, 'mod3'),
                                   (None, 'mod3', None), ('mod3', 'mod3', None), ('gap2', 'mod3', None), ('mod3', None, None)):
                            yield ('nxp-' + co, co, cls, a, lab(a, kk[0]), b, lab(b, kk[1]), r, lab(r, kk[2]), ib, 'w')


if __name__ == '__main__':
    ck = core.Check('C13', bounds=(
        'all combinations of a family of data and random point sets, patchings (the same, different assignments, gaps, only some '
        'catalogs divided), estimators (RR; RR,DR; RR,RD; all), binnings; every jackknife, sample, bootstrap and marked-bootstrap '
        'resampling; non-trivial: the data have pairs'))
    ck.run(cases(ck.thorough), run)
    ck.finish()
