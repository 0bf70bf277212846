"""C19: covariances and estimators with randoms of three-point correlations equal their definitions."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom, ref2, ref3
build.activate()
import numpy as np
from mc.three import BINS, bins
from mc import resample
from mc.resample import close

EXACT = dict(bin_slop=0, angle_slop=0)
METHODS = ['jackknife', 'bootstrap', 'marked_bootstrap', 'sample']
one = lambda key: 1
_sides, _sums = {}, {}


class Side(object):
    def __init__(self, spec, coords, role, wtype, p):
        import treecorr
        kw = geom.catalog_kwargs(spec, coords, role, wtype)
        self.P = ref2.Pts(kw)
        n = len(kw.get('x', kw.get('ra')))
        keep = np.asarray(kw.get('w', np.ones(n))) != 0
        self.q = np.asarray([0] * n if p is None else p)[keep]
        self.npatch = 1 if p is None else max(p) + 1
        self.cat = treecorr.Catalog(patch=None if p is None else np.array(p), **kw)
        self.w = np.bincount(self.q, weights=self.P.w, minlength=self.npatch)
        self.key = repr((spec, coords, role, wtype, p))


def side(*a):
    key = repr(a)
    if key not in _sides:
        if len(_sides) > 200:
            _sides.clear()
        _sides[key] = Side(*a)
    return _sides[key]


def triple_sums(cls, c, sides, local, ordered):
    """Sums of every triple of patches: {key: dict of arrays}, whether rounding decides a bin, and the number of patches."""
    key = repr((cls, sorted(c.items()), [s.key for s in sides], local, ordered))
    if key in _sums:
        return _sums[key]
    if len(_sums) > 300:
        _sums.clear()
    T = ref3.Tri([s.P for s in sides], ordered, c['metric'], c['period'])
    B = bins(c)
    idx, amb = B.index(T)
    q = np.concatenate([s.q for s in sides])
    owner = np.concatenate([[m] * len(s.q) for m, s in enumerate(sides)])
    if local:
        K = np.array([q[T.i]] * 3).T
    else:
        # the points in order of their catalogs, and within one catalog in order of the patches
        rank = np.array([owner[t] * 1000 + q[t] for t in (T.i, T.j, T.k)]).T
        K = np.sort(rank, axis=1) % 1000
    out = {}
    kinds = {'NNN': (), 'KKK': 'K', 'GGG': 'G'}[cls]
    bad = amb or (B.bin_type == 'LogMultipole' and B.twins)
    for k in sorted(set(map(tuple, K.tolist()))):
        S = ref3.sums(T, B, np.where((K == k).all(axis=1), idx, -1), kinds)
        if cls == 'GGG' and S['undef'].any():
            bad = True
        out[k] = S
    n = [s.npatch for s in sides]
    W = [s.w for s in sides]
    tot = {}
    if len(sides) == 1:
        n, t = n * 3, W * 3
        for k in itertools.product(range(n[0]), repeat=3):
            if list(k) == sorted(k):
                f = 6. if k[0] == k[2] else 2. if k[0] == k[1] or k[1] == k[2] else 1.
                tot[k] = W[0][k[0]] * W[0][k[1]] * W[0][k[2]] / f
        if local:
            tot = {(i,) * 3: W[0][i] * W[0].sum()**2 / 6 for i in range(n[0])}
    elif len(sides) == 2:
        n = [n[0], n[1], n[1]]
        for k in itertools.product(*[range(m) for m in n]):
            if k[1] <= k[2]:
                tot[k] = W[0][k[0]] * W[1][k[1]] * W[1][k[2]] * (0.5 if k[1] == k[2] else 1.)
        if local:
            A, Bw = W[0].sum(), W[1].sum()
            tot = {(i,) * 3: W[0][i] * Bw**2 / 2 if ordered else W[0][i] * Bw**2 / 6 + W[1][i] * A * Bw / 3 for i in range(n[0])}
    else:
        for k in itertools.product(*[range(m) for m in n]):
            tot[k] = W[0][k[0]] * W[1][k[1]] * W[2][k[2]]
        if local:
            s = [w.sum() for w in W]
            tot = {(i,) * 3: W[0][i] * s[1] * s[2] if ordered else
                   (W[0][i] * s[1] * s[2] + W[1][i] * s[0] * s[2] + W[2][i] * s[0] * s[1]) / 3 for i in range(n[0])}
    zero = {a: v * 0 for a, v in next(iter(out.values())).items()} if out else None
    for k, t in tot.items():
        if zero is not None:
            out.setdefault(k, zero)
            out[k] = dict(out[k], tot=t)
    _sums[key] = out, bad, n
    return _sums[key]


def mults(method, n, index_sets):
    """For every resampling, how often the result of a triple of patches is used (docs/cov.rst, applied to triples)."""
    use = [m for m in range(3) if n[m] > 1]
    N = max(n)
    first = use[0]
    if method == 'jackknife':
        for i in range(N):
            yield lambda key: int(all(key[m] != i for m in use))
    elif method == 'sample':
        for i in range(N):
            yield lambda key: int(key[first] == i)
    else:
        for idx in index_sets:
            cnt = np.bincount(idx, minlength=N)
            if method == 'marked_bootstrap':
                yield lambda key: cnt[key[first]]
            else:
                # every different patch of the triple counts once
                yield lambda key: int(np.prod([cnt[x] for x in set(key[m] for m in use)]))


class Corr(object):
    def __init__(self, cls, c, sides, ordered=True, how='global', **kw):
        import treecorr
        self.cls, self.c = cls, c
        self.co = getattr(treecorr, cls + 'Correlation')(bin_type=c['bin_type'], **dict(c['kw'], **dict(EXACT, **kw)))
        kw = dict(metric=c['metric'], num_threads=1, ordered=ordered, patch_method=how)
        if c['bin_type'] == 'LogSAS':
            kw['algo'] = 'triangle'
        self.co.process(*[s.cat for s in sides], **kw)
        self.keys, self.bad, self.n = triple_sums(cls, c, sides, how == 'local', ordered)

    def sum(self, mult):
        tot = None
        for key, s in self.keys.items():
            m = mult(key)
            if m:
                tot = {a: m * v for a, v in s.items()} if tot is None else {a: tot[a] + m * v for a, v in s.items()}
        if tot is None:
            tot = {a: v * 0 for a, v in next(iter(self.keys.values())).items()}
        return tot


def div(a, W):
    return np.where(W != 0, a / np.where(W != 0, W, 1.), 0.)


def stat(cls, c, S):
    """Data vector, its scale, and the total of getWeight."""
    if c['bin_type'] == 'LogMultipole':
        W = S['W']
        if cls == 'KKK':
            return S['Z'].ravel(), np.repeat(S['abszeta'], S['Z'].shape[1]), np.abs(W).sum()
        v = np.concatenate([S['Gam%d' % a].ravel() for a in range(4)])
        return v, np.tile(np.repeat(S['absgam'], W.shape[1]), 4), 4 * np.abs(W).sum()
    W = S['weight']
    if cls == 'KKK':
        return div(S['zeta'], W), div(S['abszeta'], np.abs(W)), np.abs(W).sum()
    return (np.concatenate([div(S['gam%d' % a], W) for a in range(4)]), np.tile(div(S['absgam'], np.abs(W)), 4), 4 * np.abs(W).sum())


def run_field(case, rec):
    """KKK and GGG: the rows of the design matrix, the weights of the rows and the covariance."""
    import treecorr
    group, coords, cls, specs, patches, ordered, how, ib, wtype = case
    c = BINS[coords][ib]
    sides = [side(s, coords, r, wtype, p) for r, (s, p) in enumerate(zip(specs, patches))]
    N = max(s.npatch for s in sides)
    index_sets = list(itertools.product(range(N), repeat=N))
    rng = resample.EnumRNG(N)
    X = Corr(cls, c, sides, ordered, how, rng=rng, num_bootstrap=len(index_sets))
    rec.step()
    if X.bad or not X.keys:
        rec.counters['ambiguous'] += 1
        return
    lab = dict(cls=cls, bins=c['bin_type'], how=how, patched=''.join('-' if p is None else 'p' for p in patches))
    snap = resample.snapshot(X.co)
    full = X.sum(one)
    mp = c['bin_type'] == 'LogMultipole'
    rec.outcome(full['ntri'], cls, ib)
    rec.nontrivial += bool(full['ntri'].any())
    c0 = (slice(None), slice(None), X.co.max_n) if mp else Ellipsis
    more = lambda co: np.concatenate([np.asarray(a).ravel() for a in
                                      [co.weight, co.ntri[c0]] + ([] if mp else [co.meand1 * co.weight, co.meanlogd2 * co.weight])])
    flat = coords != 'sphere' or c['metric'] == 'Arc'
    for method in METHODS:
        rng.restart()
        try:
            v, w = X.co.build_cov_design_matrix(method)
        except RuntimeError as e:
            rec.check(False, '%s is refused: %s' % (method, e), **lab)
            continue
        rec.step()
        if 'bootstrap' in method and not rng.used:
            rec.counters['other_generator'] += 1
            continue
        S = [X.sum(m) for m in mults(method, X.n, index_sets)]
        if not rec.check(len(v) == len(S), '%s design matrix has the wrong number of rows' % method, got=len(v), want=len(S), **lab):
            continue
        bad = []
        for r, s in enumerate(S):
            want, scale, W = stat(cls, c, s)
            # Rounding of what the whole sum contains, when the weights are not all of one sign.
            tol = 5e-6 * (np.abs(scale) + (stat(cls, c, full)[1] if mp else 0)) + 1e-10
            if want.shape != v[r].shape or not (np.abs(v[r] - want) <= tol).all() or abs(w[r].sum() - W) > 1e-6 * abs(W) + 1e-9:
                bad.append(r)
        rec.check(not bad, '%s design matrix differs from the statistic of the selected triples' % method, rows=bad,
                  got=v[bad[:2]], want=[stat(cls, c, S[r])[0].tolist() for r in bad[:1]], **lab)
        # the same for other arrays
        rng.restart()
        v2, w2 = X.co.build_cov_design_matrix(method, func=more)
        names = ['W' if mp else 'weight', 'ntri'] + ([] if mp or not flat else ['meand1', 'meanlogd2'])
        ok = True
        for r, s in enumerate(S):
            want = np.concatenate([np.asarray(s[a]).ravel() for a in names])
            sc = np.abs(full['absw']).max() if mp else 10.
            ok = ok and (np.abs(v2[r][:len(want)] - want) <= 3e-6 * (np.abs(want) + sc)).all()
        rec.check(ok, '%s design matrix of the other arrays differs from the selected triples' % method, **lab)
        if method in ('jackknife', 'bootstrap', 'sample') and not bad:
            rng.restart()
            wt = np.array([stat(cls, c, s)[2] for s in S])
            try:
                C = X.co.estimate_cov(method)
            except RuntimeError as e:
                rec.check(method == 'sample' and wt.min() == 0 and 'no data' in str(e), '%s covariance is refused: %s' % (method, e), **lab)
                continue
            Cw = resample.covariance(method, np.array([stat(cls, c, s)[0] for s in S]), wt)
            rec.check(close(C, Cw, np.abs(Cw).max() * 3 + 1e-6), '%s covariance differs from its definition' % method, got=np.abs(C - Cw).max(), **lab)
    rec.check(resample.same(snap, resample.snapshot(X.co)), 'estimating the covariance changed the correlation', **lab)


def zeta(ddd, rrr, drr, rdd):
    den = rrr['weight'] * ddd['tot'] / rrr['tot']
    num = ddd['weight'] - den
    if drr is not None:
        num = num - rdd['weight'] * ddd['tot'] / rdd['tot'] + drr['weight'] * ddd['tot'] / drr['tot']
    return num / np.where(den == 0, 1., den)


def run_nnn(case, rec):
    import treecorr
    group, coords, dspecs, dp, rspecs, rp, which, ordered, how, ib, wtype = case
    c = BINS[coords][ib]
    nd = len(dspecs)
    D = [side(s, coords, r, wtype, p) for r, (s, p) in enumerate(zip(dspecs, dp))]
    R = [side(s, coords, r + nd, wtype, p) for r, (s, p) in enumerate(zip(rspecs, rp))]
    N = max(s.npatch for s in D)
    index_sets = list(itertools.product(range(N), repeat=N))
    rng = resample.EnumRNG(N)
    ddd = Corr('NNN', c, D, ordered, how, rng=rng, num_bootstrap=len(index_sets))
    rrr = Corr('NNN', c, R, ordered, how)
    drr = rdd = None
    if 'all' in which:
        drr = Corr('NNN', c, [D[0], R[0]], False)
        rdd = Corr('NNN', c, [R[0], D[0]], False)
    parts = [x for x in (ddd, rrr, drr, rdd) if x is not None]
    rec.step(len(parts))
    if any(x.bad or not x.keys for x in parts):
        rec.counters['ambiguous'] += 1
        return
    lab = dict(bins=c['bin_type'], which=which, how=how, data=''.join('-' if p is None else 'p' for p in dp),
               rand=''.join('-' if p is None else 'p' for p in rp))
    snaps = [resample.snapshot(x.co) for x in parts]
    if 'again' in which:
        ddd.co.calculateZeta(rrr=rrr.co)
        if drr is not None:
            ddd.co.calculateZeta(rrr=rrr.co, drr=drr.co, rdd=rdd.co)
            if 'then' in which:
                drr = rdd = None
    try:
        z, varz = ddd.co.calculateZeta(rrr=rrr.co, drr=drr and drr.co, rdd=rdd and rdd.co)
    except RuntimeError as e:
        rec.check(False, 'calculateZeta refuses valid input: %s' % e, **lab)
        return
    rec.step()
    S = [None if x is None else x.sum(one) for x in (ddd, rrr, drr, rdd)]
    want = zeta(*S)
    sc = 3. + np.abs(want).max()
    rec.outcome(want, which, ib)
    rec.nontrivial += bool((S[0]['weight'] > 0).any())
    rec.check(close(z.ravel(), want, sc), 'zeta differs from the estimator of the direct sums', got=z, want=want, **lab)
    rec.check(z is ddd.co.zeta or np.array_equal(z, ddd.co.zeta), 'calculateZeta returns something else than zeta', **lab)
    if N > 1:
        patched = [m for m in range(3) if ddd.n[m] > 1]
        for method in METHODS:
            wants = []
            for m in mults(method, ddd.n, index_sets):
                sddd = ddd.sum(m)
                if max(rrr.n) > 1:
                    srrr = rrr.sum(m)
                else:
                    # The documented approximation: the totals go with the area of the selected patches.
                    srrr = rrr.sum(one)
                    p = 1. / len(patched)
                    diag = [k for k in ddd.keys if len(set(k[j] for j in patched)) == 1]
                    fr = sum(m(k) * ddd.keys[k]['tot']**p for k in diag) / sum(ddd.keys[k]['tot']**p for k in diag)
                    sddd = dict(sddd, tot=fr * ddd.sum(one)['tot'])
                sdrr = srdd = None
                if drr is not None:
                    sdrr = drr.sum(m if drr.n[1] > 1 else (lambda k: m((k[0],) * 3)))
                    srdd = rdd.sum(m if rdd.n[0] > 1 else (lambda k: m((k[1], k[1], k[2]))))
                if not sddd['tot'] or any(x is not None and not x['tot'] for x in (srrr, sdrr, srdd)):
                    wants.append(None)
                    continue
                wants.append(zeta(sddd, srrr, sdrr, srdd))
            bad = any(x is None for x in wants)
            rng.restart()
            v, w = ddd.co.build_cov_design_matrix(method)
            rec.step()
            if 'bootstrap' in method and not rng.used:
                rec.counters['other_generator'] += 1
                continue
            rec.counters['rows_without_data'] += sum(x is None for x in wants)
            rows = [r for r, x in enumerate(wants) if x is not None and not close(v[r], x, sc + np.abs(x).max())] \
                if len(v) == len(wants) else 'number'
            rec.check(not rows, '%s design matrix of zeta differs from the estimator of the points' % method, rows=rows,
                      got=v[rows[:2]] if rows and rows != 'number' else None,
                      want=[wants[r].tolist() for r in rows[:2]] if rows and rows != 'number' else None, **lab)
            if method in ('jackknife', 'bootstrap') and not rows and not bad:
                rng.restart()
                C = ddd.co.estimate_cov(method)
                Cw = resample.covariance(method, np.array(wants), w)
                rec.check(close(C, Cw, np.abs(Cw).max() * 3 + sc), '%s covariance of zeta differs from its definition' % method, **lab)
        rec.check(np.allclose(ddd.co.zeta.ravel(), want, rtol=1e-6, atol=1e-9 * sc), 'estimating the covariance changed zeta', **lab)
    for x, s, nm in zip(parts, snaps, ('ddd', 'rrr', 'drr', 'rdd')):
        t = resample.snapshot(x.co)
        if nm == 'ddd':
            for y in (s, t):
                y.pop('zeta', None)
                y.pop('varzeta', None)
            for key in [a for a in t if a not in s]:
                if not np.any(t[key]):         # empty results for triples of patches that only the randoms have
                    t.pop(key)
        rec.check(resample.same(s, t), 'calculateZeta or estimate_cov changed %s' % nm, **lab)


def run_multi(case, rec):
    """Several statistics at once: the rows are the statistics of the same selection of patches."""
    import treecorr
    group, coords, spec, p, classes, ib, wtype = case
    s = side(spec, coords, 0, wtype, p)
    c = BINS[coords][ib]
    n = s.npatch
    index_sets = list(itertools.product(range(n), repeat=n))
    rng = resample.EnumRNG(n)
    cs = []
    for cls in classes:
        if len(cls) == 3:
            cs.append(Corr(cls, c, [s], rng=rng, num_bootstrap=len(index_sets)))
            if cs[-1].bad or not cs[-1].keys:
                rec.counters['ambiguous'] += 1
                return
            cs[-1] = cs[-1].co
        else:
            co = getattr(treecorr, cls + 'Correlation')(min_sep=c['kw']['min_sep'], max_sep=c['kw']['max_sep'], nbins=3, rng=rng,
                                                        num_bootstrap=len(index_sets), **dict(
                EXACT, **{k: c['kw'][k] for k in ('sep_units',) if k in c['kw']}))
            co.process(s.cat, metric=c['metric'], num_threads=1)
            cs.append(co)
    rec.step(len(cs))
    rec.nontrivial += 1
    rec.outcome(classes, ib, p)
    for method in METHODS:
        vs = []
        for co in cs:
            rng.restart()
            vs.append(co.build_cov_design_matrix(method)[0])
        rng.restart()
        v, w = treecorr.build_multi_cov_design_matrix(cs, method)
        rec.check(np.allclose(v, np.hstack(vs), rtol=1e-9, atol=1e-12), '%s rows of several statistics differ from the single ones' % method,
                  classes=classes)
        rng.restart()
        if method == 'sample' and (w.sum(axis=-1) if w.ndim > 1 else w).min() == 0:
            continue
        C = treecorr.estimate_multi_cov(cs, method)
        k = 0
        for co, u in zip(cs, vs):
            m = u.shape[1]
            if method == 'sample':        # the weights of the rows then come from all of the statistics
                k += m
                continue
            rng.restart()
            c1 = co.estimate_cov(method)
            rec.check(np.allclose(C[k:k + m, k:k + m], c1, rtol=1e-6, atol=1e-12 + 1e-9 * np.abs(c1).max()),
                      '%s covariance of several statistics differs from that of one of them' % method, classes=classes)
            k += m
        rec.check(np.allclose(C, np.conj(C.T), rtol=1e-9, atol=1e-12 * max(1., np.abs(C).max())), 'covariance is not Hermitian', classes=classes)


def run(case, rec):
    import treecorr
    treecorr.set_omp_threads(1)
    {'f': run_field, 'n': run_nnn, 'm': run_multi}[case[0][0]](case, rec)


def npts(s):
    return len(s[1]) if s[0] == 'ms' else s[2]


def label(s, kind):
    i = np.arange(npts(s))
    if kind is None:
        return None
    p = {'mod2': i % 2, 'mod3': (i * 5) % 3, 'block3': i * 3 // len(i), 'gap': (i % 2) * 2, 'gap2': 1 + i % 2}[kind]
    return [int(x) for x in p]


def cases(thorough):
    ms = lambda *x: ['ms', list(x)]
    st = lambda name, n, k=0: ['st', name, n, k]
    A = [ms(0, 2, 5, 6, 7), st('halton', 9), st('clusters', 10), st('ring', 8, 1)]
    Bs = [st('halton', 7, 2), ms(1, 3, 4, 6), st('clusters', 8, 1)]
    Cs = [st('geom', 6), st('halton', 6, 3), ms(0, 4, 7)]
    q = 0
    configs = {'flat': range(len(BINS['flat'])), 'sphere': range(len(BINS['sphere'])), '3d': range(len(BINS['3d'])), 'radecr': (1,)}
    for co in ('flat', 'sphere', '3d', 'radecr'):
        for ib in configs[co]:
            c = BINS[co][ib]
            mp = c['bin_type'] == 'LogMultipole'
            for cls in ('KKK', 'GGG'):
                if cls == 'GGG' and c['metric'] == 'Periodic' or mp and c['metric'] == 'Periodic':
                    continue
                for how in ('local',) if mp else ('global', 'local'):
                    for a in A:
                        for kind in ('mod2', 'mod3', 'block3', 'gap', 'gap2'):
                            q += 1
                            if thorough or q % 4 == 0:
                                yield ('fa-' + co, co, cls, [a], [label(a, kind)], True, how, ib, 'w')
                    for a, b in itertools.product(A[1:], Bs):
                        for o in (True, False):
                            for kk in (('mod2', 'mod2'), ('mod3', 'block3'), ('gap', 'mod3'), ('block3', 'gap2'), ('mod3', None), (None, 'mod3'), (None, 'gap')):
                                if None in kk and how == 'local':
                                    continue
                                q += 1
                                if thorough or q % 16 == 0:
                                    yield ('f12-' + co, co, cls, [a, b], [label(a, kk[0]), label(b, kk[1])], o, how, ib, 'w')
                    for a, b, d in zip(A[1:], Bs, Cs):
                        for o in (True, False):
                            for kk in (('mod2',) * 3, ('mod3', 'block3', 'mod3'), ('mod3', 'gap', 'block3'), ('mod2', None, None), (None, 'mod3', None),
                                       (None, None, 'block3'), ('mod3', None, 'block3'), ('mod2', 'mod2', None), (None, 'mod3', 'mod3')):
                                if None in kk and how == 'local':
                                    continue
                                q += 1
                                if thorough or q % 7 == 0:
                                    yield ('f123-' + co, co, cls, [a, b, d], [label(s, k) for s, k in zip((a, b, d), kk)], o, how, ib, 'w')
            if mp:
                continue
            R = [st('halton', 11, 1), st('grid', 12), ms(0, 1, 2, 3, 4, 5)]
            for a, r in itertools.product(A, R):
                for w in ('', 'all', 'all+again', 'all+again+then'):
                    for how in ('global', 'local'):
                        if 'all' in w and how == 'local':
                            continue           # cross correlations of the local kind are not what the formula needs
                        for kd, kr in ((None, None), ('mod2', 'mod2'), ('mod3', 'mod3'), ('block3', 'mod3'), ('mod3', 'gap'), ('gap', 'mod3'),
                                       ('gap2', 'mod3'), ('mod3', 'gap2'), ('mod3', None), ('block3', None), ('gap', None), ('mod2', None)):
                            if how == 'local' and (kd is None or kr is None):
                                continue
                            q += 1
                            if thorough or q % 9 == 0:
                                yield ('na-' + co, co, [a], [label(a, kd)], [r], [label(r, kr)], w, True, how, ib, 'w')
            for a, b in itertools.product(A[1:], Bs):
                for o in (True, False):
                    for kk in ((None,) * 4, ('mod2',) * 4, ('mod3', 'block3', 'block3', 'mod3'), ('mod3', 'gap', 'mod3', 'gap'), ('gap', 'mod3', 'mod3', 'mod3'),
                               ('mod3', None, 'mod3', None), (None, 'mod3', None, 'mod3'), (None, 'gap', None, 'mod3'), ('block3', 'mod3', None, None),
                               ('mod3', None, None, None), (None, 'block3', None, None)):
                        q += 1
                        if thorough or q % 9 == 0:
                            yield ('n12-' + co, co, [a, b], [label(a, kk[0]), label(b, kk[1])], [R[0], R[1]], [label(R[0], kk[2]), label(R[1], kk[3])],
                                   '', o, 'global', ib, 'w')
            for a, b, d in zip(A[1:], Bs, Cs):
                for o in (True, False):
                    for kd, kr in (((None,) * 3, (None,) * 3), (('mod2',) * 3, ('mod2',) * 3), (('mod3', 'block3', 'gap'), ('mod3',) * 3),
                                   (('mod3', None, None), ('block3', None, None)), ((None, 'mod3', None), (None, 'mod3', None)),
                                   ((None, 'mod3', 'block3'), (None, 'mod3', 'mod3')), ((None, None, 'gap'), (None, None, 'mod3')),
                                   (('mod3',) * 3, (None,) * 3), ((None, 'mod3', None), (None,) * 3), ((None, 'mod3', 'mod3'), (None,) * 3),
                                   (('mod3', None, 'mod3'), ('mod3', None, 'mod3'))):
                        q += 1
                        if thorough or q % 3 == 0:
                            s = (R[0], R[1], R[2])
                            yield ('n123-' + co, co, [a, b, d], [label(x, k) for x, k in zip((a, b, d), kd)], list(s),
                                   [label(x, k) for x, k in zip(s, kr)], '', o, 'global', ib, 'w')
            if c['metric'] == 'Euclidean' or c['metric'] == 'Arc':
                for a in A:
                    for kind in ('mod3', 'gap', 'block3'):
                        for classes in (['KK', 'KKK'], ['KKK', 'GGG'], ['GG', 'GGG', 'KK']):
                            q += 1
                            if thorough or q % 3 == 0:
                                yield ('multi-' + co, co, a, label(a, kind), classes, ib, 'w')


if __name__ == '__main__':
    ck = core.Check('C19', bounds=(
        'a fixed share (thorough: all) of: auto, cross (two and three catalogs; ordered or not) of point sets of 4 to 10 points divided into 2 '
        'or 3 patches (some of them empty, on some or all of the catalogs) x every configuration of mc/three.py x KKK, GGG x global, local; '
        'NNN.calculateZeta with RRR, or RRR, DRR and RDD, of random sets of 6 to 12 points with and without patches; several statistics '
        'together; every jackknife and sample row and every index vector (all n^n) of both bootstraps; oracle: the definition of the '
        'resamplings applied to direct sums over the triangles of every triple of patches'))
    ck.run(cases(ck.thorough), run)
    ck.finish()
