"""C10: dividing a catalog into patches: k-means, patch centers, assignment."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom, rnd
SHADOW = rnd.activate()
import numpy as np

POSN = ('x', 'y', 'z', 'ra', 'dec', 'r', 'ra_units', 'dec_units')


def xyz(kw, coords):
    """Positions as the patch code sees them: (x,y), or (x,y,z), or on the unit sphere."""
    if coords == 'flat':
        return np.array([kw['x'], kw['y']]).T
    if coords == '3d':
        return np.array([kw['x'], kw['y'], kw['z']]).T
    ra, dec = np.radians(kw['ra']), np.radians(kw['dec'])
    return np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)]).T


# Sites with exact ties, and one at the origin
TIES = [(0., 0.), (1., 0.), (0., 1.), (-1., 0.), (1., 1.), (0.5, 0.5), (-1., -1.), (2., 0.)]
TIES3 = [(0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (1., 1., 0.), (0.5, 0.5, 0.5), (-1., 0., 0.), (2., 0., 0.)]
TIESS = [(0., 0.), (90., 0.), (0., 90.), (180., 0.), (45., 0.), (0., 45.), (270., 0.), (0., -90.)]


def points(spec, coords, wtype):
    """Catalog columns of a configuration of points."""
    if spec[0] == 'tie':
        sites = {'flat': TIES, '3d': TIES3, 'sphere': TIESS, 'radecr': TIESS}[coords]
        a = np.array([sites[i] for i in spec[1]], float)
        n = len(a)
        if coords in ('flat', '3d'):
            kw = dict(zip('xyz', a.T.copy()))
        else:
            kw = dict(ra=a[:, 0].copy(), dec=a[:, 1].copy(), ra_units='deg', dec_units='deg')
            if coords == 'radecr':
                kw['r'] = np.array([geom.RDIST[i] for i in spec[1]])
        if wtype != 'unit':
            kw['w'] = np.array([geom._W[(3 * j + 1) % 9] for j in range(n)])
            if wtype == 'zeros' and n > 2:
                kw['w'][1] = 0.
    else:
        kw = geom.catalog_kwargs(spec, coords, 0, wtype)
        kw = {k: v for k, v in kw.items() if k in POSN or k == 'w'}
    return kw


def catalog(kw, **more):
    import treecorr
    return treecorr.Catalog(**dict(kw, **more))


def center_sets(p, coords, thorough):
    """Sets of centers for points p."""
    n, d = p.shape
    u = np.unique(p, axis=0)
    out = []
    for m in (1, 2, 3):
        for c in itertools.combinations(range(len(u)), m):
            out.append(u[list(c)])
    if len(out) > 24 and not thorough:
        out = out[::len(out) // 24 + 1]
    lo, hi = p.min(axis=0), p.max(axis=0)
    g = np.array(list(itertools.product((0., 0.5, 1.), repeat=d)))[:: 1 if d == 2 else 4]
    out.append(lo + (hi - lo) * g)
    out.append(lo + (hi - lo) * g[::-2])
    out.append(np.array([u[0], u[0], u[-1]]))           # two the same
    out.append(np.array([u[0] * 3 + 10., u[-1]]))       # one far away
    if coords in ('sphere', 'radecr'):
        out = [c[np.sqrt((c**2).sum(axis=1)) > 1e-3] for c in out]
        out = [c / np.sqrt((c**2).sum(axis=1))[:, None] for c in out if len(c)]
    return out


def dists(p, c):
    return ((p[:, None, :] - c[None, :, :])**2).sum(axis=2)


def check_nearest(rec, p, c, patches, slop=0., what='patches', **detail):
    d = np.sqrt(dists(p, c))
    patches = np.asarray(patches)
    ok = patches.shape == (len(p),) and patches.dtype.kind in 'iu' and patches.min() >= 0 and patches.max() < len(c)
    if rec.check(ok, '%s are not labels 0..npatch-1 for each point' % what, got=patches, npatch=len(c), **detail):
        got = d[np.arange(len(p)), patches]
        rec.check((got <= d.min(axis=1) + slop + 1e-7 * (1 + np.abs(p).max())).all(), '%s: a point is not with its nearest center' % what,
                  got=patches, want=np.argmin(d, axis=1), centers=c, **detail)
        # (away from rounding, exactly)
        s = np.sort(d, axis=1)
        clear = s[:, 1] - s[:, 0] > 2 * slop + 1e-9 * (1 + np.abs(p).max()) if len(c) > 1 else np.ones(len(p), bool)
        rec.check((patches[clear] == np.argmin(d, axis=1)[clear]).all(), '%s: a point is not with its nearest center' % what,
                  got=patches, want=np.argmin(d, axis=1), centers=c, **detail)


def lloyd(p, w, c, coords, pen=None):
    """One step: (new centers, assignment, well defined?)."""
    d = dists(p, c)
    if pen is not None:
        d = d + pen
    s = np.sort(d, axis=1)
    if len(c) > 1 and (s[:, 1] - s[:, 0]).min() < 1e-9 * (1 + s.max()):
        return None
    a = np.argmin(d, axis=1)
    new = np.zeros_like(c)
    for i in range(len(c)):
        sw = w[a == i].sum()
        if sw <= 0.:
            return None
        new[i] = (p[a == i] * w[a == i][:, None]).sum(axis=0) / sw
        if coords in ('sphere', 'radecr'):
            r = np.sqrt((new[i]**2).sum())
            if r < 1e-3:
                return None
            new[i] /= r
    return new, a


def field(cat, coords, which='N', **kw):
    if coords == 'radecr':
        kw['coords'] = 'spherical'
    return getattr(cat, 'get%sField' % which)(**kw)


# ------------------------------------------------------------------ cases
def run(case, rec):
    globals()['run_' + case[1]](rec, *case[2:])


def run_assign(rec, coords, spec, wtype, thorough):
    """Every way of assigning points to given centers."""
    import treecorr
    kw = points(spec, coords, wtype)
    cat = catalog(kw, keep_zero_weight=True) if wtype == 'zeros' else catalog(kw)
    p = xyz(kw, coords)
    opts = [dict(), dict(min_top=3), dict(max_top=0), dict(split_method='middle'), dict(split_method='median', max_top=1), dict(brute=True),
            dict(split_method='random', max_top=0), dict(min_size=0.7)]
    fields = [(o, field(cat, coords, **o)) for o in opts]
    for c in center_sets(p, coords, thorough):
        for o, f in fields:
            rec.step()
            got = f.kmeans_assign_patches(c)
            check_nearest(rec, p, c, got, slop=2 * o.get('min_size', 0.), what='kmeans_assign_patches', opts=o)
            rec.outcome(got)
        c3 = c
        keep = dict(keep_zero_weight=True) if wtype == 'zeros' else {}
        cat2 = catalog(kw, patch_centers=c3, **keep)
        rec.step()
        if len(c) > 1:
            check_nearest(rec, p, c, cat2.patch, what='patch_centers=')
            rec.check(cat2.npatch == len(c) and np.array_equal(cat2.patch_centers, c), 'npatch, patch_centers are not those given', got=cat2.npatch)
        # each patch on its own
        used = np.zeros(len(p), int)
        alone = np.full(len(p), -1)
        for i in range(len(c)):
            cat3 = catalog(kw, **keep)
            cat3._centers, cat3._npatch = c, len(c)
            ind = cat3._get_patch_index(i)
            used[ind] += 1
            alone[ind] = i
        rec.step(len(c))
        rec.check((used == 1).all(), 'selecting each patch in turn does not take every point exactly once', got=used, centers=c)
        if (used >= 1).all():
            check_nearest(rec, p, c, alone, what='selecting by center')
            if len(c) > 1:
                rec.check(np.array_equal(alone, cat2.patch), 'selecting by center differs from assigning by center', got=alone, want=cat2.patch, centers=c)
        rec.nontrivial += len(np.unique(alone)) > 1


def run_refine(rec, coords, spec, wtype, thorough):
    """k-means iterations are those of Lloyd's algorithm."""
    kw = points(spec, coords, wtype)
    p = xyz(kw, coords)
    w = kw.get('w', np.ones(len(p)))
    cat = catalog(kw)
    if wtype == 'zeros':
        p, w = p[w != 0], w[w != 0]
    opts = [dict(), dict(min_top=3), dict(max_top=0), dict(split_method='median', max_top=1), dict(split_method='random', max_top=0)]
    leaves = field(cat, coords, min_top=20, max_top=20)
    allf = [(o, field(cat, coords, **o), 1e-9) for o in opts]
    if coords in ('sphere', 'radecr'):
        # (the centroid of a cell is put back on the sphere: exact when every top cell is a leaf, else to second order)
        ext = np.sqrt(((p - p.mean(axis=0))**2).sum(axis=1)).max()
        allf = [(o, f, 1e-9 + ext**3 if ext < 0.2 else None) for o, f, t in allf]
        allf[:2] = [(dict(min_top=20), leaves, 1e-9), (dict(min_top=20), leaves, 1e-9)]
    for c0 in center_sets(p, coords, thorough):
        m = lloyd(p, w, c0, coords)
        if m is None:
            rec.counters['steps not defined (ties, empty patches)'] += 1
        else:
            for o, f, tol in allf:
                if tol is None:
                    continue
                c = np.array(c0)
                f.kmeans_refine_centers(c, max_iter=1)
                rec.step()
                rec.check(np.allclose(c, m[0], rtol=1e-8, atol=tol), 'one k-means step does not give the centroids', got=c, want=m[0], start=c0, opts=o)
                rec.outcome(np.round(c, 6))
            # to convergence
            steps, ok, cur = [c0, m[0]], True, m[0]
            for i in range(60):
                nx = lloyd(p, w, cur, coords)
                if nx is None:
                    ok = False
                    break
                steps.append(nx[0])
                if np.allclose(nx[0], cur, rtol=1e-12, atol=1e-12):
                    break
                cur = nx[0]
            for k in (2, 3):
                if len(steps) > k:
                    c = np.array(c0)
                    allf[k % 2][1].kmeans_refine_centers(c, max_iter=k, tol=0.)
                    rec.step()
                    rec.check(np.allclose(c, steps[k], rtol=1e-8, atol=1e-9), 'max_iter steps are not that many k-means steps', got=c, want=steps[k], start=c0, n=k)
            c = np.array(c0)
            allf[0][1].kmeans_refine_centers(c, max_iter=0)
            rec.check(np.allclose(c, c0, rtol=1e-14, atol=1e-15), 'max_iter=0 changes the centers', got=c, want=c0)
            if ok:
                size = np.sqrt(((p - p.mean(axis=0))**2).sum(axis=1)).max()
                shifts = [np.sqrt(((b - a)**2).sum() / len(c0)) for a, b in zip(steps, steps[1:])]
                if all(s > 1e-4 * size or s < 1e-9 * size for s in shifts):
                    c = np.array(c0)
                    allf[0][1].kmeans_refine_centers(c)
                    rec.step()
                    rec.check(np.allclose(c, steps[-1], rtol=1e-8, atol=1e-9), 'k-means does not converge to the fixed point', got=c, want=steps[-1], start=c0)
                    rec.counters['runs to convergence'] += 1
                    rec.nontrivial += len(steps) > 2
                # a large tolerance stops at the first small shift
                for tol in (0.05, 0.3):
                    k = [i for i, s in enumerate(shifts) if s < tol * size * 0.5]
                    k2 = [i for i, s in enumerate(shifts) if s < tol * size * 2.1]
                    if k and k2 and k[0] == k2[0]:
                        c = np.array(c0)
                        allf[1][1].kmeans_refine_centers(c, tol=tol)
                        rec.check(np.allclose(c, steps[k[0] + 1], rtol=1e-8, atol=1e-9), 'k-means does not stop at the tolerance', got=c, want=steps[k[0] + 1], start=c0, tol=tol)
        # the alternate algorithm, where its approximation of the inertia is exact
        a = lloyd(p, w, c0, coords)
        if a is not None:
            d = dists(p, c0)
            I = np.array([(d[a[1] == i, i] * w[a[1] == i]).sum() for i in range(len(c0))])
            ma = lloyd(p, w, c0, coords, pen=3. * len(c0) / w.sum() * I)
            if ma is not None and len(np.unique(p, axis=0)) == len(p):
                c = np.array(c0)
                leaves.kmeans_refine_centers(c, max_iter=1, alt=True)
                rec.step()
                rec.check(np.allclose(c, ma[0], rtol=1e-8, atol=1e-9), 'one step of the alternate k-means is not as documented', got=c, want=ma[0], start=c0)
                rec.counters['alternate steps'] += 1


def run_init(rec, coords, spec, init, m, K, ends, depth, limit, opts):
    """Initial centers, for every outcome of the random numbers."""
    kw = points(spec, coords, 'unit')
    p = xyz(kw, coords)
    n = len(p)
    u = np.unique(np.round(p, 9), axis=0)
    cat = catalog(kw)
    f = field(cat, coords, **opts)
    rs = np.random.RandomState(3)
    tol = 1e-7 * (1 + np.abs(p).max())
    seen = set()
    for c, chosen, used in rnd.explore(lambda: f.kmeans_initialize_centers(m, init, rng=rs), K, ends, depth, limit):
        rec.step()
        rec.counters['outcomes of random numbers'] += 1
        det = dict(chosen=chosen, init=init, centers=c, points=p)
        if not rec.check(c.shape == (m, p.shape[1]) and np.isfinite(c).all(), 'initial centers are not npatch points', **det):
            continue
        if init == 'tree':
            lo, hi = p.min(axis=0), p.max(axis=0)
            if coords in ('sphere', 'radecr'):
                rec.check(np.allclose((c**2).sum(axis=1), 1., atol=1e-6), 'an initial center is not on the sphere', **det)
            else:
                rec.check((c >= lo - tol).all() and (c <= hi + tol).all(), 'an initial center is not among the points', **det)
        else:
            d = np.sqrt(dists(u, c))
            near = np.argmin(d, axis=0)
            if rec.check((d.min(axis=0) < tol).all(), 'an initial center is not one of the points', **det):
                if init == 'kmeans++':
                    rec.check(len(set(near)) == min(m, len(u)), 'k-means++ takes the same point twice', **det)
                elif len(u) == n:
                    rec.check(len(set(near)) == m, 'the same point is taken twice', **det)
                seen.add(tuple(sorted(near)))
        rec.outcome(np.round(c, 6))
    # every set of distinct points can come out
    if init == 'random' and len(u) == n and not rnd.explore.capped and depth >= m:
        want = set(itertools.combinations(range(n), m))
        rec.check(seen >= want, 'some sets of points are never taken as initial centers', got=len(seen), want=len(want), init=init)
    if rnd.explore.capped:
        rec.counters['enumerations cut short'] += 1
    rec.nontrivial += len(seen) > 1 or init == 'tree'


def run_kmeans(rec, coords, spec, wtype, m, K, depth, limit, ckw, zero=None):
    """Catalog(npatch=m) and Field.run_kmeans: labels and centers fit together."""
    import treecorr
    kw = points(spec, coords, wtype)
    p = xyz(kw, coords)
    w = kw.get('w', np.ones(len(p)))
    if wtype == 'zeros':
        p, w = p[w != 0], w[w != 0]

    def func():
        c = catalog(kw, npatch=m, **ckw)
        return np.array(c.patch), np.array(c.patch_centers), c
    for (pat, cen, c), chosen, used in rnd.explore(func, K, False, depth, limit):
        rec.step()
        rec.counters['outcomes of random numbers'] += 1
        det = dict(chosen=chosen, m=m, kw=str(ckw))
        ok = rec.check(cen.shape == (m, p.shape[1]) and np.isfinite(cen).all() and c.npatch == m, 'there are not npatch centers', got=cen, **det)
        if not ok:
            continue
        check_nearest(rec, p, cen, pat, what='Catalog(npatch=)', **det)
        if len(np.unique(np.round(p, 9), axis=0)) == len(p) and not ckw.get('kmeans_alt'):
            rec.check(len(np.unique(pat)) == m, 'the standard algorithm gives a patch without points', got=pat, centers=cen, **det)
        if len(np.unique(pat)) < m:
            rec.counters['runs with an empty patch: %s %s %s' % (ckw['kmeans_init'], ckw['kmeans_alt'], 'all different' if len(np.unique(p, axis=0)) == len(p) else '')] += 1
        elif not ckw.get('kmeans_alt'):
            st = lloyd(p, w, cen, coords)
            if st is not None:
                # converged: the centers are where the next step would put them (up to the tolerance)
                size = np.sqrt(((p - p.mean(axis=0))**2).sum(axis=1)).max()
                ext = 0. if coords in ('flat', '3d') else size if size < 0.2 else 9.
                rec.check(np.sqrt(((st[0] - cen)**2).sum() / m) < 2e-5 * size + 1e-9 + ext**3, 'the patch centers are not the centroids of the patches', got=cen, want=st[0], **det)
                rec.nontrivial += 1
        rec.outcome(np.round(cen, 6))


def run_file(rec, coords, spec, wtype, fmt, tmp):
    """Centers through a file; patches of a file by their centers, in memory and one at a time."""
    import treecorr
    kw = points(spec, coords, wtype)
    d = os.path.join(tmp, '%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    p = xyz(kw, coords)
    cat = catalog(kw)
    ext = {'ASCII': '.txt', 'FITS': '.fits', 'HDF': '.hdf5'}[fmt]
    fn = os.path.join(d, 'cat' + ext)
    cat.write(fn)
    cf = os.path.join(d, 'cen' + ext)
    fkw = dict(x_col='x', y_col='y') if coords in ('flat', '3d') else dict(ra_col='ra', dec_col='dec', ra_units='deg', dec_units='deg')
    if coords == '3d':
        fkw['z_col'] = 'z'
    if coords == 'radecr':
        fkw['r_col'] = 'r'
    if wtype != 'unit':
        fkw['w_col'] = 'w'
    x0 = np.array(cat.x)
    for c in center_sets(p, coords, False)[3::3]:
        m = len(c)
        if m == 1:
            continue
        a = catalog(kw, patch_centers=c)
        a.write_patch_centers(cf)
        b = treecorr.Catalog(fn, fkw, patch_centers=cf)
        rec.step(2)
        rec.check(np.array_equal(b.patch_centers, c), 'patch centers do not survive a file', got=b.patch_centers, want=c, fmt=fmt)
        rec.check(np.array_equal(b.patch, a.patch), 'patches by centers from a file differ', got=b.patch, want=a.patch, fmt=fmt)
        rec.check(np.array_equal(cat.read_patch_centers(cf), c), 'read_patch_centers differs from what was written', fmt=fmt)
        for low in (False, True):
            b = treecorr.Catalog(fn, fkw, patch_centers=cf if low else c)
            pats = b.get_patches(low_mem=low)
            rec.step()
            n = 0
            for q in pats:
                i = q.patch
                if i not in a.patch:
                    continue          # (an empty patch: nothing is promised about loading it)
                sel = np.where(np.asarray(a.patch) == i)[0]
                n += 1
                rec.check(np.allclose(q.x, x0[sel], rtol=1e-12, atol=1e-14) if len(q.x) == len(sel) else False,
                          'a patch of a catalog file does not hold the points nearest to its center', got=q.x, want=x0[sel], low_mem=low, centers=c, fmt=fmt)
            for i in np.unique(a.patch):
                q = treecorr.Catalog(fn, fkw, patch_centers=c, patch=int(i))
                sel = np.where(np.asarray(a.patch) == i)[0]
                rec.check(np.allclose(q.x, x0[sel], rtol=1e-12, atol=1e-14) if len(q.x) == len(sel) else False,
                          'patch=i with patch_centers does not give the points nearest to that center', got=q.x, want=x0[sel], centers=c, fmt=fmt)
            rec.check(n == len(np.unique(a.patch)), 'patches are missing', got=n, low_mem=low, fmt=fmt)
            rec.nontrivial += n > 1


def run_computed(rec, coords, spec, wtype, npatch, lab):
    """patch_centers of a catalog with given labels are the weighted means."""
    kw = points(spec, coords, wtype)
    p = xyz(kw, coords)
    if coords == 'radecr':
        p = p * np.array(kw['r'])[:, None]
    w = kw.get('w', np.ones(len(p)))
    lab = np.array(lab[:len(p)])
    for patches in (lab, None):
        cat = catalog(kw, keep_zero_weight=True, **({} if patches is None else dict(patch=patches)))
        cen = cat.patch_centers
        rec.step()
        lb = np.zeros(len(p), int) if patches is None else patches
        for i in range(lb.max() + 1):
            sw = w[lb == i].sum()
            if sw > 0:
                want = (p[lb == i] * w[lb == i][:, None]).sum(axis=0) / sw
                if coords == 'sphere':
                    r = np.sqrt((want**2).sum())
                    if r < 1e-3:
                        continue
                    want /= r
                rec.check(np.allclose(cen[i], want, rtol=1e-10, atol=1e-12), 'patch_centers is not the mean position of each patch', got=cen[i], want=want)
                rec.nontrivial += 1
        rec.outcome(np.round(cen, 6))


def run_errors(rec, coords):
    import treecorr
    kw = points(['tie', [0, 1, 2, 4]], coords, 'unit')
    cat = catalog(kw)
    f = field(cat, coords)

    def bad(what, fn):
        rec.step()
        try:
            fn()
        except (ValueError, TypeError):
            rec.check(True, '')
        except Exception as e:
            rec.check(False, '%s raises the wrong error' % what, got=repr(e))
        else:
            rec.check(False, '%s is accepted' % what)
    for m in (0, -1, 5, 100):
        bad('npatch=%d' % m, lambda: f.kmeans_initialize_centers(m))
        bad('npatch=%d' % m, lambda: f.run_kmeans(m))
    bad('init', lambda: f.kmeans_initialize_centers(2, 'nothing'))
    bad('init', lambda: f.run_kmeans(2, init='TREE'))
    bad('npatch=100', lambda: catalog(kw, npatch=100))
    bad('kmeans_init', lambda: catalog(kw, npatch=2, kmeans_init='none'))
    c = f.kmeans_initialize_centers(2)
    bad('patch_centers and npatch', lambda: catalog(kw, npatch=3, patch_centers=c))
    bad('patch_centers of the wrong shape', lambda: catalog(kw, patch_centers=np.zeros((2, 3 if coords == 'flat' else 2))))
    bad('patch and patch_centers', lambda: catalog(kw, patch=[0, 1, 0, 1], patch_centers=c))
    # every documented kind of random number generator
    allk = geom.catalog_kwargs(['st', 'halton', 9, 0], coords, 0, 'w')
    for rng in (np.random.RandomState(4), np.random.default_rng(4)):
        c2 = treecorr.Catalog(rng=rng, **allk)
        for which in 'NKZVGTQ':
            rec.step()
            g = getattr(c2, 'get%sField' % which)(split_method='random')
            for init in ('tree', 'random', 'kmeans++'):
                rec.check(g.kmeans_initialize_centers(3, init, rng=rng).shape[0] == 3, 'rng is not accepted')
    rec.nontrivial += 1


# ------------------------------------------------------------------ enumeration
def cases(thorough, tmp):
    st = lambda name, n, k=0: ['st', name, n, k]
    for coords in ('flat', '3d', 'sphere', 'radecr'):
        yield ('errors', 'errors', coords)
        q = 0
        for n in range(1, 6 if thorough else 5):
            for c in itertools.combinations_with_replacement(range(8), n):
                q += 1
                if not thorough and (n == 4 and q % 4 or n == 3 and q % 2 and coords != 'flat'):
                    continue
                spec = ['tie', list(c)]
                wt = ('unit', 'w', 'zeros')[q % 3]
                if wt == 'zeros' and n <= 2:
                    wt = 'w'
                yield ('assign-' + coords, 'assign', coords, spec, wt, thorough)
                if n > 1:
                    yield ('refine-' + coords, 'refine', coords, ['ms', list(c)], wt, thorough)
        for name in geom.STRUCTS:
            for n in (7, 12, 30, 100) if thorough else (7, 12, 30):
                for k in (0, 1):
                    q += 1
                    wt = ('unit', 'w', 'zeros')[q % 3]
                    yield ('assign-' + coords, 'assign', coords, st(name, n, k), wt, False)
                    yield ('refine-' + coords, 'refine', coords, st(name, n, k), wt, False)
                    for m in (2, 3, 5):
                        for init in ('tree', 'random', 'kmeans++'):
                            for alt in (False, True):
                                q += 1
                                if not thorough and q % 2:
                                    continue
                                if m > n:
                                    continue
                                yield ('kmeans-' + coords, 'kmeans', coords, st(name, n, k), wt, m, 3, 3 if thorough else 2, 100, dict(kmeans_init=init, kmeans_alt=alt))
        for n in (2, 3, 4, 5, 6):
            for c in itertools.combinations_with_replacement(range(8), n):
                q += 1
                if not thorough and q % {2: 1, 3: 1, 4: 4, 5: 17, 6: 61}[n]:
                    continue
                if thorough and q % {2: 1, 3: 1, 4: 1, 5: 3, 6: 11}[n]:
                    continue
                for m in range(1, min(n, 4) + 1):
                    for init in ('random', 'kmeans++', 'tree'):
                        o = [dict(), dict(max_top=0), dict(max_top=1), dict(min_top=3), dict(max_top=0, split_method='median')][(q + m) % 5]
                        if init == 'random':
                            K, depth = n, m + 1
                        else:
                            K, depth = (2, 5) if not thorough else (3, 6)
                        yield ('init-' + coords, 'init', coords, ['tie', list(c)], init, m, K, q % 3 == 0, depth, 6000 if thorough else 1000, o)
                    q += 1
        for fmt in ('ASCII', 'FITS', 'HDF'):
            for spec in (['tie', [0, 1, 2, 4, 5]], ['tie', [0, 1, 3, 5, 6, 7]], st('grid', 9), st('dups', 9), st('ring', 8)):
                for wt in ('unit', 'w'):
                    q += 1
                    yield ('file-' + coords, 'file', coords, spec, wt, fmt, tmp)
        for n in (4, 5, 6):
            for lab in itertools.product(range(3), repeat=n):
                if set(lab) != set(range(max(lab) + 1)):
                    continue
                q += 1
                if not thorough and q % {4: 1, 5: 3, 6: 17}[n]:
                    continue
                yield ('computed-' + coords, 'computed', coords, st(geom.STRUCTS[q % 8], n, q % 2), ('unit', 'w', 'zeros')[q % 3], 3, list(lab))


if __name__ == '__main__':
    ck = core.Check('C10', bounds=(
        'points: all multisets of up to 3 (4 sampled by stride) of 8 sites with exact ties and the origin, and structured sets of 7-30 points, in 4 coordinate systems; '
        'centers: all sets of up to 3 of the points (about 24 per configuration), grids, coincident and distant ones; every way of assigning (tree with '
        '8 kinds of field, directly, selecting one patch, catalog files read whole or patch by patch); k-means steps 1-3 and to convergence; initial centers '
        'and whole runs for every outcome of the random numbers at a resolution of 2 to 6 values per number (and its extremes) for up to 5 numbers'),
        assumptions=['which of several exactly equidistant centers is taken by the tree, and what becomes of a center without points, is not specified'])
    tmp = build.scratch('c10-', shm=True)
    ck.run(cases(ck.thorough, tmp), run, timeout=300)
    ck.finish()
