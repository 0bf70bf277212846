"""C04: results do not depend on the number of threads or on how they are scheduled."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom, hist, sched
SHADOW = sched.activate()
import numpy as np
from mc import two, three

CLS2 = ['NN', 'NK', 'KK', 'GG', 'NG', 'KG', 'NZ', 'KZ', 'ZZ', 'NV', 'KV', 'VV', 'NT', 'KT', 'TT', 'NQ', 'KQ', 'QQ']
CLS3 = ['NNN', 'KKK', 'GGG']
_cats, _corr = {}, {}
RLIM = 60


def make(spec, coords, role, wtype, patch=None, **kw):
    import treecorr
    key = repr((spec, coords, role, wtype, patch, sorted(kw.items())))
    if key not in _cats:
        if len(_cats) > 100:
            _cats.clear()
        k = geom.catalog_kwargs(spec, coords, role, wtype)
        k.update(kw)
        if patch is not None:
            k['patch'] = np.array(patch)
        _cats[key] = treecorr.Catalog(**k)
    return _cats[key]


def corr(cls, kw, coords):
    import treecorr
    key = repr((cls, coords, sorted(kw.items())))
    if key not in _corr:
        if len(_corr) > 200:
            _corr.clear()
        _corr[key] = getattr(treecorr, cls + 'Correlation')(**kw)
    return _corr[key]


def state2(co, cls):
    d = hist.arrays(co, cls, co.bin_type)
    for n in ('varxi', 'varxip', 'varxim', 'varzeta', 'vargam0'):
        if getattr(co, n, None) is not None and len(cls) == 2 and cls != 'NN':
            d[n] = np.array(getattr(co, n))
    if len(cls) == 3:
        # (where the weight is nothing but rounding, so is what is divided by it)
        for n in d:
            if n not in ('ntri', 'weightr', 'weighti', 'tot') and d[n].shape == d['weightr'].shape:
                d[n] = d[n] * d['weightr']
    return d


def differs(a, b):
    """Which of two dicts of arrays differ by more than the order of the additions explains."""
    for n in a:
        x, y = np.asarray(a[n]), np.asarray(b[n])
        if x.shape != y.shape:
            return n
        if n in ('npairs', 'ntri', 'patches', 'use', 'count') or x.dtype.kind in 'iub':
            if n == 'ntri' and np.allclose(x, y, rtol=1e-12, atol=1e-9):
                continue        # the multipole counts are sums of fractions
            if not np.array_equal(x, y):
                return n
        else:
            s = np.abs(x[np.isfinite(x)]).max() if np.isfinite(x).any() else 0.
            if not np.allclose(x, y, rtol=1e-8, atol=1e-9 * s + 1e-13, equal_nan=True):
                return n
    return None


def explore(rec, func, T, bound, limit, lab):
    """All schedules of func(T) against func(1)."""
    import treecorr
    treecorr.set_max_omp_threads(None)
    treecorr.set_omp_threads(1)
    ref, run1 = sched.execute(lambda: func(1))
    rec.check(all(r <= 1 for r in run1.regions), 'more threads were used than asked for', got=run1.regions, want=1, config=lab)
    work = 0
    racy = set()
    for stage in range(4):
        # Where there are races, local computation does not commute: the instructions involved
        # become points at which threads are switched too (with at most one preemption).
        sched.points(racy)
        found = set()
        for out, run in sched.explore(lambda: func(T), bound if stage == 0 else 1, limit if stage == 0 else RLIM):
            rec.step(len(run.chosen) + 1)
            rec.counters['schedules' if stage == 0 else 'schedules with switches at racing accesses'] += 1
            rec.counters['synchronising operations'] += run.nops
            rec.counters['memory accesses'] += run.naccess
            bad = differs(ref, out)
            rec.check(bad is None, '%s depends on the threads%s' % (bad, ' (data race)' if stage else ''), config=lab, schedule=run.chosen, T=T,
                      got=out.get(bad), want=ref.get(bad))
            found |= run.racy
            rec.check(all(r <= T for r in run.regions), 'more threads were used than asked for', got=run.regions, want=T, config=lab)
            rec.outcome(lab, stage, run.chosen)
            work += any(m & (m - 1) for m in run.ran)
            rec.counters['regions'] += sum(r > 1 for r in run.regions)
            if len(rec.viol) > 4:
                break
        if sched.explore.capped:
            rec.counters['cut short' if stage == 0 else 'cut short at racing accesses'] += 1
        if len(rec.viol) > 4 or found <= racy:
            break
        racy |= found
    sched.points(())
    rec.counters['cases with races that do not show'] += bool(racy)
    rec.nontrivial += bool(work)
    rec.counters['schedules with work on several threads'] += work


# ------------------------------------------------------------------ what is run
def run(case, rec):
    group, kind, T, bound, limit, arg = case
    globals()['run_' + kind](rec, T, bound, limit, arg)


def run_corr(rec, T, bound, limit, arg):
    cls, coords, specs, wtype, c, extra, pkw, top, patches = arg
    cats = [make(s, coords, r, wtype, p) for r, (s, p) in enumerate(zip(specs, patches))]
    kw = dict(c['kw'], bin_type=c['bin_type'], min_top=top, max_top=top)
    kw.update(extra)
    co = corr(cls, kw, coords)
    pkw = dict(pkw, metric=c['metric'])
    if len(cls) == 3 and len(cats) > 1:
        pkw.setdefault('ordered', True)

    def func(n):
        for x in cats:
            x.clear_cache()
            for y in (x._patches or []):
                y.clear_cache()
        co.process(*cats, num_threads=n, **pkw)
        return state2(co, cls)
    explore(rec, func, T, bound, limit, '%s:%s:%s:%s:%d:%s' % (cls, coords, c['bin_type'], c['metric'], len(cats), sorted(extra)))


def run_accum(rec, T, bound, limit, arg):
    cls, coords, specs, c, ncat = arg
    cats = [make(s, coords, r, 'w') for r, s in enumerate(specs)]
    kw = dict(c['kw'], bin_type=c['bin_type'], min_top=1, max_top=1)
    co = corr(cls, kw, coords)

    def func(n):
        for x in cats:
            x.clear_cache()
        co.clear()
        if ncat == 1:
            co.process(cats[0], num_threads=n, initialize=True, finalize=False)
            co.process(cats[1], num_threads=n, initialize=False, finalize=False)
        else:
            co.process(cats[0], cats[1], num_threads=n, initialize=True, finalize=False)
            co.process(cats[1], cats[2], num_threads=n, initialize=False, finalize=False)
        return hist.arrays(co, cls, co.bin_type)
    explore(rec, func, T, bound, limit, 'accumulate:%s:%s:%s:%d' % (cls, coords, c['bin_type'], ncat))


def tree(field, cat, coords):
    """What can be seen of a field: numbers of neighbours of some points at some distances."""
    if coords == 'flat':
        where = [dict(x=0.3, y=-0.7), dict(x=-2.1, y=1.3)]
    elif coords == '3d':
        where = [dict(x=0.3, y=-0.7, z=4.1)]
    elif coords == 'sphere':
        where = [dict(ra=17.1, dec=33.2, ra_units='deg', dec_units='deg')]
    else:
        where = [dict(ra=17.1, dec=33.2, r=1.2, ra_units='deg', dec_units='deg')]
    out = dict(count=[], top=np.array(field.nTopLevelNodes))
    for w in where:
        for sep in (0.9, 2.3, 5.7):
            if coords == 'sphere':
                w = dict(w, sep_units='deg')
            out['count'].append(field.count_near(sep=sep, **w))
            out['near%d' % len(out['count'])] = np.array(field.get_near(sep=sep, **w))
    out['count'] = np.array(out['count'])
    return out


def run_field(rec, T, bound, limit, arg):
    which, coords, spec, wtype, kw = arg
    import treecorr
    cat = make(spec, coords, 0, wtype)

    def func(n):
        treecorr.set_omp_threads(n)
        cat.clear_cache()
        f = getattr(cat, 'get%sField' % which)(**kw)
        out = tree(f, cat, coords)
        if kw.get('split_method') == 'random':
            del out['top']
        return {k: np.sort(v) if k.startswith('near') else v for k, v in out.items()}
    explore(rec, func, T, bound, limit, 'field:%s:%s:%s' % (which, coords, sorted(kw.items())))


def run_kmeans(rec, T, bound, limit, arg):
    coords, spec, wtype, npatch, init, alt, kw = arg
    import treecorr
    cat = make(spec, coords, 0, wtype)

    def func(n):
        treecorr.set_omp_threads(n)
        cat.clear_cache()
        f = cat.getNField(**kw)
        cen = f.kmeans_initialize_centers(npatch, init, rng=np.random.RandomState(5))
        out = {'init': cen.copy()}
        steps = [cen.copy()]
        for i in range(2):
            f.kmeans_refine_centers(cen, max_iter=1, alt=alt)
            steps.append(cen.copy())
        for c in steps:
            # Coincident centers (of patches without points): which of them is nearer is not defined.
            d = np.sqrt(((c[:, None] - c[None])**2).sum(axis=2)) + 9 * np.eye(npatch)
            if d.min() < 1e-6:
                return {}
        out['centers'] = cen
        out['patches'] = f.kmeans_assign_patches(cen)
        return out
    explore(rec, func, T, bound, limit, 'kmeans:%s:%d:%s:%s' % (coords, npatch, init, alt))


def run_load(rec, T, bound, limit, arg):
    coords, spec, wtype, single = arg
    import treecorr
    kw = geom.catalog_kwargs(spec, coords, 0, wtype)
    cen = geom.catalog_kwargs(['st', 'halton', 4, 2], coords, 0, 'unit')
    cen = treecorr.Catalog(**{k: v for k, v in cen.items() if k in ('x', 'y', 'z', 'ra', 'dec', 'r', 'ra_units', 'dec_units')})
    cen = np.array([cen.x, cen.y] if cen.z is None else [cen.x, cen.y, cen.z]).T
    cen = np.ascontiguousarray(cen)

    def func(n):
        k = dict(kw)
        c = treecorr.Catalog(patch_centers=cen, num_threads=n, **k)
        out = dict(patches=np.array(c.patch), x=c.x, y=c.y)
        if c.z is not None:
            out['z'] = c.z
        c = treecorr.Catalog(num_threads=n, **k)
        c._centers, c._npatch = cen, len(cen)
        out['use'] = np.concatenate([c._get_patch_index(p) for p in range(4)])
        return out
    explore(rec, func, T, bound, limit, 'load:%s' % coords)


def run_number(rec, T, bound, limit, arg):
    """Which number of threads is used: the call, else the configuration, else what the machine has."""
    where, cap = arg
    import treecorr, multiprocessing
    cat = make(['st', 'halton', 13, 1], 'flat', 0, 'w')
    kw = dict(min_sep=0.1, max_sep=5., nbins=3, min_top=2, max_top=2)
    if where in ('config', 'both'):
        kw['num_threads'] = T if where == 'config' else T % 3 + 1
    co = treecorr.NNCorrelation(**kw)
    ncpu = multiprocessing.cpu_count()
    treecorr.set_max_omp_threads(cap)
    try:
        def func():
            cat.clear_cache()
            co.process(cat, num_threads=T if where in ('call', 'both') else None if where in ('config', 'none') else 0)
            return treecorr.get_omp_threads()
        got, r = sched.execute(func)
        want = T if where in ('config', 'call', 'both') else ncpu
        want = min(want, 8, cap or 8)
        rec.step()
        rec.check(got == want, 'get_omp_threads differs from what was asked for', got=got, want=want, config=where)
        rec.check(max(r.regions) <= want, 'more threads were used than asked for', got=r.regions, want=want, config=where)
        rec.nontrivial += 1
    finally:
        treecorr.set_max_omp_threads(None)


# ------------------------------------------------------------------ cases
def cases(thorough):
    st = lambda name, n, k=0: ['st', name, n, k]
    ms = lambda *x: ['ms', list(x)]
    LIM = 20000 if thorough else 400
    plan = [(2, 2, -1), (3, 1, -1)]                       # threads, levels of top cells, preemptions
    deep = [(2, 3, -1), (3, 2, -1), (4, 2, 2 if not thorough else -1), (3, 3, 2), (2, 4, 3)]
    for w in ('call', 'config', 'both', 'none', 'zero'):
        for T in (1, 2, 3):
            for cap in (None, 1, 2, 5):
                yield ('number', 'number', T, -1, 1, (w, cap))
    q = 0
    for coords in ('flat', 'sphere', '3d', 'radecr'):
        S = [st('halton', 13, 1), st('clusters', 14), st('dups', 12), st('geom', 11), st('collapsed', 9)]
        for ib, c in enumerate(two.BINS[coords]):
            for i, cls in enumerate(CLS2):
                for auto in (True, False):
                    if auto and (cls[0] != cls[1] or c['metric'] == 'Rlens'):
                        continue
                    for T, top, b in plan:
                        q += 1
                        if not thorough and (q % 3 and coords != 'flat'):
                            continue
                        s = S[(q // 3) % len(S)]
                        specs = [s] if auto else [s, S[(q // 3 + 2) % len(S)]]
                        ex = [{}, dict(bin_slop=0), dict(brute=True), dict(bin_slop=0, angle_slop=0), dict(split_method='median')][q // 2 % 5]
                        yield ('corr2-' + coords, 'corr', T, b, LIM, (cls, coords, specs, ('w', 'zeros', 'unit')[q % 3], c, ex, {}, top, [None] * len(specs)))
        for j, cls in enumerate(('NN', 'GG', 'KK', 'NG')):
            for T, top, b in deep:
                c = two.BINS[coords][j % len(two.BINS[coords])]
                specs = [st('halton', 37, j)] if cls[0] == cls[1] and c['metric'] != 'Rlens' else [st('halton', 37, j), st('clusters', 11)]
                yield ('deep2-' + coords, 'corr', T, b, LIM, (cls, coords, specs, 'w', c, {}, {}, top, [None] * len(specs)))
        for ib, c in enumerate(three.BINS[coords]):
            for cls in CLS3:
                if cls == 'GGG' and c['metric'] == 'Periodic':
                    continue
                for ncat in (1, 2, 3):
                    for o in (True, False):
                        if ncat == 1 and not o:
                            continue
                        algos = ['multipole', 'triangle'] if c['bin_type'] == 'LogSAS' and c['metric'] != 'Periodic' else [None]
                        for algo in algos:
                            for T, top, b in plan:
                                q += 1
                                if not thorough and q % (3 if coords == 'flat' else 6):
                                    continue
                                s = S[(q // 3) % len(S)]
                                specs = [st(s[1], 8, s[3]), st('halton', 6, 2), st('ring', 5)][:ncat]
                                pkw = {} if algo is None else dict(algo=algo)
                                if ncat > 1:
                                    pkw['ordered'] = o
                                ex = [{}, dict(bin_slop=0, angle_slop=0)][q % 2]
                                yield ('corr3-' + coords, 'corr', T, b, LIM, (cls, coords, specs, ('w', 'zeros')[q % 2], c, ex, pkw, top, [None] * ncat))
        for j, cls in enumerate(CLS3):
            for T, top, b in deep[:3] if not thorough else deep:
                for ncat in (1, 2, 3):
                    for c in (three.BINS[coords][0], [x for x in three.BINS[coords] if x['bin_type'] != 'LogRUV'][0]):
                        q += 1
                        if not thorough and (q % 3 or coords in ('3d', 'radecr')):
                            continue
                        specs = [st('halton', 13, j), st('clusters', 8), st('ring', 7)][:ncat]
                        yield ('deep3-' + coords, 'corr', T, b, LIM, (cls, coords, specs, 'w', c, {}, {}, top, [None] * ncat))
        # several regions: patches, and accumulating on top of what is there
        for T, top, b in ((2, 1, 2), (3, 1, 1)) + (((2, 2, 2),) if thorough else ()):
            for cls in ('NN', 'GG', 'NG', 'KK', 'NNN', 'KKK', 'GGG'):
                cfgs = (two if len(cls) == 2 else three).BINS[coords]
                for c in cfgs[::3]:
                    if cls == 'GGG' and c['metric'] == 'Periodic':
                        continue
                    q += 1
                    if not thorough and q % 2:
                        continue
                    ncat = 2 if cls == 'NG' or c['metric'] == 'Rlens' or q % 4 else 1
                    specs = [st('halton', 9, 1), st('ring', 8)][:ncat]
                    pt = [[int(k) % 2 for k in range(9)], [int(k) // 4 for k in range(8)]][:ncat]
                    yield ('patches-' + coords, 'corr', T, b, 600, (cls, coords, specs, 'w', c, {}, dict(patch_method='local') if c['bin_type'] == 'LogMultipole' else {}, top, pt))
                    if c['metric'] == 'Euclidean' and (len(cls) == 2 or c['bin_type'] != 'LogSAS'):
                        yield ('accum-' + coords, 'accum', T, b, 600, (cls, coords, [st('halton', 9, 1), st('ring', 8), st('clusters', 7)], c, 2 if cls == 'NG' else 1 + q // 2 % 2))
        for which in 'NKZVGTQ':
            for s in S:
                for kw in (dict(), dict(min_top=2, max_top=2), dict(min_top=3), dict(brute=True), dict(min_size=0.3, max_size=2., min_top=1),
                           dict(split_method='median', min_top=2), dict(split_method='middle', min_top=2), dict(split_method='random', min_top=2)):
                    for T in (2, 3):
                        yield ('field-' + coords, 'field', T, -1, 50, (which, coords, s, ('w', 'zeros')[T % 2], kw))
        for s in S[:4]:
            for npatch in (2, 3, 4):
                for init in ('tree', 'random', 'kmeans++'):
                    for alt in (False, True):
                        for T, b in ((2, 2), (3, 1)):
                            q += 1
                            if not thorough and q % 2:
                                continue
                            yield ('kmeans-' + coords, 'kmeans', T, b, 300, (coords, s, ('w', 'unit')[q // 2 % 2], npatch, init, alt, dict(min_top=2, max_top=2)))
        for s in S:
            for T in (2, 3, 4):
                yield ('load-' + coords, 'load', T, -1, 50, (coords, s, 'w', None))


if __name__ == '__main__':
    ck = core.Check('C04', bounds=(
        'every schedule of the synchronising operations (who takes the next top-level cell, who enters a critical section) of 2 threads with '
        '4 top-level cells and 3 threads with 2, for the 18 two-point and 3 three-point correlations x coordinate systems x binnings x metrics x '
        'one or more catalogs; of 2 threads with 8 cells, 3 with 4 and (2 preemptions) 4 threads with 4 cells for a selection; patches and '
        'accumulation over several parallel regions, and k-means, with at most 2 preemptions; building fields, assigning and selecting patches, '
        'computing x,y,z (no scheduling choices); every execution is checked for data races by vector clocks over all instrumented accesses'),
        assumptions=['code outside the extension module (libstdc++, libc) is not instrumented for races',
                     'local computation commutes between synchronising operations, which absence of races implies'])
    ck.run(cases(ck.thorough), run, timeout=300)
    ck.finish()
