"""C07: what is written to a file is the result, and reading it back gives the same object."""
import itertools, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom, hist
build.activate()
import numpy as np
from mc import two, three

NX = {'Z': ('z_real', 'z_imag'), 'V': ('vR', 'vT'), 'G': ('gamT', 'gamX'), 'T': ('tR', 'tR_im'), 'Q': ('qR', 'qR_im')}
KX = {'Z': ('xi', 'xi_im'), 'V': ('xi', 'xi_im'), 'G': ('kgamT', 'kgamX'), 'T': ('xi', 'xi_im'), 'Q': ('xi', 'xi_im')}
TWO = list(hist.XI2)
FORMATS = [('hdf5', None, None), ('fits', None, None), ('dat', None, None), ('out', None, 16), ('xyz', 'FITS', None),
           ('foo', 'HDF', None), ('fits', 'ASCII', 12)]


# ------------------------------------------------------------------ the documented columns
def columns(cls, co, rand):
    """{column: values} that the documentation promises; sigma columns are square roots."""
    if len(cls) == 2:
        d = dict(r_nom=co.rnom, meanr=co.meanr, meanlogr=co.meanlogr, npairs=co.npairs)
        if cls == 'NN':
            d['DD'] = co.weight
            if hasattr(co, 'xi'):
                d['xi'], d['sigma_xi'] = co.xi, np.sqrt(co.varxi)
            for n, x in rand.items():
                # a single cross term is documented as DR
                d['DR' if n == 'rd' and 'dr' not in rand else n.upper()] = x.weight * (co.tot / x.tot)
            return d
        d['weight'] = co.weight
        if cls[0] == cls[1] and cls != 'KK':
            for n in hist.XI2[cls]:
                d[n] = getattr(co, n)
            d['sigma_xip'], d['sigma_xim'] = np.sqrt(co.varxip), np.sqrt(co.varxim)
        elif cls == 'KK':
            d['xi'], d['sigma_xi'] = co.xi, np.sqrt(co.varxi)
        elif cls == 'NK':
            d['kappa'], d['sigma'] = co.xi, np.sqrt(co.varxi)
        else:
            a, b = (NX if cls[0] == 'N' else KX)[cls[1]]
            d[a], d[b], d['sigma'] = co.xi, co.xi_im, np.sqrt(co.varxi)
        return d
    d = {n: getattr(co, n) for n in ['meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3', 'ntri']}
    if co.bin_type == 'LogRUV':
        d.update(r_nom=co.rnom, u_nom=co.u, v_nom=co.v, meanu=co.meanu, meanv=co.meanv)
    elif co.bin_type == 'LogSAS':
        d.update(d2_nom=co.d2nom, d3_nom=co.d3nom, phi_nom=co.phi, meanphi=co.meanphi)
    else:
        d.update(d2_nom=co.d2nom, d3_nom=co.d3nom, n=co.n)
    mult = co.bin_type == 'LogMultipole'
    if cls == 'NNN':
        d['DDD'] = np.abs(co.weight) if mult else co.weight
        if mult:
            d['weight_re'], d['weight_im'] = co.weight.real, co.weight.imag
        if co.zeta is not None:
            d['zeta'] = co.zeta
            d['sigma_zeta'] = np.sqrt(co.varzeta)
        for n, x in rand.items():
            d[n.upper()] = x.weight * (co.tot / x.tot)
        return d
    if mult:
        d['weight_re'], d['weight_im'] = co.weight.real, co.weight.imag
    else:
        d['weight'] = co.weight
    if cls == 'KKK':
        if mult:
            d['zeta_re'], d['zeta_im'] = co.zeta.real, co.zeta.imag
        else:
            d['zeta'] = co.zeta
        d['sigma_zeta'] = np.sqrt(co.varzeta)
    else:
        for i in range(4):
            g = getattr(co, 'gam%d' % i)
            d['gam%dr' % i], d['gam%di' % i] = g.real, g.imag
            d['sigma_gam%d' % i] = np.sqrt(getattr(co, 'vargam%d' % i))
    return d


def parse(path, kind, named):
    """The main table of a file, read without treecorr."""
    if kind == 'FITS':
        from astropy.io import fits
        with fits.open(path) as f:
            t = f['main'] if named else f[1]
            return {n: np.array(t.data[n], dtype=float) for n in t.data.names}
    if kind == 'HDF':
        import h5py
        with h5py.File(path, 'r') as f:
            g = f['main'] if named else f
            return {n: np.array(g[n]) for n in g if isinstance(g[n], h5py.Dataset)}
    cols, rows = None, []
    with open(path) as f:
        for line in f:
            if line.startswith('##'):
                if rows:
                    break
            elif line.startswith('#'):
                cols = line[1:].split()
            else:
                rows.append([float(v) for v in line.split()])
    a = np.array(rows)
    nrow = len(a)
    return {n: a[:, i] for i, n in enumerate(cols)}, nrow


# ------------------------------------------------------------------ observation of an object
def main_state(cls, co):
    d = {n: np.array(v) for n, v in hist.arrays(co, cls, getattr(co, 'bin_type', None)).items()}
    for n in ['xi', 'xi_im', 'varxi', 'varxip', 'varxim', 'zeta', 'varzeta'] + ['vargam%d' % i for i in range(4)]:
        if getattr(co, n, None) is not None:
            d[n] = np.array(getattr(co, n))
    for n in ('raw_xi', 'raw_xi_im'):
        d.pop(n, None)
    if cls == 'NNN' and co.bin_type == 'LogMultipole':
        d.pop('meanu', None)
    return d


CONFIG2 = ['bin_type', 'min_sep', 'max_sep', 'nbins', 'bin_size', 'sep_units', 'bin_slop', 'b', 'angle_slop', 'min_top', 'max_top',
           'split_method', 'brute', 'xperiod', 'yperiod', 'zperiod', 'min_rpar', 'max_rpar', 'var_method', 'num_bootstrap',
           'cross_patch_weight', 'coords', 'metric', 'letters', '_letters', 'logr', 'rnom', 'left_edges', 'right_edges']
CONFIG3 = CONFIG2 + ['nubins', 'nvbins', 'min_u', 'max_u', 'min_v', 'max_v', 'ubin_size', 'vbin_size', 'min_phi', 'max_phi', 'nphi_bins',
                     'phi_bin_size', 'phi_units', 'max_n', 'rnom1d', 'logr1d', 'u1d', 'v1d', 'phi1d']


def config(co):
    out = {}
    for n in CONFIG3:
        try:
            v = getattr(co, n)
        except (AttributeError, TypeError, RuntimeError, AssertionError):
            v = None
        out[n] = v
    for n in ('precision', 'm2_uform', 'verbose', 'output_dots', 'num_threads'):
        out['config.' + n] = co.config.get(n)
    return out


def cfg_diff(a, b):
    for n in a:
        x, y = a[n], b[n]
        if isinstance(x, (np.ndarray, float)) and isinstance(y, (np.ndarray, float, int)):
            if not np.allclose(x, y, rtol=1e-13, atol=0):
                return n, x, y
        elif x is not y and not (x == y):
            return n, x, y
    return None


def close(x, y, rel):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if np.iscomplexobj(x) or np.iscomplexobj(y):
        return close(x.real, y.real, rel) and close(x.imag, y.imag, rel)
    return bool(np.all((np.abs(x - y) <= rel * np.abs(x) + 1e-300) | (np.isnan(x) & np.isnan(y))))


def state_diff(a, b, rel):
    for n in sorted(set(a) | set(b)):
        if n not in a or n not in b:
            return n, a.get(n, 'absent'), b.get(n, 'absent')
        if not close(a[n], b[n], (2.5 if n.startswith('var') else 1.) * rel + 1e-13):
            return n, a[n], b[n]
    return None


# ------------------------------------------------------------------ what to write
def cats(coords, n, k, role, wtype, patch):
    import treecorr
    kw = geom.catalog_kwargs(['st', 'halton' if k < 50 else 'clusters', n, k % 50], coords, role, wtype)
    if patch is not None:
        kw['patch'] = np.array([patch[i % len(patch)] for i in range(n)])
    return treecorr.Catalog(**kw)


PATCH = {'none': (None, None), 'pp': ([0, 1, 2, 1, 0], [0, 2, 1]), 'p1': ([0, 1, 1], None), 'p2': (None, [1, 0]),
         'far': ('far', 'far'), 'one': ([0, 1, 2, 1, 0], 'one')}


def two_cats(cls, coords, scen, auto, wtype, role=0):
    import treecorr
    p1, p2 = PATCH[scen]
    if scen == 'far':
        # the last patch is isolated, and it has a single point
        kw = geom.catalog_kwargs(['st', 'halton', 9, role], coords, role, wtype)
        for c in ('x', 'z'):
            if c in kw:
                kw[c] = kw[c].copy()
                kw[c][-1] += 500.
        if 'ra' in kw:
            kw['ra'] = kw['ra'].copy()
            kw['ra'][-1] += 150.
        kw['patch'] = np.array([0, 1, 1, 0, 1, 0, 0, 1, 2])
        c1 = treecorr.Catalog(**kw)
        c2 = None if auto else cats(coords, 6, 1 + role, 1 + role, wtype, [0, 1, 2])
        return c1, c2
    if p2 == 'one':
        p2 = [1, 1, 1]
    c1 = cats(coords, 9, role, role, wtype, p1)
    c2 = None if auto else cats(coords, 7, 1 + role, 1 + role, wtype, p2)
    return c1, c2


def make2(cls, coords, ib, scen, wtype, opt, rands):
    import treecorr
    c = two.BINS[coords][ib]
    kw = dict(c['kw'], bin_slop=0, **{k: v for k, v in opt.items() if k not in ('method',)})
    auto = cls[0] == cls[1] and not scen.endswith('x') and scen not in ('p1', 'p2')
    sc = scen.rstrip('x')

    def proc(ca, cb):
        co = getattr(treecorr, cls + 'Correlation')(bin_type=c['bin_type'], **kw)
        co.process(*([ca] if cb is None else [ca, cb]), metric=c['metric'], num_threads=1)
        return co
    c1, c2 = two_cats(cls, coords, sc, auto, wtype)
    co = proc(c1, c2)
    rand = {}
    if cls[0] == 'N' and rands:
        r1, r2 = two_cats(cls, coords, sc, auto, wtype, role=2)
        if cls == 'NN':
            for n in rands:
                if n == 'rr':
                    rand[n] = proc(r1, r2)
                elif n == 'dr':
                    rand[n] = proc(c1, r1 if c2 is None else r2)
                else:
                    rand[n] = proc(r1, c1 if c2 is None else c2)
        else:
            rand['r' + cls[1].lower()] = proc(r1, c2)

    def fresh():
        return getattr(treecorr, cls + 'Correlation')(bin_type=c['bin_type'], **kw)

    def used():
        o = fresh()
        a, b = two_cats(cls, coords, 'pp', auto, wtype, role=1)
        o.process(*([a] if b is None else [a, b]), metric=c['metric'], num_threads=1)
        if cls == 'NN':
            o.calculateXi(rr=o.copy())
        o.estimate_cov('jackknife')
        o.cov
        return o
    again = lambda o: o.process(*([c1] if c2 is None else [c1, c2]), metric=c['metric'], num_threads=1)
    return co, rand, fresh, used, again


def make3(cls, coords, ib, scen, wtype, opt, rands):
    import treecorr
    c = three.BINS[coords][ib]
    kw = dict(c['kw'], bin_slop=0, **opt)
    ncat = 3 if scen.endswith('xx') else 2 if scen.endswith('x') or scen in ('p1', 'p2') else 1
    sc = scen.rstrip('x')
    pm = {}
    if c['bin_type'] == 'LogMultipole' and sc != 'none':
        pm = dict(patch_method='local')

    def proc(*cs):
        co = getattr(treecorr, cls + 'Correlation')(bin_type=c['bin_type'], **kw)
        co.process(*cs, metric=c['metric'], num_threads=1, **pm)
        return co

    def sets(role):
        a, b = two_cats(cls, coords, sc, ncat == 1, wtype, role)
        if ncat == 1:
            return [a]
        if ncat == 2:
            return [a, b]
        return [a, b, cats(coords, 6, 2 + role, role, wtype, [0, 1, 2] if sc in ('pp', 'far') else None)]
    cs = sets(0)
    co = proc(*cs)
    rand = {}
    if cls == 'NNN' and rands:
        r = two_cats(cls, coords, sc, True, wtype, role=2)[0]
        for n in rands:
            rand[n] = proc(r) if n == 'rrr' else proc(cs[0], r) if n == 'drr' else proc(r, cs[0])

    def fresh():
        return getattr(treecorr, cls + 'Correlation')(bin_type=c['bin_type'], **kw)

    def used():
        o = fresh()
        a = two_cats(cls, coords, 'pp', True, wtype, role=1)[0]
        o.process(a, metric=c['metric'], num_threads=1, **(dict(patch_method='local') if c['bin_type'] == 'LogMultipole' else {}))
        if cls == 'NNN' and c['bin_type'] != 'LogMultipole':
            o.calculateZeta(rrr=o.copy())
        if cls != 'NNN':
            o.estimate_cov('jackknife', func=None if c['bin_type'] != 'LogMultipole' else (lambda q: q.weightr.ravel()))
        return o
    again = lambda o: o.process(*cs, metric=c['metric'], num_threads=1, **pm)
    return co, rand, fresh, used, again


def stat_func(cls, co):
    if cls == 'NN' and co._rr is None or cls == 'NNN' and co._rrr is None:
        return lambda q: np.asarray(q.weight).ravel()
    if len(cls) == 3 and co.bin_type == 'LogMultipole' and cls != 'NNN':
        return lambda q: np.concatenate([np.asarray(q.weight).ravel(), np.asarray(q.getStat()).ravel()])
    return None


def run(case, rec):
    group, cls, coords, ib, scen, wtype, opt, rands, how, files = case
    path = os.path.join(DIR, str(os.getpid()), 'c')
    opt = dict(dict(num_bootstrap=4), **opt)    # few, since bootstraps are slow
    made = None
    for i, (fmt, wpr, wcov) in enumerate(files):
        if made is None or how == 'write':
            made = (make2 if len(cls) == 2 else make3)(cls, coords, ib, scen, wtype, opt, rands)
            rec.step(1 + len(made[1]))
        # every way of reading for the first formats; any one of them for the others
        readers = READ if i < (len(files) if ck.thorough else 3) else [READ[i % 4]]
        one(case, rec, made, fmt, wpr, wcov, readers, '%s%d.%s' % (path, i, fmt[0]))


def one(case, rec, made, fmt, wpr, wcov, readers, path):
    import treecorr
    group, cls, coords, ib, scen, wtype, opt, rands, how, files = case
    base = treecorr.Corr2 if len(cls) == 2 else treecorr.Corr3
    klass = getattr(treecorr, cls + 'Correlation')
    co, rand, fresh, used, again = made
    mult = len(cls) == 3 and co.bin_type == 'LogMultipole'
    lab = dict(fmt=fmt, wpr=wpr, wcov=wcov, scen=scen, how=how)
    wkw = {}
    if rand and how == 'write':
        wkw = dict(rand)
    elif rand:
        (co.calculateXi if len(cls) == 2 else co.calculateZeta)(**rand)
    kind = fmt[1] or {'hdf5': 'HDF', 'fits': 'FITS'}.get(fmt[0], 'ASCII')
    kw = dict(file_type=fmt[1], write_patch_results=wpr, write_cov=wcov, **wkw)
    if fmt[2] is not None:
        kw['precision'] = fmt[2]
    prec = fmt[2] if fmt[2] is not None else opt.get('precision', 4)
    before = None if how == 'write' else main_state(cls, co)
    cfg0 = config(co)
    res0 = hist.res(co, cls, getattr(co, 'bin_type', None))
    cov0 = np.array(co.cov) if wcov and not (how == 'write' and rand) else None
    co.write(path, **kw)
    rec.step()
    if wcov and cov0 is None:
        cov0 = np.array(co.cov)
    st = main_state(cls, co)
    if before is not None:
        bad = state_diff(before, st, 0)
        rec.check(bad is None, 'writing changes the object', diff=bad, **lab)
        rec.check(hist.same_results(hist.res(co, cls, getattr(co, 'bin_type', None)), res0) is None, 'writing changes the patch results', **lab)
    bad = cfg_diff(cfg0, config(co))
    rec.check(bad is None, 'writing changes the configuration', diff=bad, **lab)
    rel = 0. if kind != 'ASCII' else 0.5001 * 10. ** -prec

    # 1. the documented columns
    named = wpr or wcov
    want = columns(cls, co, wkw)
    try:
        got = parse(path, kind, named)
    except Exception as e:
        return rec.fail('the file cannot be read independently: %r' % e, **lab)
    if kind == 'ASCII':
        got, nr = got
    rec.check(set(got) == set(want), 'columns of the file', got=sorted(got), want=sorted(want), **lab)
    for n in want:
        if n in got:
            rec.check(close(np.asarray(want[n], dtype=float).ravel(), got[n], rel + 1e-14), 'column of the file is not the documented one',
                      column=n, got=got[n], want=np.asarray(want[n]).ravel(), **lab)
    # 2. read back
    objs = {}
    for r in readers:
        try:
            if r == 'from_file':
                o = klass.from_file(path, file_type=fmt[1])
            elif r == 'base':
                o = base.from_file(path, file_type=fmt[1])
                rec.check(type(o) is klass, 'from_file gives another class', got=repr(type(o)), **lab)
            else:
                o = fresh() if r == 'fresh' else used()
                o.read(path, file_type=fmt[1])
        except Exception as e:
            import traceback
            rec.fail('reading the file back fails (%s): %s: %s' % (r, type(e).__name__, e), tb=traceback.format_exc()[-700:], **lab)
            continue
        rec.step()
        objs[r] = o
    pat = wpr and len(co.results) > 0
    func = stat_func(cls, co)
    keys = set(tuple(int(i) for i in k) for k in co.results)
    for r, o in objs.items():
        l = dict(lab, reader=r)
        bad = state_diff(st, main_state(cls, o), rel)
        rec.check(bad is None, 'results differ after reading back', diff=bad, **l)
        bad = cfg_diff(cfg0, config(o))
        rec.check(bad is None, 'configuration differs after reading back', diff=bad, **l)
        np_ = [int(getattr(o, 'npatch%d' % i)) for i in range(1, len(cls) + 1)]
        if wpr:
            rec.check(np_ == [int(getattr(co, 'npatch%d' % i)) for i in range(1, len(cls) + 1)], 'number of patches after reading back', got=np_, **l)
            rr = hist.res(o, cls, getattr(o, 'bin_type', None))
            bad = hist.same_results(rr, hist.res(co, cls, getattr(co, 'bin_type', None)))
            rec.check(bad is None, 'patch results differ after reading back', diff=bad, **l)
            if cls in ('NN', 'NNN'):
                t0 = {k: float(v['tot']) for k, v in hist.res(co, cls, getattr(co, 'bin_type', None)).items() if v['tot']}
                t1 = {k: float(v['tot']) for k, v in rr.items() if v['tot']}
                rec.check(set(t0) == set(t1) and all(abs(t1[k] - t0[k]) <= 1e-13 * t0[k] for k in t0), 'totals of the patches differ after reading back', got=t1, want=t0, **l)
        else:
            rec.check(len(o.results) == 0 and set(np_) == {1}, 'patch results without having been written', **l)
        if wcov:
            rec.check(close(cov0, o.cov, 0 if kind != 'ASCII' else 10. ** -(16 if wpr else prec)), 'covariance differs after reading back',
                      got=o.cov, want=cov0, **l)
        # 3. what one does with it then
        o2 = o.copy()
        bad = state_diff(main_state(cls, o), main_state(cls, o2), 0)
        rec.check(bad is None, 'copy of an object that was read', diff=bad, **l)
        nk = cls[0] == 'N' and cls not in ('NN', 'NNN') and rand
        if pat and not nk:
            for method in ['jackknife', 'sample', 'bootstrap', 'marked_bootstrap']:
                ans = []
                for q in (co, o):
                    if q is co and ('est', method) in co.__dict__:
                        ans.append(co.__dict__['est', method])
                        continue
                    q = q.copy()
                    q._rng = np.random.RandomState(1234)
                    try:
                        ans.append(q.estimate_cov(method, func=func))
                    except Exception as e:
                        ans.append('%s: %s' % (type(e).__name__, e))
                rec.step(2)
                if isinstance(ans[0], str) or isinstance(ans[1], str):
                    rec.check(isinstance(ans[0], str) and isinstance(ans[1], str), 'estimate_cov of an object that was read', method=method,
                              got=ans[1], want=ans[0], **l)
                    continue
                sc = 1e-9 * (np.abs(ans[0]).max() + 1e-300)
                rec.check(ans[0].shape == ans[1].shape and np.all(np.abs(ans[0] - ans[1]) <= sc), 'covariance estimated from an object that was read',
                          method=method, got=ans[1], want=ans[0], **l)
        if not nk and not (cls == 'NNN' and mult):
            a, b = np.asarray(co.cov if False else co.copy().cov_diag if not (cls in ('NN', 'NNN') and not (hasattr(co, 'xi') or getattr(co, 'zeta', None) is not None)) else 0.), None
            have = cls not in ('NN', 'NNN') or 'RR' in got or 'RRR' in got or wpr
            if have and a.ndim and np.any(a) and (pat or co.var_method == 'shot') and co.var_method != 'bootstrap':
                try:
                    b = np.asarray(o.copy().cov_diag)
                except Exception as e:
                    b = '%s: %s' % (type(e).__name__, e)
                rec.check(not isinstance(b, str) and close(a, b, 3 * rel + 1e-9 ), 'cov_diag of an object that was read', got=b, want=a, **l)
        # writing it again gives the same file
        if r in ('from_file', 'used'):
            p2 = path + '.2'
            try:
                o.write(p2, **dict({k: v for k, v in kw.items() if k not in wkw}, file_type=kind))
            except Exception as e:
                rec.fail('writing an object that was read fails: %s: %s' % (type(e).__name__, e), **l)
                continue
            again_ = parse(p2, kind, named)
            if kind == 'ASCII':
                again_ = again_[0]
            for n in got:
                if n not in ('RR', 'DR', 'RD', 'RRR', 'DRR', 'RDD'):
                    ok = n in again_ and close(got[n], again_[n], 1e-13 + (1.01 * 10. ** -prec if kind == 'ASCII' else 0))
                    rec.check(ok, 'writing again what was read gives another file', column=n, got=again_.get(n), want=got[n], **l)
            os.remove(p2)
        # process again: nothing of the file is left
        if r in ('from_file', 'used'):
            again(o)
            if not hasattr(co, '_mc_again'):
                co._mc_again = fresh()
                again(co._mc_again)
            if (cls not in ('NN', 'NNN') or not rand) and co.var_method != 'bootstrap':
                bad = state_diff(main_state(cls, co._mc_again), main_state(cls, o), 0)
                rec.check(bad is None, 'processing with an object that was read', diff=bad, **l)
    rec.nontrivial += bool(np.any(st['npairs' if len(cls) == 2 else 'ntri']))
    rec.outcome(cls, ib, scen, st['npairs' if len(cls) == 2 else 'ntri'])
    if os.path.exists(path):
        os.remove(path)


READ = ['from_file', 'base', 'fresh', 'used']
OPTS2 = [{}, dict(precision=9), dict(var_method='jackknife'), dict(num_bootstrap=7, var_method='bootstrap'), dict(brute=True),
         dict(brute=1), dict(brute=2), dict(min_top=2, max_top=5), dict(split_method='median'), dict(angle_slop=0.3),
         dict(var_method='sample'), dict(verbose=0), dict(max_top=0),
         dict(m2_uform='Schneider'), dict(output_dots=False), dict(num_threads=1)]


def files(fmts, wpr=True, wcov=True):
    return [[f, a, b] for f in fmts for a, b in itertools.product([False, True], repeat=2) if (wpr or not a) and (wcov or not b)]


def gen(thorough):
    fm = FORMATS
    # every class x scenario x format x what is written
    for cls in TWO:
        for scen in ['none', 'nonex', 'pp', 'ppx', 'far', 'farx', 'p1', 'p2']:
            if scen in ('none', 'pp', 'far') and cls[0] != cls[1]:
                continue
            for wtype in ['w', 'zeros'] if thorough else ['w']:
                yield ['classes', cls, 'flat', 1, scen, wtype, {}, [], '', files(fm, wcov=cls != 'NN')]
    # every configuration
    for coords in two.BINS:
        for ib in range(len(two.BINS[coords])):
            for cls in TWO if thorough else ['NN', 'KK', 'NG', 'GG', 'KZ']:
                for scen in ['nonex', 'ppx']:
                    yield ['bins', cls, coords, ib, scen, 'w', {}, [], '', files(fm[:3], wcov=cls != 'NN')]
    for o in OPTS2:
        for cls in ['NN', 'KK', 'NK', 'GG']:
            yield ['options', cls, 'flat', 0, 'ppx', 'w', o, [], '', files(fm[:4], wcov=cls != 'NN')]
    # one bin only; nothing in any bin
    for k, o in enumerate([dict(nbins=1), dict(nbins=1, min_sep=100., max_sep=200.), dict(min_sep=100., max_sep=200.)]):
        for cls in TWO:
            for scen in ['nonex', 'ppx']:
                yield ['few', cls, 'flat', 1, scen, 'w', o, [], '', files(fm[:4], wcov=cls != 'NN')]
        for cls in ['NNN', 'KKK', 'GGG']:
            for ib in (1, 3, 5):
                yield ['few', cls, 'flat', ib, 'none', 'w', dict(o, **[dict(nubins=1, nvbins=1), dict(nphi_bins=1), {}][ib // 2]), [], '',
                       files(fm[:3], wcov=cls != 'NNN')]
    # randoms
    for rands in [['rr'], ['rr', 'dr'], ['rr', 'rd'], ['rr', 'dr', 'rd']]:
        for scen in ['none', 'nonex', 'pp', 'ppx', 'far', 'farx']:
            for o in [{}] + ([dict(var_method='jackknife')] if scen[:4] != 'none' else []):
                for how in ['calc', 'write']:
                    yield ['randoms', 'NN', 'flat', 1, scen, 'w', o, rands, how, files(fm[:4])]
    for cls in ['NK', 'NG', 'NZ', 'NV', 'NT', 'NQ']:
        for scen in ['nonex', 'ppx', 'p2', 'farx']:
            yield ['randoms', cls, 'flat', 1, scen, 'w', {}, ['r'], 'write', files(fm[:3])]
    for cls in ['NNN', 'KKK', 'GGG']:
        for ib in range(len(three.BINS['flat'])):
            for scen in ['none', 'nonex', 'nonexx', 'pp', 'ppx', 'far', 'farx', 'p1', 'p2']:
                if ib > 5 and scen not in ('none', 'pp'):
                    continue
                yield ['classes3', cls, 'flat', ib, scen, 'w', {}, [], '', files(fm if ib in (1, 3, 5) else fm[:3], wcov=cls != 'NNN')]
        for coords in ('sphere', '3d', 'radecr'):
            for ib in range(len(three.BINS[coords])):
                yield ['bins3', cls, coords, ib, 'nonex', 'w', {}, [], '', files(fm[:3], wpr=False, wcov=False)]
    for rands in [['rrr'], ['rrr', 'drr', 'rdd']]:
        for ib in range(4):
            for scen in ['none', 'pp', 'far']:
                for o in [{}] + ([dict(var_method='jackknife')] if scen[:4] != 'none' else []):
                    for how in ['calc', 'write']:
                        yield ['randoms3', 'NNN', 'flat', ib, scen, 'w', o, rands, how, files(fm[:4])]


if __name__ == '__main__':
    ck = core.Check('C07', bounds=(
        'all 18 two-point and 3 three-point correlations x coordinate systems x bin types x 7 combinations of format, file_type and precision x '
        'write_patch_results x write_cov x randoms x patches (none, some, with pairs that have nothing) x constructor options; for each file: the '
        'documented columns, from_file of the class and the base, read on a new and a used object, covariances, copies, new files and further '
        'processing of what was read; non-trivial: some bin holds something'), assumptions=['the installed fitsio, h5py and numpy read and write arrays correctly'])
    DIR = build.scratch('mc07-', shm=True)
    ck.run(gen(ck.thorough), run)
    ck.finish()
