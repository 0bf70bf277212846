"""C20: aperture-mass and shear-variance statistics are the documented sums over the correlation functions."""
import itertools, math, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom, hist
build.activate()
import numpy as np

DIR = None
RS = [None, [1.3], [0.2, 0.9, 2.7, 11.0], 'array', 'tuple']


def radii(R):
    if R == 'array':
        return np.array([0.31, 1.7, 4.4])
    if R == 'tuple':
        return (0.5, 3.0)
    return R


def kernels(uform, s):
    """T+, T-, Tx of the documentation."""
    if uform == 'Crittenden':
        e = np.exp(-s**2 / 4)
        return (s**4 - 16 * s**2 + 32) / 128 * e, s**4 / 128 * e, s**2 / 128 * (12 - s**2) * e
    m = s < 2
    t = np.where(m, s, 0.)
    rt = np.sqrt(4 - t**2)
    ac = np.arccos(t / 2)
    pi = np.pi
    tp = 12 / (5 * pi) * (2 - 15 * t**2) * ac + t * rt * (120 + 2320 * t**2 - 754 * t**4 + 132 * t**6 - 9 * t**8) / (100 * pi)
    tm = 3 / (70 * pi) * t**3 * (4 - t**2)**3.5
    tx = 18 / pi * t**2 * ac - 3 / (40 * pi) * t**3 * rt * (196 - 74 * t**2 + 14 * t**4 - t**6)
    return [np.where(m, x, 0.) for x in (tp, tm, tx)]


def tophat(s):
    m = s < 2
    t = np.where(m, s, 0.1)
    sp = np.where(m, (4 * np.arccos(t / 2) - t * np.sqrt(4 - t**2)) / np.pi, 0.)
    sm = np.where(m, (t * np.sqrt(4 - t**2) * (6 - t**2) - 8 * (3 - t**2) * np.arcsin(t / 2)) / (np.pi * t**4), 4 * (s**2 - 3) / s**4)
    return sp, sm


def close(a, b, scale):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * np.asarray(scale) + 1e-15))


def table(name):
    """Columns of a file just written."""
    if name.endswith('.fits'):
        import fitsio
        d = fitsio.read(name)
        return {k: np.asarray(d[k], dtype=float) for k in d.dtype.names}
    with open(name) as f:
        lines = f.readlines()
    head = [l for l in lines if l.startswith('#') and '{' not in l][-1].lstrip('#').split()
    rows = np.array([[float(x) for x in l.split()] for l in lines if not l.startswith('#')])
    return {k: rows[:, i] for i, k in enumerate(head)}


def check_file(rec, write, cols, lab):
    for ext, kw in (('.fits', {}), ('.dat', dict(precision=13)), ('.x', dict(file_type='FITS')), ('.y', dict(file_type='ASCII', precision=13))):
        name = os.path.join(DIR, 'out%d%s' % (os.getpid(), ext))
        if os.path.exists(name):
            os.unlink(name)
        with np.errstate(all='ignore'):
            write(name, **kw)
        rec.step()
        real = name
        if ext in ('.x', '.y'):
            real = name + ('.fits' if ext == '.x' else '.dat')
            os.rename(name, real)
        got = table(real)
        os.unlink(real)
        if not rec.check(list(got) == list(cols), 'columns of the file differ', got=list(got), want=list(cols), **lab):
            return
        for k in cols:
            w = np.asarray(cols[k], dtype=float)
            ok = got[k].shape == w.shape and np.allclose(got[k], w, rtol=2e-12, atol=1e-300, equal_nan=True)
            rec.check(ok, 'column of the file differs from the calculated values', col=k, got=got[k], want=w, ext=ext, **lab)


def two(spec, coords, role, wtype, patch):
    import treecorr
    kw = geom.catalog_kwargs(spec, coords, role, wtype)
    if patch:
        kw['patch'] = np.arange(len(kw['k'])) % 2
    return treecorr.Catalog(**kw)


def integral(s, T, y, bs):
    return (s**2 * T).dot(y) * bs


def run_two(case, rec):
    import treecorr
    treecorr.set_omp_threads(1)
    group, coords, spec1, spec2, wtype, patch, bins, rnd, R, uform, how = case
    R = radii(R)
    if isinstance(R, (list, tuple)):
        R = np.array(R)               # documented as an array
    kw = dict(bins)
    if how == 'config' and uform:
        kw['m2_uform'] = uform
    arg = uform if how == 'arg' else None
    form = uform or 'Crittenden'
    cat1, cat2 = two(spec1, coords, 0, wtype, patch), two(spec2, coords, 1, wtype, patch)
    ran = two(['st', 'halton', 17, 1], coords, 2, 'unit', patch)
    mk = lambda cls: getattr(treecorr, cls + 'Correlation')(**kw)
    lab = dict(bins=bins, R=R, uform=uform, how=how, rnd=rnd)
    args = {} if R is None else dict(R=R)
    if arg:
        args['m2_uform'] = arg
    gg, gx, ng, rg, dd, rr, dr, rd = mk('GG'), mk('GG'), mk('NG'), mk('NG'), mk('NN'), mk('NN'), mk('NN'), mk('NN')
    gg.process(cat1)
    gx.process(cat1, cat2)
    ng.process(cat1, cat2)
    rg.process(ran, cat2)
    dd.process(cat1)
    rr.process(ran)
    dr.process(cat1, ran)
    rd.process(ran, cat1)
    bs = math.log(gg.max_sep / gg.min_sep) / gg.nbins
    r = np.asarray(gg.rnom if R is None else R, dtype=float)
    mapsq0 = None
    for co in (gg, gx):
        before = hist.arrays(co, 'GG')
        s = np.outer(1 / r, co.meanr)
        tp, tm, _ = kernels(form, s)
        rec.nontrivial += bool(np.any(co.xip))
        P, M, Pi, Mi = [integral(s, T, y, bs) for T, y in ((tp, co.xip), (tm, co.xim), (tp, co.xip_im), (tm, co.xim_im))]
        var = ((s**2 * tp)**2).dot(co.varxip) * bs**2 / 4 + ((s**2 * tm)**2).dot(co.varxim) * bs**2 / 4
        want = dict(mapsq=(P + M) / 2, mapsq_im=(Pi + Mi) / 2, mxsq=(P - M) / 2, mxsq_im=(Pi - Mi) / 2, varmapsq=var)
        scale = (np.abs(s**2 * tp).dot(np.abs(co.xip) + np.abs(co.xip_im)) + np.abs(s**2 * tm).dot(np.abs(co.xim) + np.abs(co.xim_im))) * bs
        got = co.calculateMapSq(**args)
        rec.step()
        for g, (nm, v) in zip(got, want.items()):
            rec.check(close(g, v, np.maximum(scale, np.abs(v)) if nm != 'varmapsq' else np.abs(v)), nm + ' is not the documented integral', got=g, want=v, **lab)
        sp, sm = tophat(s)
        P, M = integral(s, sp, co.xip, bs), integral(s, sm, co.xim, bs)
        gsc = (np.abs(s**2 * sp).dot(np.abs(co.xip)) + np.abs(s**2 * sm).dot(np.abs(co.xim))) * bs
        # the kernel is the difference of nearly equal terms at small s
        gsc = gsc + 1e-4 * np.sum(np.abs(co.xim)) * bs
        gwant = [P, ((s**2 * sp)**2).dot(co.varxip) * bs**2, (P + M) / 2, (P - M) / 2,
                 (((s**2 * sp)**2).dot(co.varxip) + ((s**2 * sm)**2).dot(co.varxim)) * bs**2 / 4]
        gargs = {k: v for k, v in args.items() if k == 'R'}
        g2, g5 = co.calculateGamSq(**gargs), co.calculateGamSq(eb=True, **gargs)
        rec.step()
        rec.check(len(g2) == 2 and len(g5) == 5, 'calculateGamSq returns a wrong number of values')
        for i, (g, v) in enumerate(zip(g5, gwant)):
            rec.check(close(g, v, gsc + np.abs(v) * (1 if i not in (1, 4) else 1e3)), 'calculateGamSq value is not the documented integral', which=i, got=g, want=v, **lab)
        rec.check(np.array_equal(g2[0], g5[0]) and np.array_equal(g2[1], g5[1]), 'calculateGamSq depends on eb', **lab)
        cols = dict(R=r, Mapsq=got[0], Mxsq=got[2], MMxa=got[1], MMxb=-got[3], sig_map=np.sqrt(got[4]), Gamsq=g2[0], sig_gam=np.sqrt(g2[1]))
        check_file(rec, lambda name, **k: co.writeMapSq(name, **dict(args, **k)), cols, lab)
        if mapsq0 is None:
            mapsq0 = got
        rec.check(hist.same(hist.arrays(co, 'GG'), before) is None, 'calculating the aperture mass changed the correlation', **lab)
    rec.outcome(coords, spec1, R, uform)
    # counts and shears
    rnd_rg = rg if 'rg' in rnd else None
    s = np.outer(1 / r, ng.meanr)
    _, _, tx = kernels(form, s)
    got = ng.calculateNMap(rg=rnd_rg, **args)
    rec.step()
    xi, xi_im, var = ng.raw_xi.copy(), ng.raw_xi_im.copy(), ng.raw_varxi.copy()
    if rnd_rg is not None:
        xi, xi_im, var = xi - rg.xi, xi_im - rg.xi_im, var + rg.varxi
    T = s**2 * tx * bs
    c2 = mk('NG')                 # without the randoms
    c2.process(cat1, cat2)
    rec.check(np.allclose(xi if rnd_rg is None else ng.raw_xi, c2.xi, rtol=1e-12) and np.allclose(ng.raw_varxi, c2.varxi, rtol=1e-12),
              'raw_xi or raw_varxi is not that without randoms', **lab)
    rec.check(np.allclose(ng.varxi, var, rtol=1e-12) and np.allclose(ng.cov.diagonal(), var, rtol=1e-12),
              'varxi or cov is not the total shot noise', got=ng.varxi, cov=ng.cov.diagonal(), want=var, **lab)
    scale = np.abs(T).dot(np.abs(ng.raw_xi) + np.abs(ng.raw_xi_im) + np.abs(rg.xi) + np.abs(rg.xi_im))
    for nm, g, v, sc in (('nmap', got[0], T.dot(xi), scale), ('nmx', got[1], T.dot(xi_im), scale),
                         ('varnmap', got[2], (T**2).dot(var), (T**2).dot(var))):
        rec.check(close(g, v, sc), nm + ' is not the documented integral', got=g, want=v, **lab)
    rgk = {} if rnd_rg is None else dict(rg=rnd_rg)
    check_file(rec, lambda name, **k: ng.writeNMap(name, **dict(args, **rgk, **k)),
               dict(R=r, NMap=got[0], NMx=got[1], sig_nmap=np.sqrt(got[2])), lab)
    # counts
    nk = {}
    if 'dr' in rnd:
        nk['dr'] = dr
    if 'rd' in rnd:
        nk['rd'] = rd
    nsq, varn = dd.calculateNapSq(rr=rr, **nk, **args)
    rec.step()
    tot = lambda c: c.weight / c.tot
    rrn = tot(rr)
    if not nk:
        num = tot(dd) - rrn
    else:
        a = tot(nk.get('dr', nk.get('rd')))
        b = tot(nk.get('rd', nk.get('dr')))
        num = tot(dd) - a - b + rrn
    xi = np.where(rrn > 0, num / np.where(rrn > 0, rrn, 1), 0.)
    xx, vx = dd.calculateXi(rr=rr, **nk)
    m = rrn > 0                # without randoms the value of xi is not defined
    rec.check(np.allclose(xx[m], xi[m], rtol=1e-10, atol=1e-12), 'xi differs from its definition', got=xx, want=xi, **lab)
    s = np.outer(1 / r, dd.meanr)
    T = s**2 * kernels(form, s)[0] * bs
    rec.check(close(nsq, T.dot(xx), np.abs(T).dot(np.abs(xx) + 1)), 'calculateNapSq is not the integral of xi', got=nsq, want=T.dot(xx), **lab)
    rec.check(close(varn, (T**2).dot(vx), np.abs((T**2).dot(vx))), 'variance of calculateNapSq is not the integral of varxi', got=varn, want=(T**2).dot(vx), **lab)
    if 'rd' not in rnd:
        m, vm = mapsq0[0], mapsq0[4]
        with np.errstate(all='ignore'):
            nm, vn = got[0], got[2]
            norm = nm**2 / (nsq * m)
            vnorm = norm**2 * (4 * vn / nm**2 + varn / nsq**2 + vm / m**2)
            nn = nsq / m
            vnn = nn**2 * (varn / nsq**2 + vm / m**2)
            cols = dict(R=r, NMap=nm, NMx=got[1], sig_nmap=np.sqrt(vn), Napsq=nsq, sig_napsq=np.sqrt(varn), Mapsq=m, sig_mapsq=np.sqrt(vm),
                        NMap_norm=norm, sig_norm=np.sqrt(vnorm), Nsq_Mapsq=nn, sig_nn_mm=np.sqrt(vnn))
        check_file(rec, lambda name, **k: ng.writeNorm(name, gg=gg, dd=dd, rr=rr, **dict(args, **rgk, **{a: b for a, b in nk.items() if a == 'dr'}, **k)), cols, lab)


def run_refuse(case, rec):
    import treecorr
    group, cls, name, bt, kw, exc = case
    cat = two(['st', 'clusters', 9, 0], 'flat', 0, 'w', False)
    co = getattr(treecorr, cls + 'Correlation')(bin_type=bt, max_sep=5., nbins=4, **({} if bt == 'TwoD' else dict(min_sep=0.3)))
    co.process(cat) if cls != 'NG' else co.process(cat, cat)
    rr = co
    rec.step()
    rec.nontrivial += 1
    try:
        getattr(co, name)(**dict(kw, **(dict(rr=rr) if name == 'calculateNapSq' else {})))
        got = None
    except Exception as e:
        got = type(e).__name__
    rec.check(got == exc, 'invalid use is not refused as documented', got=got, want=exc, case=list(case))
    rec.outcome(case[1:])


GX, GW = np.polynomial.hermite.hermgauss(6)


def aperture(x, k, conj):
    """Integral over the centre of the aperture of Q1 Q2 Q3 exp(-2i(phi1+phi2+phi3)), phases conjugated where asked.
    x: the three complex positions, k: the three aperture radii.  Q(r) = r^2/(4 pi) exp(-r^2/2) for unit radius."""
    # exponent: sum |x_j - y|^2 / 2 k_j^2 is a Gaussian in y with this centre and width
    a = 1 / k**2
    A = a.sum()
    c = (a * x).sum() / A
    rest = (a * np.abs(x - c)**2).sum() / 2
    u = np.sqrt(2 / A)
    y = c + u * (GX[:, None] + 1j * GX[None, :])
    W = GW[:, None] * GW[None, :] * u**2
    f = np.ones_like(y)
    for j in range(3):
        d = x[j] - y
        if conj == j:
            d = np.conj(d)
        f = f * np.conj(d)**2 / (4 * np.pi * k[j]**4)
    return (W * f).sum() * math.exp(-rest)


def run_map3(case, rec):
    """Every triple of radii, every triangle shape: the integral over aperture positions done directly."""
    import treecorr
    treecorr.set_omp_threads(1)
    group, coords, spec, wtype, bins, R, k2, k3, units = case
    R = radii(R)
    kw = geom.catalog_kwargs(spec, coords, 0, wtype)
    cat = treecorr.Catalog(**kw)
    co = treecorr.GGGCorrelation(**bins)
    opt = dict(algo='triangle') if bins['bin_type'] == 'LogSAS' and units != 'mp' else {}
    co.process(cat, **opt)
    args = {} if R is None else dict(R=R)
    if k2 != 1:
        args['k2'] = k2
    if k3 != 1:
        args['k3'] = k3
    before = hist.arrays(co, 'GGG', bins['bin_type'])
    got = co.calculateMap3(**args)
    rec.step()
    r = np.asarray(co.rnom1d if R is None else R, dtype=float)
    lab = dict(bins=bins, R=R, k2=k2, k3=k3)
    m = np.nonzero(co.weight.ravel() != 0)[0]
    gam = [getattr(co, 'gam%d' % i).ravel() for i in range(4)]
    var = [getattr(co, 'vargam%d' % i).ravel() for i in range(4)]
    d1, d2, d3 = [getattr(co, 'meand%d' % i).ravel() for i in (1, 2, 3)]
    bs = math.log(co.max_sep / co.min_sep) / co.nbins
    ruv = bins['bin_type'] == 'LogRUV'
    M = np.zeros((4, len(r)), dtype=complex)       # MMM, M*MM, MM*M, MMM*
    V = np.zeros(len(r))
    amp = np.zeros(len(r))
    for t in m:
        if ruv:
            u, v = co.meanu.ravel()[t], co.meanv.ravel()[t]
            # d3 = u d2, d1 = d2 + |v| d3 for the mean shape
            cosp = 0.5 * u * (1 - v**2) - abs(v)
            if abs(cosp) >= 1 - 1e-9:
                rec.counters['degenerate'] += 1
                return
            phi = math.acos(cosp) * (-1 if v > 0 else 1)
        else:
            phi = co.meanphi.ravel()[t] * co._phi_units if False else co.meanphi.ravel()[t] * {'rad': 1., 'deg': math.pi / 180}[bins.get('phi_units', 'rad')]
            if abs(math.sin(phi)) < 1e-9:
                rec.counters['degenerate'] += 1
        x = np.array([0, d3[t] * np.exp(1j * phi), d2[t]])      # P1, P2, P3
        cen = x.mean()
        a = (cen - x) / np.abs(cen - x)             # direction to the centroid
        if ruv:
            # |d(tx, ty)/d(u, v)| with t = d3 e^{i phi}
            ty = abs(d3[t] * math.sin(phi))
            area = d3[t]**2 * d1[t] / ty * co.ubin_size * co.vbin_size
        else:
            area = d3[t]**2 * bs * co.phi_bin_size
        # d^2s d^2t = 2 pi s ds d^2t
        meas = d2[t]**2 * bs * 2 * math.pi * area
        perms = list(itertools.permutations(range(3))) if ruv else [(0, 1, 2), (0, 2, 1)]
        for ir, RR in enumerate(r):
            ks = np.array([1., k2, k3]) * RR
            coef = np.zeros(4, dtype=complex)
            for p in perms:
                # aperture i holds vertex p[i]; vertex j sees aperture inv[j]
                k = np.zeros(3)
                inv = [0] * 3
                for i in range(3):
                    k[p[i]] = ks[i]
                    inv[p[i]] = i
                # <g1 g2 g3> = Gamma0 times the three phases; M = -integral Q g exp(-2i phi)
                T = [-aperture(x, k, None) * np.prod(a**2) * meas]
                for j in range(3):
                    ph = np.prod([(np.conj(a[i]) if i == j else a[i])**2 for i in range(3)])
                    T.append(-aperture(x, k, j) * ph * meas)
                M[0, ir] += T[0] * gam[0][t]
                coef[0] += T[0]
                for j in range(3):
                    M[1 + inv[j], ir] += T[1 + j] * gam[1 + j][t]
                    coef[1 + j] += T[1 + j]
            V[ir] += sum(abs(coef[i] / 4)**2 * var[i][t] for i in range(4))
            amp[ir] += sum(abs(coef[i] * gam[i][t]) for i in range(4))
    mmm, c1, c2, c3 = M
    s = dict(zip(['map3', 'mapmapmx', 'mapmxmap', 'mxmapmap', 'mxmxmap', 'mxmapmx', 'mapmxmx', 'mx3'], [
        (mmm + c1 + c2 + c3).real, (mmm + c1 + c2 - c3).imag, (mmm + c1 - c2 + c3).imag, (mmm - c1 + c2 + c3).imag,
        (-mmm + c1 + c2 - c3).real, (-mmm + c1 - c2 + c3).real, (-mmm - c1 + c2 + c3).real, (-mmm + c1 + c2 + c3).imag]))
    rec.outcome(spec, bins['bin_type'], k2, k3, R)
    rec.nontrivial += bool(np.any(amp > 0))
    tol = 1e-7 if not ruv else 1e-6
    for g, (nm, v) in zip(got, s.items()):
        g = np.asarray(g)
        rec.check(g.shape == r.shape and bool(np.all(np.abs(g - v / 4) <= tol * amp + 1e-300)), nm + ' is not the integral over apertures', got=g, want=v / 4, **lab)
    rec.check(bool(np.all(np.abs(got[8] - V) <= 2 * tol * V + 1e-300)), 'variance of map3 is not that of the sum', got=got[8], want=V, **lab)
    rec.check(hist.same(hist.arrays(co, 'GGG', bins['bin_type']), before) is None, 'calculating map3 changed the correlation', **lab)
    if k2 == 1 and k3 == 1:
        cols = dict(R=r, Map3=got[0], Map2Mx=got[1], MapMx2=got[4], Mx3=got[7], sig_map=np.sqrt(got[8]))
        check_file(rec, lambda name, **k: co.writeMap3(name, **dict(args, **k)), cols, lab)


def run(case, rec):
    return {'2': run_two, 'refuse': run_refuse, 'map3': run_map3}[case[0].split('-')[0]](case, rec)


def cases(thorough):
    q = 0
    bins2 = [dict(min_sep=0.21, max_sep=7.3, nbins=4), dict(min_sep=0.05, bin_size=0.4, nbins=12), dict(min_sep=0.9, max_sep=5., nbins=2, bin_slop=0)]
    sets = [(['ms', list(a)], ['ms', list(b)]) for a in itertools.combinations(range(8), 3) for b in itertools.combinations((1, 3, 5, 6), 2)]
    sets += [(['st', n, m, 0], ['st', n2, 11, 1]) for n in ('clusters', 'halton', 'geom') for n2 in ('ring', 'grid') for m in (7, 20)]
    for coords in ('flat', 'sphere', '3d'):
        bb = bins2 if coords != 'sphere' else [dict(min_sep=20., max_sep=9000., nbins=4, sep_units='arcmin'), dict(min_sep=0.3, bin_size=0.5, nbins=12, sep_units='deg')]
        for s1, s2 in sets:
            for ib, b in enumerate(bb):
                for rnd in ([], ['rg', 'dr'], ['dr', 'rd'], ['rd'], ['rg']):
                    for R in RS:
                        for uform in (None, 'Crittenden', 'Schneider'):
                            for how in ('arg', 'config'):
                                for wt, patch in (('w', False), ('zeros', False), ('w', True)):
                                    q += 1
                                    if q % (467 if not thorough else 23):
                                        continue
                                    if patch and len(s1[1]) < 3 and s1[0] == 'ms':
                                        continue
                                    yield ('2-' + coords, coords, s1, s2, wt, patch, b, rnd, R, uform, how)
    for cls, names in (('GG', ['calculateMapSq', 'calculateGamSq']), ('NG', ['calculateNMap']), ('NN', ['calculateNapSq'])):
        for name in names:
            if name != 'calculateGamSq':
                yield ('refuse', cls, name, 'Log', dict(m2_uform='Other'), 'ValueError')
                yield ('refuse', cls, name, 'Log', dict(m2_uform='schneider'), 'ValueError')
            if cls == 'GG':
                for bt in ('Linear', 'TwoD'):
                    yield ('refuse', cls, name, bt, {}, 'ValueError')
    shapes = [['ms', list(a)] for a in itertools.combinations(range(8), 3)] + [['ms', [0, 1, 2, 5]], ['ms', [3, 4, 6, 7]], ['st', 'clusters', 6, 0]]
    b3 = [dict(bin_type='LogSAS', min_sep=0.3, max_sep=9., nbins=3, nphi_bins=3, bin_slop=0, angle_slop=0),
          dict(bin_type='LogSAS', min_sep=0.3, bin_size=0.9, max_sep=12., min_phi=20, max_phi=170, phi_units='deg', nphi_bins=4, bin_slop=0, angle_slop=0),
          dict(bin_type='LogRUV', min_sep=0.3, max_sep=9., nbins=3, nubins=3, nvbins=2, bin_slop=0, angle_slop=0),
          dict(bin_type='LogRUV', min_sep=0.1, max_sep=20., nbins=2, min_u=0.1, nubins=2, min_v=0.05, max_v=0.97, nvbins=3, bin_slop=0, angle_slop=0)]
    ks = [1, 2, 0.5, 1.5]
    for sh in shapes:
        for bins in b3:
            for k2 in ks:
                for k3 in ks:
                    for R in RS:
                        for wt in ('w', 'unit'):
                            q += 1
                            if thorough or q % 5 == 0:
                                yield ('map3-' + bins['bin_type'], 'flat', sh, wt, bins, R, k2, k3, None)


if __name__ == '__main__':
    DIR = build.scratch('mc20-', shm=True)
    ck = core.Check('C20', bounds=(
        'a fixed share (thorough: more) of small and structured catalogs x binnings x R given as None, list, tuple, array x m2_uform by argument, '
        'configuration or default x randoms (none, rg, dr, rd) x patches; Map3: all 3-point sets of sites and more x LogSAS and LogRUV binnings x k2, k3 in '
        '0.5..2 x R, against the integral over aperture positions done by exact quadrature, one triangle (basis element) at a time; every output file'))
    ck.run(cases(ck.thorough), run)
    ck.finish()
