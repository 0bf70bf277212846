"""C15: parameters mean the same everywhere, and corr2/corr3 runs equal the Python calls."""
import itertools, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom
build.activate()
import numpy as np

DIR = None
FIELDS = {'N': [], 'K': ['k'], 'Z': ['z1', 'z2'], 'V': ['v1', 'v2'], 'G': ['g1', 'g2'], 'T': ['t1', 't2'], 'Q': ['q1', 'q2']}
TWO = ['NN', 'NK', 'KK', 'NZ', 'KZ', 'ZZ', 'NV', 'KV', 'VV', 'NG', 'KG', 'GG', 'NT', 'KT', 'TT', 'NQ', 'KQ', 'QQ']
RND = {'NK': 'rk', 'NZ': 'rz', 'NV': 'rv', 'NG': 'rg', 'NT': 'rt', 'NQ': 'rq'}
ALLCOLS = ['k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1', 't2', 'q1', 'q2']


def data(role, n, pos):
    """Columns of one data set."""
    r = np.random.RandomState(100 + role)         # a fixed alphabet of values
    d = {}
    if pos == 'radec':
        d['ra'], d['dec'] = 3. + 0.5 * r.rand(n), -20 + 7 * r.rand(n)     # hours, degrees
    else:
        for c in pos:
            d[c] = 10 * r.rand(n) + (30 if c == 'z' else 0)
    d['w'] = 0.5 + r.rand(n)
    for c in ALLCOLS:
        d[c] = r.randn(n) * 0.3
    d['patch'] = np.arange(n) % 3
    return d


# Variants: what is in the config file, and what that means for the Python calls.
VARIANTS = {
    'plain': dict(pos='xy', corr=dict(min_sep=1., max_sep=12., nbins=4)),
    'twod': dict(pos='xy', corr=dict(bin_type='TwoD', max_sep=9., nbins=4)),
    'linear': dict(pos='xy', corr=dict(bin_type='Linear', min_sep=1., max_sep=9., bin_size=2., bin_slop=0.)),
    'sky': dict(pos='radec', corr=dict(min_sep=10., max_sep=400., nbins=4, sep_units='arcmin', metric='Arc', split_method='median')),
    'rlens': dict(pos='xyz', corr=dict(min_sep=1., max_sep=12., nbins=3, metric='Rlens', bin_slop=0.3, min_rpar=-40., max_rpar=40.)),
    'oldrperp': dict(pos='xyz', corr=dict(min_sep=1., max_sep=12., nbins=3, metric='OldRperp', min_rpar=-3., max_rpar=3., bin_slop=0)),
    'periodic': dict(pos='xy', corr=dict(min_sep=0.5, max_sep=4., nbins=3, metric='Periodic', xperiod=11., yperiod=12.)),
    'flips': dict(pos='xy', corr=dict(min_sep=1., max_sep=12., nbins=4), flip=True),
    'rows': dict(pos='xy', corr=dict(min_sep=1., max_sep=12., nbins=4), rows=((3, 17), (2, 19))),
    'patch': dict(pos='xy', corr=dict(min_sep=1., max_sep=12., nbins=4, var_method='jackknife'), patch=True),
    'now2': dict(pos='xy', corr=dict(min_sep=1., max_sep=12., nbins=4), now2=True),
    'precision': dict(pos='xy', corr=dict(min_sep=1., max_sep=12., nbins=4, precision=9, m2_uform='Schneider')),
    'top': dict(pos='xy', corr=dict(min_sep=1., max_sep=12., nbins=4, brute=True, max_top=3, min_top=1)),
}
CORR3 = {
    'plain': dict(pos='xy', corr=dict(min_sep=1., max_sep=12., nbins=2, nphi_bins=3)),
    'ruv': dict(pos='xy', corr=dict(bin_type='LogRUV', min_sep=1., max_sep=12., nbins=2, nubins=2, nvbins=2, bin_slop=0., angle_slop=0)),
    'multi': dict(pos='xy', corr=dict(bin_type='LogMultipole', min_sep=1., max_sep=12., nbins=2, max_n=3)),
    'sky': dict(pos='radec', corr=dict(min_sep=10., max_sep=400., nbins=2, nphi_bins=2, sep_units='arcmin', metric='Arc')),
    'flips': dict(pos='xy', corr=dict(min_sep=1., max_sep=12., nbins=2, nphi_bins=2), flip=True),
    'rows': dict(pos='xy', corr=dict(min_sep=1., max_sep=12., nbins=2, nphi_bins=2), rows=((3, 17), (2, 19))),
    'precision': dict(pos='xy', corr=dict(min_sep=1., max_sep=12., nbins=2, nphi_bins=3, precision=8)),
}
FLIPS = {'flip_g1': (True, False), 'flip_g2': (False, True), 'flip_z1': (False, True), 'flip_z2': (True, True), 'flip_v1': (True, False),
         'flip_v2': (False, True), 'flip_t1': (False, False), 'flip_t2': (True, False), 'flip_q1': (True, True), 'flip_q2': (False, True)}
SIZES = [20, 23, 27, 25, 15, 14]      # roles: data 1, data 2, random 1, random 2, further files of data 1 and 2


def setup(variant, fmt):
    """The input files (written once), and for each role the columns."""
    v = variant
    pos = ['ra', 'dec'] if v['pos'] == 'radec' else list(v['pos'])
    cols = []
    for role, n in enumerate(SIZES):
        d = data(role, n, v['pos'])
        order = pos + ['w'] + ALLCOLS + ['patch']
        if role in (1, 3, 5):                       # the second field has its columns in another order
            order = ['patch', 'w'] + ALLCOLS[::-1] + pos[::-1]
        if role in (2, 3):                          # randoms have nothing in the columns of the fields
            order = [c if c not in ALLCOLS else None for c in order]
        cols.append((d, order))
    return cols


def fname(vname, fmt, role):
    return os.path.join(DIR, 'in-%s-%d.%s' % (vname, role, fmt))


def write_inputs(vname, v, fmt):
    import fitsio
    for role, (d, order) in enumerate(setup(v, fmt)):
        fn = fname(vname, fmt, role)
        n = SIZES[role]
        if fmt == 'dat':
            with open(fn, 'w') as f:
                f.write('# comment\n')
                for i in range(n):
                    f.write(' '.join(repr(float(d[c][i])) if c else '999' for c in order) + '\n')
        else:
            names = [c for c in order if c]
            if os.path.exists(fn):
                os.remove(fn)
            with fitsio.FITS(fn, 'rw', clobber=True) as f:
                f.write([np.asarray(d[c], dtype=float) for c in names], names=names)


def config_of(vname, v, fmt, letters, out, rand, nfiles, three=False):
    """The config dict (native values)."""
    c = dict(v['corr'])
    order = [setup(v, fmt)[r][1] for r in (0, 1)]
    pos = ['ra', 'dec'] if v['pos'] == 'radec' else list(v['pos'])
    fields = sorted(set(x for L in letters for x in FIELDS[L]))
    for name in pos + ['w'] + fields + (['patch'] if v.get('patch') else []):
        if fmt == 'dat':
            a, b = order[0].index(name) + 1, order[1].index(name) + 1
            if name == 'w' and v.get('now2'):
                b = 0
            c[name + '_col'] = a if three else [a, b]
            if name == 'patch':
                c[name + '_col'] = a
        else:
            c[name + '_col'] = name
            if name == 'w' and v.get('now2'):
                c['w_col'] = [name, '0'] if not three else name
    if v['pos'] == 'radec':
        c['ra_units'], c['dec_units'] = 'hours', 'degrees'
    if v.get('flip'):
        for k, (a, b) in FLIPS.items():
            if k[-2:] in fields:
                c[k] = a if three else [a, b]
    if v.get('rows'):
        (a0, a1), (b0, b1) = v['rows']
        c['first_row'], c['last_row'] = (a0, a1) if three else ([a0, b0], [a1, b1])
    c['file_name'] = [fname(vname, fmt, r) for r in ((0, 4)[:nfiles])]
    if len(c['file_name']) == 1:
        c['file_name'] = c['file_name'][0]
    if rand > 0:
        c['rand_file_name'] = fname(vname, fmt, 2)
    c['verbose'] = 0
    c['num_threads'] = 1
    for k, o in out.items():
        c[k] = o
    return c


def catalogs(vname, v, fmt, roles, letters, num, rand=False, three=False):
    """The same data as Catalog objects made from arrays."""
    import treecorr
    fields = [] if rand else sorted(set(x for L in letters for x in FIELDS[L]))
    pos = ['ra', 'dec'] if v['pos'] == 'radec' else list(v['pos'])
    cats = []
    for role in roles:
        d = setup(v, fmt)[role][0]
        kw = {c: np.array(d[c]) for c in pos + ['w'] + fields}
        if num == 1 and v.get('now2'):
            del kw['w']
        if v.get('flip'):
            for k, ab in FLIPS.items():
                if k[-2:] in kw and ab[num]:
                    kw[k[-2:]] = -kw[k[-2:]]
        if v.get('patch'):
            kw['patch'] = d['patch'].astype(int)
        if v.get('rows'):
            a, b = v['rows'][num]
            kw = {c: x[a - 1:b] for c, x in kw.items()}
        if v['pos'] == 'radec':
            kw.update(ra_units='hour', dec_units='deg')
        cats.append(treecorr.Catalog(**kw))
    if v.get('patch'):
        cats = [p for c in cats for p in c.get_patches()]
    return cats


def as_strings(c):
    return {k: [str(x) for x in val] if isinstance(val, list) else str(val) for k, val in c.items()}


def deliver(c, how, tag):
    """The config as the user gives it: a dict, or one of the kinds of config file."""
    import treecorr
    if how == 'dict':
        return dict(c)
    if how == 'strings':
        return as_strings(c)
    fn = os.path.join(DIR, 'conf-%s.%s' % (tag, {'include': 'params', 'typed': 'cfg'}.get(how, how)))
    s = as_strings(c)
    if how == 'yaml':
        import yaml
        with open(fn, 'w') as f:
            yaml.safe_dump(c, f)
    elif how == 'json':
        with open(fn, 'w') as f:
            json.dump(c, f)
    elif how in ('params', 'typed'):
        form = {'params': '{%s}', 'typed': '[ %s ]'}[how]
        with open(fn, 'w') as f:
            f.write('# a comment = 3\n\n')
            for k, val in s.items():
                f.write('%s = %s   # explained = here\n' % (k, form % ', '.join(val) if isinstance(val, list) else val))
    elif how == 'include':
        fn2 = fn.replace('.params', '-2.params')
        items = list(s.items())
        with open(fn2, 'w') as f:
            for k, val in items[::2]:
                f.write('%s=%s\n' % (k, ' '.join(val) if isinstance(val, list) else val))
        with open(fn, 'w') as f:
            f.write('+%s\n' % fn2)
            for k, val in items[1::2]:
                f.write('   %s   =   %s\n' % (k, ' '.join(val) if isinstance(val, list) else val))
    return treecorr.read_config(fn, **(dict(file_type='params') if how == 'typed' else {}))


def lines(fn):
    """What is in an output file: column names and rows."""
    if fn.endswith('.fits'):
        import fitsio
        with fitsio.FITS(fn) as f:
            d = f[1].read()
        return list(d.dtype.names), np.array([d[n] for n in d.dtype.names], dtype=float)
    with open(fn) as f:
        t = f.read().splitlines()
    head = [x for x in t if x.startswith('#')]
    return head[-1].strip('# ').split(), [x for x in t if not x.startswith('#')]


def same(a, b):
    """The same columns and values; ASCII rows the same text up to rounding of the last digit."""
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        return False
    x, y, rtol = a[1], b[1], 1e-9
    if not isinstance(x, np.ndarray):
        if [[len(t) for t in r.split()] for r in x] != [[len(t) for t in r.split()] for r in y]:
            return False
        digits = len(y[0].split()[0].split('e')[0].split('.')[1]) if y else 0
        x, y, rtol = [np.array([[float(t) for t in r.split()] for r in z]).T for z in (x, y)] + [1.5 * 10.**-digits]
    if x.shape != y.shape:
        return False
    scale = np.abs(np.nan_to_num(y)).max(axis=-1, keepdims=True) if y.size else 0.
    return bool((np.isclose(x, y, rtol=rtol, atol=0, equal_nan=True) | (np.abs(x - y) <= 1e-11 * scale)).all())


class Wrong(Exception):
    pass


def run_two(case, rec):
    import treecorr
    group, vname, fmt, what, second, rand, statistic, how, nfiles, ext = case
    v = VARIANTS[vname]
    write_once(vname, v, fmt)
    tag = '%d' % os.getpid()
    letters = {'m2': 'GG', 'nm': 'NG', 'norm': 'NG'}.get(what, what)
    out = {what.lower() + '_file_name': os.path.join(DIR, 'out-%s.%s' % (tag, ext))}
    c = config_of(vname, v, fmt, letters, out, rand, nfiles)
    if second:
        c['file_name2'] = [fname(vname, fmt, r) for r in (1, 5)[:nfiles]]
        if nfiles == 1:
            c['file_name2'] = c['file_name2'][0]
    if rand == 2:
        c['rand_file_name2'] = fname(vname, fmt, 3)
    stname = {'NN': 'nn_statistic', 'norm': 'nn_statistic', 'nm': 'ng_statistic'}.get(what, what.lower() + '_statistic')
    if statistic:
        c[stname] = statistic
        if what == 'norm':
            c['ng_statistic'] = statistic
    if how == 'filelist':
        for k in ('file_name', 'file_name2', 'rand_file_name', 'rand_file_name2'):
            if k in c:
                x = c.pop(k)
                fn = os.path.join(DIR, 'list-%s-%s.txt' % (tag, k))
                with open(fn, 'w') as f:
                    f.write('\n'.join(x if isinstance(x, list) else [x]) + '\n')
                c[k.replace('file_name', 'file_list')] = fn
        how2 = 'dict'
    else:
        how2 = how
    for fn in out.values():
        if os.path.exists(fn):
            os.remove(fn)
    lab = dict(what=what, how=how, variant=vname, format=fmt, second=second, rand=rand, statistic=statistic)

    # what the documentation says
    def want(fn):
        if rand == 2 and not second:
            raise Wrong('rand_file_name2 without file_name2')
        kw = dict(v['corr'])
        cls = letters
        c1 = catalogs(vname, v, fmt, (0, 4)[:nfiles], letters, 0)
        c2 = catalogs(vname, v, fmt, (1, 5)[:nfiles], letters, 1) if second else None
        r1 = catalogs(vname, v, fmt, (2,), letters, 0, rand=True) if rand else None
        r2 = catalogs(vname, v, fmt, (3,), letters, 1, rand=True) if rand == 2 else None

        def corr(name, *cats):
            co = getattr(treecorr, name + 'Correlation')(verbose=0, num_threads=1, **kw)
            co.process(*[x for x in cats if x is not None])
            return co
        compensated = (statistic or 'compensated') == 'compensated'
        if cls == 'NN':
            rr = dr = rd = None
            if second and rand == 1:
                raise Wrong('rand_file_name2 is required')
            dd = corr('NN', c1, c2)
            if rand:
                rr = corr('NN', r1, r2)
                if compensated:
                    dr = corr('NN', c1, r2 if second else r1)
                    rd = corr('NN', r1, c2) if second else None
            dd.write(fn, rr=rr, dr=dr, rd=rd)
            return
        if cls in RND:
            if not second:
                raise Wrong('file_name2 is required')
            if statistic == 'compensated' and not rand:
                raise Wrong('randoms are required')
            nx = corr(cls, c1, c2)
            rx = corr(cls, r1, c2) if rand and compensated else None
            if what == 'nm':
                nx.writeNMap(fn, rg=rx)
            elif what == 'norm':
                if not rand:
                    raise Wrong('randoms are required')
                gg, dd, rr = corr('GG', c2), corr('NN', c1), corr('NN', r1)
                dr = corr('NN', c1, r1) if compensated else None
                nx.writeNorm(fn, gg=gg, dd=dd, rr=rr, dr=dr, rg=rx)
            else:
                nx.write(fn, **{RND[cls]: rx})
            return
        if cls[0] == 'K' and cls != 'KK' and not second:
            raise Wrong('file_name2 is required')
        co = corr(cls, c1, c2)
        if what == 'm2':
            co.writeMapSq(fn)
        else:
            co.write(fn)

    refused = None
    got = out[what.lower() + '_file_name']
    ref = os.path.join(DIR, 'ref-%s.%s' % (tag, ext))
    try:
        want(ref)
    except Wrong as e:
        refused = str(e)
    except Exception as e:
        rec.counters['reference_refused'] += 1
        refused = 'python'
    conf = deliver(c, how2, tag)
    conf0 = json.dumps({k: str(x) for k, x in conf.items()}, sort_keys=True)
    try:
        treecorr.corr2(conf)
    except Exception as e:
        rec.check(refused is not None, 'corr2 refuses a valid configuration: %s: %s' % (type(e).__name__, str(e)[:150]), **lab)
        rec.outcome('refused', what, refused)
        rec.check(not os.path.exists(got) or refused == 'python', 'corr2 wrote an output file although it failed', **lab)
        return
    rec.step()
    rec.check(json.dumps({k: str(x) for k, x in conf.items()}, sort_keys=True) == conf0, 'corr2 changed the dict of the caller', **lab)
    if not rec.check(refused is None, 'corr2 accepts an invalid configuration (%s)' % refused, **lab):
        return
    a, b = lines(got), lines(ref)
    rec.outcome(str(a[1])[:3000], what)
    rec.nontrivial += 1
    rec.check(same(a, b), 'the output of corr2 differs from that of the Python calls', got=str(a)[:500], want=str(b)[:500], **lab)


def run_three(case, rec):
    import treecorr
    group, vname, fmt, what, rand, statistic, how, nfiles, ext = case
    v = CORR3[vname]
    write_once('t' + vname, v, fmt)
    tag = '%d' % os.getpid()
    letters = {'m3': 'GGG'}.get(what, what)
    out = {what.lower() + '_file_name': os.path.join(DIR, 'out-%s.%s' % (tag, ext))}
    c = config_of('t' + vname, v, fmt, letters, out, rand, nfiles, three=True)
    if statistic:
        c['nnn_statistic'] = statistic
    lab = dict(what=what, how=how, variant=vname, format=fmt, rand=rand, statistic=statistic)
    got, ref = out[what.lower() + '_file_name'], os.path.join(DIR, 'ref-%s.%s' % (tag, ext))
    for fn in (got, ref):
        if os.path.exists(fn):
            os.remove(fn)
    kw = dict(v['corr'])
    c1 = catalogs('t' + vname, v, fmt, (0, 4)[:nfiles], letters, 0, three=True)
    r1 = catalogs('t' + vname, v, fmt, (2,), letters, 0, rand=True, three=True) if rand else None

    def corr(name, *cats, **pk):
        co = getattr(treecorr, name + 'Correlation')(verbose=0, num_threads=1, **kw)
        co.process(*cats, **pk)
        return co
    refused = False
    try:
        if letters == 'NNN':
            ddd, rrr, drr, rdd = corr('NNN', c1), None, None, None
            if rand:
                rrr = corr('NNN', r1)
                if statistic != 'simple':
                    drr, rdd = corr('NNN', c1, r1, ordered=False), corr('NNN', r1, c1, ordered=False)
            ddd.write(ref, rrr=rrr, drr=drr, rdd=rdd)
        else:
            co = corr(letters, c1)
            co.writeMap3(ref) if what == 'm3' else co.write(ref)
    except Exception:
        refused = True
        rec.counters['reference_refused'] += 1
    try:
        treecorr.corr3(deliver(c, how, tag))
    except Exception as e:
        rec.check(refused, 'corr3 refuses a valid configuration: %s: %s' % (type(e).__name__, str(e)[:150]), **lab)
        return
    rec.step()
    if rec.check(not refused, 'corr3 accepts what the Python calls refuse', **lab):
        a, b = lines(got), lines(ref)
        rec.outcome(str(a[1])[:3000], what)
        rec.nontrivial += 1
        rec.check(same(a, b), 'the output of corr3 differs from that of the Python calls', got=str(a)[:500], want=str(b)[:500], **lab)


_written = set()


def write_once(vname, v, fmt):
    if (vname, fmt) in _written:
        return
    _written.add((vname, fmt))
    base = fname(vname, fmt, 0)
    # every worker writes its own copies
    write_inputs(vname, v, fmt)


# ------------------------------------------------------------------ parameters
def params_of(name):
    import treecorr
    if name == 'Catalog':
        return treecorr.Catalog._valid_params
    if name == 'corr2':
        return treecorr.corr2_valid_params
    if name == 'corr3':
        return treecorr.corr3_valid_params
    return getattr(treecorr, name)._valid_params


def run_names(case, rec):
    """No misspelt or misplaced parameter is silently ignored, and no invalid value accepted."""
    import treecorr
    group, name = case
    P = params_of(name)
    base = dict(x=np.array([1., 2.]), y=np.array([1., 3.])) if name == 'Catalog' else \
        dict(min_sep=1., max_sep=10., nbins=2) if name in ('corr2', 'corr3') or not name.endswith('Field') else {}

    def make(**kw):
        d = dict(base, **kw)
        if name in ('corr2', 'corr3'):
            from treecorr.config import check_config
            return check_config(d, P)
        return getattr(treecorr, name)(**d)
    for key in list(P):
        for bad in (key + 'x', key[:-1], key.upper(), ' ' + key, key + '_', 'x' + key):
            if bad in P or bad in base or name == 'Catalog' and bad in CAT_ARGS or bad in ('config', 'logger', 'rng', 'num'):
                continue
            rec.step()
            ok = False
            try:
                make(**{bad: 1})
            except TypeError:
                ok = True
            except Exception as e:
                ok = False
            rec.check(ok, 'the unknown parameter %s is not refused with a TypeError' % bad, cls=name)
    rec.outcome(name, len(P))
    rec.nontrivial += 1
    # a config dict may hold parameters of other classes, but not override keyword arguments
    if name.endswith('Correlation'):
        co = getattr(treecorr, name)(dict(base, nbins=7, file_name='x', x_col=3, nn_file_name='a'), nbins=3)
        rec.check(co.nbins == 3, 'a keyword argument does not take precedence over the config dict', cls=name, got=co.nbins)
    for key, spec in P.items():
        typ, many, default, valid = spec[:4]
        if valid is None:
            if typ in (int, float):
                rec.step()
                try:
                    make(**{key: 'abc'})
                    rec.check(False, 'the value abc is accepted for the number %s' % key, cls=name)
                except (ValueError, TypeError):
                    pass
            continue
        for badv in ('nonsense', 'X'):
            rec.step()
            try:
                make(**{key: badv})
                rec.check(False, 'the invalid value %s=%s is accepted' % (key, badv), cls=name)
            except (ValueError, TypeError):
                pass
    # documented defaults and types: strings mean the same as the values
    from treecorr.config import check_config
    for key, spec in P.items():
        typ, many, default, valid = spec[:4]
        vals = valid if valid is not None else {bool: [True, False], int: [0, 3, -2], float: [1.5, 2.0, -3e-5], str: ['abc', 'a.b/c']}.get(typ, [])
        for val in vals:
            if val is None:
                continue
            a = check_config({key: val}, P)[key]
            b = check_config({key: str(val)}, P)[key]
            rec.step(2)
            rec.check(a == val and b == val and type(a) is type(b), 'the string %r means something else than the value for %s' % (str(val), key),
                      cls=name, got=[str(a), str(b)])
            if typ is str and valid is not None:
                c = check_config({key: val + 'xx'}, P) if sum(val.startswith(x) for x in valid) == 1 else None
                rec.check(c is None or c[key] == val, 'a longer spelling of %s=%s is understood as something else' % (key, val), cls=name)
            if many:
                l = check_config({key: [str(val), val]}, P)[key]
                rec.check(l == [val, val], 'a list of values for %s is not understood item by item' % key, cls=name, got=str(l))
        got = check_config({}, P)
        rec.check(got.get(key) == default, 'the default of %s is not applied' % key, cls=name, got=str(got.get(key)), want=str(default))


CAT_ARGS = ('x', 'y', 'z', 'ra', 'dec', 'r', 'w', 'wpos', 'flag', 'patch', 'file_name', 'k', 'v1', 'v2', 'g1', 'g2', 't1', 't2', 'q1', 'q2', 'z1',
            'z2', 'patch_centers', 'rng', 'logger', 'config', 'is_rand', 'allow_xyz', 'num')


def run_lists(case, rec):
    """Catalog parameters given as lists: catalog number num takes item num."""
    import treecorr
    group, name, values, num, fmt, base = case
    v = VARIANTS['plain']
    write_once('plain', v, 'dat')
    n = SIZES[num]
    d, order = setup(v, 'dat')[num]
    fn = os.path.join(DIR, 'lists-%d.%s' % (os.getpid(), fmt))
    cols = ['x', 'y', 'w', 'k', 'g1', 'g2', 'z1', 'z2', 'v1', 'v2', 't1', 't2', 'q1', 'q2']
    val = values[num]
    delim = val if name == 'delimiter' else None
    comm = val if name == 'comment_marker' else '#'
    if fmt == 'fits':
        import fitsio
        with fitsio.FITS(fn, 'rw', clobber=True) as f:
            f.write([d[c] for c in cols], names=cols)
    else:
        with open(fn, 'w') as f:
            f.write('%s a comment\n' % comm)
            for i in range(n):
                f.write((delim or ' ').join(repr(float(d[c][i])) for c in cols) + '\n')
    a, b = ('ra', 'dec') if base == 'sky' else ('x', 'y')
    c = {}
    src = dict(zip(cols, cols)) if fmt == 'fits' else {x: i + 1 for i, x in enumerate(cols)}
    if base == 'sky':
        c.update(ra_col=src['x'], dec_col=src['y'], ra_units='deg', dec_units='deg')
    else:
        c.update(x_col=src['x'], y_col=src['y'])
    for x in cols[2:]:
        c[x + '_col'] = src[x]
    c['file_type'] = 'FITS' if fmt == 'fits' else 'ASCII'
    c[name] = list(values)
    one = dict(c)
    one[name] = val
    if name in ('x_col', 'ra_col'):
        c[name] = [src['x'] if i == num else v2 for i, v2 in enumerate(values)]
        one[name] = src['x']
        c[name.replace('x', 'y') if name == 'x_col' else 'dec_col'] = [src['y'] if i == num else v2 for i, v2 in enumerate(values)]
    lab = dict(name=name, values=str(values), num=num)
    try:
        p = treecorr.Catalog(fn, one)
        p.load()
        ref = None
    except Exception as e:
        ref = type(e).__name__
    try:
        q = treecorr.Catalog(fn, c, num=num)
        q.load()
        got = None
    except Exception as e:
        got = type(e).__name__ + str(e)[:100]
    rec.step(2)
    rec.outcome(name, num, ref)
    rec.nontrivial += 1
    if not rec.check((got is None) == (ref is None), 'a list of values is refused, or accepted, unlike the single value', got=got, want=ref, **lab):
        return
    if ref is None:
        for at in ('x', 'y', 'ra', 'dec', 'w', 'k', 'g1', 'g2', 'z1', 'z2', 'v1', 'v2', 't1', 't2', 'q1', 'q2', 'vark', 'varz', 'varv', 'varg', 'vart', 'varq'):
            u, t = getattr(p, at), getattr(q, at)
            rec.check((u is None) == (t is None) and (u is None or np.array_equal(u, t)), 'a list of values does not use the item of the catalog', at=at, **lab)


def run_parse(case, rec):
    """Lines of params files and values given as strings, over a small grammar."""
    from treecorr import config as cf
    group, items, style, comment, space = case
    text = ['%s', '{%s}', '[%s]', '(%s)', '{ %s }'][style] % ([' ', ',', ', ', ',', ' , '][style]).join(items)
    line = space + 'key' + space + '=' + space + text + comment
    c = {}
    cf.parse_variable(c, line)
    rec.step()
    want = items[0] if len(items) == 1 else list(items)
    rec.check(c == {'key': want}, 'a line of a params file is misread', line=line, got=str(c), want=str(want))
    rec.outcome(want if isinstance(want, str) else tuple(want))
    rec.nontrivial += 1
    if len(items) == 1:
        s = items[0]
        t, f = s.upper() in ('TRUE', 'YES', 'T', 'Y'), s.upper() in ('FALSE', 'NO', 'F', 'N', 'NONE')
        try:
            b = cf.parse_bool(s)
        except ValueError:
            b = 'error'
        isint = s.lstrip('-').isdigit()
        ok = b is True if t else b is False if f else (b != 'error' and b == int(s)) if isint else b == 'error'
        rec.check(ok, 'parse_bool of a string is wrong', got=str(b), value=s)
        units = {'rad': 1., 'radian': 1., 'radians': 1., 'deg': np.pi / 180, 'degree': np.pi / 180, 'degrees': np.pi / 180, 'hour': np.pi / 12,
                 'hours': np.pi / 12, 'hr': np.pi / 12, 'arcmin': np.pi / 10800, 'arcminutes': np.pi / 10800, 'arcsec': np.pi / 648000,
                 'arcseconds': np.pi / 648000}
        try:
            u = cf.parse_unit(s)
        except ValueError:
            u = None
        w = units.get(s)
        rec.check((u is None) == (w is None) and (w is None or abs(u - w) < 1e-15), 'an angular unit is misread', got=str(u), want=str(w), value=s)
    # values of lists, by number
    vals = [x for x in items]
    for num in range(len(vals) + 1):
        try:
            g = cf.get_from_list({'a': vals}, 'a', num)
        except IndexError:
            g = 'index'
        rec.check(g == (vals[num] if num < len(vals) else 'index'), 'get_from_list takes the wrong item', got=str(g), num=num)
        rec.check(cf.get_from_list({'a': vals[0]}, 'a', num) == vals[0], 'get_from_list of a single value is not that value for every number')
        rec.check(cf.get_from_list({}, 'a', num, str, 'dd') == 'dd' and cf.get_from_list({}, 'a', num) is None, 'get_from_list ignores the default')


def run(case, rec):
    import treecorr
    treecorr.set_omp_threads(1)
    {'2': run_two, '3': run_three, 'n': run_names, 'p': run_parse, 'l': run_lists}[case[0][0]](case, rec)


def cases(thorough):
    q = 0
    HOW = ('dict', 'strings', 'yaml', 'json', 'params', 'typed', 'include', 'filelist')
    for name in ['Catalog', 'corr2', 'corr3'] + [x + 'Correlation' for x in TWO] + ['NNNCorrelation', 'KKKCorrelation', 'GGGCorrelation']:
        yield ('names', name)
    lists = dict(file_type=('ASCII', 'FITS'), delimiter=(',', ';', None), comment_marker=('#', '%'), first_row=(1, 3), last_row=(14, 9), every_nth=(1, 3, 2),
                 x_units=('deg', 'arcmin'), ra_units=('deg', 'hours'), dec_units=('arcmin', 'radians'), vark=(0.3, 1.7), varz=(0.3, 1.7), varv=(0.4, 1.8),
                 varg=(0.3, 1.7), vart=(0.3, 1.7), varq=(0.3, 1.7), flip_g1=(True, False), flip_g2=(False, True), flip_v1=(True, False), flip_z2=(True, False),
                 flip_t2=(False, True), flip_q1=(True, False), x_col=('0', 'a'), ra_col=(0, '0'), k_col=('0', 5), w_col=(0, 4), g1_col=('7', 5))
    for name, vals in lists.items():
        for vv in itertools.permutations(vals):
            for num in range(len(vv)):
                for fmt in ('dat', 'fits'):
                    if name == 'file_type':
                        fmt = 'fits' if vv[num] == 'FITS' else 'dat'
                    if fmt == 'fits' and (name.endswith('_col') or name in ('delimiter', 'comment_marker')):
                        continue
                    yield ('lists', name, list(vv), num, fmt, 'sky' if name[:2] in ('ra', 'de') and name != 'delimiter' else 'flat')
    words = ['a', 'True', 'false', 'YES', 'n', '3', '-1', '0', '1.5', 'deg', 'degrees', 'arcmin', 'arcminutes', 'arcsec', 'rad', 'radians', 'hours', 'None',
             'x=y', 'a/b.dat', 'tRuE', 'T', 'F', 'y']
    for n in (1, 2, 3):
        for items in itertools.product(words, repeat=n):
            if n > 1 and not set(items) <= set(words[:5] if n == 3 else words[:10] + ['x=y']):
                continue
            for style in range(5):
                if n == 3 and style in (2, 3) and not thorough:
                    continue
                for comment in ('', ' # more = things', '#'):
                    for space in ('', ' ', '  '):
                        yield ('parse', list(items), style, comment, space)
    for vname in VARIANTS:
        v = VARIANTS[vname]
        for fmt in ('dat', 'fits'):
            for what in TWO + ['m2', 'nm', 'norm']:
                spin = {'m2': 'GG', 'nm': 'NG', 'norm': 'NG'}.get(what, what)[1] not in 'NK'
                if vname == 'periodic' and spin:
                    continue
                if v['corr'].get('metric') in ('Rlens', 'OldRperp') and what in ('m2', 'norm'):
                    continue
                if what in ('m2', 'nm', 'norm') and v['corr'].get('bin_type'):
                    continue
                for second in (True, False):
                    if vname == 'rlens' and what == 'norm':
                        continue
                    for rand in (0, 1, 2):
                        for st in (None, 'simple', 'compensated'):
                            if st and not (what == 'NN' or what in RND or what in ('nm', 'norm')):
                                continue
                            for how in HOW:
                                for nf in (1, 2):
                                    if v.get('patch') and (nf == 2 or fmt == 'dat'):
                                        continue
                                    if nf == 2 and v.get('rows') and False:
                                        continue
                                    q += 1
                                    common = what in ('NN', 'NG', 'norm', 'nm')
                                    if thorough or q % (11 if common else 23) == 0:
                                        yield ('2-' + vname, vname, fmt, what, second, rand, st, how, nf, ('fits', 'dat')[q // 11 % 2])
    for vname in CORR3:
        for fmt in ('dat', 'fits'):
            for what in ('NNN', 'KKK', 'GGG', 'm3'):
                if what == 'm3' and CORR3[vname]['corr'].get('bin_type') == 'LogMultipole':
                    continue
                for rand in (0, 1):
                    for st in (None, 'simple', 'compensated'):
                        if st and what != 'NNN':
                            continue
                        for how in HOW[:-1]:
                            for nf in (1, 2):
                                q += 1
                                if thorough or q % 5 == 0:
                                    yield ('3-' + vname, vname, fmt, what, rand, st, how, nf, ('fits', 'dat')[q // 5 % 2])


def worker_dir():
    global DIR
    DIR = os.path.join(DIR, 'w%d' % os.getpid())
    os.makedirs(DIR, exist_ok=True)


if __name__ == '__main__':
    DIR = build.scratch('mc15-', shm=True)
    ck = core.Check('C15', bounds=(
        'a fixed share (thorough: all) of: 13 kinds of configuration x input as ASCII or FITS with the columns of the second file in another order x 18 '
        'two-point correlations and the aperture-mass outputs x with/without a second file x no, one or both sets of randoms x each statistic '
        'x dict, dict of strings, YAML, JSON, params files (two list styles, include), file lists x one or two files per field; likewise corr3; '
        'every parameter of every class x misspellings, valid and invalid values; every params line of a small grammar; oracle: the '
        'documented Python calls on catalogs made from arrays'))
    ck.run(cases(ck.thorough), run, setup=worker_dir)
    ck.finish()
