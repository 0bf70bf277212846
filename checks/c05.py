"""C05: a correlation object's contents depend only on what was put in, not on the history of calls."""
import itertools, os, pickle, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom, hist, ref2
build.activate()
import numpy as np

KW = {'flat': dict(min_sep=0.31, max_sep=6.7, nbins=3, bin_slop=0, angle_slop=0, num_bootstrap=5),
      'sphere': dict(min_sep=2.3, max_sep=150., nbins=3, bin_slop=0, angle_slop=0, sep_units='deg', num_bootstrap=5)}
SITES = {'A': [0, 1, 3, 6], 'B': [1, 2, 4], 'C': [5, 7, 0, 2], 'U': [3, 4, 6], 'W': [2, 6, 7]}
PATCH = {'A': [0, 1, 1, 0], 'B': [1, 1, 0], 'C': [0, 0, 1, 1], 'U': None, 'W': [1, 1, 1]}

_cache = {}


def cat(name, coords, which):
    import treecorr
    kw = geom.catalog_kwargs(['ms', SITES[name]], coords, which, 'w')
    p = PATCH[name]
    if p is not None:
        kw['patch'] = np.array(p)
        if name == 'W':
            # only the second of two patches
            kw.pop('patch')
            return [treecorr.Catalog(patch=1, npatch=2, **kw)]
    return treecorr.Catalog(**kw)


def cats(coords):
    key = ('cats', coords)
    if key not in _cache:
        _cache[key] = {(n, w): cat(n, coords, w) for n in SITES for w in (0, 1)}
    return _cache[key]


def new(cls, coords, kind):
    import treecorr
    if len(cls) == 2:
        return getattr(treecorr, cls + 'Correlation')(**KW[coords])
    if kind == 'LogRUV':
        kw = dict(min_sep=0.5, max_sep=5.9, nbins=2, nubins=2, nvbins=2)
    elif kind == 'LogSAS':
        kw = dict(min_sep=0.5, max_sep=5.9, nbins=2, nphi_bins=3)
    else:
        kw = dict(min_sep=0.5, max_sep=5.9, nbins=2, max_n=2)
    return getattr(treecorr, cls + 'Correlation')(bin_type=kind, bin_slop=0, angle_slop=0, num_bootstrap=5, **kw)


class Model(object):
    """The multiset of things processed since the start, kept as sums."""
    def __init__(self, cls, coords, kind):
        self.cls, self.coords, self.kind = cls, coords, kind
        self.a = None
        self.r = {}
        self.proc = []      # sources whose variance enters the shot noise
        self.final = False
        self.npatch = 1

    def clone(self):
        m = Model(self.cls, self.coords, self.kind)
        m.a = None if self.a is None else dict(self.a)
        m.r = dict(self.r)
        m.proc = list(self.proc)
        m.final = self.final
        m.npatch = self.npatch
        m.var = getattr(self, 'var', None)
        return m

    def put(self, x):
        a, r = contribution(self.cls, self.coords, self.kind, x)
        self.a = hist.add(self.a, a)
        for k in r:
            self.r[k] = hist.add(self.r.get(k), r[k])
        self.proc.append(x)
        if PATCH[x[0]] is not None:
            self.npatch = 2


def args(cls, coords, x):
    """Catalog arguments of source x: one name is an auto-correlation, two names a cross-correlation."""
    C = cats(coords)
    return [C[n, i] for i, n in enumerate(x)]


def contribution(cls, coords, kind, x):
    key = (cls, coords, kind, x)
    if key not in _cache:
        c = new(cls, coords, kind)
        c.process(*args(cls, coords, x), finalize=False, num_threads=1, **algo(kind))
        _cache[key] = hist.arrays(c, cls, kind), hist.res(c, cls, kind)
    return _cache[key]


def algo(kind):
    return dict(algo='triangle') if kind == 'LogSAS' else {}


MP_TAG = 'sas-multipole-accumulate'


def run_mp(case, rec):
    """LogSAS with its default algorithm: accumulating in two calls is processing both at once."""
    import treecorr
    treecorr.set_omp_threads(1)
    group, cls, first, second, how = case
    one = new(cls, 'flat', 'LogSAS')
    two = new(cls, 'flat', 'LogSAS')
    A, B = args(cls, 'flat', first)[0], args(cls, 'flat', second)[0]
    rec.step(3)
    if how == 'split':             # the same data again, finalizing only at the end
        two.process(A, finalize=False, num_threads=1)
        two.process(B, initialize=False, num_threads=1)
        mp = new(cls, 'flat', 'LogMultipole')
        mp = getattr(treecorr, cls + 'Correlation')(bin_type='LogMultipole', min_sep=0.5, max_sep=5.9, nbins=2,
                                                    max_n=2 * np.pi / one.phi_bin_size, bin_slop=0, angle_slop=0)
        mp.process(A, finalize=False, num_threads=1)
        mp.process(B, initialize=False, num_threads=1)
        mp.toSAS(target=one)
    else:                          # finalize=True alone starts from scratch
        one.process(A, num_threads=1)
        two.process(B, num_threads=1)
        two.process(A, num_threads=1)
    a, b = hist.arrays(one, cls, 'LogSAS'), hist.arrays(two, cls, 'LogSAS')
    tag = None
    if how == 'split':
        # the listed finding is precisely that only the last call counts
        last = new(cls, 'flat', 'LogSAS')
        last.process(B, num_threads=1)
        if hist.same(hist.arrays(last, cls, 'LogSAS'), b) is None:
            tag = MP_TAG
    for n in a:
        rec.check(np.allclose(a[n], b[n], rtol=1e-9, atol=1e-12), 'LogSAS %s differs when accumulated over two calls' % n,
                  tag, got=b[n], want=a[n], cls=cls)


def other(cls, coords, kind, x):
    """An object holding x, never finalized; shared by all histories, so += must not change it."""
    key = ('other', cls, coords, kind, x)
    if key not in _cache:
        c = new(cls, coords, kind)
        c.process(*args(cls, coords, x), finalize=False, num_threads=1, **algo(kind))
        _cache[key] = c
    return _cache[key]


def finalized(m, c):
    """The arrays a finalized object must show, from the model's sums."""
    out = dict(m.a)
    if len(m.cls) == 2:
        w = out['weight']
        good = w != 0
        for n in out:
            if n in ('npairs', 'weight', 'tot'):
                continue
            v = out[n].copy()
            v[good] /= w[good]
            out[n] = v
        if m.coords == 'sphere':
            unit = np.pi / 180
            out['meanlogr'] = np.where(good, np.log(2 * np.arcsin(np.exp(out['meanlogr']) / 2) / unit), 0)
            out['meanr'] = np.where(good, 2 * np.arcsin(out['meanr'] / 2) / unit, 0)
        out['meanr'] = np.where(good, out['meanr'], c.rnom)
        out['meanlogr'] = np.where(good, out['meanlogr'], c.logr)
        return out
    w = out['weightr']
    good = w != 0
    if m.kind == 'LogMultipole':
        mid = out['ntri'].shape[-1] // 2
        for n in ('meand2', 'meanlogd2', 'meand3', 'meanlogd3'):
            v = out[n][:, :, mid].copy()
            nom = {'meand2': c.d2nom, 'meand3': c.d3nom, 'meanlogd2': c.logd2, 'meanlogd3': c.logd3}[n][:, :, mid]
            g = good[:, :, mid]
            v = np.where(g, v / np.where(g, w[:, :, mid], 1), nom)
            out[n] = np.repeat(v[:, :, None], w.shape[2], axis=2)
        out['ntri'] = np.repeat(out['ntri'][:, :, mid:mid + 1], w.shape[2], axis=2)
        return out
    for n in out:
        if n in ('ntri', 'weightr', 'tot'):
            continue
        out[n] = np.where(good, out[n] / np.where(good, w, 1), 0)
    return out


def look(c, m):
    """Compare the object with the model; returns a message or None."""
    cls, kind = m.cls, m.kind
    got = hist.arrays(c, cls, kind)
    np_ = tuple(getattr(c, 'npatch%d' % (i + 1)) for i in range(len(cls)))
    if np_ != (m.npatch,) * len(cls):
        return 'the numbers of patches are %s, want %s' % (np_, m.npatch)
    if m.a is None:
        want = hist.zero_like(got)
        if m.final:
            return None
    elif m.final:
        want = finalized(m, c)
        if len(cls) == 3 and kind != 'LogMultipole':
            # empty bins show nominal values: checked elsewhere
            z = m.a['weightr'] == 0
            for n in got:
                if n not in ('ntri', 'weightr', 'tot'):
                    got[n] = np.where(z, 0, got[n])
    else:
        want = m.a
    bad = hist.same(want, got)
    if bad:
        return '%s is %s, want %s' % (bad, got[bad].ravel()[:8], want[bad].ravel()[:8])
    r = hist.same_results(hist.res(c, cls, kind), m.r)
    if r:
        return 'results%s.%s is %s, want %s' % (r[0], r[1], np.ravel(r[2])[:8], np.ravel(r[3])[:8])
    return None


def varnum(m):
    """The variances finalize uses, from the catalogs processed since the last start."""
    import treecorr
    C = cats(m.coords)
    out = []
    for i in (0, 1):
        L = m.cls[i]
        if L == 'N':
            continue
        lst = []
        for x in m.proc:
            n = x[i] if len(x) > i else x[0]
            c = C[n, i if len(x) > i else 0]
            lst.extend(c if isinstance(c, list) else c.get_patches())
        out.append(getattr(treecorr, 'calculateVar' + L)(lst))
    return out


VAR2 = {'K': 1.3, 'G': 0.7, 'Z': 0.9, 'V': 1.1, 'T': 0.8, 'Q': 0.6}


def run(case, rec):
    import treecorr
    treecorr.set_omp_threads(1)
    group, cls, coords, kind, prefix, depth, alphabet = case
    al = algo(kind)
    # Depth-first over all continuations of prefix, re-executing each history from scratch.

    def enabled(op, m):
        k = op[0]
        if m.final:
            return k in ('IF', 'I', 'clr', 'cp', 'cpo', 'pk', 'cov', 'var', 'look')
        if k == 'fin':
            return m.a is not None
        if k in ('cov', 'look'):
            return m.a is not None
        if k == 'var':
            return False
        return True

    def execute(hist_ops):
        c = new(cls, coords, kind)
        m = Model(cls, coords, kind)
        ghosts = []
        for op in hist_ops:
            rec.step()
            k = op[0]
            x = op[1] if len(op) > 1 else None
            if k in ('P', 'I', 'F', 'IF'):
                if 'I' in k:
                    m = Model(cls, coords, kind)
                m.put(x)
                c.process(*args(cls, coords, x), initialize='I' in k, finalize='F' in k, num_threads=1, **al)
                if 'F' in k:
                    m.final = True
                    m.var = None
            elif k == 'L':
                # a direct call of process_auto / process_cross on undivided data
                m.a = hist.add(m.a, contribution(cls, coords, kind, x)[0])
                if len(x) == 1:
                    c.process_auto(*args(cls, coords, x), num_threads=1)
                else:
                    c.process_cross(*args(cls, coords, x), num_threads=1)
            elif k == 'add':
                o = other(cls, coords, kind, x)
                m.a = hist.add(m.a, contribution(cls, coords, kind, x)[0])
                c += o
                b = hist.same(contribution(cls, coords, kind, x)[0], hist.arrays(o, cls, kind))
                if b:
                    rec.fail('+= changed its right-hand side: ' + b, history=hist_ops, cls=cls)
            elif k == 'fin':
                nv = [VAR2[L] for L in cls if L != 'N']
                c.finalize(*nv)
                m.final = True
                m.var = nv
            elif k == 'clr':
                c.clear()
                m = Model(cls, coords, kind)
            elif k == 'cp':
                ghosts.append((c, m.clone()))
                c = c.copy()
            elif k == 'cpo':
                ghosts.append((c.copy(), m.clone()))
            elif k == 'pk':
                c = pickle.loads(pickle.dumps(c))
            elif k == 'cov':
                if c.results:
                    # reads the results, caches on the way
                    c.estimate_cov(x, func=lambda cc: np.array(cc.weight).ravel().real, )
            elif k == 'var':
                hist_var(c, m)
        return c, m, ghosts

    def hist_var(c, m):
        if len(cls) != 2 or cls == 'NN' or m.a is None or len({len(x) for x in m.proc}) > 1:
            return
        nv = m.var if getattr(m, 'var', None) is not None else varnum(m)
        num = np.prod(nv)
        if cls in ('GG', 'ZZ', 'VV', 'TT', 'QQ'):
            num *= 2
        w = m.a['weight']
        want = np.where(w != 0, num / np.where(w != 0, w, 1), 0)
        names = {'GG': ['varxip', 'varxim']}.get(cls, ['varxip', 'varxim'] if cls in ('ZZ', 'VV', 'TT', 'QQ') else ['varxi'])
        for n in names:
            rec.check(np.allclose(getattr(c, n), want, rtol=1e-9),
                      '%s does not match the shot noise of what was processed' % n,
                      got=getattr(c, n), want=want, cls=cls)

    def dfs(h):
        c, m, ghosts = execute(h)
        msg = look(c, m)
        rec.check(msg is None, 'state differs from the sum of what was processed: %s' % msg, history=h, cls=cls, kind=kind)
        if m.final:
            hist_var(c, m)
        for g, gm in ghosts:
            if gm.final:
                hist_var(g, gm)
            msg = look(g, gm)
            rec.check(msg is None, 'a copy (or the copied object) changed later: %s' % msg, history=h, cls=cls, kind=kind)
        if m.a is not None:
            n = 'npairs' if len(cls) == 2 else 'ntri'
            rec.outcome(m.a[n], len(m.proc), m.final, sorted(m.r))
            rec.nontrivial += len(h) > 1
        if len(rec.viol) > 60 or len(h) >= depth:
            return
        for op in alphabet:
            if enabled(op, m):
                dfs(h + [op])

    # a prefix that is not enabled is not a history
    ok = True
    for i in range(len(prefix)):
        _, m, _ = execute(prefix[:i])
        if not enabled(prefix[i], m):
            ok = False
            break
    if ok:
        dfs(list(prefix))


def alphabet(cls, rich):
    """Operations.  Auto sources have one name, cross sources two."""
    if cls in hist.AUTO2 or len(cls) == 3:
        src = ['A', 'B', 'W', 'U'] if rich else ['A', 'W']
        src2 = ['AC'] if rich and len(cls) == 2 else []
    else:
        src = ['AB', 'CA', 'WW', 'UU'] if rich else ['AB', 'WW']
        src2 = []
    al = [['P', x] for x in src + src2]
    al += [['F', src[0]], ['IF', src[-2 if rich else -1]], ['I', src[0]], ['add', src[1]], ['fin'], ['clr'], ['cp'],
           ['cpo'], ['pk'], ['cov', 'jackknife'], ['cov', 'bootstrap']]
    if rich:
        al += [['L', src[3]]]
    if len(cls) == 2 and cls != 'NN':
        al += [['var']]
    return al


def cases(thorough):
    plan = []
    for cls in hist.XI2:
        deep = cls in ('NN', 'KK', 'NG')
        plan.append((cls, 'flat', None, deep, (4 if deep else 3) + thorough))
        if cls in ('NN', 'GG', 'NK'):
            plan.append((cls, 'sphere', None, False, 3))
    for cls in ('NNN', 'KKK', 'GGG'):
        for kind in ('LogRUV', 'LogSAS', 'LogMultipole'):
            plan.append((cls, 'flat', kind, False, 3 + thorough))
    for cls, coords, kind, rich, depth in plan:
        al = alphabet(cls, rich)
        yield ('root-%s' % cls, cls, coords, kind, [], 0, al)
        for a in al:
            yield ('hist-%s' % cls, cls, coords, kind, [a], 1, al)
        for a in al:
            for b in al:
                yield ('hist-%s' % cls, cls, coords, kind, [a, b], depth, al)



if __name__ == '__main__':
    ck = core.Check('C05', bounds=(
        'all sequences, up to the depth given in the group, of process (with and without initialize/finalize), '
        'process_auto/process_cross, +=, finalize, clear, copy, pickle and covariance reads; every prefix is compared '
        'with the sum of the contributions; non-trivial: at least two operations with data'))
    ck.run(cases(ck.thorough), run)
    if not ck.args.replay:
        ck.run([('mp-%s-%s' % (c, h), c, a, b, h) for c in ('NNN', 'KKK', 'GGG') for a in 'AUBC' for b in 'AUBC' for h in ('split', 'fresh')
                if (a == 'U') == (b == 'U')], run_mp)
    ck.finish()
