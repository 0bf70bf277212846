"""C08: dividing the work among MPI processes never changes a result."""
import copy, itertools, os, pickle, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, geom
build.activate()
import numpy as np
from checks.c03 import make, assign

# ---------------------------------------------------------------- the message layer


class Stop(Exception):
    """This rank is blocked in a collective operation that the others have not reached yet."""


class World(object):
    """size ranks.  Each rank is a program run to completion (or to its next collective); only the
    messages connect them, so the state of the world is the multiset of undelivered messages plus
    the sums of the completed collectives."""
    def __init__(self, size, order=()):
        self.size = size
        self.box = {}             # (src, dst) -> list of pickles, in order
        self.sums = []            # results of the completed collectives
        self.order = list(order)  # choices for receives from any source
        self.widths = []          # number of alternatives at each of these
        self.errors = []

    def comm(self, rank):
        return Comm(self, rank)

    def left(self):
        return sum(len(b) for b in self.box.values())


class Comm(object):
    def __init__(self, world, rank):
        self.world, self.rank, self.size = world, rank, world.size
        self.nred = 0
        self.part = None

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def send(self, obj, dest, tag=0):
        if not 0 <= dest < self.size or dest == self.rank:
            self.world.errors.append('send from %d to %r' % (self.rank, dest))
        self.world.box.setdefault((self.rank, dest), []).append((tag, pickle.dumps(obj)))

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        w = self.world
        src = [s for s in range(self.size) if w.box.get((s, self.rank))] if source < 0 else [source]
        src = [s for s in src if w.box.get((s, self.rank))]
        if not src:
            raise core.Violation('deadlock: receive with no message', rank=self.rank, source=source)
        k = 0
        if len(src) > 1:
            if len(w.widths) < len(w.order):
                k = w.order[len(w.widths)]
            w.widths.append(len(src))
        return pickle.loads(w.box[(src[k], self.rank)].pop(0)[1])

    def Allreduce(self, sendbuf, recvbuf):
        a = recvbuf
        if self.nred < len(self.world.sums):
            s = self.world.sums[self.nred]
            if s.shape != a.shape:
                raise core.Violation('Allreduce of different shapes', rank=self.rank)
            a[...] = s
            self.nred += 1
        else:
            self.part = np.array(a)
            raise Stop()


def reduce_all(size, prog, maxred=6):
    """Run prog(rank, comm) on every rank, where they meet in collectives."""
    world = World(size)
    for it in range(maxred + 1):
        out, parts = [], []
        for r in range(size):
            c = world.comm(r)
            try:
                out.append(prog(r, c))
                if c.nred != len(world.sums):
                    raise core.Violation('a rank skipped a collective', rank=r)
            except Stop:
                parts.append(c.part)
        if not parts:
            return out
        if len(parts) != size:
            raise core.Violation('deadlock: only some ranks are in a collective', ranks=len(parts), size=size)
        if any(p.shape != parts[0].shape for p in parts):
            raise core.Violation('Allreduce of different shapes')
        world.sums.append(sum(parts))
    raise core.Violation('collectives never end')


# ---------------------------------------------------------------- comparison

NAMES = ['npairs', 'weight', 'meanr', 'meanlogr', 'xi', 'xi_im', 'xip', 'xip_im', 'xim', 'xim_im', 'varxi', 'varxip', 'varxim',
         'tot', 'ntri', 'zeta', 'gam0', 'gam1', 'gam2', 'gam3', 'vargam0', 'vargam3', 'varzeta', 'meand1', 'meand2', 'meand3',
         'meanlogd1', 'meanlogd2', 'meanlogd3', 'meanu', 'meanv', 'meanphi', 'npatch1', 'npatch2', 'npatch3', 'coords', 'metric']


def values(co):
    out = {}
    for n in NAMES:
        try:
            v = getattr(co, n)
        except (AttributeError, AssertionError):     # not a property of this kind of correlation
            continue
        if v is not None:
            out[n] = np.array(v) if not isinstance(v, str) else v
    return out


def same(a, b, tol, scale=0.):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a.shape != b.shape:
        return False
    if a.dtype.kind not in 'fc' or a.size == 0:
        return bool((a == b).all())
    s = max(scale, np.nanmax(np.abs(a)) if np.isfinite(a).any() else 0.)
    return np.allclose(a, b, rtol=tol, atol=tol * max(s, 1e-30), equal_nan=True)


def compare(rec, one, many, label, tol=1e-9, resid=True):
    a, b = values(one), values(many)
    rec.check(set(a) == set(b), 'different attributes with MPI', config=label)
    for n in a:
        if n in b:
            rec.check(same(a[n], b[n], tol, np.abs(a[n[:-3]]).max() if n.endswith('_im') else 0.), '%s with MPI is not that without' % n, config=label, want=a[n], got=b[n])
    if resid:
        rec.check(set(one.results) == set(many.results), 'the pairs of patches with MPI are not those without', config=label,
                  missing=sorted(set(one.results) - set(many.results))[:5], extra=sorted(set(many.results) - set(one.results))[:5])
        for k in one.results:
            if k in many.results:
                for n, v in values(one.results[k]).items():
                    w = getattr(many.results[k], n)
                    if not rec.check(same(v, np.array(w) if not isinstance(w, str) else w, 1e-12),
                                     'result of a pair of patches: %s with MPI is not that without' % n, config=label, pair=k):
                        return


# ---------------------------------------------------------------- cases

TWO = dict(Log=dict(min_sep=0.0521, max_sep=9.37, nbins=3, bin_slop=0), TwoD=dict(bin_type='TwoD', max_sep=4.337, nbins=3, bin_slop=0),
           Short=dict(min_sep=0.0521, max_sep=1.37, nbins=3, bin_slop=0))
THREE = dict(LogRUV=dict(bin_type='LogRUV', min_sep=0.1021, max_sep=6.37, nbins=2, nubins=2, nvbins=1, bin_slop=0, angle_slop=0),
             LogSAS=dict(bin_type='LogSAS', min_sep=0.0921, max_sep=6.37, nbins=2, nphi_bins=2, bin_slop=0, angle_slop=0),
             LogMultipole=dict(bin_type='LogMultipole', min_sep=0.0921, max_sep=6.37, nbins=2, max_n=2, bin_slop=0, angle_slop=0),
             Short=dict(bin_type='LogRUV', min_sep=0.1021, max_sep=0.937, nbins=2, nubins=2, nvbins=1, bin_slop=0, angle_slop=0))
COVS = ('jackknife', 'sample', 'bootstrap', 'marked_bootstrap')


def new(cls, name, **kw):
    import treecorr
    d = dict(TWO[name] if len(cls) == 2 else THREE[name])
    d.update(kw)
    return getattr(treecorr, cls + 'Correlation')(rng=np.random.RandomState(8675309), num_bootstrap=7, **d)


def orders(world_run, limit=64):
    """Every order of arrival for receives from any source (there are none when all have a named source)."""
    todo, n = [()], 0
    while todo and n < limit:
        o = todo.pop()
        w = world_run(o)
        n += 1
        for i in range(len(o), len(w.widths)):
            todo += [o + (0,) * (i - len(o)) + (k,) for k in range(1, w.widths[i])]


def run(case, rec):
    import treecorr
    treecorr.set_omp_threads(1)
    group, cls, name, sets, calls, sizes, cov = case
    data = []
    for r, (spec, how, p) in enumerate(sets):
        kw = geom.catalog_kwargs(spec, 'flat', r, 'w')
        n = len(kw['x'])
        if isinstance(p, str):
            p = assign(p, kw, n)
        data.append((kw, how, list(p)))
    cats = lambda: [make(*d) for d in data]
    ref = {}
    for call in calls:
        method, low_mem, ordered, seq = call
        opt = dict(num_threads=1, low_mem=low_mem, patch_method=method)
        if len(cls) == 3:
            opt['ordered'] = ordered
            if name == 'LogMultipole':
                opt.pop('patch_method')
                if method == 'global':
                    continue
        def program(co, cs, **kw):
            args = [c for c in cs]
            if seq == 'one':
                co.process(*args, **opt, **kw)
            else:                 # the same work given in two calls
                co.process(*args, finalize=False, **opt, **kw)
                yield
                co.process(*args, initialize=False, **opt, **kw)
        one = new(cls, name)
        try:
            for _ in program(one, cats()):
                pass
        except (ValueError, RuntimeError) as e:      # not a valid combination
            rec.counters['not valid'] += 1
            continue
        rec.step()
        rec.outcome(*[v for v in values(one).values() if not isinstance(v, str)])
        rec.nontrivial += bool(np.array(one.weight).any()) and len(one.results) > 1
        if cov and len(one.results):
            covs = {}
            for m in COVS:
                try:
                    one._rng = np.random.RandomState(4321)
                    covs[m] = one.estimate_cov(m)
                except RuntimeError as e:
                    covs[m] = str(e)
        for size in sizes:
            label = dict(cls=cls, bins=name, call=call, size=size)

            def attempt(order):
                world = World(size, order)
                cos = [new(cls, name) for r in range(size)]
                progs = [program(cos[r], cats(), comm=world.comm(r)) for r in range(size)]
                live = list(range(size))
                while live:
                    done = []
                    for r in live[::-1]:           # rank 0 last: the others only ever send
                        try:
                            next(progs[r])
                        except StopIteration:
                            done.append(r)
                        rec.step()
                    live = [r for r in live if r not in done]
                rec.check(world.left() == 0 and not world.errors, 'messages left over or misdirected', n=world.left(),
                          errors=world.errors[:3], **label)
                compare(rec, one, cos[0], label)
                return world
            try:
                orders(attempt)
            except core.Violation as e:
                rec.fail(e.msg, e.tag, **dict(e.detail, **label))
                continue
            if cov and len(one.results) and method == 'global' and not low_mem:
                blob = pickle.dumps(one)
                for m in COVS:
                    def prog(r, comm):
                        c = pickle.loads(blob)
                        c._rng = np.random.RandomState(4321)
                        return c.estimate_cov(m, comm=comm)
                    rec.step(size)
                    try:
                        got = reduce_all(size, prog)
                    except RuntimeError as e:
                        rec.check(isinstance(covs[m], str), 'estimate_cov with MPI fails but without it does not', method=m, err=str(e), **label)
                        continue
                    except core.Violation as e:
                        rec.fail(e.msg, e.tag, method=m, **dict(e.detail, **label))
                        continue
                    for r, g in enumerate(got):
                        if not rec.check(not isinstance(covs[m], str) and same(covs[m], g, 1e-9),
                                         'estimate_cov with MPI is not that without', method=m, rank=r, **label):
                            break


def cases(thorough):
    st = lambda name, n, k=0: ['st', name, n, k]
    sizes = list(range(1, 8 if thorough else 6))
    G, L = ('global', False, False, 'one'), ('local', False, False, 'one')
    GM, LM = ('global', True, False, 'one'), ('local', True, False, 'one')
    GO, LO = ('global', False, True, 'one'), ('local', False, True, 'one')
    G2, L2 = ('global', False, False, 'two'), ('local', False, True, 'two')
    A, B, C = st('halton', 14), st('clusters', 13, 1), st('halton', 12, 2)
    n2 = (1, 2, 3, 4, 5, 6, 7) if thorough else (1, 2, 3, 4, 5, 7)
    mod = lambda spec, n: [(i * 5 + i // 3) % n for i in range(spec[2])]
    hows = ('patch', 'list', 'singles')
    for n in n2:
        for how in hows:
            for cls in (('NN', 'KK', 'GG', 'NG') if n < 6 else ('NN',)):
                names = ('Log', 'TwoD', 'Short') if cls in ('NN', 'GG') else ('Log',)
                for name in names:
                    if cls[0] == cls[1]:
                        yield ('auto2', cls, name, [(A, how, mod(A, n))], (G, L, GM, LM, G2), sizes, name == 'Log' and how == 'patch')
                    yield ('cross2', cls, name, [(A, how, mod(A, n)), (B, how, mod(B, n))], (G, L, GM, LM, G2), sizes,
                           name == 'Log' and how == 'patch')
                    yield ('cross2', cls, name, [(A, how, mod(A, n)), (B, 'none', mod(B, 1))], (G, L, GM), sizes, False)
                    yield ('cross2', cls, name, [(A, 'none', mod(A, 1)), (B, how, mod(B, n))], (G, GM), sizes, False)
        if n <= (5 if thorough else 4):
            for cls in ('NNN', 'KKK') + (('GGG',) if n in (2, 3) else ()):
                for name in (('LogRUV', 'Short', 'LogMultipole') if cls != 'GGG' else ('LogRUV',)):
                    for how in (('patch', 'singles') if n < 4 else ('patch',)):
                        A3, B3, C3 = st('halton', 9), st('clusters', 8, 1), st('halton', 7, 2)
                        c = (cls == 'KKK' and name == 'LogRUV' and how == 'patch')
                        yield ('auto3', cls, name, [(A3, how, mod(A3, n))], (G, L, GM, LM, G2), sizes, c)
                        yield ('cross12', cls, name, [(A3, how, mod(A3, n)), (B3, how, mod(B3, n))], (G, GO, L, LO, GM, L2), sizes, c)
                        yield ('cross123', cls, name, [(A3, how, mod(A3, n)), (B3, how, mod(B3, n)), (C3, how, mod(C3, n))],
                               (G, GO, L, LO, GM), sizes, c)
                        for one in ((1,), (0,), (0, 1), (1, 2), (2,)):
                            tri = [(s, 'none' if i in one else how, mod(s, 1 if i in one else n)) for i, s in enumerate((A3, B3, C3))]
                            yield ('cross123p', cls, name, tri, (G, GO), sizes[:4], False)
                            if len(one) == 1 and one[0] < 2:
                                yield ('cross12p', cls, name, tri[:2], (G, GO), sizes[:4], False)
    # patches with gaps in their numbers
    for p in ((0, 2, 2, 5, 0, 5, 2, 0, 2, 5, 5, 0), (3, 3, 1, 1, 4, 3, 1, 4, 3, 1, 4, 4)):
        C = st('halton', 12, 2)
        for how in hows:
            yield ('gaps', 'NN', 'Log', [(C, how, list(p))], (G, L, GM, LM), sizes, False)
            yield ('gaps', 'KK', 'Log', [(C, how, list(p)), (st('clusters', 12), how, list(p[::-1]))], (G, L, GM), sizes, False)
            yield ('gaps', 'NNN', 'LogRUV', [(C, how, list(p))], (G, L), sizes, False)


if __name__ == '__main__':
    ck = core.Check('C08', bounds=(
        '1 to 5 ranks (thorough: 7) x 1 to 7 patches (three-point: 4; thorough: 5), given by patch numbers, lists of catalogs or lists of single patches '
        '(also with gaps), NN, KK, GG, NG, NNN, KKK, GGG, auto and cross (also only some catalogs with patches), ordered or not, global, local, low_mem, '
        'one call or two with initialize=False; covariances by all four methods; oracle: the same without comm. Collectives are synchronised by replay'))
    ck.run(cases(ck.thorough), run)
    ck.finish()
