"""Exhaustive-exploration driver shared by all checks.

A check yields *cases* (JSON-able, deterministic order, finite) and gives a function that executes
one case against the real code and compares every step with a reference model.  The driver runs all
of them on a pool of forked workers, counts what was covered, and writes the evidence file.  A case
is never dropped: a worker that dies or hangs is a violation of the case it was running.
"""
import argparse, collections, glob, hashlib, json, os, signal, sys, time, traceback
import multiprocessing as mp
from multiprocessing.connection import wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken.  `tag` names the specific input/call site for known findings."""
    def __init__(self, msg, tag=None, **detail):
        Exception.__init__(self, msg)
        self.msg = msg
        self.tag = tag
        self.detail = detail


class Rec(object):
    """Per-worker recorder handed to case functions."""
    def __init__(self):
        self.reset()

    def reset(self):
        self.evals = 0          # comparisons of an implementation result with the reference
        self.steps = 0          # operations executed on the implementation
        self.outcomes = set()   # hashes of distinct observed outcomes
        self.nontrivial = 0
        self.counters = collections.Counter()
        self.viol = []

    def step(self, n=1):
        self.steps += n

    def outcome(self, *vals):
        h = hashlib.blake2b(digest_size=8)
        for v in vals:
            if hasattr(v, 'tobytes'):
                h.update(v.tobytes())
            else:
                h.update(repr(v).encode())
        self.outcomes.add(h.digest())

    def fail(self, msg, tag=None, **detail):
        self.viol.append((msg, tag, detail))

    def check(self, ok, msg, tag=None, **detail):
        self.evals += 1
        if not ok:
            self.fail(msg, tag, **detail)
        return ok


def _jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist()) if x.size <= 200 else 'array%s' % (x.shape,)
    if isinstance(x, np.generic):
        return _jsonable(x.item())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, float) and x != x:
        return 'nan'
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:300]


def _worker(conn, func, setup):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    try:
        import treecorr
        treecorr.set_max_omp_threads(1)  # The workers are the parallelism.
        treecorr.set_omp_threads(1)
    except ImportError:
        pass
    if setup is not None:
        setup()
    import gc
    gc.freeze()
    gc.set_threshold(100000, 20, 20)
    rec = Rec()
    while True:
        job = conn.recv()
        if job is None:
            conn.close()
            os._exit(0)
        idx, case = job
        rec.reset()
        t = time.time()
        try:
            func(case, rec)
        except Violation as e:
            rec.viol.append((e.msg, e.tag, e.detail))
        except BaseException as e:
            tb = traceback.format_exc()
            rec.viol.append(('unexpected %s: %s' % (type(e).__name__, e), None,
                             {'traceback': tb[-2500:]}))
        viol = [(m, t_, _jsonable(d)) for m, t_, d in rec.viol[:20]]
        conn.send((idx, rec.evals, rec.steps, rec.nontrivial, list(rec.outcomes)[:4096],
                   dict(rec.counters), viol, len(rec.viol), time.time() - t))


class Check(object):

    def __init__(self, pid, level='model_checking', bounds='', assumptions=()):
        ap = argparse.ArgumentParser()
        ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
        ap.add_argument('--replay', default=None)
        ap.add_argument('--group', default=None, help='run only cases whose group contains this')
        ap.add_argument('--max', type=int, default=None)
        ap.add_argument('--jobs', type=int, default=int(os.environ.get('MC_JOBS', '8')))
        self.args = ap.parse_args()
        self.pid = pid
        self.tier = 'thorough' if self.args.tier == 'thorough' else 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.level = level
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evals = self.steps = self.ncases = self.nontrivial = 0
        self.outcomes = set()
        self.counters = collections.Counter()
        self.samples = []
        self.groups = collections.Counter()
        self.violations = []      # (msg, tag, detail, case)
        self.nviol = 0
        self.extra = {}
        self.slow = []
        self.stop_after = int(os.environ.get('MC_STOP', '40'))
        self.known = self._load_known()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def _load_known(self):
        f = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(f):
            return {}
        with open(f) as fin:
            d = json.load(fin)
        return {k['tag']: k for k in d.get('findings', []) if k['property'] == self.pid}

    # ------------------------------------------------------------------ running
    def run(self, cases, func, timeout=120, setup=None, workers=None):
        """Run every case.  cases: iterable of (group, params)."""
        n = workers or self.args.jobs
        if self.args.replay:
            with open(self.args.replay) as fin:
                rep = json.load(fin)
            cases = [c for c in cases if _jsonable(c) == rep['case']]
        if self.args.group:
            cases = (c for c in cases if self.args.group in c[0])
        it = iter(cases)
        idx = 0
        ctx = mp.get_context('fork')
        procs = {}
        sys.stdout.flush()

        def spawn():
            a, b = ctx.Pipe()
            p = ctx.Process(target=_worker, args=(b, func, setup), daemon=True)
            p.start()
            b.close()
            procs[a] = [p, None, None, None]   # proc, case, idx, start

        def feed(conn):
            nonlocal idx
            if self.nviol >= self.stop_after or (self.args.max and idx >= self.args.max):
                case = None
            else:
                case = next(it, None)
            if case is None:
                try:
                    conn.send(None)
                except OSError:
                    pass
                procs[conn][0].join(5)
                del procs[conn]
                return
            procs[conn][1:] = [case, idx, time.time()]
            conn.send((idx, case))
            idx += 1

        def lost(conn, why):
            p, case, i, _ = procs.pop(conn)
            if p.is_alive():
                p.kill()
            p.join(5)
            conn.close()
            self._violate('%s (exit code %s)' % (why, p.exitcode), None, {}, case)
            self.ncases += 1
            if self.nviol < self.stop_after:
                spawn()
                feed(list(procs)[-1])

        for _ in range(n):
            spawn()
        for c in list(procs):
            feed(c)
        while procs:
            ready = wait(list(procs), timeout=1.0)
            for conn in ready:
                if conn not in procs:
                    continue
                try:
                    msg = conn.recv()
                except (EOFError, OSError):
                    lost(conn, 'the process running this case died')
                    continue
                case = procs[conn][1]
                self._account(case, msg)
                feed(conn)
            now = time.time()
            for conn in list(procs):
                if conn in procs and procs[conn][3] and now - procs[conn][3] > timeout \
                        and not conn.poll():
                    lost(conn, 'the case did not finish within %d s' % timeout)
        return self

    def _account(self, case, msg):
        _, ev, st, nt, outs, cnt, viol, nv, dt = msg
        self.ncases += 1
        self.evals += ev
        self.steps += st
        self.nontrivial += nt
        self.outcomes.update(outs)
        self.counters.update(cnt)
        g = case[0] if isinstance(case, (list, tuple)) else 'case'
        self.groups[g] += 1
        if self.groups[g] == 1 and len(self.samples) < 25:
            self.samples.append(_jsonable(case))
        if dt > 5:
            self.slow.append((round(dt, 1), str(case)[:100]))
        for m, tag, d in viol:
            self._violate(m, tag, d, case)
        self.nviol += max(0, nv - len(viol)) if False else 0

    def _violate(self, msg, tag, detail, case):
        known = tag is not None and tag in self.known
        self.violations.append((msg, tag, detail, case, known))
        if not known:
            self.nviol += 1

    # ------------------------------------------------------------------ reporting
    def finish(self):
        wall = time.time() - self.t0
        evdir = os.path.join(VERIF, 'evidence')
        os.makedirs(os.path.join(evdir, 'replays'), exist_ok=True)
        if not self.args.replay:
            for old in glob.glob(os.path.join(evdir, 'replays', self.pid + '-*.json')):
                os.unlink(old)
        bad = [v for v in self.violations if not v[4]]
        seen_known = collections.OrderedDict()
        for m, tag, d, case, known in self.violations:
            if known and tag not in seen_known:
                seen_known[tag] = m
        for tag in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[tag]['what']))
        if not self.args.replay and not self.args.group and not self.args.max:
            # A listed finding is reported on every run, as the interface asks; say when it is gone.
            for tag in self.known:
                if tag not in seen_known and not bad:
                    print('note: listed finding %s did not show in this run' % tag)
        cov = {
            'states': len(self.outcomes),
            'transitions': self.steps,
            'traces_validated_against_impl': self.ncases,
            'evaluations': self.evals,
            'distinct_nontrivial': self.nontrivial,
            'rule': self.bounds,
            'cases_per_group': dict(self.groups),
            'counters': dict(self.counters),
            'samples': self.samples[:12] or ['none'],
            'exhaustive': not bad and self.args.max is None and self.args.group is None,
        }
        cov.update(self.extra)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': _jsonable(cov), 'assumptions': self.assumptions,
            'wall_s': round(wall, 2), 'violations': len(bad),
        }
        with open(os.path.join(evdir, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: cases=%d evals=%d steps=%d distinct outcomes=%d nontrivial=%d wall=%.1fs'
              % (self.pid, self.tier, self.ncases, self.evals, self.steps, len(self.outcomes),
                 self.nontrivial, wall))
        if os.environ.get('MC_VERBOSE'):
            print(dict(self.groups))
            print(dict(self.counters))
            print('slow:', sorted(self.slow)[-10:])
        if os.environ.get('MC_SUM'):
            cnt = collections.Counter()
            ex = {}
            for m, tag, d, case, known in self.violations:
                key = (case[0] if case else '', m[:90], tag, str(d.get('cls')) if os.environ['MC_SUM'] == '3' else '', str(d.get('config'))[:70])
                cnt[key] += 1
                ex.setdefault(key, (case, d))
            for key, n in sorted(cnt.items(), key=lambda x: str(x)):
                print(n, key)
                if os.environ.get('MC_SUM') == '2':
                    print('      ', json.dumps(_jsonable(ex[key][0]))[:300], json.dumps(ex[key][1])[:700])
            bad = bad[:int(os.environ.get("MC_KEEP", "1"))]
        for k, (m, tag, d, case, known) in enumerate(bad):
            path = os.path.join(evdir, 'replays', '%s-%d.json' % (self.pid, k))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'message': m, 'tag': tag, 'detail': d,
                           'case': _jsonable(case),
                           'how': 'python checks/%s --replay %s' % (
                               os.path.basename(sys.argv[0]), path)}, f, indent=1)
            if k < 10:
                print('  case=%s' % (json.dumps(_jsonable(case))[:600],))
                print('  %s %s' % (m[:600], json.dumps(d)[:900]))
            if k < 5:
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
        sys.stdout.flush()
        if not bad and self.ncases == 0:
            print('no cases were run')
            sys.exit(2 if not self.args.replay else 0)
        sys.exit(1 if bad else 0)
