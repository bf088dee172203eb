"""
Shared runtime-monitoring framework.

A check is a set of *case functions*.  Each case function drives the real code
of /repo/src/cssrlib with a workload derived from a per-case random stream and
feeds everything it observes to an oracle through the Case object `c`:

  c.ok(cond, sig, msg)   one oracle decision (an evaluation)
  c.close(a, b, tol, sig, msg)   numerical agreement (nan == nan)
  c.seen(key)            marks a distinct non-trivial situation that was driven
  c.sample(obj)          a written-out case for the evidence file

The runner distributes the cases over worker processes, records which lines of
the anchored source files were executed (sys.monitoring), applies a CPU-time
watchdog, classifies violations against known_findings.txt, writes the evidence
file and prints the verdict.
"""
import sys
import os
import json
import time
import signal
import random
import hashlib
import tempfile
import shutil
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
sys.path.insert(0, SRC)
sys.dont_write_bytecode = True

DATA = os.path.join(SRC, 'cssrlib', 'data')


class CaseTimeout(BaseException):
    pass


class Stop(BaseException):
    """ case ends early (not a violation) """


class Case():
    """ monitor state of a single case """

    def __init__(self, name, idx, seed):
        self.name, self.idx, self.seed = name, idx, seed
        self.rng = random.Random(f"{seed}/{name}/{idx}")
        self.evals = 0
        self.keys = set()
        self.viol = []
        self.samples = []
        self._np = None
        self._tmp = None

    @property
    def np(self):
        if self._np is None:
            import numpy
            h = hashlib.sha256(f"{self.seed}/{self.name}/{self.idx}".encode())
            self._np = numpy.random.default_rng(
                int.from_bytes(h.digest()[:8], 'big'))
        return self._np

    @property
    def tmp(self):
        """ scratch directory of this case """
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='cssrmon_')
        return self._tmp

    def close_tmp(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def fail(self, sig, msg):
        self.viol.append((sig, str(msg)[:2000]))

    def ok(self, cond, sig, msg=''):
        self.evals += 1
        if not cond:
            self.fail(sig, msg() if callable(msg) else msg)
            return False
        return True

    def eq(self, a, b, sig, msg=''):
        self.evals += 1
        if not (a == b):
            self.fail(sig, f"{msg}: observed {a!r}, expected {b!r}")
            return False
        return True

    def close(self, a, b, tol, sig, msg='', rtol=0.0):
        """ |a-b| <= tol + rtol*|b| element-wise; nan only equals nan """
        import numpy as np
        self.evals += 1
        try:
            a_ = np.asarray(a, dtype=float)
            b_ = np.asarray(b, dtype=float)
        except Exception as e:
            self.fail(sig, f"{msg}: not numerical: {a!r} vs {b!r} ({e})")
            return False
        if a_.shape != b_.shape:
            self.fail(sig, f"{msg}: shape {a_.shape} vs {b_.shape}: "
                      f"observed {a!r}, expected {b!r}")
            return False
        na, nb = np.isnan(a_), np.isnan(b_)
        if (na != nb).any():
            self.fail(sig, f"{msg}: nan mismatch: observed {a!r}, "
                      f"expected {b!r}")
            return False
        m = ~na
        with np.errstate(all='ignore'):
            d = np.abs(a_[m]-b_[m])
            lim = tol+rtol*np.abs(b_[m])
            bad = ~((d <= lim) | (a_[m] == b_[m]))
        if bad.any():
            self.fail(sig, f"{msg}: observed {a!r}, expected {b!r}, "
                      f"tol {tol:g}, err {np.nanmax(d) if d.size else 0:g}")
            return False
        return True

    def seen(self, *key):
        self.keys.add('/'.join(str(k) for k in key))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(str(s)[:400])


# repetitions of the quick tier, so that each check takes about 15 s
QUICK = dict(C01=5, C02=6, C03=6, C04=6, C05=6, C06=6, C07=3, C08=6, C09=6,
             C10=6, C11=6, C12=6, C13=6, C14=6, C15=6, C16=6, C17=6, C18=5,
             C19=1, C20=1, C21=6, C22=6, C23=6, C24=3, C25=4, C26=4, C27=6,
             C28=6, C29=6, C30=6, C31=6, C32=2, C33=4, C34=2, C35=6, C36=4,
             C37=5, C38=4, C39=1, C40=4, C41=4, C42=4, C43=4, C44=3)


class Check():
    def __init__(self, pid, files, rule, assumptions=()):
        self.pid = pid
        self.files = files
        self.rule = rule
        self.assumptions = list(assumptions)
        self.cases = []    # (name, fn, nquick, nthorough, cpu limit)

    def case(self, quick, thorough=None, cpu=60.0, minseen=1):
        def deco(fn):
            self.cases.append((fn.__name__, fn, quick,
                               thorough if thorough is not None else quick*20,
                               cpu, minseen))
            return fn
        return deco


_lines = set()
_files = ()


def _start_cov(files):
    """ record executed lines of the monitored files """
    global _files
    _files = tuple(os.path.join(REPO, f) for f in files)
    mon = sys.monitoring
    tid = mon.COVERAGE_ID
    try:
        mon.use_tool_id(tid, 'cssrmon')
    except ValueError:
        return

    def on_line(code, line):
        if code.co_filename in _files:
            _lines.add((code.co_filename, line))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.LINE, on_line)
    mon.set_events(tid, mon.events.LINE)


def _alarm(signum, frame):
    raise CaseTimeout()


class _Quiet():
    """ silence stdout/stderr of the code under test """

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = open(os.devnull, 'w')

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout, sys.stderr = self.o, self.e


def run_case(chk, name, idx, seed):
    for n, fn, _, _, cpu, _ in chk.cases:
        if n == name:
            break
    else:
        raise KeyError(name)
    c = Case(name, idx, seed)
    random.seed(f"g{seed}/{name}/{idx}")
    try:
        import numpy as np
        np.random.seed(abs(hash((name, idx, seed))) % (2**31))
    except ImportError:
        pass
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu, 1.0)
    try:
        with _Quiet():
            fn(c)
    except Stop:
        pass
    except CaseTimeout:
        signal.setitimer(signal.ITIMER_PROF, 0)
        c.fail('nontermination',
               f"no result within {cpu:.0f} s of CPU time in {name}")
    except Exception as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        tb = traceback.extract_tb(e.__traceback__)
        fr = [f for f in tb if f.filename.startswith(SRC)]
        where = fr[-1].name if fr else 'harness'
        c.fail(f"exception:{type(e).__name__}:{where}",
               ''.join(traceback.format_exception(e))[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        c.close_tmp()
    return c


_CHK = None


def _chunk(arg):
    name, lo, hi, seed, deadline = arg
    out = dict(name=name, evals=0, keys=set(), viol=[], samples=[], n=0)
    t0 = time.time()
    for i in range(lo, hi):
        if time.time() > deadline:
            break
        c = run_case(_CHK, name, i, seed)
        out['n'] += 1
        out['evals'] += c.evals
        out['keys'] |= {f"{name}:{k}" for k in c.keys}
        for sig, msg in c.viol:
            if len(out['viol']) < 20 or sig not in [v[0] for v in out['viol']]:
                out['viol'].append((sig, msg, name, i))
        if not out['samples']:
            out['samples'] += c.samples[:1]
    out['lines'] = set(_lines)
    _lines.clear()
    out['t'] = time.time()-t0
    return out


def load_known(pid):
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if not ln.startswith('finding:'):
                continue
            f = ln.split(None, 3)
            d = dict(x.split('=', 1) for x in f[1:3] if '=' in x)
            if d.get('property') == pid:
                known[d['sig']] = f[3] if len(f) > 3 else ''
    return known


def main(chk, argv):
    global _CHK
    _CHK = chk
    tier = os.environ.get('VERIF_TIER', '')
    for a in argv:
        if a in ('quick', 'thorough'):
            tier = a
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')

    if '--replay' in argv:
        r = json.load(open(argv[argv.index('--replay')+1]))
        c = run_case(chk, r['case'], r['index'], r['seed'])
        for sig, msg in c.viol:
            print(f"VIOLATION {sig}: {msg}")
        print(f"{len(c.viol)} violation(s), {c.evals} evaluations")
        return 1 if c.viol else 0

    only = None
    if '--case' in argv:
        only = argv[argv.index('--case')+1]

    t0 = time.time()
    budget = 780.0 if tier == 'quick' else 6*3600.0
    deadline = t0+float(os.environ.get('VERIF_BUDGET', budget))
    jobs = []
    nproc = int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 1)))
    _start_cov(chk.files)
    for name, fn, nq, nt, cpu, _ in chk.cases:
        if only and name != only:
            continue
        n = min(nt, nq*QUICK.get(chk.pid, 1)) if tier == 'quick' else nt
        step = max(1, min(200 if tier == 'quick' else 1000, n//(nproc*3)+1))
        for lo in range(0, n, step):
            jobs.append((name, lo, min(n, lo+step), seed, deadline))
    # long cases first
    res = []
    if nproc > 1 and len(jobs) > 1:
        ctx = mp.get_context('fork')
        with ctx.Pool(nproc) as pool:
            for r in pool.imap_unordered(_chunk, jobs):
                res.append(r)
    else:
        for j in jobs:
            res.append(_chunk(j))

    evals = sum(r['evals'] for r in res)
    ncase = sum(r['n'] for r in res)
    planned = sum(j[2]-j[1] for j in jobs)
    keys, lines = set(), set()
    per = {}
    for r in res:
        keys |= r['keys']
        lines |= r['lines']
        p = per.setdefault(r['name'], dict(cases=0, evaluations=0, s=0.0,
                                           distinct=set()))
        p['cases'] += r['n']
        p['evaluations'] += r['evals']
        p['s'] += r['t']
        p['distinct'] |= r['keys']
    for p in per.values():
        p['distinct'] = len(p['distinct'])
        p['s'] = round(p['s'], 1)
    samples = []
    for r in sorted(res, key=lambda r: (r['name'])):
        for s in r['samples'][:1]:
            if sum(1 for x in samples if x['case'] == r['name']) < 1:
                samples.append(dict(case=r['name'], observed=s))

    known = load_known(chk.pid)
    kn, new = {}, {}
    for r in sorted(res, key=lambda r: r['name']):
        for sig, msg, name, i in r['viol']:
            key = f"{name}:{sig}"
            if key in known:
                kn.setdefault(key, msg)
            else:
                new.setdefault(key, []).append((msg, name, i))

    rc = 0
    for key in kn:
        print(f"KNOWN-FINDING: property={chk.pid} {key} {known[key]}")
    if new:
        rc = 1
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for key in sorted(new):
            msg, name, i = new[key][0]
            h = hashlib.sha1(key.encode()).hexdigest()[:10]
            path = os.path.join(d, f"{chk.pid}_{h}.json")
            with open(path, 'w') as fh:
                json.dump(dict(property=chk.pid, case=name, index=i,
                               seed=seed, sig=key, count=len(new[key]),
                               message=msg,
                               how=f"./run.sh {chk.pid} --replay {path}"),
                          fh, indent=1)
            print(f"VIOLATION property={chk.pid} replay={path}")
            print(f"  {key} (x{len(new[key])}): {msg[:600]}")

    inconclusive = []
    for name, fn, _, _, _, minseen in chk.cases:
        if only and name != only:
            continue
        p = per.get(name, dict(cases=0, evaluations=0, distinct=0))
        if p['evaluations'] == 0 or p['distinct'] < minseen:
            inconclusive.append(f"{name}: {p}")

    cov = dict(
        evaluations=ncase, distinct_nontrivial=len(keys), rule=chk.rule,
        samples=samples or ['-'], oracle_decisions=evals,
        cases_planned=planned,
        per_case=per,
        source_lines_executed={
            os.path.relpath(f, REPO): sum(1 for x in lines if x[0] == f)
            for f in _files},
        known_findings_observed=sorted(kn))
    ev = dict(property=chk.pid, tier=tier, seed=seed, level='exploration',
              coverage=cov, assumptions=chk.assumptions,
              wall_s=round(time.time()-t0, 2),
              violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', f"{chk.pid}.json")
    with open(path+'.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    os.replace(path+'.tmp', path)

    print(f"{chk.pid} {tier} seed={seed}: {ncase} cases, {evals} oracle "
          f"decisions, {len(keys)} distinct situations, "
          f"{len(lines)} source lines, {time.time()-t0:.1f} s, "
          f"violations={len(new)}")
    if '-v' in argv:
        for n, p in per.items():
            print('  ', n, p)
    if rc == 0 and inconclusive:
        print("INCONCLUSIVE: monitor not reached: "+'; '.join(inconclusive))
        return 2
    return rc


# ---------------------------------------------------------------------------
# generic helpers

def snapshot(o, depth=0):
    """ deep structural value of an object (for mutation monitoring) """
    import numpy as np
    from enum import Enum
    if isinstance(o, Enum) or o is None or isinstance(
            o, (bool, int, str, bytes)):
        return o
    if isinstance(o, float):
        return 'nan' if o != o else o
    if isinstance(o, np.ndarray):
        if o.dtype.names or o.dtype == object:
            return ('nd', o.shape, repr(o.tolist()))
        return ('nd', o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, np.generic):
        return snapshot(o.item())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,)+tuple(snapshot(x, depth+1) for x in o)
    if isinstance(o, bytearray):
        return bytes(o)
    if isinstance(o, dict):
        return ('dict',)+tuple((repr(k), snapshot(v, depth+1))
                               for k, v in sorted(o.items(),
                                                  key=lambda kv: repr(kv[0])))
    if isinstance(o, (set, frozenset)):
        return ('set',)+tuple(sorted(repr(x) for x in o))
    if hasattr(o, '__dict__') and depth < 12:
        return (type(o).__name__, snapshot(vars(o), depth+1))
    return repr(type(o))
