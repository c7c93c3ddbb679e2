"""Common machinery: seeded workloads, monitors, verdicts, evidence, replay.

A check module (checks/cNN.py) lists workloads.  A workload is a function
``wl(rng, mon)``: it generates one case from ``rng``, drives the real CTL code
with it, and reports what it saw to the monitor ``mon``.  The deciding step is
always ``mon.check(...)`` / ``mon.equal(...)`` on an observed execution.
"""
import os, sys, json, time, signal, traceback, warnings, hashlib, random, argparse
import multiprocessing as mp
import concurrent.futures as cf
import resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MEM_LIMIT = 6 << 30
CPU_BUDGET = 60          # CPU seconds for ONE case (cases normally take milliseconds)


class Violation(Exception):
    pass


class Budget(BaseException):
    pass


class Skip(Exception):
    """The generated case is outside the property (counted, never a verdict)."""


class Monitor:
    """Collects observations of one case and raises Violation on the first breach."""

    def __init__(self):
        self.unit = 1.0        # smallest scale values are compared at
        self.obs = {}          # observation counters (kind of event -> count)
        self.sig = None        # signature of the case; None = trivial
        self.desc = None       # human readable description of the case
        self.detail = None
        self.log = []          # event log (kept short; written into replay files)

    def event(self, kind, n=1):
        self.obs[kind] = self.obs.get(kind, 0) + n

    def note(self, desc, *sig):
        """Describe the case and give its non-triviality signature."""
        self.desc = desc
        self.detail = short(sig, 240)
        self.sig = hashlib.sha1(repr((desc,) + sig).encode()).hexdigest()[:16]

    def trace(self, *what):
        self.log.append(' '.join(str(w) for w in what))
        if len(self.log) > 400:
            del self.log[:100]

    def check(self, cond, msg, kind='assertion'):
        self.event(kind)
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def equal(self, got, want, msg='', tol=1e-9, kind='value_compared', scale=None):
        import numpy as np
        self.event(kind)
        try:
            got = np.asarray(got)
            want = np.asarray(want)
        except Exception as e:
            raise Violation('{}: cannot read result as array: {!r}'.format(msg, e))
        if got.dtype == object:
            raise Violation('{}: result is not numeric: {!r}'.format(msg, got))
        if got.shape != want.shape:
            raise Violation('{}: shape {} observed, {} expected'.format(msg, got.shape, want.shape))
        if got.size == 0:
            return
        if not np.all(np.isfinite(got)):
            raise Violation('{}: non finite values observed: {}'.format(msg, short(got)))
        if scale is None:
            scale = max(self.unit, float(np.max(np.abs(want))), 1e-300)
        else:
            scale = max(float(scale), float(np.max(np.abs(want))), 1e-300)
        d = float(np.max(np.abs(got - want)))
        if not d <= tol * scale:
            raise Violation('{}: differs by {:.3g} (scale {:.3g}); observed {} expected {}'.format(
                msg, d, scale, short(got), short(want)))

    def raises(self, exc, fn, msg, kind='rejection_observed'):
        self.event(kind)
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            raise Violation('{}: raised {!r} instead of {}'.format(msg, e, exc))
        raise Violation('{}: accepted (returned {}), {} expected'.format(msg, short(r), exc))


def short(x, n=300):
    s = repr(x).replace('\n', ' ')
    return s if len(s) <= n else s[:n] + '...'


def _alarm(signum, frame):
    raise Budget()


def case_rng(prop, wl, seed, index):
    import numpy as np
    h = int(hashlib.sha1('{}/{}'.format(prop, wl).encode()).hexdigest()[:8], 16)
    return np.random.default_rng([int(seed), h, int(index)])


def run_case(prop, wlname, fn, seed, index):
    """-> dict with the verdict on one execution."""
    import numpy as np
    rng = case_rng(prop, wlname, seed, index)
    np.random.seed(int(rng.integers(2**31)))
    random.seed(int(rng.integers(2**31)))
    mon = Monitor()
    out = {'wl': wlname, 'index': index, 'violation': None}
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_BUDGET)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                fn(rng, mon)
    except Violation as e:
        out['violation'] = str(e)
    except Skip:
        out['skip'] = True
    except Budget:
        out['violation'] = 'no result after {} CPU seconds on a case of this size (milliseconds are usual)'.format(CPU_BUDGET)
    except MemoryError as e:
        out['violation'] = 'MemoryError {}'.format(e)
    except RecursionError as e:
        out['violation'] = 'RecursionError'
        out['tb'] = ''.join(traceback.format_exc().splitlines(True)[-12:])
    except Exception as e:
        out['violation'] = 'unexpected {}: {}'.format(type(e).__name__, short(e))
        out['tb'] = traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    out['obs'] = mon.obs
    out['sig'] = mon.sig
    out['desc'] = mon.desc
    out['detail'] = mon.detail
    if out['violation']:
        out['log'] = mon.log[-120:]
    return out


_COV = {}


def start_coverage(root):
    """Record which CTL functions the workloads really entered (sys.monitoring; each
    code object reports once, then disables itself: negligible cost)."""
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    try:
        mon.use_tool_id(tool, 'vcov')
    except ValueError:
        return

    def cb(code, off):
        if code.co_filename.startswith(root):
            _COV[code.co_filename[len(root):].lstrip('/') + ':' + code.co_qualname] = 1
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, cb)
    mon.set_events(tool, mon.events.PY_START)


def _mute():
    """what the observed code prints is no verdict of this harness"""
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 1)
    os.close(n)


def _worker(args):
    prop, module, seed, jobs, wall = args
    import importlib
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))   # runaway case -> MemoryError, not a dead box
    mod = importlib.import_module(module)
    table = {w[0]: w[1] for w in mod.WORKLOADS}
    agg = {'n': 0, 'skip': 0, 'obs': {}, 'sigs': set(), 'viol': [], 'samples': [], 'per': {}, 'truncated': 0}
    t0 = time.monotonic()
    for wl, lo, hi in jobs:
        for i in range(lo, hi):
            if time.monotonic() - t0 > wall:
                agg['truncated'] += 1
                continue
            r = run_case(prop, wl, table[wl], seed, i)
            if r.get('skip'):
                agg['skip'] += 1
                continue
            agg['n'] += 1
            agg['per'][wl] = agg['per'].get(wl, 0) + 1
            for k, v in r['obs'].items():
                agg['obs'][wl + '.' + k] = agg['obs'].get(wl + '.' + k, 0) + v
            if r['sig']:
                agg['sigs'].add(r['sig'])
                if len(agg['samples']) < 30 and i in (lo, lo + (hi - lo) // 2):
                    agg['samples'].append({'workload': wl, 'case': i, 'what': r['desc'], 'detail': r['detail'], 'observed': r['obs']})
            if r['violation']:
                agg['viol'].append(r)
                if len(agg['viol']) >= 5:
                    agg['cov'] = list(_COV)
                    return agg
    agg['cov'] = list(_COV)
    return agg


def load_findings():
    p = os.path.join(VERIF, 'known_findings.txt')
    known = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                f = line.split(None, 3)      # known: property=C01 mechanism=xyz text
                known.append((f[1].split('=')[1], f[2].split('=')[1], f[3]))
    return known


def main(module):
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int)
    ap.add_argument('--tier')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 1))
    args = ap.parse_args(sys.argv[2:])
    t0 = time.monotonic()
    repo_src = os.environ.get('VERIF_REPO_SRC', '/repo/src')
    import CTL
    if not os.path.realpath(CTL.__file__).startswith(os.path.realpath(repo_src)):
        print('harness error: CTL imported from', CTL.__file__)
        return 2
    import CTL.tensor.tensor                                  # noqa (import order matters)
    mod = importlib.import_module(module)
    prop = mod.ID
    if args.replay:
        r = json.load(open(args.replay))
        table = {w[0]: w[1] for w in mod.WORKLOADS}
        out = run_case(prop, r['workload'], table[r['workload']], r['seed'], r['case'])
        print(json.dumps(out, indent=1, default=str))
        return 1 if out['violation'] else 0

    seed = args.seed if args.seed is not None else int(os.environ.get('VERIF_SEED', '1'))
    tier = args.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    start_coverage(os.path.join(os.path.realpath(repo_src), 'CTL'))
    wall = 420 if tier == 'quick' else 3000
    jobs = [[] for _ in range(args.j)]
    planned = 0
    for w in mod.WORKLOADS:
        name, fn, quick, thorough = w[:4]
        if args.only and args.only != name:
            continue
        n = max(1, int((quick if tier == 'quick' else thorough) * args.scale * getattr(mod, 'FACTOR', 1)))
        planned += n
        per = -(-n // args.j)
        for k in range(args.j):
            lo, hi = k * per, min(n, (k + 1) * per)
            if lo < hi:
                jobs[(k + hash_small(name)) % args.j].append((name, lo, hi))
    ctx = mp.get_context('fork')
    try:
        with cf.ProcessPoolExecutor(args.j, mp_context=ctx, initializer=_mute) as pool:
            aggs = list(pool.map(_worker, [(prop, module, seed, j, wall) for j in jobs if j], chunksize=1))
    except cf.process.BrokenProcessPool:
        print('INCONCLUSIVE: a worker process died')
        return 2
    n = sum(a['n'] for a in aggs)
    obs, per, sigs, viol, samples, cov = {}, {}, set(), [], [], set()
    for a in aggs:
        for k, v in a['obs'].items():
            obs[k] = obs.get(k, 0) + v
        for k, v in a['per'].items():
            per[k] = per.get(k, 0) + v
        sigs |= a['sigs']
        viol += a['viol']
        samples += a['samples']
        cov |= set(a['cov'])
    truncated = sum(a['truncated'] for a in aggs)
    skipped = sum(a['skip'] for a in aggs)

    # ---- known findings: probed individually, never part of the generated workload
    known_out = []
    for p, mech, text in load_findings():
        if p != prop:
            continue
        probe = getattr(mod, 'KNOWN', {}).get(mech)
        if probe is None:
            print('harness error: no probe for known finding', mech)
            return 2
        r = run_case(prop, 'known:' + mech, probe, seed, 0)
        if r['violation']:
            known_out.append('KNOWN-FINDING: property={} {}'.format(prop, text))
        else:
            known_out.append('note: listed finding no longer reproduces: {} {}'.format(prop, mech))

    missing = []
    if not args.only:
        for k in getattr(mod, 'REQUIRED_OBS', []):
            if obs.get(k, 0) == 0:
                missing.append(k)
        for w in mod.WORKLOADS:
            if per.get(w[0], 0) == 0:
                missing.append('workload ' + w[0])
    viol.sort(key=lambda r: (r['wl'], r['index']))
    pick, seen = [], {}
    for q in samples:          # at most two per workload
        if seen.setdefault(q['workload'], 0) < 2:
            seen[q['workload']] += 1
            pick.append(q)
    samples = pick[:24]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': n,
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': samples,
            'executions_per_workload': per,
            'monitor_events': dict(sorted(obs.items())),
            'monitor_events_total': sum(obs.values()),
            'ctl_functions_entered': len(cov),
            'ctl_functions': sorted(c for c in cov if '<' not in c)[:150],
            'cases_outside_property_skipped': skipped,
            'cases_not_run_wall_cap': truncated,
            'planned': planned,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'violations': len(viol),
        'wall_s': round(time.monotonic() - t0, 2),
    }
    edir = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(edir, exist_ok=True)
    tmp = os.path.join(edir, '.{}.json.{}'.format(prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(edir, prop + '.json'))
    for k in known_out:
        print(k)
    print('{} {} seed={} cases={} distinct={} monitor_events={} functions={} wall={:.1f}s'.format(
        prop, tier, seed, n, len(sigs), sum(obs.values()), len(cov), time.monotonic() - t0))
    if viol:
        rdir = os.path.join(edir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        v = viol[0]
        path = os.path.join(rdir, '{}-{}-{}-{}.json'.format(prop, v['wl'].replace(':', '_'), seed, v['index']))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'workload': v['wl'], 'seed': seed, 'case': v['index'],
                       'how': './run.sh {} --replay {}'.format(prop, path),
                       'violation': v['violation'], 'desc': v['desc'], 'log': v.get('log'), 'tb': v.get('tb')},
                      f, indent=1, default=str)
        for v2 in viol[:8]:
            print('  [{}#{}] {} :: {}'.format(v2['wl'], v2['index'], short(v2['desc'], 200), v2['violation'][:400]))
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if missing:
        print('INCONCLUSIVE: monitors never reached: {}'.format(missing))
        return 2
    if n == 0:
        print('INCONCLUSIVE: nothing ran')
        return 2
    return 0


def hash_small(s):
    return int(hashlib.sha1(s.encode()).hexdigest()[:6], 16)


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.join(VERIF, 'lib'))
    # the module must be importable under its real name by the worker processes
    import harness
    rc = harness.main(sys.argv[1])
    sys.stdout.flush()
    os._exit(rc)
