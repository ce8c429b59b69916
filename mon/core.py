"""Verdict engine shared by every check.

A check module provides

  PID        property id
  RULE       how cases are made / what makes one non-trivial
  QUICK, THOROUGH   number of generated cases per tier
  REQUIRED   {counter: minimum}: what the monitors must have observed, else the
             run is inconclusive (exit 3), never "held"
  gen(rng, i)        -> JSON-able case
  judge(case, mon)   -> drives the real code and raises Violation when the
                        oracle refutes the property on that execution

`mon` is a Monitor: mon.count(name, n) records observed events and
mon.seen(kind, value) records distinct states.

Verdicts are three-valued: 0 held on everything explored, 1 violated (with a
replay file), 3 inconclusive (watchdog fired early or counters too low).
"""
import importlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Violation(Exception):
    """The oracle refutes the property on the observed execution."""

    def __init__(self, key, msg):
        Exception.__init__(self, '%s: %s' % (key, msg))
        self.key = key
        self.msg = msg


class Monitor(object):
    """Records what the oracle observed."""

    def __init__(self):
        self.counters = {}
        self.states = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, kind, value):
        s = self.states.setdefault(kind, set())
        if len(s) < 200000:
            s.add(value if isinstance(value, (str, int)) else repr(value))

    def merge(self, other):
        for k, v in other.counters.items():
            self.count(k, v)
        for k, v in other.states.items():
            self.states.setdefault(k, set()).update(v)


def require(cond, key, msg):
    if not cond:
        raise Violation(key, msg() if callable(msg) else msg)


def scratch():
    """A scratch directory for one process, removed by cleanup()."""
    return tempfile.mkdtemp(prefix='verif_mon_')


class Hang(Exception):
    """The code under test did not come back (cases take milliseconds)."""


def _alarm(signum, frame):
    raise Hang()


HANG_S = 100


def run_case(mod, case, mon):
    """Returns None or (key, message)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG_S)
    try:
        mod.judge(case, mon)
        return None
    except Violation as v:
        return (v.key, v.msg)
    except Hang:
        return ('no-termination', 'the case was still running after %d s' % HANG_S)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:     # the code under test (or its result) blew up
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-6:]
        inrepo = [f for f in tb if '/gerber/' in f.filename.replace('\\', '/')]
        site = ('%s.%s' % (os.path.basename(inrepo[-1].filename), inrepo[-1].name)) if inrepo else 'oracle'
        return ('raised:%s@%s' % (type(e).__name__, site),
                '%s: %s [%s]' % (type(e).__name__, e, ' < '.join(reversed(where))))
    finally:
        signal.alarm(0)


def case_rng(seed, pid, i):
    return random.Random('%s|%s|%d' % (seed, pid, i))


def _worker(args):
    modname, seed, idxs, deadline, workdir = args
    mod = importlib.import_module(modname)
    os.chdir(workdir)
    tempfile.tempdir = workdir
    sys.stdout = open(os.devnull, 'w')      # (the code under test prints notes)
    mon = Monitor()
    fails = []
    done = 0
    sigs = set()
    samples = []
    for i in idxs:
        if time.time() > deadline:
            break
        case = mod.gen(case_rng(seed, mod.PID, i), i)
        r = run_case(mod, case, mon)
        done += 1
        sig = mod.signature(case) if hasattr(mod, 'signature') else json.dumps(case, sort_keys=True)
        if sig is not None:
            sigs.add(hash(sig))
        if len(samples) < 1:
            samples.append(case)
        if r is not None:
            fails.append((i, case, r[0], r[1]))
            if len(fails) >= 3:
                break
    return done, mon, fails, sigs, samples


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        data = json.load(f)
    return [k for k in data.get('known', []) if k['property'] == pid]


def main(argv):
    pid = argv[0]
    modname = 'mon.checks.' + pid.lower()
    mod = importlib.import_module(modname)
    if len(argv) > 2 and argv[1] == '--replay':
        with open(argv[2]) as f:
            rec = json.load(f)
        wd = scratch()
        try:
            os.chdir(wd)
            r = run_case(mod, rec['case'], Monitor())
        finally:
            os.chdir('/')
            shutil.rmtree(wd, ignore_errors=True)
        if r is None:
            print('replay: property %s holds on this case' % pid)
            return 0
        print('replay: %s: %s' % r)
        return 1
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    n = mod.QUICK if tier == 'quick' else mod.THOROUGH
    limit = 300 if tier == 'quick' else 660
    t0 = time.time()
    workdir = scratch()
    rc = 2
    try:
        rc = _run(mod, modname, pid, tier, seed, n, t0, limit, workdir)
    finally:
        os.chdir('/')
        shutil.rmtree(workdir, ignore_errors=True)
    return rc


def _run(mod, modname, pid, tier, seed, n, t0, limit, workdir):
    mon = Monitor()
    violations = []
    fixed_cases = mod.fixed() if hasattr(mod, 'fixed') else []
    # pinned witnesses of recorded findings
    known_keys = []
    os.chdir(workdir)
    for k in load_known(pid):
        r = run_case(mod, k['case'], Monitor())
        if r is not None and r[0] == k['key']:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            known_keys.append(k['id'])
        elif r is not None:
            violations.append((-1, k['case'], r[0], r[1]))
    # fixed regression / corner cases
    sigs = set()
    done = 0
    for i, case in enumerate(fixed_cases):
        r = run_case(mod, case, mon)
        done += 1
        sig = mod.signature(case) if hasattr(mod, 'signature') else json.dumps(case, sort_keys=True)
        if sig is not None:
            sigs.add(hash(sig))
        if r is not None:
            violations.append((i - 100000, case, r[0], r[1]))
            if len(violations) >= 3:
                break
    nproc = getattr(mod, 'NPROC', 6)
    samples = []
    if not violations:
        deadline = t0 + limit
        jobs = []
        for w in range(nproc):
            wd = os.path.join(workdir, 'w%d' % w)
            os.mkdir(wd)
            jobs.append((modname, seed, range(w, n, nproc), deadline, wd))
        ctx = multiprocessing.get_context('fork')
        pool = ctx.Pool(nproc)
        try:
            results = [pool.apply_async(_worker, (j,)) for j in jobs]
            for r in results:
                # a hang inside the code under test is a separate, generous watchdog
                d, m, fails, s, smp = r.get(timeout=max(1, deadline + 120 - time.time()))
                done += d
                mon.merge(m)
                violations.extend(fails)
                sigs |= s
                samples.extend(smp)
        except multiprocessing.TimeoutError:
            print('INCONCLUSIVE property=%s watchdog: a worker did not finish' % pid)
            pool.terminate()
            _evidence(mod, pid, tier, seed, done, sigs, mon, samples, t0, len(violations), known_keys)
            return 3
        finally:
            pool.terminate()
            pool.join()
    _evidence(mod, pid, tier, seed, done, sigs, mon, samples or fixed_cases[:1], t0, len(violations), known_keys)
    if violations:
        violations.sort(key=lambda v: v[0])
        rd = os.path.join(VERIF, 'replays', pid)
        if not os.path.isdir(rd):
            os.makedirs(rd)
        for i, case, key, msg in violations[:3]:
            path = os.path.join(rd, 'case_%s_%s_%d.json' % (tier, seed, i if i >= 0 else -i))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'seed': seed, 'index': i, 'key': key,
                           'message': msg, 'case': case}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s: %s' % (key, str(msg)[:1500]))
        return 1
    low = [(k, mon.counters.get(k, 0), v) for k, v in getattr(mod, 'REQUIRED', {}).items()
           if mon.counters.get(k, 0) < v]
    if low:
        print('INCONCLUSIVE property=%s monitors observed too little: %s' % (pid, low))
        return 3
    print('HELD property=%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs events=%s' % (
        pid, tier, seed, done, len(sigs), time.time() - t0,
        json.dumps(mon.counters, sort_keys=True)))
    return 0


def _evidence(mod, pid, tier, seed, done, sigs, mon, samples, t0, nviol, known):
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': json.loads(json.dumps(samples[:3]))[:3],
            'monitor_events': mon.counters,
            'distinct_states': dict((k, len(v)) for k, v in mon.states.items()),
            'state_samples': dict((k, sorted(map(str, v))[:12]) for k, v in mon.states.items()),
            'known_findings_reproduced': known,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': nviol,
    }
    d = os.path.join(VERIF, 'evidence')
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)


