"""Runs a check on all cores, shrinks and stores violations, writes the evidence."""
import hashlib
import json
import mmap
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback

from . import harness
from .model import Opt
from .reach import Reach

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('KV_WORKERS', '8'))


class Violation(Exception):
    pass


class Hang(Exception):
    pass


def unpack(x):
    """JSON form -> case (bytes are stored as {'hex': ...})."""
    if isinstance(x, dict):
        if set(x) == {'hex'}:
            return bytes.fromhex(x['hex'])
        if set(x) == {'opt'}:
            return Opt(x['opt'])
        return {k: unpack(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unpack(v) for v in x]
    return x


def pack(x):
    if isinstance(x, Opt):
        return {'opt': dict(x)}
    if isinstance(x, (bytes, bytearray)):
        return {'hex': bytes(x).hex()}
    if isinstance(x, dict):
        return {k: pack(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [pack(v) for v in x]
    return x


class Check:
    """Base class. A case is a dict of plain values, bytes and Opt."""
    ID = None
    LEVEL = 'exploration'
    BUDGET = {'quick': 24, 'thorough': 600}
    LIBRARY = False       # runs in the worker itself; hangs are interrupted
    RULE = ''
    REACH = True          # record the lines that run (evidence)

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.thorough = tier == 'thorough'
        self.counts = {}
        self.seen = set()
        self.maxima = {}

    # -- to be implemented
    def fixed(self):
        """Cases always run (list)."""
        return []

    def generate(self, rng, i):
        raise NotImplementedError

    def judge(self, case):
        """Execute and decide; raise Violation."""
        raise NotImplementedError

    # -- services
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def peak(self, name, v):
        self.maxima[name] = max(self.maxima.get(name, v), v)

    def nontrivial(self, *key):
        self.seen.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def fail(self, msg):
        raise Violation(msg)

    def run(self, argv, data=b'', **kw):
        self.count('application_runs')
        r = harness.run(argv, data, **kw)
        self.count('output_bytes_observed', len(r.out))
        return r

    def run_ok(self, argv, data=b'', **kw):
        r = self.run(argv, data, **kw)
        b = r.bad()
        if b:
            self.fail('run %s: %s' % (' '.join(map(str, argv)), b))
        return r

    def rng(self, i):
        return random.Random('%s:%s:%s' % (self.ID, self.seed, i))


def attempt(check, case):
    """Violation message or None."""
    if check.LIBRARY:
        signal.setitimer(signal.ITIMER_PROF, 30)
    try:
        check.judge(case)
        return None
    except Violation as e:
        return str(e)
    except Hang:
        return 'no end within 30 s of CPU time'
    except harness.HarnessError:
        raise
    except RecursionError as e:
        return 'exception %r' % e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if tb and tb[-1].filename.startswith(harness.REPO + '/') or \
                any(f.filename.startswith(harness.REPO + '/') for f in tb):
            return 'unexpected exception %r at %s:%s' % (e, tb[-1].filename, tb[-1].lineno)
        if check.LIBRARY and isinstance(e, (AttributeError, TypeError)) and 'NoneType' in str(e):
            return 'nothing returned where a value was expected: %r at %s:%s' % (e, tb[-1].filename, tb[-1].lineno)
        raise
    finally:
        if check.LIBRARY:
            signal.setitimer(signal.ITIMER_PROF, 0)


def on_prof(*_):
    raise Hang()


def shrink(check, case, msg, seconds):
    """Greedy reduction of bytes/str/list fields and options."""
    end = time.monotonic() + seconds
    best = case
    if 'big' in case:
        return case, msg

    def still(c):
        nonlocal msg
        if time.monotonic() > end:
            return False
        try:
            m = attempt(check, c)
        except Exception:
            return False
        if m:
            msg = m
            return True
        return False

    def reduce_seq(get, put):
        nonlocal best
        n = 2
        while time.monotonic() < end:
            x = get(best)
            if len(x) < 1:
                return
            step = max(1, len(x) // n)
            done = False
            for p in range(0, len(x), step):
                y = x[:p] + x[p + step:]
                c = put(best, y)
                if c is not None and still(c):
                    best = c
                    done = True
                    break
            if not done:
                if step == 1:
                    return
                n = min(n * 2, len(x))

    fixed = getattr(check, 'NOSHRINK', ())
    for _ in range(2):
        for k in list(best):
            if k in fixed:
                continue
            v = best[k]
            if isinstance(v, Opt):
                for ok in [x for x in v if x not in ('b', 'D')]:
                    c = {**best, k: Opt({a: b for a, b in best[k].items() if a != ok})}
                    if still(c):
                        best = c
            elif isinstance(v, (bytes, list)):
                reduce_seq(lambda b, k=k: b[k], lambda b, y, k=k: {**b, k: y})
    return best, msg


def worker(check, w, flag, deadline, out_path, reach=None):
    harness.setup()
    if reach:
        reach.start()
    signal.signal(signal.SIGPROF, on_prof)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    res = {'cases': 0, 'fixed': 0, 'violation': None, 'error': None, 'samples': [], 'last': -1, 'unreproduced': 0}
    try:
        fixed = check.fixed()
        i = w
        while True:
            is_fixed = i < len(fixed)
            if flag[0] or (time.monotonic() > deadline and not is_fixed):
                break
            if time.monotonic() > deadline + 400:
                break
            if is_fixed:
                case = fixed[i]
            else:
                case = check.generate(check.rng(i), i - len(fixed))
                if case is None:
                    break
            if reach:
                reach.on(is_fixed or res['cases'] % 10 == 0)
            msg = attempt(check, case)
            res['cases'] += 1
            res['fixed'] += is_fixed
            if len(res['samples']) < 2 and not is_fixed:
                res['samples'].append(case)
            if msg:
                if not any(attempt(check, case) for _ in range(3)):
                    res['unreproduced'] += 1
                    res.setdefault('unreproduced_cases', []).append((msg, case))
                else:
                    flag[0] = 1
                    small, msg = shrink(check, case, msg, 25)
                    res['violation'] = (msg, small, i)
                    break
            i += WORKERS
    except Exception:
        res['error'] = traceback.format_exc()
        flag[0] = 1
    finally:
        res.update(counts=check.counts, seen=check.seen, maxima=check.maxima)
        with open(out_path, 'wb') as f:
            pickle.dump(res, f)
        harness.cleanup()


def known(prop):
    """Listed findings: lines 'finding: property=<id> <key> <what fails>'."""
    res = []
    try:
        for line in open(os.path.join(VERIF, 'known-findings.txt')):
            if line.startswith('finding: property=%s ' % prop):
                res.append(line.strip().split(' ', 2)[2])
    except FileNotFoundError:
        pass
    return res


def clip(x, n=160):
    if isinstance(x, dict) and set(x) == {'hex'}:
        return x if len(x['hex']) <= n else {'hex': x['hex'][:n] + '...', 'length': len(x['hex']) // 2}
    if isinstance(x, dict):
        return {k: clip(v, n) for k, v in x.items()}
    if isinstance(x, list):
        r = [clip(v, n) for v in x[:12]]
        return r if len(x) <= 12 else r + ['... %d items' % len(x)]
    if isinstance(x, str) and len(x) > 400:
        return x[:400] + '...'
    return x


def main(cls, replay=None):
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    check = cls(tier, seed)
    if replay:
        harness.setup()
        signal.signal(signal.SIGPROF, on_prof)
        doc = json.load(open(replay))
        msg = attempt(check, unpack(doc['case']))
        harness.cleanup()
        if msg:
            print(msg)
            print('VIOLATION property=%s replay=%s' % (check.ID, replay))
            return 1
        print('held on the replayed case')
        return 0

    t0 = time.monotonic()
    budget = float(os.environ.get('KV_BUDGET', 0)) or check.BUDGET[tier]
    flag = mmap.mmap(-1, 1)
    reach = Reach(os.path.realpath(harness.REPO)) if check.REACH else None
    tmp = harness.scratch()
    pids = []
    for w in range(WORKERS):
        path = os.path.join(tmp, 'w%d' % w)
        pid = os.fork()
        if pid == 0:
            try:
                worker(check, w, flag, t0 + budget, path, reach)
            finally:
                os._exit(0)
        pids.append((pid, path))
    results = []
    for pid, path in pids:
        os.waitpid(pid, 0)
        try:
            results.append(pickle.load(open(path, 'rb')))
        except Exception as e:
            results.append({'error': 'worker died: %r' % e})
    errors = [r['error'] for r in results if r.get('error')]
    results = [r for r in results if 'counts' in r]
    viol = sorted((r['violation'] for r in results if r.get('violation')), key=lambda v: v[2])
    counts, seen, maxima, samples, unrep = {}, set(), {}, [], []
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r['maxima'].items():
            maxima[k] = max(maxima.get(k, v), v)
        seen |= r['seen']
        samples += r['samples']
        unrep += r.get('unreproduced_cases', [])
    wall = time.monotonic() - t0
    coverage = {
        'evaluations': sum(r['cases'] for r in results),
        'distinct_nontrivial': len(seen),
        'rule': check.RULE,
        'samples': [clip(pack(s)) for s in samples[:3]],
        'always_run_cases': sum(r['fixed'] for r in results),
        'monitor': counts,
        'maxima': maxima,
        'unreproduced': len(unrep),
    }
    if not coverage['samples']:
        coverage['samples'] = [clip(pack(c)) for c in check.fixed()[:3]]
    if reach:
        coverage['lines_run'], coverage['lines_in_functions'], missed = reach.report()
        if os.environ.get('KV_REACH'):
            with open(os.path.join(os.environ['KV_REACH'], check.ID), 'w') as f:
                json.dump(missed, f)
    if unrep:
        coverage['unreproduced_messages'] = [m[:300] for m, _ in unrep[:3]]
    evidence = {'property': check.ID, 'tier': tier, 'seed': seed, 'level': check.LEVEL, 'coverage': coverage,
                'assumptions': check.ASSUMPTIONS if hasattr(check, 'ASSUMPTIONS') else [],
                'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.ID + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
    harness.cleanup()
    for line in known(check.ID):
        print('KNOWN-FINDING: property=%s %s' % (check.ID, line))
    print('%s %s: %d cases, %d distinct non-trivial, %.1fs, %s' % (
        check.ID, tier, coverage['evaluations'], coverage['distinct_nontrivial'], wall,
        ', '.join('%s=%s' % kv for kv in sorted({**counts, **maxima}.items()))))
    if viol:
        msg, case, i = viol[0]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (check.ID, seed, i))
        with open(path, 'w') as f:
            json.dump({'property': check.ID, 'index': i, 'seed': seed, 'tier': tier, 'message': msg,
                       'case': pack(case)}, f, indent=1)
        print(msg[:1500])
        print('VIOLATION property=%s replay=%s' % (check.ID, path))
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        return 2
    if not coverage['evaluations']:
        print('nothing was evaluated', file=sys.stderr)
        return 2
    return 0
