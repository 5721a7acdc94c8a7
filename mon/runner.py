"""Runs the cases of one property, collects verdicts and writes evidence.

Verdicts are three-valued: exit 0 (held on what was observed), exit 1 with a
VIOLATION line (a witness is written to the replay file), exit 2 (inconclusive
or an error of the machinery itself).
"""
import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter
from concurrent import futures
import concurrent.futures.process  # noqa: F401

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('VP_SRC', '/repo/src')
OUT = os.environ.get('VP_OUT', ROOT)


class CaseTimeout(BaseException):
    pass


class Obs(object):
    """What a monitor observed in one case."""

    def __init__(self):
        self.violations = []
        self.counts = Counter()
        self.sigs = set()
        self.highs = {}
        self.sample = None

    def high(self, name, v):
        """The greatest value seen goes into the evidence."""
        self.highs[name] = max(v, self.highs.get(name, v))

    def viol(self, what, **witness):
        self.violations.append((what, witness))

    def count(self, name, n=1):
        self.counts[name] += n

    def sig(self, obj):
        """Mark a distinct, non-trivial observation."""
        self.sigs.add(hashlib.md5(repr(obj).encode(
            'utf-8', 'backslashreplace')).hexdigest()[:16])


def _alarm(signum, frame):
    raise CaseTimeout()


def in_sut(tb):
    """Was the exception raised by the code under test?"""
    frames = traceback.extract_tb(tb)
    return any(os.path.abspath(f.filename).startswith(SRC + '/')
               for f in frames)


def run_one(check, case, timeout):
    obs = Obs()
    status = 'ok'
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    cpu = time.process_time()
    try:
        check.run(case, obs)
    except CaseTimeout as e:
        status = 'timeout'
        # a case takes a second or two: this is not the load of the machine
        if in_sut(e.__traceback__) \
                and time.process_time() - cpu > 0.5 * timeout:
            status = 'ok'
            obs.viol('the code under test does not return',
                     error=traceback.format_exc()[-1500:])
    except RecursionError:
        # the recursion limit is hit in whatever frame happens to be on top
        obs.viol('the code under test recursed without bound',
                 error=traceback.format_exc()[-1500:])
    except Exception as e:
        if in_sut(e.__traceback__):
            obs.viol('unexpected %s from the code under test: %s' % (
                type(e).__name__, e), error=traceback.format_exc()[-3000:])
        elif isinstance(e, (TypeError, ValueError, LookupError)) or \
                isinstance(e, AttributeError) and "'NoneType'" in str(e):
            # reading what a call returned failed: it is not of the documented
            # form (None instead of a list, a pair of another size, ...)
            obs.viol('a result is not of the documented form: %s: %s' % (
                type(e).__name__, e), error=traceback.format_exc()[-3000:])
        else:
            status = 'error'
            obs.viol('harness error', error=traceback.format_exc())
    finally:
        signal.alarm(0)
    return status, obs


_CHECK = None
_TIER = None
_SEED = None
_DEADLINE = None


def _work(idx_range):
    out = {'counts': Counter(), 'sigs': set(), 'cases': 0, 'viol': [],
           'timeouts': [], 'errors': [], 'samples': [], 'skipped': 0,
           'highs': {}}
    for idx in idx_range:
        if time.time() > _DEADLINE:
            out['skipped'] += 1
            continue
        r = random.Random('%s/%d/%d' % (_CHECK.id, _SEED, idx))
        try:
            case = _CHECK.gen(r, idx, _TIER)
        except Exception:
            out['errors'].append((idx, None, traceback.format_exc()))
            continue
        status, obs = run_one(_CHECK, case, _CHECK.case_timeout)
        out['cases'] += 1
        out['counts'].update(obs.counts)
        for k, v in obs.highs.items():
            out['highs'][k] = max(v, out['highs'].get(k, v))
        out['sigs'].update(obs.sigs)
        if obs.sample is not None and len(out['samples']) < 1:
            out['samples'].append(obs.sample)
        if status == 'timeout':
            out['timeouts'].append((idx, case))
        elif status == 'error':
            out['errors'].append((idx, case, obs.violations[-1][1]['error']))
        elif obs.violations:
            out['viol'].append((idx, case, obs.violations[:3]))
            break
    return out


def shrink(check, case, budget=20.0):
    """Greedy removal of list elements while the case still fails."""
    end = time.time() + budget
    fields = [k for k in getattr(check, 'shrinkable', ()) if
              isinstance(case.get(k), list)]

    def fails(c):
        status, obs = run_one(check, c, 20)
        return status == 'ok' and bool(obs.violations)
    for k in fields:
        size = max(1, len(case[k]) // 2)
        while size >= 1 and time.time() < end:
            i, changed = 0, False
            while i < len(case[k]) and time.time() < end:
                c = dict(case)
                c[k] = case[k][:i] + case[k][i + size:]
                if fails(c):
                    case, changed = c, True
                else:
                    i += size
            if not changed or size > 1:
                size //= 2
    return case


def main(check, argv):
    global _CHECK, _TIER, _SEED, _DEADLINE
    started = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    args = list(argv)
    while args:
        a = args.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--replay':
            replay = args.pop(0)
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if replay:
        with open(replay) as f:
            case = json.load(f)['case']
        status, obs = run_one(check, case, 600)
        for what, w in obs.violations:
            print('replayed: %s\n%s' % (what, json.dumps(
                w, indent=1, default=repr)[:4000]))
        print('status', status)
        if obs.violations:
            print('VIOLATION property=%s replay=%s' % (check.id, replay))
        return 1 if obs.violations else 0 if status == 'ok' else 2
    _CHECK, _TIER, _SEED = check, tier, seed
    check.setup(tier, seed)
    n = check.n_thorough if tier == 'thorough' else check.n_quick
    # VP_SCALE, VP_PROCS, VP_OUT: only for tools/mutate.py
    n = max(1, int(n * float(os.environ.get('VP_SCALE', '1'))))
    limit = check.limit_thorough if tier == 'thorough' else check.limit_quick
    _DEADLINE = started + limit
    chunk = max(1, min(check.chunk, n // 16 or 1))
    ranges = [range(i, min(i + chunk, n)) for i in range(0, n, chunk)]
    total = {'counts': Counter(), 'sigs': set(), 'cases': 0, 'viol': [],
             'timeouts': [], 'errors': [], 'samples': [], 'skipped': 0,
             'highs': {}}
    procs = int(os.environ.get('VP_PROCS', min(8, os.cpu_count() or 1)))
    ctx = multiprocessing.get_context('fork')
    pool = futures.ProcessPoolExecutor(procs, ctx)
    broken = None
    try:
        jobs = [pool.submit(_work, x) for x in ranges]
        for fut in futures.as_completed(jobs):
            out = fut.result()
            total['counts'].update(out['counts'])
            total['sigs'].update(out['sigs'])
            for k, v in out['highs'].items():
                total['highs'][k] = max(v, total['highs'].get(k, v))
            for k in ('cases', 'skipped'):
                total[k] += out[k]
            for k in ('viol', 'timeouts', 'errors'):
                total[k].extend(out[k])
            if len(total['samples']) < 5:
                total['samples'].extend(out['samples'])
            if total['viol'] or len(total['timeouts']) > 2 \
                    or len(total['errors']) > 5:
                break
    except futures.process.BrokenProcessPool as e:
        broken = e
    finally:
        workers = list((pool._processes or {}).values())
        pool.shutdown(wait=False, cancel_futures=True)
        for w in workers:
            w.kill()
    code = 0
    lines = []
    if total['viol']:
        idx, case, viols = min(total['viol'], key=lambda x: x[0])
        try:
            small = shrink(check, case)
            status, obs = run_one(check, small, 60)
            if obs.violations:
                case, viols = small, obs.violations[:3]
        except Exception:
            pass
        d = os.path.join(OUT, 'out', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d-%d.json' % (check.id, seed, idx))
        with open(path, 'w') as f:
            json.dump({'property': check.id, 'tier': tier, 'seed': seed,
                       'index': idx, 'case': case,
                       'violations': [[w, x] for w, x in viols]}, f,
                      indent=1, default=repr)
        for what, w in viols:
            lines.append('violated: %s: %s' % (what, json.dumps(
                w, default=repr)[:1500]))
        lines.append('VIOLATION property=%s replay=%s' % (check.id, path))
        code = 1
    elif broken is not None:
        lines.append('ERROR: a worker process died: %s' % broken)
        code = 2
    elif total['errors']:
        lines.append('ERROR in the harness: %s' % (total['errors'][0][2],))
        code = 2
    elif total['timeouts']:
        lines.append('INCONCLUSIVE: case %d did not finish in %d s' % (
            total['timeouts'][0][0], check.case_timeout))
        code = 2
    else:
        for k, need in sorted(check.need.items()):
            if total['counts'][k] < need:
                lines.append('INCONCLUSIVE: only %d %s observed, need %d' % (
                    total['counts'][k], k, need))
                code = 2
    for k in check.known_findings():
        print('KNOWN-FINDING: property=%s %s' % (check.id, k))
    coverage = {
        'evaluations': total['cases'],
        'distinct_nontrivial': len(total['sigs']),
        'rule': check.rule,
        'samples': total['samples'][:3],
        'observed_events': dict(sorted(total['counts'].items())),
    }
    if total['highs']:
        coverage['maxima'] = dict(sorted(total['highs'].items()))
    if total['skipped']:
        coverage['cases_not_run_for_lack_of_time'] = total['skipped']
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', check.id + '.json'), 'w') as f:
        json.dump({'property': check.id, 'tier': tier, 'seed': seed,
                   'level': 'exploration', 'coverage': coverage,
                   'assumptions': check.assumptions,
                   'wall_s': round(time.time() - started, 2),
                   'violations': len(total['viol'])}, f, indent=1,
                  default=repr)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (
        check.id, tier, seed, total['cases'], len(total['sigs']),
        time.time() - started))
    print('observed: %s' % ', '.join(
        '%s=%d' % kv for kv in sorted(total['counts'].items())))
    for line in lines:
        print(line)
    sys.stdout.flush()
    return code
