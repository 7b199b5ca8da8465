""" Case runner, monitor object, verdicts and evidence.

A check module (checks/cNN.py) defines:

    PROPERTY   the property id
    RULE       text: how cases are made and what makes one non-trivial
    WORKLOADS  list of Workload(name, fn, quick, thorough)
    REQUIRED   {event kind: minimum count}: events the monitors must have
               observed for a quiet run to mean anything

`fn(rng, mon)` drives the real code with one generated case and reports what
its monitors saw.  Verdicts are three-valued:

    exit 0   every oracle evaluated, nothing violated
    exit 1   a violation was observed (line "VIOLATION property=.. replay=..")
    exit 3   inconclusive: the harness itself failed, or the monitors did not
             observe the events they need (vacuous run)
"""

import hashlib
import json
import math
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
from collections import Counter, namedtuple

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))

Workload = namedtuple('Workload', 'name fn quick thorough')

CASE_TIMEOUT = 40       # CPU seconds before a single case counts as a hang
SCALE = 4               # quick runs make so many times the stated cases
CASE_STALL = 300        # ... or seconds of any kind (it may be waiting)
MAX_VIOLATIONS = 40     # stop exploring after this many
CHUNK_VIOLATIONS = 3    # a chunk of cases ends early after this many
CHUNK_TIMEOUT = 240     # seconds without any result before the run gives up
MEMORY = 3 << 30        # bytes of address space per worker

# Raised by check code while it works on a result, these mean the result
# is not of the promised form (missing, of the wrong type, incomparable).
MALFORMED = (TypeError, ValueError, AttributeError, LookupError,
             ArithmeticError, StopIteration)


class Hang(BaseException):
    """ Raised inside a case that does not terminate in time. """


class HarnessError(Exception):
    """ The harness, not the code under test, is at fault. """


class Violation(Exception):
    """ Stops the current case after a violation was recorded. """


def num(x):
    """ A float view of any numeric type, for comparison. """
    return float(x)


def close(a, b, rel=1e-9, abs_=1e-7):
    """ Equality up to rounding; infinities and NaN compare exactly. """
    a, b = num(a), num(b)
    if math.isnan(a) or math.isnan(b):
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


class Monitor:
    """ Collects what one case's monitors observed. """

    def __init__(self, workload, index):
        self.workload = workload
        self.index = index
        self.events = Counter()
        self.violations = []
        self.oracle = 0
        self.trace = hashlib.sha1()
        self.nontrivial = False
        self.notes = {}

    # -- observation ---------------------------------------------------
    def event(self, kind, count=1):
        """ Counts an observed event. """
        self.events[kind] += count

    def obs(self, *values):
        """ Adds observed values to the case's trace digest. """
        self.trace.update(repr(values).encode())

    def interesting(self, flag=True):
        """ Marks the case as non-trivial by the check's rule. """
        if flag:
            self.nontrivial = True

    def note(self, **values):
        """ Describes the case, for samples and replays. """
        for key, val in values.items():
            self.notes[key] = _plain(val)

    # -- oracles -------------------------------------------------------
    def check(self, cond, mechanism, /, **detail):
        """ Oracle: records a violation if `cond` is false. """
        self.oracle += 1
        if not cond:
            self.violate(mechanism, **detail)
        return bool(cond)

    def close(self, got, want, mechanism, /, rel=1e-9, abs_=1e-7, **detail):
        """ Oracle: two numbers agree up to rounding. """
        try:
            good = close(got, want, rel, abs_)
        except (TypeError, ValueError, OverflowError):
            good = False
        detail.update(observed=got, expected=want)
        return self.check(good, mechanism, **detail)

    def violate(self, mechanism, /, **detail):
        self.violations.append({
            'mechanism': mechanism,
            'detail': {k: _plain(v) for k, v in detail.items()}})


def _plain(val, depth=0):
    """ A JSON-friendly rendering of `val`. """
    if val is None or isinstance(val, (bool, int, str)):
        return val
    if isinstance(val, float):
        return val if math.isfinite(val) else repr(val)
    if depth > 4:
        return repr(val)[:200]
    if isinstance(val, dict):
        return {str(_key(k)): _plain(v, depth + 1) for k, v in val.items()}
    if isinstance(val, (list, tuple)):
        return [_plain(v, depth + 1) for v in val]
    if isinstance(val, (set, frozenset)):
        return sorted((str(_plain(v, depth + 1)) for v in val))
    return repr(val)[:300]


def _key(key):
    return key if isinstance(key, (int, float, str)) else repr(key)[:100]


def _case_rng(seed, workload, index):
    return random.Random('%s/%s/%s' % (seed, workload, index))


def _alarm(_signum, _frame):
    raise Hang()


def _innermost_is_repo(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    pkg = os.path.join(REPO, 'forecaster') + os.sep
    # Code under test is at fault if the exception was raised in it, or
    # in a library (networkx, dateutil, stdlib) that it called last.
    verif = VERIF + os.sep
    for frame in reversed(frames):
        name = os.path.realpath(frame.filename)
        if name.startswith(pkg):
            return True
        if name.startswith(verif):
            return False
    return False


def run_case(module, workload, seed, index):
    """ Runs one case; returns a picklable summary. """
    mon = Monitor(workload.name, index)
    rng = _case_rng(seed, workload.name, index)
    error = None
    # Processor time, so that a busy machine is not taken for a hang.
    old = signal.signal(signal.SIGALRM, _alarm)
    old_cpu = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_STALL)
    signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)
    try:
        workload.fn(rng, mon)
    except Violation:
        pass
    except Hang:
        mon.violate('no-termination', seconds=CASE_TIMEOUT)
    except HarnessError as exc:
        error = 'harness: %s' % exc
    except Exception as exc:  # pylint: disable=broad-except
        text = traceback.format_exc(limit=-12)
        if _innermost_is_repo(exc):
            mon.oracle += 1
            mon.violate('exception:%s' % type(exc).__name__, traceback=text)
        elif isinstance(exc, MALFORMED):
            mon.oracle += 1
            mon.violate('malformed-result:%s' % type(exc).__name__,
                        traceback=text)
        else:
            error = text
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGPROF, old_cpu)
        signal.signal(signal.SIGALRM, old)
    return {
        'workload': workload.name, 'index': index, 'events': mon.events,
        'violations': mon.violations, 'oracle': mon.oracle,
        'trace': mon.trace.hexdigest(), 'nontrivial': mon.nontrivial,
        'notes': mon.notes, 'error': error}


_MODULE = None
_SEED = None


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def _chunk(args):
    name, indexes = args
    workload = next(w for w in _MODULE.WORKLOADS if w.name == name)
    known = known_mechanisms(_MODULE.PROPERTY)
    out, bad = [], 0
    for index in indexes:
        res = run_case(_MODULE, workload, _SEED, index)
        out.append(res)
        new = [v for v in res['violations'] if v['mechanism'] not in known]
        bad += bool(new)
        hang = any(v['mechanism'] == 'no-termination' for v in new)
        if hang or bad >= CHUNK_VIOLATIONS:
            break
    return out


def known_mechanisms(prop):
    """ Mechanisms listed as findings for `prop`, with their text. """
    found = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        with open(path) as handle:
            for line in handle:
                line = line.strip()
                if not line.startswith('finding: property=%s ' % prop):
                    continue
                rest = line.split('mechanism=', 1)[1]
                mech, _, text = rest.partition(' ')
                found[mech] = text
    return found


def main(module, tier, seed, replay=None, budget=None, jobs=None):
    """ Explores the property; returns the process exit status. """
    global _MODULE, _SEED
    _MODULE, _SEED = module, seed
    prop = module.PROPERTY
    start = time.time()
    known = known_mechanisms(prop)

    if replay:
        with open(replay) as handle:
            spec = json.load(handle)
        workload = next(
            w for w in module.WORKLOADS if w.name == spec['workload'])
        _SEED = spec['seed']
        res = run_case(module, workload, spec['seed'], spec['index'])
        print(json.dumps(res, indent=1, default=str))
        return 3 if res['error'] else (1 if res['violations'] else 0)

    jobs = jobs or min(8, os.cpu_count() or 1)
    budget = budget or (240 if tier == 'quick' else 780)
    tasks = []
    for workload in module.WORKLOADS:
        count = workload.quick * getattr(module, 'SCALE', SCALE)
        if tier != 'quick':
            count = max(count, workload.thorough)
        size = max(1, min(100, count // (jobs * 6) or 1))
        for low in range(0, count, size):
            tasks.append(
                (workload.name, list(range(low, min(count, low + size)))))
    # Interleave the workloads so that a budget cut affects all of them.
    random.Random(seed).shuffle(tasks)

    totals, per = Counter(), Counter()
    digests, samples, violations, errors = set(), {}, [], []
    findings, oracle, cases, nontrivial = {}, 0, 0, 0
    cut = False
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(jobs, initializer=_limit) as pool:
        stream = pool.imap_unordered(_chunk, tasks)
        while True:
            try:
                results = stream.next(timeout=CHUNK_TIMEOUT)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                errors.append({
                    'workload': '(pool)', 'index': -1,
                    'error': 'no result for %d s' % CHUNK_TIMEOUT})
                pool.terminate()
                break
            for res in results:
                cases += 1
                per[res['workload']] += 1
                totals.update(res['events'])
                oracle += res['oracle']
                if res['nontrivial']:
                    nontrivial += 1
                    digests.add(res['trace'])
                if res['error']:
                    errors.append(res)
                for vio in res['violations']:
                    if vio['mechanism'] in known:
                        findings[vio['mechanism']] = vio
                    else:
                        violations.append((res, vio))
                if res['notes'] and res['nontrivial'] and \
                        res['workload'] not in samples:
                    samples[res['workload']] = dict(
                        workload=res['workload'], index=res['index'],
                        **{'case': res['notes']})
            if len(violations) >= MAX_VIOLATIONS or len(errors) >= 5:
                pool.terminate()
                break
            if time.time() - start > budget:
                cut = True
                pool.terminate()
                break

    status, verdict = 0, 'held'
    missing = {
        kind: (totals.get(kind, 0), need)
        for kind, need in module.REQUIRED.items()
        if totals.get(kind, 0) < need}
    if violations:
        status, verdict = 1, 'violated'
    elif errors:
        status, verdict = 3, 'inconclusive: harness error'
    elif missing or cases == 0 or oracle == 0:
        status, verdict = 3, 'inconclusive: vacuous run %s' % missing

    wall = time.time() - start
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': cases,
            'distinct_nontrivial': len(digests),
            'rule': module.RULE,
            'samples': list(samples.values())[:8] or [
                {'note': 'no non-trivial case'}],
            'nontrivial_cases': nontrivial,
            'oracle_evaluations': oracle,
            'monitored_events': dict(sorted(totals.items())),
            'cases_per_workload': dict(sorted(per.items())),
            'stopped_by_time_budget': cut,
            'verdict': verdict,
            'known_findings_seen': sorted(findings)},
        'violations': len(violations),
        'wall_s': round(wall, 2)}
    out_dir = os.environ.get('VERIF_EVIDENCE_DIR') or os.path.join(
        VERIF, 'evidence')
    os.makedirs(out_dir, exist_ok=True)
    path = os.path.join(out_dir, prop + '.json')
    with open(path + '.tmp', 'w') as handle:
        json.dump(evidence, handle, indent=1)
    os.replace(path + '.tmp', path)

    for mech, text in known.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if violations:
        rep_dir = os.environ.get('VERIF_REPLAY_DIR') or os.path.join(
            VERIF, 'evidence', 'replay')
        os.makedirs(rep_dir, exist_ok=True)
        shown = set()
        for res, vio in violations:
            if vio['mechanism'] in shown:
                continue
            shown.add(vio['mechanism'])
            rpath = os.path.join(
                rep_dir, '%s-%d.json' % (prop, len(shown)))
            with open(rpath, 'w') as handle:
                json.dump({
                    'property': prop, 'seed': seed,
                    'workload': res['workload'], 'index': res['index'],
                    'violation': vio, 'case': res['notes']},
                    handle, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (prop, rpath))
            print('  mechanism: %s' % vio['mechanism'])
            print('  workload: %s #%d seed %s' % (
                res['workload'], res['index'], seed))
            for key, val in vio['detail'].items():
                print('  %s: %s' % (key, str(val)[:1500]))
            if len(shown) >= 8:
                break
    for res in errors[:3]:
        print('HARNESS ERROR in %s #%d\n%s' % (
            res['workload'], res['index'], res['error']))
    print('%s %s tier=%s seed=%s: %d cases (%d distinct non-trivial), '
          '%d oracle evaluations, %.1fs' % (
              prop, verdict, tier, seed, cases, len(digests), oracle, wall))
    return status
