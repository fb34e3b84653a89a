"""Explorer core shared by all checks.

A check module (mc/pNN_*.py) defines

    PROPERTY   property id
    TITLE      short text
    BOUNDS     dict tier -> human readable description of the explored space
    ASSUMPTIONS list of strings (optional)
    units(tier, seed)      -> list of JSON-able work units covering the space
    explore(unit, ctx)     -> enumerates the unit exhaustively; every case is
                              executed through ctx.run(case)
    run_case(case, ctx)    -> executes one case on the real code and compares it
                              with the reference model; raises Violation

The unit lists are distributed over worker processes.  Every failing case is
written to a replay file that `python -m mc.main --replay FILE` re-executes.
"""

import hashlib
import json
import os
import signal
import sys
import time
import traceback


class Violation(Exception):
    """Raised by run_case when the real code disagrees with the property."""


CASE_TIMEOUT = 100.0        # seconds; a normal case takes well below one second


def _on_alarm(signum, frame):
    raise Violation('does not terminate (no result within {} s)'.format(CASE_TIMEOUT))


def expect(condition, message, *args):
    if not condition:
        raise Violation(message.format(*args) if args else message)


def digest(obj):
    """64-bit digest of a (nested) value; used for state deduplication."""
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf-8'),
                                          digest_size=8).digest(), 'big')


_KNOWN = {}


def known_keys(prop):
    if not _KNOWN:
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')
        _KNOWN['read'] = set()
        with open(path) as handle:
            for line in handle:
                fields = line.split()
                if len(fields) > 2 and fields[0] == 'finding:':
                    options = dict(f.split('=', 1) for f in fields[1:3])
                    _KNOWN.setdefault(options['property'], set()).add(options['key'])
    return _KNOWN.get(prop, ())


class Context(object):
    """Collects what an exploration actually covered."""

    MAX_FAILURES = 5

    def __init__(self, module, tier):
        self.module = module
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.failures = []       # (message, case)
        self.known = []          # (key, message)
        self.extra = {}
        self.stop = False

    # -- coverage -----------------------------------------------------------
    def state(self, *key):
        """Records a visited state; returns True when it is new."""
        h = digest(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, count=1):
        """Records executed transitions."""
        self.transitions += count

    def outcome(self, *key):
        """Records a distinct observable outcome."""
        self.outcomes.add(digest(key))

    def count(self, name, amount=1):
        self.extra[name] = self.extra.get(name, 0) + int(amount)

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text)

    # -- execution ----------------------------------------------------------
    def run(self, case):
        """Executes one case (one complete trace) and records a violation."""
        if self.stop:
            return False
        self.traces += 1
        try:
            signal.signal(signal.SIGALRM, _on_alarm)
            signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
            try:
                self.module.run_case(case, self)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Violation as error:
            self.fail(str(error), case)
            return False
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as error:
            # The real code raised where the property promises a result.
            where = traceback.extract_tb(error.__traceback__)
            tail = where[-1]
            self.fail('unexpected {}: {} ({}:{})'.format(
                type(error).__name__, error, os.path.basename(tail.filename),
                tail.lineno), case)
            return False
        return True

    def finding(self, key, message, case):
        """A violation of a recognised kind: reported as a known finding when
        known_findings.txt lists its key, as a violation otherwise."""
        if key in known_keys(self.module.PROPERTY):
            if (key, message) not in self.known and len(self.known) < 20:
                self.known.append((key, message))
        else:
            self.fail(message, case)

    def fail(self, message, case):
        message = message.splitlines()[0][:400] if message else 'violation'
        self.failures.append((message, case))
        if len(self.failures) >= self.MAX_FAILURES:
            self.stop = True

    def result(self):
        return {'states': self.states, 'transitions': self.transitions,
                'traces': self.traces, 'outcomes': self.outcomes,
                'samples': self.samples, 'failures': self.failures,
                'known': self.known, 'extra': self.extra,
                'complete': not self.stop}


class Choices(object):
    """Depth-first enumeration of every sequence of choices a run makes.

    for choices in Choices.all(): ... choices.pick(n) ... explores the complete
    choice tree: each iteration replays the prefix of the previous run and
    advances the last choice that still has an unexplored alternative.
    """

    def __init__(self, prefix=()):
        self._prefix = list(prefix)
        self.trail = []          # (chosen, number of alternatives)

    def pick(self, n):
        index = len(self.trail)
        value = self._prefix[index] if index < len(self._prefix) else 0
        if value >= n:
            value = n - 1
        self.trail.append((value, n))
        return value

    def chosen(self):
        return [c for c, _ in self.trail]

    @classmethod
    def all(cls, limit=None):
        prefix = []
        runs = 0
        while True:
            choices = cls(prefix)
            yield choices
            runs += 1
            if limit is not None and runs >= limit:
                raise RuntimeError('choice tree larger than the stated bound')
            trail = choices.trail
            while trail and trail[-1][0] + 1 >= trail[-1][1]:
                trail.pop()
            if not trail:
                return
            prefix = [c for c, _ in trail]
            prefix[-1] += 1


# ---------------------------------------------------------------------------
# driver

def _worker(args):
    module_name, tier, unit = args
    import importlib
    module = importlib.import_module(module_name)
    ctx = Context(module, tier)
    module.explore(unit, ctx)
    return ctx.result()


def _merge(total, part):
    total['states'] |= part['states']
    total['outcomes'] |= part['outcomes']
    total['transitions'] += part['transitions']
    total['traces'] += part['traces']
    total['failures'] += part['failures']
    total['known'] += part['known']
    total['complete'] &= part['complete']
    if len(total['samples']) < 5:
        total['samples'] += part['samples'][:5 - len(total['samples'])]
    for key, value in part['extra'].items():
        total['extra'][key] = total['extra'].get(key, 0) + value


def run_check(module, tier, seed, evidence_path, replay_dir, jobs):
    import multiprocessing
    start = time.time()
    unit_list = list(module.units(tier, seed))
    total = {'states': set(), 'outcomes': set(), 'transitions': 0, 'traces': 0,
             'failures': [], 'known': [], 'samples': [], 'extra': {},
             'complete': True}
    work = [(module.__name__, tier, unit) for unit in unit_list]
    if jobs > 1 and len(work) > 1:
        mp = multiprocessing.get_context('fork')
        from concurrent.futures import ProcessPoolExecutor, as_completed
        pool = ProcessPoolExecutor(min(jobs, len(work)), mp_context=mp)
        futures = [pool.submit(_worker, item) for item in work]
        for future in as_completed(futures):
            _merge(total, future.result())
            if len(total['failures']) >= Context.MAX_FAILURES:
                total['complete'] = False
                break
        for process in list(pool._processes.values()):
            if not total['complete']:
                process.kill()
        pool.shutdown(wait=False, cancel_futures=True)
    else:
        for item in work:
            _merge(total, _worker(item))
            if len(total['failures']) >= Context.MAX_FAILURES:
                total['complete'] = False
                break

    # Known findings: suppressed only by exact key listed in the file.
    wall = time.time() - start
    prop = module.PROPERTY
    lines = []
    for index, (message, case) in enumerate(
            sorted(total['failures'], key=lambda x: json.dumps(x[1], sort_keys=True, default=str))):
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, '{}-{}.json'.format(prop, index))
        with open(path, 'w') as handle:
            json.dump({'property': prop, 'module': module.__name__,
                       'message': message, 'case': case}, handle, indent=1,
                      default=str)
        lines.append('violation: ' + message)
        lines.append('VIOLATION property={} replay={}'.format(prop, path))
    for key, message in sorted(set(total['known'])):
        lines.append('KNOWN-FINDING: property={} {}: {}'.format(prop, key, message))

    coverage = {
        'states': len(total['states']),
        'transitions': total['transitions'],
        'traces_validated_against_impl': total['traces'],
        'distinct_outcomes': len(total['outcomes']),
        'work_units': len(unit_list),
        'samples': total['samples'],
        'exhaustive': bool(total['complete']),
        'bounds': module.BOUNDS[tier] if tier in module.BOUNDS else module.BOUNDS['quick'],
    }
    coverage.update({'n_' + k: v for k, v in sorted(total['extra'].items())})
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': getattr(module, 'LEVEL', 'model_checking'),
        'coverage': coverage,
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(total['failures']),
    }
    os.makedirs(os.path.dirname(evidence_path), exist_ok=True)
    with open(evidence_path, 'w') as handle:
        json.dump(evidence, handle, indent=1, sort_keys=True)
        handle.write('\n')

    print('{} {}: states={} transitions={} traces={} outcomes={} wall={:.1f}s'
          .format(prop, tier, coverage['states'], coverage['transitions'],
                  coverage['traces_validated_against_impl'],
                  coverage['distinct_outcomes'], wall))
    vacuous = [name for name in getattr(module, 'MUST_COVER', ())
               if not total['extra'].get(name)]
    if vacuous and not total['failures']:
        print('exploration was vacuous for: ' + ', '.join(vacuous))
        return 3
    for line in lines:
        print(line)
    return 1 if total['failures'] else 0
