"""Runner shared by all checks.

A property is a list of facets.  A facet is (a) a Hypothesis strategy that builds plain JSON data -- one *case*: inputs,
or a sequence of operations --, and (b) a function `check(case, rec)` that drives the real code with that case and
compares what it observes with an oracle, raising `Violation` through `ensure`/`close`/... when they disagree.
`rec` collects labels (the distribution of what was generated) and whether the case was non-trivial.

Everything random is drawn inside Hypothesis and is a pure function of VERIF_SEED and the code; the first failing case
is shrunk by Hypothesis and written out as JSON, and `run.py --replay FILE` re-runs it without Hypothesis.
"""
from . import env  # noqa: F401  (first)

import hashlib
import json
import math
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable

import hypothesis
from hypothesis import HealthCheck, Phase, settings

JOBS = int(os.environ.get('PBT_JOBS', '8'))
CASE_LIMIT_S = 100          # a case normally takes milliseconds to a few seconds
SHRINK_LIMIT_S = 60
LEAST_S = 5
MEMORY_LIMIT = 6 << 30


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class Reject(Exception):
    """The case turned out to lie outside the property's domain (counted, never silently passed)."""


class _Stop(BaseException):
    """Ends a campaign (budget reached) without going through Hypothesis' failure handling."""


class CaseTimeout(Exception):
    pass


# ------------------------------------------------------------------------------------------------ oracle helpers

def ensure(condition, message: str, *values) -> None:
    if not condition:
        raise Violation(message + (': ' + ', '.join(repr(v) for v in values) if values else ''))


def number(value, what: str = 'value') -> float:
    """The code under test has to have produced a finite real number."""
    try:
        out = float(value)
    except (TypeError, ValueError):
        raise Violation(f'{what} is not a real number: {value!r}')
    if not math.isfinite(out):
        raise Violation(f'{what} is not finite: {value!r}')
    return out


def close(actual, expected, what: str, rel: float = 1e-9, abs_: float = 1e-9) -> None:
    a, e = number(actual, what), float(expected)
    if abs(a - e) > abs_ + rel * max(abs(a), abs(e)):
        raise Violation(f'{what}: got {a!r}, expected {e!r} (difference {a - e:.3e})')


def all_close(actual, expected, what: str, rel: float = 1e-9, abs_: float = 1e-9) -> None:
    import numpy as np
    try:
        a = np.asarray(actual, dtype=float)
    except (TypeError, ValueError):
        raise Violation(f'{what} is not an array of real numbers: {actual!r}')
    e = np.asarray(expected, dtype=float)
    if a.shape != e.shape:
        raise Violation(f'{what}: shape {a.shape}, expected {e.shape}')
    if not np.all(np.isfinite(a)):
        raise Violation(f'{what}: contains non-finite values {a!r}')
    bad = np.abs(a - e) > abs_ + rel * np.maximum(np.abs(a), np.abs(e))
    if bad.any():
        idx = tuple(int(i) for i in np.argwhere(bad)[0])
        raise Violation(f'{what}: at {idx} got {a[idx]!r}, expected {e[idx]!r} '
                        f'({int(bad.sum())} of {a.size} entries differ)')


def expect_error(function: Callable, kinds, what: str) -> None:
    """The call must be refused with one of the documented exception types."""
    try:
        result = function()
    except kinds:
        return
    raise Violation(f'{what}: expected {kinds}, but it returned {result!r}')


# ------------------------------------------------------------------------------------------------ facets

class Recorder:
    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False
        self.notes = []

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    def nontrivial(self, condition=True):
        if condition:
            self.is_nontrivial = True


@dataclass
class Facet:
    name: str
    strategy: Callable[[], Any]             # builds the Hypothesis strategy
    check: Callable[[Any, Recorder], None]
    rule: str                               # what makes a case non-trivial
    quick: int = 300
    thorough: int = 3000
    quick_shards: int = 1
    thorough_shards: int = 4
    examples: list = field(default_factory=list)   # fixed cases, run before the generated ones


def siblings(strategy, check, rule: str, quick: int, thorough: int, quick_shards: int = 8, nested=(), fields=None, name='siblings') -> Facet:
    """Pairs of cases that differ in one or two fields, checked one after the other, and the first one again, in the same
    process: what the code remembers about one object must not answer for another one, however alike.  Every field has to
    be drawn independently of the others (`fields` lists those that are), so that a mixture is as valid as its parents."""
    from hypothesis import strategies as st

    @st.composite
    def pairs(draw):
        base, other = draw(strategy()), draw(strategy())
        names = [n for n in sorted(base) if n in other and (fields is None or n in fields)]
        paths = [n for n in names if n not in nested] + [f'{n}.{m}' for n in names if n in nested and isinstance(base[n], dict)
                                                         for m in sorted(base[n])]
        chosen = draw(st.lists(st.sampled_from(paths), min_size=1, max_size=2, unique=True))
        changes = {}
        for path in chosen:
            value = other
            for part in path.split('.'):
                value = value[part]
            changes[path] = value
        return {'base': base, 'changes': changes}

    def run(case, rec):
        second = json.loads(canonical(case['base']))
        for path, value in case['changes'].items():
            target, parts = second, path.split('.')
            for part in parts[:-1]:
                target = target[part]
            rec.label(f'{path} differs' if target[parts[-1]] != value else 'the same value')
            target[parts[-1]] = value
        both = 0
        check(json.loads(canonical(case['base'])), rec)
        inner = Recorder()
        try:
            check(json.loads(canonical(second)), inner)
            both = 1
        except Reject:
            rec.label('the sibling lies outside the domain')
        rec.is_nontrivial = rec.is_nontrivial and bool(both) and second != case['base']
        check(json.loads(canonical(case['base'])), Recorder())

    return Facet(name, pairs, run, f'two different objects: {rule}', quick, thorough, quick_shards, 8)


@dataclass
class Property:
    id: str
    facets: list
    assumptions: list = field(default_factory=list)


def canonical(case) -> str:
    return json.dumps(case, sort_keys=True, separators=(',', ':'), default=str)


def seed_for(seed: int, *parts) -> int:
    digest = hashlib.sha256(json.dumps([seed, *parts]).encode()).digest()
    return int.from_bytes(digest[:7], 'big')


_HARNESS_ERRORS = (ImportError, SyntaxError)


def run_case(facet: Facet, case, rec: Recorder) -> None:
    """Runs one case.  Raises Violation when the property is broken, Reject when out of domain."""
    def on_alarm(_signum, _frame):
        raise CaseTimeout()

    previous = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        # A case must not be able to edit the data it was generated from.
        facet.check(json.loads(canonical(case)), rec)
    except (Violation, Reject):
        raise
    except _HARNESS_ERRORS as exc:
        if _innermost_owner(exc) == 'repo':
            raise Violation(_describe(exc)) from exc
        raise
    except CaseTimeout as exc:
        raise Violation(f'the call did not return within {CASE_LIMIT_S} s (a normal case takes well under a second)') \
            from exc
    except Exception as exc:
        # The inputs are inside the domain the property quantifies over, so an exception that leaves the code under
        # test -- or a result on which the oracle cannot even be evaluated -- breaks the property.
        raise Violation(_describe(exc)) from exc
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, previous)


def _frames(exc):
    return [f.filename for f in traceback.extract_tb(exc.__traceback__)]


def _innermost_owner(exc) -> str:
    for name in reversed(_frames(exc)):
        if name.startswith(env.REPO + '/'):
            return 'repo'
        if name.startswith(env.VERIF + '/'):
            return 'verif'
    return 'other'


def _describe(exc) -> str:
    tail = [f'{os.path.relpath(f.filename, env.REPO)}:{f.lineno} in {f.name}'
            for f in traceback.extract_tb(exc.__traceback__) if f.filename.startswith(env.REPO + '/')]
    where = f' at {tail[-1]}' if tail else ' while evaluating the oracle on the result'
    return f'{type(exc).__name__}: {exc}{where}'


class Campaign:
    """One facet, one shard."""

    def __init__(self, facet: Facet, count: int, seed: int, budget_s: float, known=None, deadline=math.inf):
        self.facet, self.count, self.seed, self.budget_s = facet, count, seed, budget_s
        self.deadline = deadline            # of the whole check (monotonic clock); each campaign gets LEAST_S anyway
        self.known = known or (lambda case, message: None)
        self.out = {'facet': facet.name, 'evaluations': 0, 'rejected': 0, 'labels': Counter(), 'distinct': set(),
                    'samples': [], 'failure': None, 'known': {}, 'error': None, 'budget_hit': False,
                    'wall_s': 0.0, 'requested': count}
        self.first_failure_at = None

    def one(self, case, from_search: bool) -> None:
        now = time.monotonic()
        out = self.out
        spent = now - self.started
        if self.first_failure_at is None and (spent > self.budget_s or (now > self.deadline and spent > LEAST_S)):
            out['budget_hit'] = True
            raise _Stop()
        if self.first_failure_at is not None and now - self.first_failure_at > SHRINK_LIMIT_S:
            raise _Stop()
        rec = Recorder()
        try:
            run_case(self.facet, case, rec)
        except Reject:
            out['rejected'] += 1
            return
        except Violation as exc:
            hit = self.known(case, str(exc))
            if hit is not None:
                out['known'][hit] = out['known'].get(hit, 0) + 1
                return
            text = canonical(case)
            best = out['failure']
            if best is None or len(text) <= len(canonical(best['case'])):
                out['failure'] = {'case': json.loads(text), 'message': str(exc)}
            if self.first_failure_at is None:
                self.first_failure_at = now
            raise
        finally:
            if self.first_failure_at is None:
                out['evaluations'] += 1
                for name in rec.labels:
                    out['labels'][name] += 1
                if rec.is_nontrivial:
                    digest = hashlib.sha1(canonical(case).encode()).hexdigest()
                    if digest not in out['distinct']:
                        out['distinct'].add(digest)
                        if len(out['samples']) < 3:
                            out['samples'].append(json.loads(canonical(case)))

    def run(self) -> dict:
        self.started = time.monotonic()
        facet = self.facet
        try:
            for case in facet.examples:
                self.one(case, from_search=False)

            if self.count > 0:
                @hypothesis.seed(self.seed)
                @settings(max_examples=self.count, database=None, deadline=None, print_blob=False,
                          suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                          phases=(Phase.generate, Phase.shrink))
                @hypothesis.given(facet.strategy())
                def test(case):
                    self.one(case, from_search=True)

                test()
        except _Stop:
            pass
        except Violation:
            pass
        except BaseException as exc:
            if self.out['failure'] is None:
                self.out['error'] = ''.join(traceback.format_exception(exc))[-4000:]
            # with a recorded failure (e.g. Hypothesis reporting flakiness while shrinking) the failure stands
        self.out['wall_s'] = time.monotonic() - self.started
        return self.out


def _worker(connection, campaign: Campaign) -> None:
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    except (ValueError, OSError):
        pass
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)                      # prints of the code under test do not mix with the verdict
    result = campaign.run()
    result['labels'] = dict(result['labels'])
    connection.send(result)
    connection.close()


def run_campaigns(campaigns: list) -> list:
    """Runs the campaigns in up to JOBS forked processes; order of results = order of campaigns."""
    context = multiprocessing.get_context('fork')
    pending = list(enumerate(campaigns))
    running = {}
    results = [None] * len(campaigns)
    while pending or running:
        while pending and len(running) < JOBS:
            index, campaign = pending.pop(0)
            receiver, sender = context.Pipe(duplex=False)
            process = context.Process(target=_worker, args=(sender, campaign), daemon=True)
            process.start()
            sender.close()
            running[index] = (process, receiver)
        ready = multiprocessing.connection.wait([r for _, r in running.values()], timeout=5)
        for index, (process, receiver) in list(running.items()):
            if receiver in ready:
                try:
                    results[index] = receiver.recv()
                except EOFError:
                    process.join()
                    results[index] = {'facet': campaigns[index].facet.name, 'evaluations': 0, 'rejected': 0,
                                      'labels': {}, 'distinct': set(), 'samples': [], 'failure': None, 'known': {},
                                      'error': f'worker ended with exit code {process.exitcode}',
                                      'budget_hit': False, 'wall_s': 0.0, 'requested': campaigns[index].count}
                receiver.close()
                process.join()
                del running[index]
    return results


import multiprocessing.connection  # noqa: E402
