"""Drives property checks: shards generated cases over processes, counts and
samples them, shrinks the first failure, writes replay & evidence files.

A check is a list of suites. A suite is a function `case(draw, record)` which
draws one case (everything through Hypothesis), judges it and raises
`Violation` if the property is broken. A run is a function of the code under
test, VERIF_SEED and the tier: budgets are numbers of cases, not seconds.
"""

from __future__ import annotations

import base64
import collections
import hashlib
import json
import multiprocessing
import os
import queue as queues
import signal
import sys
import time
import traceback
from pathlib import Path

from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis import strategies as st
from hypothesis.database import ExampleDatabase
from hypothesis.errors import UnsatisfiedAssumption

ROOT = Path(__file__).resolve().parent.parent
REPLAYS = ROOT / 'replays'
CASE_CPU_SECONDS = 100
SHRINK_SECONDS = 40
CHUNK = 150


class Violation(Exception):
    """The property does not hold for the case."""

    def __init__(self, errors, case=None):
        self.errors = list(errors)
        self.case = case
        super().__init__('; '.join(self.errors))


class _Interrupt(BaseException):
    pass


class CaseTimeout(_Interrupt):
    pass


class ShrinkTimeout(_Interrupt):
    pass


class Record:
    """What a worker has seen: counts by class, distinct non-trivial cases."""

    def __init__(self):
        self.evaluations = 0
        self.classes = collections.Counter()
        self.digests = set()
        self.samples = []
        self.maxima = {}

    def note(self, key, *, nontrivial=True, classes=(), sample=None):
        """`key` identifies the case, `sample` is what evidence shows."""
        self.evaluations += 1
        self.classes.update(classes)
        if nontrivial:
            digest = hashlib.sha256(repr(key).encode()).digest()[:8]
            if digest not in self.digests:
                self.digests.add(digest)
                if sample is not None and len(self.samples) < 2:
                    self.samples.append(sample() if callable(sample) else sample)

    def maximum(self, name, value):
        if value > self.maxima.get(name, value - 1):
            self.maxima[name] = value

    def merge(self, other):
        self.evaluations += other.evaluations
        self.classes.update(other.classes)
        self.digests |= other.digests
        self.samples += other.samples
        for name, value in other.maxima.items():
            self.maximum(name, value)


class _Memory(ExampleDatabase):
    """Keeps choice sequences of failures; optionally serves one."""

    def __init__(self, preset=None):
        super().__init__()
        self.preset = preset
        self.best = None

    def save(self, key, value):
        if key.endswith(b'.secondary') or key.endswith(b'.pareto'):
            return
        if self.best is None or (len(value), value) < (
            len(self.best),
            self.best,
        ):
            self.best = value

    def fetch(self, key):
        if self.preset is not None and not (
            key.endswith(b'.secondary') or key.endswith(b'.pareto')
        ):
            yield self.preset

    def delete(self, key, value):
        pass


class Suite:
    """`count` maps a tier to the number of cases."""

    def __init__(self, name, case, *, quick, thorough=None, shrink=True,
                 chunk=CHUNK, finish=None):
        self.name = name
        self.case = case
        self.counts = {
            'quick': quick,
            'thorough': thorough if thorough is not None else 20 * quick,
        }
        self.shrink = shrink
        self.chunk = chunk
        # finish(record) -> list of errors; judged over the whole suite
        self.finish = finish


def derive_seed(*parts):
    return int.from_bytes(
        hashlib.sha256(':'.join(map(str, parts)).encode()).digest()[:8], 'big'
    )


def _alarm(_signum, _frame):
    raise CaseTimeout


def _shrink_alarm(_signum, _frame):
    raise ShrinkTimeout


def run_cases(suite, run_seed, count, record, *, preset=None, shrink=True):
    """None, or a dict describing the (smallest found) failure."""
    failure = None
    memory = _Memory(preset)

    def body(data):
        nonlocal failure
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
        try:
            suite.case(data.draw, record if failure is None else Record())
        except Violation as violation:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            if failure is None and shrink:
                signal.setitimer(signal.ITIMER_REAL, SHRINK_SECONDS)
            candidate = {'errors': violation.errors, 'case': violation.case}
            if failure is None or len(json.dumps(candidate, default=str)) <= len(
                json.dumps(failure, default=str)
            ):
                failure = candidate
            raise
        except CaseTimeout:
            failure = failure or {
                'errors': [
                    'a case did not finish within'
                    f' {CASE_CPU_SECONDS} s of CPU time'
                ],
                'case': None,
            }
            raise
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    phases = [Phase.reuse] if preset is not None else [Phase.generate]
    if shrink and suite.shrink and preset is None:
        phases.append(Phase.shrink)
    test = seed(run_seed)(
        settings(
            max_examples=count,
            database=memory,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=phases,
            print_blob=False,
        )(given(st.data())(body))
    )
    old = signal.signal(signal.SIGVTALRM, _alarm)
    old_real = signal.signal(signal.SIGALRM, _shrink_alarm)
    try:
        test()
    except _Interrupt:
        pass
    except BaseException:
        if failure is None:
            raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        signal.signal(signal.SIGALRM, old_real)
    if failure is not None:
        best = memory.best if preset is None else preset
        failure['choices'] = (
            None if best is None else base64.b64encode(best).decode()
        )
    return failure


def _worker(suites, jobs, results):
    # quiet: Hypothesis prints falsifying examples
    sys.stdout = open(os.devnull, 'w')
    sys.stderr = open(os.devnull, 'w')
    while True:
        job = jobs.get()
        if job is None:
            results.put(('done', None, None, None))
            return
        index, run_seed, count = job
        record = Record()
        failure, crash = None, None
        try:
            failure = run_cases(
                suites[index],
                run_seed,
                count,
                record,
                shrink=suites[index].shrink,
            )
        except BaseException:
            crash = traceback.format_exc()
        results.put((job, record, failure, crash))
        if failure is not None or crash is not None:
            results.put(('done', None, None, None))
            return


class HarnessError(Exception):
    pass


def execute(property_id, suites, *, tier, run_seed, processes=None, scale=1):
    """Runs everything: (record by suite, failure or None)."""
    processes = processes or int(
        os.environ.get('VERIF_PROCESSES') or min(os.cpu_count() or 1, 8)
    )
    context = multiprocessing.get_context('fork')
    jobs, results = context.Queue(), context.Queue()
    pending = []
    for index, suite in enumerate(suites):
        count = int(suite.counts[tier] * scale)
        chunk = 0
        while count > 0:
            size = min(count, suite.chunk)
            pending.append(
                (
                    index,
                    derive_seed(run_seed, property_id, suite.name, chunk),
                    size,
                )
            )
            count -= size
            chunk += 1
    # spread suites evenly, so that a slow one does not make a tail
    positions = collections.Counter()
    totals = collections.Counter(index for index, _, _ in pending)
    keyed = []
    for job in pending:
        keyed.append((positions[job[0]] / totals[job[0]], job))
        positions[job[0]] += 1
    for _, job in sorted(keyed):
        jobs.put(job)
    for _ in range(processes):
        jobs.put(None)
    workers = [
        context.Process(
            target=_worker, args=(suites, jobs, results), daemon=True
        )
        for _ in range(processes)
    ]
    for worker in workers:
        worker.start()
    records = [Record() for _ in suites]
    failures, crashes = [], []
    running = processes
    deadline = None
    while running:
        try:
            job, record, failure, crash = results.get(timeout=1)
        except queues.Empty:
            if deadline is not None and time.monotonic() > deadline:
                break
            if not any(worker.is_alive() for worker in workers):
                crashes.append('a worker has died')
                break
            dead = [w for w in workers if w.exitcode not in (None, 0)]
            if dead and deadline is None:
                crashes.append(
                    f'worker exit codes: {[w.exitcode for w in dead]}'
                )
                deadline = time.monotonic() + 2
            continue
        if job == 'done':
            running -= 1
            continue
        records[job[0]].merge(record)
        if crash is not None:
            crashes.append(crash)
        if failure is not None:
            failure['suite'] = suites[job[0]].name
            failure['seed'] = job[1]
            failure['count'] = job[2]
            failures.append(failure)
        if (failure is not None or crash is not None) and deadline is None:
            deadline = time.monotonic() + 2
            # nobody needs to start other jobs
            while True:
                try:
                    jobs.get_nowait()
                except queues.Empty:
                    break
        if deadline is not None and time.monotonic() > deadline:
            break
    for worker in workers:
        worker.kill()
    for worker in workers:
        worker.join()
    jobs.cancel_join_thread()
    results.cancel_join_thread()
    if failures:
        return records, min(
            failures, key=lambda value: len(json.dumps(value, default=str))
        )
    if crashes:
        raise HarnessError(crashes[0])
    for suite, record in zip(suites, records):
        if suite.finish is not None:
            errors = suite.finish(record)
            if errors:
                return records, {
                    'errors': errors,
                    'case': {
                        'classes': dict(record.classes),
                        'evaluations': record.evaluations,
                    },
                    'choices': None,
                    'suite': suite.name,
                    'seed': run_seed,
                    'count': suite.counts[tier],
                }
    return records, None


def write_evidence(property_id, tier, run_seed, level, rule, suites, records,
                   assumptions, wall, violations):
    total = Record()
    digests = set()
    for suite, record in zip(suites, records):
        total.merge(record)
        digests |= {(suite.name, digest) for digest in record.digests}
    samples = []
    for suite, record in zip(suites, records):
        for sample in record.samples[:2]:
            samples.append({'suite': suite.name, 'case': sample})
    coverage = {
        'evaluations': total.evaluations,
        'distinct_nontrivial': len(digests),
        'rule': rule,
        'samples': samples[:16],
        'by_suite': {
            suite.name: {
                'evaluations': record.evaluations,
                'distinct_nontrivial': len(record.digests),
                'classes': dict(sorted(record.classes.items())),
                **({'maxima': record.maxima} if record.maxima else {}),
            }
            for suite, record in zip(suites, records)
        },
    }
    path = ROOT / 'evidence' / f'{property_id}.json'
    path.parent.mkdir(exist_ok=True)
    path.write_text(
        json.dumps(
            {
                'property': property_id,
                'tier': tier,
                'seed': run_seed,
                'level': level,
                'coverage': coverage,
                'assumptions': assumptions,
                'wall_s': round(wall, 2),
                'violations': violations,
            },
            indent=1,
            default=str,
        )
        + '\n'
    )


def write_replay(property_id, tier, failure):
    REPLAYS.mkdir(exist_ok=True)
    path = REPLAYS / f'{property_id}.json'
    path.write_text(
        json.dumps(
            {'property': property_id, 'tier': tier, **failure},
            indent=1,
            default=str,
        )
        + '\n'
    )
    return path


def swallow_control(error):
    """Is this Hypothesis' own control flow, not an error of the code?"""
    return isinstance(error, UnsatisfiedAssumption)
