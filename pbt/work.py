"""Drawing terminates: bounded work per attempt, bounded number of attempts.

Work is counted, not timed: function entries and jumps in the code of the
package under test (`sys.monitoring`), so that an endless or exploding loop is
a deterministic failure.
"""

from __future__ import annotations

import sys
from pathlib import Path

import hypothesis_geometry
from hypothesis import strategies as st

from . import sequences
from .draws import describe
from .kinds import CONTEXTS, KINDS, gentle_configs
from .runner import Suite, Violation

PACKAGE = str(Path(hypothesis_geometry.__file__).resolve().parent)
TOOL = 4
ATTEMPTS = 10
# the most seen on the unchanged tree is about 1/20 of that
STEPS = 4_000_000


class WorkExceeded(BaseException):
    pass


class Meter:
    """Counts steps of the package's code between `start` and `stop`."""

    def __init__(self):
        self.steps = 0
        self.running = False
        self.ours = {}
        monitoring = sys.monitoring
        self.events = monitoring.events
        monitoring.use_tool_id(TOOL, 'verif-work')
        monitoring.register_callback(
            TOOL, self.events.PY_START, self._entered
        )
        monitoring.register_callback(TOOL, self.events.JUMP, self._jumped)
        monitoring.set_events(TOOL, self.events.PY_START)

    def _entered(self, code, _offset):
        ours = self.ours.get(code)
        if ours is None:
            ours = self.ours[code] = code.co_filename.startswith(PACKAGE)
            if ours:
                sys.monitoring.set_local_events(
                    TOOL, code, self.events.JUMP
                )
        if not ours:
            return sys.monitoring.DISABLE
        self._step()

    def _jumped(self, _code, _offset, _target):
        self._step()

    def _step(self):
        if self.running:
            self.steps += 1
            if self.steps > STEPS:
                self.running = False
                raise WorkExceeded

    def measure(self, function):
        self.steps, self.running = 0, True
        try:
            return function()
        finally:
            self.running = False


_meter = None


def meter():
    global _meter
    if _meter is None:
        _meter = Meter()
    return _meter


def to_case(kind_name):
    kind = KINDS[kind_name]

    def case(draw, record):
        config = draw(gentle_configs(kind))
        run_seed = draw(st.integers(0, 2**32))
        context = CONTEXTS['fraction']
        described = {'config': config, 'seed': run_seed}
        attempts = valid = 0
        worst = 0

        def body(data):
            nonlocal attempts, valid, worst
            attempts += 1
            try:
                meter().measure(lambda: data.draw(strategy))
            finally:
                worst = max(worst, meter().steps)
            valid += 1

        try:
            strategy = meter().measure(lambda: kind.build(config, context))
            sequences.run(body, st.data(), run_seed, ATTEMPTS)
        except WorkExceeded:
            raise Violation(
                [f'a draw takes more than {STEPS} steps'], described
            ) from None
        except Exception as error:
            if type(error).__name__ != 'Unsatisfiable':
                raise Violation(
                    [f'drawing raised {type(error).__name__}: {error}'],
                    described,
                ) from error
            raise Violation(
                [f'none of {attempts} attempts yields a geometry'], described
            ) from None
        record.maximum('steps of a draw', worst)
        record.maximum('attempts for a geometry', attempts / max(valid, 1))
        record.note(
            (config, run_seed),
            nontrivial=worst > 100,
            classes=[
                f'about 10^{len(str(worst)) - 1} steps',
                f'{round(10 * valid / attempts)}0% of attempts accepted',
            ],
            sample=lambda: {
                'config': describe(config),
                'seed': run_seed,
                'attempts': attempts,
                'geometries': valid,
                'most steps': worst,
            },
        )

    return case


COUNTS = {
    'points': 10,
    'boxes': 10,
    'segments': 10,
    'triangular_contours': 20,
    'rectangular_contours': 10,
}


def suites():
    return [
        Suite(
            name,
            to_case(name),
            quick=COUNTS.get(name, 80),
            chunk=10,
            thorough=COUNTS.get(name, 80) * 20,
        )
        for name in KINDS
        if name != 'empty_geometries'
    ]
