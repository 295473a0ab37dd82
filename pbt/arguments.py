"""Size arguments: which are rejected, warned about, and replaced.

Oracle: the documented meaning of each (lower bound, upper bound) pair and
the smallest size its geometry may have.
"""

from __future__ import annotations

import re
import warnings

from hypothesis import strategies as st
from hypothesis.errors import HypothesisWarning

from .domains import Domain
from .draws import is_control, plain, shown
from .kinds import CONTEXTS, KINDS, Malformed
from .runner import Suite, Violation

# pairs `min_<name>`, `max_<name>` with the smallest meaningful size
PAIRS = {
    'multipoints': {'size': 1},
    'multisegments': {'size': 2},
    'contours': {'size': 3},
    'convex_contours': {'size': 3},
    'concave_contours': {'size': 4},
    'star_contours': {'size': 3},
    'multicontours': {'size': 2, 'contour_size': 3},
    'polygons': {'size': 3, 'holes_size': 0, 'hole_size': 3},
    'multipolygons': {
        'size': 2,
        'border_size': 3,
        'holes_size': 0,
        'hole_size': 3,
    },
    'mixes': {
        'points_size': 0,
        'segments_size': 0,
        'polygons_size': 0,
        'polygon_border_size': 3,
        'polygon_holes_size': 0,
        'polygon_hole_size': 3,
    },
}
COMPONENTS = ['points_size', 'segments_size', 'polygons_size']

# roomy enough for everything below
COORDINATES = {
    'form': 'integers',
    'scalar': 'fraction',
    'low': -500,
    'high': 500,
}


def mentions(text, name):
    return re.search(rf'(?<![A-Za-z_]){name}(?![A-Za-z_])', text) is not None


@st.composite
def arguments(draw, kind_name):
    """Some of the size arguments; about a third of the cases are invalid,
    a third has too small lower bounds, some bounds are vast."""
    result = {}
    mood = draw(st.sampled_from(['valid', 'small', 'any', 'any', 'vast']))
    if mood == 'vast':
        for name, smallest in PAIRS[kind_name].items():
            # there is no limit by default, so any lower bound is admissible
            if draw(st.booleans()):
                low = smallest + draw(
                    st.integers(0, 30) | st.integers(0, 10**6)
                )
                result[f'min_{name}'] = low
            else:
                low = smallest
            if draw(st.integers(0, 3)) == 0:
                result[f'max_{name}'] = low + draw(
                    st.integers(0, 10) | st.integers(0, 10**6)
                )
            elif draw(st.booleans()):
                result[f'max_{name}'] = None
        return result
    for name, smallest in PAIRS[kind_name].items():
        low = draw(
            st.none()
            | {
                'valid': st.integers(smallest, smallest + 2),
                'small': st.integers(smallest - 4, smallest),
                'any': st.integers(smallest - 4, smallest + 3),
            }[mood]
        )
        high = draw(
            st.none()
            | (
                st.integers(
                    max(smallest, smallest if low is None else low),
                    smallest + 4,
                )
                if mood != 'any'
                else st.integers(smallest - 3, smallest + 4)
            )
        )
        if low is not None:
            result[f'min_{name}'] = low
        if high is not None or draw(st.booleans()):
            result[f'max_{name}'] = high
    return result


def judge_arguments(kind_name, given):
    """(names of arguments that make the call invalid, too small ones)"""
    culprits, small = set(), set()
    for name, smallest in PAIRS[kind_name].items():
        low = given.get(f'min_{name}', smallest)
        high = given.get(f'max_{name}')
        if high is not None:
            if high < smallest:
                culprits.add(f'max_{name}')
            elif low > high:
                culprits |= {f'min_{name}', f'max_{name}'}
            elif low < 0:
                culprits.add(f'min_{name}')
        if low < smallest:
            small.add(f'min_{name}')
    if kind_name == 'mixes' and (
        sum(given.get(f'max_{name}') == 0 for name in COMPONENTS) > 1
    ):
        culprits.add('components')
    return culprits, small


def effective(kind_name, given):
    return {
        key: value
        for name, smallest in PAIRS[kind_name].items()
        for key, value in [
            (
                f'min_{name}',
                max(given.get(f'min_{name}', smallest), smallest),
            ),
            (f'max_{name}', given.get(f'max_{name}')),
        ]
    }


def to_case(kind_name):
    kind = KINDS[kind_name]
    context = CONTEXTS['fraction']

    def case(draw, record):
        given = draw(arguments(kind_name))
        with_y = draw(st.booleans())
        culprits, small = judge_arguments(kind_name, given)
        config = {
            'kind': kind_name,
            'context': 'fraction',
            'params': effective(kind_name, given),
            'x': COORDINATES,
            'y': COORDINATES if with_y else None,
        }
        shown_case = {'kind': kind_name, 'arguments': given}

        def fail(*errors):
            raise Violation(errors, shown_case)

        coordinates = Domain(COORDINATES).strategy
        strategy = raised = None
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            try:
                strategy = kind.factory(
                    coordinates,
                    *([coordinates] if with_y else []),
                    context=context,
                    **given,
                )
            except ValueError as error:
                raised = error
            except Exception as error:
                fail(f'construction raised {type(error).__name__}: {error}')
        messages = [
            str(warning.message)
            for warning in caught
            if issubclass(warning.category, HypothesisWarning)
        ]
        if culprits:
            if raised is None:
                fail(
                    f'accepted despite {sorted(culprits)}', f'{messages}'
                )
            if 'components' not in culprits and not any(
                mentions(str(raised), name) for name in culprits
            ):
                fail(
                    f'none of {sorted(culprits)} is mentioned by: {raised}'
                )
        else:
            if raised is not None:
                fail(f'rejected admissible sizes: {raised}')
            for name in small:
                count = sum(mentions(text, name) for text in messages)
                if count != 1:
                    fail(f'{count} warnings about {name}: {messages}')
            if len(messages) != len(small):
                fail(f'warned without a reason: {messages}')
            feasible = kind.need(config['params']) <= 120 and all(
                config['params'][f'min_{name}'] <= 100
                for name in PAIRS[kind_name]
            )
            if feasible:
                try:
                    data = kind.to_data(context, draw(strategy))
                except Malformed as error:
                    fail(str(error))
                except Exception as error:
                    if is_control(error):
                        raise
                    fail(f'drawing raised {type(error).__name__}: {error}')
                errors = kind.size_errors(data, config['params'])
                if errors:
                    raise Violation(
                        errors, {**shown_case, 'data': plain(data)}
                    )
        record.note(
            (kind_name, sorted(given.items(), key=repr), with_y),
            nontrivial=bool(given),
            classes=[
                'rejected'
                if culprits
                else ('warned about' if small else 'accepted silently')
            ],
            sample=lambda: {
                **shown(shown_case),
                'outcome': (
                    f'ValueError: {raised}'
                    if raised is not None
                    else f'{len(messages)} warnings, drawn'
                ),
            },
        )

    return case


def suites():
    counts = {'mixes': 900, 'multipolygons': 700, 'polygons': 800}
    return [
        Suite(name, to_case(name), quick=counts.get(name, 450))
        for name in PAIRS
    ]
