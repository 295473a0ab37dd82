"""Failures shrink: from wherever it has started, Hypothesis reduces "any
geometry at all" (or one of at least so many parts) to about the smallest
admissible geometry on about the simplest coordinates."""

from __future__ import annotations

import random

from hypothesis import HealthCheck, Phase, find, settings
from hypothesis import strategies as st

from .draws import describe, is_control, shown
from .kinds import CONTEXTS, KINDS
from .runner import Suite, Violation

WIDTHS = [500, 10**4, 10**9]
# on the unchanged tree sizes exceed the bound by 2 at most,
# coordinates stay below twice the number of needed ones
SIZE_SLACK = 4


def _flat(data):
    return {'size': len(data)}


def _polygon(data):
    return {'size': len(data[0]), 'holes_size': len(data[1])}


def _multicontour(data):
    return {'size': len(data), 'contour_size': max(map(len, data))}


def _multipolygon(data):
    return {
        'size': len(data),
        'border_size': max(len(border) for border, _ in data),
        'holes_size': max(len(holes) for _, holes in data),
    }


def _mix(data):
    return {
        f'{name}_size': len(data[name])
        for name in ('points', 'segments', 'polygons')
    }


# how to measure a geometry, lower bounds of sizes to choose from, whether to
# look for more than the lower bound asks for
MODELS = {
    'points': (lambda data: {}, {}, False),
    'boxes': (lambda data: {}, {}, False),
    'segments': (lambda data: {}, {}, False),
    'triangular_contours': (lambda data: {}, {}, False),
    'rectangular_contours': (lambda data: {}, {}, False),
    'multipoints': (_flat, {'size': (1, 8)}, True),
    'multisegments': (_flat, {'size': (2, 6)}, True),
    'contours': (_flat, {'size': (3, 8)}, False),
    'convex_contours': (_flat, {'size': (3, 8)}, True),
    'concave_contours': (_flat, {'size': (4, 6)}, False),
    'star_contours': (_flat, {'size': (3, 4)}, False),
    'multicontours': (
        _multicontour,
        {'size': (2, 3), 'contour_size': (3, 4)},
        False,
    ),
    'polygons': (
        _polygon,
        {'size': (3, 5), 'holes_size': (0, 1)},
        False,
    ),
    'multipolygons': (
        _multipolygon,
        {'size': (2, 3), 'border_size': (3, 4), 'holes_size': (0, 0)},
        False,
    ),
    'mixes': (
        _mix,
        {
            'points_size': (0, 2),
            'segments_size': (0, 2),
            'polygons_size': (0, 1),
        },
        False,
    ),
}

# arrangements of segments shrink first, their coordinates may get stuck
SCATTERED = {'multisegments', 'mixes'}


def _wanted(name, least):
    """Sizes nothing shrinks below."""
    if name == 'mixes':
        # at least two of components are not empty
        return {key: max(value, 1) for key, value in least.items()}
    return least


def to_case(name):
    kind, context = KINDS[name], CONTEXTS['fraction']
    measure, ranges, extensible = MODELS[name]

    def case(draw, record):
        params, least = {}, {}
        for size, (low, high) in ranges.items():
            low = least[size] = draw(st.integers(low, high))
            params[f'min_{size}'] = low
            extra = draw(st.sampled_from([None, None, 8, 12]))
            params[f'max_{size}'] = None if extra is None else low + extra
        if name == 'polygons' and params['min_holes_size']:
            params['max_size'] = None
        width = draw(st.sampled_from(WIDTHS))
        config = {
            'kind': name,
            'context': 'fraction',
            'params': params,
            'x': {
                'form': 'integers',
                'scalar': 'fraction',
                'low': 0,
                'high': width,
            },
            'y': None,
        }
        run_seed = draw(st.integers(0, 2**32))
        more = draw(st.integers(0, 3)) if extensible else 0
        described = {'config': config, 'seed': run_seed, 'more': more}
        strategy = kind.build(config, context)
        if more:
            least['size'] += more

        def suits(value):
            return not more or (
                measure(kind.to_data(context, value))['size']
                >= least['size']
            )

        try:
            found = find(
                strategy,
                suits,
                settings=settings(
                    max_examples=500,
                    database=None,
                    deadline=None,
                    # nothing is inherited from the settings of the check
                    phases=[Phase.generate, Phase.shrink],
                    suppress_health_check=list(HealthCheck),
                ),
                random=random.Random(run_seed),
            )
            data = kind.to_data(context, found)
        except Exception as error:
            if is_control(error):
                raise
            raise Violation(
                [f'search raised {type(error).__name__}: {error}'], described
            ) from error
        sizes = measure(data)
        errors = [
            f'{size}: {sizes[size]}, though {bound} would do'
            for size, bound in _wanted(name, least).items()
            if sizes[size] > bound + SIZE_SLACK
        ]
        if name not in SCATTERED:
            limit = 40 + 8 * sum(least.values())
            largest = max(
                coordinate
                for point in kind.to_points(data)
                for coordinate in point
            )
            record.maximum('coordinate', float(largest))
            if largest > limit:
                errors.append(f'coordinate {largest} is not simple')
        if errors:
            raise Violation(errors, {**described, 'data': shown(data)})
        for size, bound in _wanted(name, least).items():
            record.maximum(f'excess of {size}', sizes[size] - bound)
        record.note(
            (config, run_seed, more),
            classes=[f'up to {width}'],
            sample=lambda: {
                'config': describe(config),
                'seed': run_seed,
                'at least': least,
                'shrunk to': shown(data),
            },
        )

    return case


COUNTS = {'concave_contours': 5, 'multisegments': 12, 'multipoints': 16}


def suites():
    return [
        Suite(
            name,
            to_case(name),
            quick=COUNTS.get(name, 8),
            thorough=COUNTS.get(name, 8) * 20,
            chunk=4,
            shrink=False,
        )
        for name in MODELS
    ]
