"""Usable as they are: with default sizes (or moderate ones) and wide
coordinates Hypothesis delivers as many examples as were asked for and its
health checks pass."""

from __future__ import annotations

from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis import strategies as st

from .draws import describe, is_control
from .kinds import CONTEXTS, KINDS
from .runner import Suite, Violation

EXAMPLES = 100
# on the unchanged tree at least a quarter of attempts is accepted
LEAST_RATE = 0.1
DOMAINS = [
    {'form': 'integers', 'scalar': 'fraction', 'low': -100, 'high': 100},
    {'form': 'integers', 'scalar': 'fraction', 'low': 0, 'high': 10**6},
    {'form': 'integers', 'scalar': 'fraction', 'low': None, 'high': None},
    {
        'form': 'fractions',
        'scalar': 'fraction',
        'low': '-100/1',
        'high': '100/1',
        'max_denominator': None,
    },
    {
        'form': 'fractions',
        'scalar': 'fraction',
        'low': '0/1',
        'high': '1/1',
        'max_denominator': 1000,
    },
]
# moderate sizes besides the default ones
SIZES = {
    'multipoints': [{'max_size': 5}, {'min_size': 4, 'max_size': 10}],
    'multisegments': [{'max_size': 4}, {'min_size': 4, 'max_size': 8}],
    'contours': [{'max_size': 5}, {'min_size': 5, 'max_size': 10}],
    'convex_contours': [{'max_size': 5}, {'min_size': 4, 'max_size': 8}],
    'concave_contours': [{'min_size': 5}],
    'star_contours': [{'max_size': 6}],
    'multicontours': [{'max_size': 3}, {'min_size': 3, 'max_size': 4}],
    'polygons': [
        {'max_holes_size': 0},
        {'min_size': 4, 'max_size': 8, 'max_holes_size': 0},
        {'min_holes_size': 1},
    ],
    'multipolygons': [
        {'max_size': 3, 'max_holes_size': 0},
        {'min_size': 3},
    ],
    'mixes': [
        {'max_points_size': 0},
        {'max_segments_size': 0},
        {'max_polygons_size': 0},
        {'max_polygon_holes_size': 0},
        {'min_polygons_size': 1, 'max_polygons_size': 2},
    ],
}


def to_case(name):
    kind, context = KINDS[name], CONTEXTS['fraction']

    def case(draw, record):
        config = {
            'kind': name,
            'context': 'fraction',
            'params': draw(st.sampled_from([{}, {}, *SIZES.get(name, [])])),
            'x': draw(st.sampled_from(DOMAINS)),
            'y': draw(st.none() | st.sampled_from(DOMAINS)),
        }
        run_seed = draw(st.integers(0, 2**32))
        described = {'config': config, 'seed': run_seed}
        strategy = kind.build(config, context)
        attempts = delivered = 0

        def body(data):
            nonlocal attempts, delivered
            attempts += 1
            data.draw(strategy)
            delivered += 1

        try:
            # the speed depends on the machine
            seed(run_seed)(
                settings(
                    max_examples=EXAMPLES,
                    database=None,
                    deadline=None,
                    phases=[Phase.generate],
                    suppress_health_check=[
                        HealthCheck.too_slow,
                        HealthCheck.nested_given,
                    ],
                    print_blob=False,
                )(given(st.data())(body))
            )()
        except Exception as error:
            if is_control(error):
                raise
            raise Violation(
                [f'{type(error).__name__}: {error}'[:300]], described
            ) from error
        if delivered < EXAMPLES:
            raise Violation(
                [f'{delivered} of {EXAMPLES} examples in {attempts} attempts'],
                described,
            )
        rate = delivered / attempts
        if rate < LEAST_RATE:
            raise Violation(
                [f'{delivered} of {attempts} attempts are accepted'],
                described,
            )
        record.maximum('rejections per example', 1 / rate - 1)
        record.note(
            (config, run_seed),
            classes=[f'{int(10 * rate)}0% of attempts accepted'],
            sample=lambda: {
                'config': describe(config),
                'seed': run_seed,
                'attempts': attempts,
                'delivered': delivered,
            },
        )

    return case


COUNTS = {
    'points': 4,
    'boxes': 4,
    'segments': 5,
    'triangular_contours': 5,
    'rectangular_contours': 4,
    'polygons': 15,
    'mixes': 15,
}


def suites():
    return [
        Suite(
            name,
            to_case(name),
            quick=COUNTS.get(name, 9),
            chunk=5,
            thorough=COUNTS.get(name, 9) * 20,
            shrink=False,
        )
        for name in KINDS
        if name != 'empty_geometries'
    ]
