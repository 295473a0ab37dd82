"""Omitted arguments mean the documented defaults: the same strategy as when
they are spelled out."""

from __future__ import annotations

import warnings

from hypothesis import strategies as st

from . import sequences
from .arguments import COORDINATES, PAIRS
from .domains import Domain
from .draws import describe
from .kinds import CONTEXTS, KINDS, gentle_configs
from .runner import Suite, Violation

COUNT = 6


def _outcome(config, run_seed, strategy):
    try:
        return sequences.collect(config, run_seed, COUNT, strategy=strategy)
    except Exception as error:
        return [f'{type(error).__name__}: {error}']


def to_case(name):
    kind, context = KINDS[name], CONTEXTS['fraction']
    pairs = PAIRS.get(name, {})

    def case(draw, record):
        config = draw(gentle_configs(kind))
        run_seed = draw(st.integers(0, 2**32))
        # a choice of arguments with the default values
        defaults = {}
        for size, smallest in pairs.items():
            if draw(st.booleans()):
                defaults[f'min_{size}'] = smallest
            if draw(st.booleans()):
                defaults[f'max_{size}'] = None
        params = {**config['params'], **defaults}
        if name == 'mixes' and params['min_polygon_holes_size']:
            params['max_polygon_border_size'] = None
        for size in pairs:
            low, high = params[f'min_{size}'], params[f'max_{size}']
            if high is not None and low > high:
                params[f'max_{size}'] = None
        config = {**config, 'params': params, 'y': None}
        given = {
            key: value
            for key, value in params.items()
            if key not in defaults
        }
        described = {
            'config': config,
            'seed': run_seed,
            'omitted': sorted(defaults),
        }
        x = Domain(config['x']).strategy
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            strategies = {
                'all are spelled out': kind.factory(
                    x, x, context=context, **params
                ),
                f'{sorted(defaults)} are omitted': kind.factory(
                    x, x, context=context, **given
                ),
                'ordinates are None': kind.factory(
                    x, None, context=context, **params
                ),
                'ordinates are omitted': kind.factory(
                    x, context=context, **given
                ),
            }
        outcomes = {
            how: _outcome(config, run_seed, strategy)
            for how, strategy in strategies.items()
        }
        expected = outcomes['all are spelled out']
        for how, found in outcomes.items():
            if found != expected:
                raise Violation(
                    [f'something else is drawn when {how}'],
                    {**described, 'first': expected, 'second': found},
                )
        record.note(
            (config, run_seed, sorted(defaults)),
            nontrivial=len(set(expected)) > 1,
            classes=[f'{len(defaults)} sizes are omitted'],
            sample=lambda: {
                'config': describe(config),
                'seed': run_seed,
                'omitted': sorted(defaults),
                'first draw': expected[0],
            },
        )

    return case


def to_vast_case(name):
    """Sizes are not limited by default, so any lower bound is admissible."""
    kind, context = KINDS[name], CONTEXTS['fraction']

    def case(draw, record):
        given = {
            f'min_{size}': smallest + draw(exponent.flatmap(below))
            for size, smallest in PAIRS[name].items()
            if draw(st.booleans())
        }
        x = Domain(COORDINATES).strategy
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            try:
                kind.factory(x, context=context, **given)
            except Exception as error:
                raise Violation(
                    [f'unlimited sizes raised {type(error).__name__}: {error}'],
                    {'kind': name, 'given': given},
                )
        if caught:
            raise Violation(
                [f'warned about {[str(w.message) for w in caught]}'],
                {'kind': name, 'given': given},
            )
        record.note(
            (name, sorted(given.items())),
            nontrivial=bool(given),
            classes=[f'{len(given)} vast lower bounds'],
            sample=lambda: {'kind': name, 'given': given},
        )

    exponent = st.integers(0, 20)
    below = lambda power: st.integers(0, 2**power)
    return case


COUNTS = {
    'points': 20,
    'boxes': 20,
    'segments': 20,
    'triangular_contours': 30,
    'rectangular_contours': 20,
    'polygons': 70,
    'multipolygons': 40,
    'mixes': 70,
}


def suites():
    return [
        Suite(
            name,
            to_case(name),
            quick=COUNTS.get(name, 36),
            chunk=10,
            thorough=COUNTS.get(name, 36) * 20,
        )
        for name in KINDS
        if name != 'empty_geometries'
    ] + [
        Suite(f'vast-{name}', to_vast_case(name), quick=200) for name in PAIRS
    ]
