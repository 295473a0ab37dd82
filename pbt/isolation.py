"""Draws are separate values: a user may change or keep what was drawn
without any effect on what is drawn later."""

from __future__ import annotations

from hypothesis import strategies as st

from . import sequences
from .draws import describe
from .kinds import CONTEXTS, KINDS, repetitive_configs
from .runner import Suite, Violation

COUNT = 8
LONG_COUNT = 100
FIELDS = ('points', 'segments', 'vertices', 'border', 'holes', 'polygons',
          'discrete', 'linear', 'shaped')


def mutable_lists(value):
    """Lists reachable from a geometry (through the public attributes)."""
    result, stack = [], [value]
    while stack:
        current = stack.pop()
        if isinstance(current, list):
            result.append(current)
        if isinstance(current, (list, tuple)):
            stack.extend(current)
        else:
            for field in FIELDS:
                if hasattr(current, field):
                    stack.append(getattr(current, field))
    return result


def to_case(kind_name, count=COUNT):
    kind = KINDS[kind_name]

    def case(draw, record):
        config = draw(repetitive_configs(kind))
        run_seed = draw(st.integers(0, 2**32))
        described = {'config': config, 'seed': run_seed}
        try:
            plain = sequences.collect(config, run_seed, count)
        except Exception as error:
            if type(error).__name__ == 'Unsatisfiable':
                return
            raise Violation(
                [f'drawing raised {type(error).__name__}: {error}'], described
            ) from error
        strategy = kind.build(config, CONTEXTS[config['context']])
        kept, owners, lists_count = [], {}, 0

        def spoil(value):
            nonlocal lists_count
            lists = mutable_lists(value)
            # alive, so that no identity is reused
            kept.append((value, lists))
            for item in lists:
                owner = owners.setdefault(id(item), len(kept))
                if owner != len(kept):
                    raise Violation(
                        [f'draws #{owner} and #{len(kept)} share a list'],
                        described,
                    )
            lists_count += len(lists)
            for item in lists:
                item.reverse()
                if run_seed % 2:
                    item.clear()

        try:
            spoiled = sequences.collect(
                config, run_seed, count, strategy=strategy, after=spoil
            )
        except Violation:
            raise
        except Exception as error:
            raise Violation(
                [
                    'drawing after earlier draws were changed raised'
                    f' {type(error).__name__}: {error}'
                ],
                described,
            ) from error
        if spoiled != plain:
            raise Violation(
                ['changing a drawn geometry changes later draws'],
                {**described, 'first': plain, 'second': spoiled},
            )
        record.note(
            (config, run_seed),
            nontrivial=lists_count > 0 and len(plain) > 1,
            classes=[f'{len(plain)} draws'],
            sample=lambda: {
                'config': describe(config),
                'seed': run_seed,
                'lists changed': lists_count,
                'first draw': plain[0],
            },
        )

    return case


NAMES = [
    'multipoints',
    'multisegments',
    'contours',
    'convex_contours',
    'concave_contours',
    'star_contours',
    'triangular_contours',
    'rectangular_contours',
    'multicontours',
    'polygons',
    'multipolygons',
    'mixes',
]
COUNTS = {'polygons': 120, 'mixes': 120}


def suites():
    return [
        Suite(
            name,
            to_case(name),
            quick=COUNTS.get(name, 80),
            chunk=10,
            thorough=COUNTS.get(name, 80) * 20,
        )
        for name in NAMES
    ] + [
        Suite(
            f'long {name}',
            to_case(name, LONG_COUNT),
            quick=6,
            chunk=3,
            thorough=120,
        )
        for name in NAMES
    ]
