"""The checks: one entry per property of properties.jsonl."""

from __future__ import annotations

from . import (
    arguments,
    defaults,
    delivery,
    determinism,
    diversity,
    domains,
    geom,
    isolation,
    shrinking,
    work,
)
from .draws import to_case, to_contexts_case
from .kinds import KINDS, coordinates_errors
from .runner import Suite

EXACT = (
    'arithmetic of the context is exact on the coordinates: fractions, or'
    ' floats which are small multiples of 1/2'
)
ROOMY = (
    'coordinate strategies offer at least as many distinct values as the'
    ' requested sizes need (Hypothesis rejects the draw otherwise)'
)

CASE_RULE = (
    'a case is one configuration (sizes, context, one or two coordinate'
    ' domains: explicit finite grids from the tightest admissible one up,'
    ' clusters, gaps, powers, mixed scales, bounded & unbounded integers and'
    ' fractions, dyadic floats) and one geometry drawn from the strategy it'
    ' describes, both generated by Hypothesis; cases are told apart by'
    ' configuration and geometry; '
)


class Check:
    def __init__(self, title, suites, rule, assumptions=(EXACT, ROOMY)):
        self.title = title
        self.suites = suites
        self.rule = rule
        self.assumptions = list(assumptions)


def validity(kind, _config, data):
    return kind.errors(data)


def coordinates(kind, config, data):
    return coordinates_errors(kind, config, data, kind.to_points(data))


def sizes(kind, config, data):
    return kind.size_errors(data, config['params'])


def simplicity(_kind, _config, data):
    return geom.ring_errors(geom.scaler_of(data).ring(data))


def kind_suites(names, judge, counts, *, variants, prefix=''):
    """Suites for each kind and each (name, specs, context, share)."""
    result = []
    for name in names:
        for variant, specs, context, share, *rest in variants:
            (profile,) = rest or ('normal',)
            if profile == 'large' and name not in LARGE:
                continue
            count = counts[name] if isinstance(counts, dict) else counts
            result.append(
                Suite(
                    f'{prefix}{name}/{variant}',
                    to_case(
                        name,
                        judge,
                        specs=specs,
                        context=context,
                        profile=profile,
                    ),
                    quick=max(int(count * share), 1),
                )
            )
    return result


FRACTION = ('fractions', domains.fraction_specs, 'fraction', 1)
DYADIC = ('dyadic floats', domains.dyadic_float_specs, 'float', 0.2)


def any_floats(_need):
    return domains.float_specs()


ANY_FLOAT = ('floats', any_floats, 'float', 0.3)
IRREGULAR = (
    'irregular grids',
    domains.irregular_specs,
    'fraction',
    0.3,
    ('small', 'normal'),
)
ALIGNED = (
    'aligned grids',
    domains.aligned_specs,
    'fraction',
    0.3,
    ('small', 'normal'),
)
LINEAR = ('linear', domains.cheap_specs, 'fraction', 0.6, 'linear')
HOLEY = ('holey', domains.cheap_specs, 'fraction', 0.3, 'holey')
HOLEY_ALIGNED = (
    'holey on aligned grids',
    domains.aligned_specs,
    'fraction',
    0.1,
    'holey',
)
MORE_ALIGNED = ('more aligned grids', *ALIGNED[1:3], 0.4, 'small')
LARGER = ('large', domains.large_specs, 'fraction', 0.03, 'large')
DISGUISED = ('disguised', domains.disguised_specs, 'fraction', 0.1)
EXACT_VARIANTS = [FRACTION, DYADIC, IRREGULAR, ALIGNED, LARGER, DISGUISED]
# sizes far beyond are never accepted by some
LARGE = {
    'multipoints',
    'multisegments',
    'contours',
    'convex_contours',
    'concave_contours',
    'multicontours',
    'polygons',
    'multipolygons',
    'mixes',
}

CONTOURS = [
    'contours',
    'convex_contours',
    'concave_contours',
    'star_contours',
    'triangular_contours',
    'rectangular_contours',
]
COORDINATED = [name for name in KINDS if name != 'empty_geometries']
SIZED = [
    'multipoints',
    'multisegments',
    'contours',
    'convex_contours',
    'concave_contours',
    'star_contours',
    'multicontours',
    'polygons',
    'multipolygons',
    'mixes',
]
# factories that only select, sort and compare what they draw
ROUNDING_SAFE = [
    'points',
    'boxes',
    'segments',
    'multipoints',
    'triangular_contours',
    'rectangular_contours',
    'convex_contours',
]


def contexts_suites():
    result = []
    for name in KINDS:
        count = {'empty_geometries': 40, 'mixes': 900}.get(name, 550)
        result += [
            Suite(
                f'{name}/fractions',
                to_contexts_case(
                    name,
                    [
                        'custom-fraction',
                        'other-fraction',
                        'standalone-fraction',
                        'fraction',
                    ],
                    domains.cheap_specs,
                ),
                quick=count,
            ),
            Suite(
                f'{name}/dyadic floats',
                to_contexts_case(
                    name,
                    ['custom-float', 'float'],
                    domains.dyadic_float_specs,
                ),
                quick=max(count // 6, 10),
            ),
        ]
    return result


def basic_suites():
    return kind_suites(
        ['points', 'boxes', 'segments', 'multipoints'],
        validity,
        8000,
        variants=[FRACTION, ANY_FLOAT, IRREGULAR, LARGER, DISGUISED],
    ) + kind_suites(
        ['empty_geometries'],
        validity,
        20,
        variants=[FRACTION],
    )


PROPERTIES = {
    'C01': Check(
        'basic geometries',
        basic_suites,
        CASE_RULE + 'trivial are multipoints of one point',
        [ROOMY],
    ),
    'C02': Check(
        'multisegments',
        lambda: kind_suites(
            ['multisegments'], validity, 7000, variants=EXACT_VARIANTS
        ),
        CASE_RULE + 'each has at least two segments, none is trivial',
    ),
    'C03': Check(
        'contours are simple',
        lambda: kind_suites(
            CONTOURS,
            simplicity,
            {
                'contours': 4000,
                'convex_contours': 3000,
                'concave_contours': 2200,
                'star_contours': 1600,
                'triangular_contours': 2000,
                'rectangular_contours': 1000,
            },
            variants=EXACT_VARIANTS,
        ),
        CASE_RULE
        + 'trivial are triangles drawn from factories of bigger contours',
    ),
    'C04': Check(
        'shapes of contours',
        lambda: kind_suites(
            CONTOURS[1:],
            validity,
            {
                'convex_contours': 4000,
                'concave_contours': 2400,
                'star_contours': 2400,
                'triangular_contours': 2000,
                'rectangular_contours': 2000,
            },
            variants=EXACT_VARIANTS,
        ),
        CASE_RULE
        + 'trivial are triangles drawn from factories of bigger contours',
    ),
    'C05': Check(
        'multicontours',
        lambda: kind_suites(
            ['multicontours'],
            validity,
            8000,
            variants=[*EXACT_VARIANTS, MORE_ALIGNED],
        ),
        CASE_RULE + 'each has at least two contours, none is trivial',
    ),
    'C06': Check(
        'polygons',
        lambda: kind_suites(
            ['polygons'],
            validity,
            4500,
            variants=[*EXACT_VARIANTS, HOLEY, HOLEY_ALIGNED],
        ),
        CASE_RULE + 'trivial are triangles without holes',
    ),
    'C07': Check(
        'multipolygons',
        lambda: kind_suites(
            ['multipolygons'], validity, 4000, variants=EXACT_VARIANTS
        ),
        CASE_RULE + 'each has at least two polygons, none is trivial',
    ),
    'C08': Check(
        'mixes',
        lambda: kind_suites(
            ['mixes'],
            validity,
            2600,
            variants=[*EXACT_VARIANTS, LINEAR],
        ),
        CASE_RULE + 'each has at least two components, none is trivial',
    ),
    'C09': Check(
        'sizes',
        lambda: kind_suites(
            SIZED,
            sizes,
            {
                'multipoints': 2000,
                'multisegments': 1500,
                'contours': 1500,
                'convex_contours': 1500,
                'concave_contours': 800,
                'star_contours': 800,
                'multicontours': 1500,
                'polygons': 1200,
                'multipolygons': 800,
                'mixes': 800,
            },
            variants=[FRACTION, IRREGULAR, LARGER, DISGUISED],
        ),
        CASE_RULE + 'trivial are geometries of the smallest size there is',
        [ROOMY],
    ),
    'C10': Check(
        'coordinates',
        lambda: kind_suites(
            COORDINATED,
            coordinates,
            {
                'points': 1000,
                'boxes': 1000,
                'segments': 1000,
                'multipoints': 1500,
                'multisegments': 1500,
                'contours': 1500,
                'convex_contours': 1500,
                'concave_contours': 600,
                'star_contours': 600,
                'triangular_contours': 1000,
                'rectangular_contours': 1000,
                'multicontours': 1200,
                'polygons': 1000,
                'multipolygons': 700,
                'mixes': 700,
            },
            variants=EXACT_VARIANTS,
        )
        + kind_suites(
            ROUNDING_SAFE,
            coordinates,
            {name: 600 for name in ROUNDING_SAFE} | {'convex_contours': 2500},
            variants=[('floats', any_floats, 'float', 1)],
        ),
        CASE_RULE
        + 'trivial are the smallest geometries; suites of any floats are'
        ' limited to factories that do not depend on exact arithmetic',
        [ROOMY],
    ),
    'C11': Check(
        'classes of the context',
        contexts_suites,
        'a case is two configurations of one factory with different contexts'
        ' (default classes, custom ones, some custom ones) and a geometry'
        ' drawn from each, one after another; trivial are cases of the'
        ' smallest geometries',
    ),
    'C12': Check(
        'size arguments',
        arguments.suites,
        'a case is a choice of size arguments (missing, None, negative, too'
        ' small, inconsistent, valid) of one factory, called under recorded'
        ' warnings and, when admissible, drawn from once; cases are told'
        ' apart by the arguments, a call without any is trivial',
        [],
    ),
    'C13': Check(
        'reproducibility',
        determinism.suites,
        'a case is a configuration and a seed, whose sequence of draws is'
        ' compared between two runs of one strategy, a second strategy built'
        ' from the same arguments and a fresh interpreter with another hash'
        ' seed, under different states of the global random generator;'
        ' trivial are sequences of equal draws',
        [
            'constants that Hypothesis collects from source code are switched'
            ' off, as they depend on which modules are loaded',
        ],
    ),
    'C14': Check(
        'reachability',
        diversity.suites,
        'a case is a draw from the strategy of a fixed scenario; draws are'
        ' told apart by the geometry; each required feature of the scenario'
        ' has to be met at least once',
        [
            'the number of draws makes even the rarest required feature'
            ' expected dozens of times, so missing it by chance is'
            ' negligible',
        ],
    ),
    'C15': Check(
        'termination',
        work.suites,
        'a case is a configuration with plenty of coordinates and a seed, for'
        ' which up to 10 geometries are drawn while steps (function entries'
        ' and jumps) of the package are counted; trivial are cases of at most'
        ' 100 steps a draw',
        ['steps inside of dependencies are not counted'],
    ),
    'C16': Check(
        'independence of draws',
        isolation.suites,
        'a case is a configuration and a seed, whose sequence of draws is'
        ' compared with the one of a user who reverses or empties every list'
        ' of each drawn geometry; trivial are cases without lists',
        [],
    ),
    'C17': Check(
        'defaults',
        defaults.suites,
        'a case is a configuration, a seed and a choice of arguments with'
        ' default values; sequences of draws are compared between strategies'
        ' which are given these arguments, which are not, and which are or'
        ' are not given the ordinates; trivial are sequences of equal draws',
        [],
    ),
    'C18': Check(
        'shrinking',
        shrinking.suites,
        'a case is a configuration with wide coordinates, a seed and a number'
        ' of parts to look for; Hypothesis finds and shrinks such a geometry;'
        ' each case counts as non-trivial',
        ['the context is the one of fractions'],
    ),
    'C19': Check(
        'delivery',
        delivery.suites,
        'a case is a configuration (default or moderate sizes, wide'
        ' coordinates) and a seed, with which 100 examples are asked for'
        ' under health checks; each case counts as non-trivial',
        [
            'the health check of speed is switched off, as it depends on the'
            ' machine',
        ],
    ),
}
