"""Model of the public API: for each strategy factory of
`hypothesis_geometry.planar`, its parameters, what a drawn geometry looks like
as plain data, and which errors it has.

Only public names are used: `planar.<factory>` and the context given to it.
"""

from __future__ import annotations

import math
import warnings
from fractions import Fraction

from ground.context import Context
from hypothesis import strategies as st

from hypothesis_geometry import planar

from . import domains, geom
from .domains import Domain

MAX = None


def next_prime(value):
    # the smallest width the library asks for is 5
    value = max(value, 5)
    while any(value % d == 0 for d in range(2, int(value**0.5) + 1)):
        value += 1
    return value


# --- contexts


CLASSES = [
    'box',
    'contour',
    'empty',
    'mix',
    'multipoint',
    'multipolygon',
    'multisegment',
    'point',
    'polygon',
    'segment',
]


def _make_custom_context(scalar, prefix='My', names=CLASSES):
    """A context whose named classes differ from the default ones."""
    base = Context(coordinate_factory=scalar, sqrt=math.sqrt)

    def subclass(cls):
        return type(f'{prefix}{cls.__name__}', (cls,), {'__slots__': ()})

    return Context(
        coordinate_factory=scalar,
        sqrt=math.sqrt,
        **{
            f'{name}_cls': subclass(getattr(base, f'{name}_cls'))
            for name in names
        },
    )


def _make_standalone_context(scalar):
    """A context of unrelated classes, which have what hints of `ground` ask
    for and nothing else."""

    def record(name, *fields):
        def new(cls, *values):
            assert len(values) == len(fields), (name, values)
            self = object.__new__(cls)
            for field, value in zip(fields, values, strict=True):
                object.__setattr__(self, f'_{field}', value)
            return self

        namespace = {'__slots__': [f'_{field}' for field in fields]}
        namespace['__new__'] = new
        for field in fields:
            namespace[field] = property(
                lambda self, field=field: getattr(self, f'_{field}')
            )
        return type(name, (), namespace)

    class SolePoint(record('SolePoint', 'x', 'y')):
        __slots__ = ()

        def _key(self):
            return (self.x, self.y)

        def __eq__(self, other):
            return self._key() == other._key()

        def __hash__(self):
            return hash(self._key())

        def __lt__(self, other):
            return self._key() < other._key()

        def __le__(self, other):
            return self._key() <= other._key()

        def __gt__(self, other):
            return self._key() > other._key()

        def __ge__(self, other):
            return self._key() >= other._key()

    return Context(
        coordinate_factory=scalar,
        sqrt=math.sqrt,
        box_cls=record('SoleBox', 'min_x', 'max_x', 'min_y', 'max_y'),
        contour_cls=record('SoleContour', 'vertices'),
        empty_cls=record('SoleEmpty'),
        mix_cls=record('SoleMix', 'discrete', 'linear', 'shaped'),
        multipoint_cls=record('SoleMultipoint', 'points'),
        multipolygon_cls=record('SoleMultipolygon', 'polygons'),
        multisegment_cls=record('SoleMultisegment', 'segments'),
        point_cls=SolePoint,
        polygon_cls=record('SolePolygon', 'border', 'holes'),
        segment_cls=record('SoleSegment', 'start', 'end'),
    )


CONTEXTS = {
    'standalone-fraction': _make_standalone_context(Fraction),
    'fraction': Context(coordinate_factory=Fraction, sqrt=math.sqrt),
    'float': Context(coordinate_factory=float, sqrt=math.sqrt),
    'custom-fraction': _make_custom_context(Fraction),
    'custom-float': _make_custom_context(float),
    # the same default classes, other custom ones
    'other-fraction': _make_custom_context(
        Fraction, 'Your', ['contour', 'empty', 'polygon', 'segment']
    ),
}


# --- plain data


class Malformed(Exception):
    """The drawn object is not what the factory promises to build."""


def _sequence(value, what):
    if not isinstance(value, (list, tuple)):
        raise Malformed(f'{what} is a {type(value).__name__}')
    return value


def _expect(value, cls, what):
    if type(value) is not cls:
        raise Malformed(
            f'{what} is a {type(value).__module__}.{type(value).__qualname__}'
            f' instead of {cls.__module__}.{cls.__qualname__}'
        )
    return value


def point_data(context, point):
    _expect(point, context.point_cls, 'point')
    return (point.x, point.y)


def segment_data(context, segment):
    _expect(segment, context.segment_cls, 'segment')
    return (
        point_data(context, segment.start),
        point_data(context, segment.end),
    )


def ring_data(context, contour):
    _expect(contour, context.contour_cls, 'contour')
    return [
        point_data(context, vertex)
        for vertex in _sequence(contour.vertices, 'contour vertices')
    ]


def polygon_data(context, polygon):
    _expect(polygon, context.polygon_cls, 'polygon')
    return (
        ring_data(context, polygon.border),
        [
            ring_data(context, hole)
            for hole in _sequence(polygon.holes, 'polygon holes')
        ],
    )


def mix_data(context, mix):
    _expect(mix, context.mix_cls, 'mix')
    discrete, linear, shaped = mix.discrete, mix.linear, mix.shaped
    if type(discrete) is context.empty_cls:
        points = []
    elif type(discrete) is context.multipoint_cls:
        points = [
            point_data(context, point)
            for point in _sequence(discrete.points, 'multipoint points')
        ]
        if not points:
            raise Malformed('discrete component is an empty multipoint')
    else:
        raise Malformed(f'discrete component is a {type(discrete)}')
    if type(linear) is context.empty_cls:
        segments = []
    elif type(linear) is context.segment_cls:
        segments = [segment_data(context, linear)]
    elif type(linear) is context.multisegment_cls:
        segments = [
            segment_data(context, segment)
            for segment in _sequence(
                linear.segments, 'multisegment segments'
            )
        ]
        if len(segments) < 2:
            raise Malformed(
                f'linear component is a multisegment of {len(segments)}'
            )
    elif type(linear) is context.contour_cls:
        ring = ring_data(context, linear)
        segments = geom.edges_of(ring)
    else:
        raise Malformed(f'linear component is a {type(linear)}')
    if type(shaped) is context.empty_cls:
        polygons = []
    elif type(shaped) is context.polygon_cls:
        polygons = [polygon_data(context, shaped)]
    elif type(shaped) is context.multipolygon_cls:
        polygons = [
            polygon_data(context, polygon)
            for polygon in _sequence(
                shaped.polygons, 'multipolygon polygons'
            )
        ]
        if len(polygons) < 2:
            raise Malformed(
                f'shaped component is a multipolygon of {len(polygons)}'
            )
    else:
        raise Malformed(f'shaped component is a {type(shaped)}')
    return {'points': points, 'segments': segments, 'polygons': polygons}


def _multipoint_data(context, value):
    _expect(value, context.multipoint_cls, 'multipoint')
    return [
        point_data(context, point)
        for point in _sequence(value.points, 'multipoint points')
    ]


def _multisegment_data(context, value):
    _expect(value, context.multisegment_cls, 'multisegment')
    return [
        segment_data(context, segment)
        for segment in _sequence(value.segments, 'multisegment segments')
    ]


def _multicontour_data(context, value):
    if type(value) is not list:
        raise Malformed(f'multicontour is a {type(value).__name__}')
    return [ring_data(context, contour) for contour in value]


def _multipolygon_data(context, value):
    _expect(value, context.multipolygon_cls, 'multipolygon')
    return [
        polygon_data(context, polygon)
        for polygon in _sequence(value.polygons, 'multipolygon polygons')
    ]


def _box_data(context, value):
    _expect(value, context.box_cls, 'box')
    return [value.min_x, value.max_x, value.min_y, value.max_y]


def _empty_data(context, value):
    _expect(value, context.empty_cls, 'empty geometry')
    return []


# --- points of plain data


def _rings_points(rings):
    return [point for ring in rings for point in ring]


def _polygons_points(polygons):
    return [
        point
        for border, holes in polygons
        for ring in (border, *holes)
        for point in ring
    ]


def _segments_points(segments):
    return [point for segment in segments for point in segment]


def _mix_points(data):
    return [
        *data['points'],
        *_segments_points(data['segments']),
        *_polygons_points(data['polygons']),
    ]


# --- validity errors of plain data


def _to_ring_check(shape):
    def check(ring):
        scaler = geom.scaler_of(ring)
        int_ring = scaler.ring(ring)
        errors = geom.ring_errors(int_ring)
        if not errors and shape is not None:
            errors = shape(int_ring)
        return errors

    return check


def _convex_errors(ring):
    return [] if geom.is_convex(ring) else ['contour is not convex']


def _concave_errors(ring):
    return ['contour is convex'] if geom.is_convex(ring) else []


def _triangular_errors(ring):
    return [] if len(ring) == 3 else [f'contour has {len(ring)} vertices']


def _rectangular_errors(ring):
    if len(ring) != 4:
        return [f'contour has {len(ring)} vertices']
    xs, ys = {x for x, _ in ring}, {y for _, y in ring}
    if len(xs) != 2 or len(ys) != 2:
        return ['contour is not an axis-aligned rectangle']
    if ring[0] != min(ring):
        return ['contour does not start from its lower left vertex']
    return []


def _points_errors(points):
    return (
        []
        if len(set(points)) == len(points)
        else ['multipoint repeats a point']
    )


def _segments_errors(segments):
    scaler = geom.scaler_of(_segments_points(segments))
    return geom.segments_errors([scaler.ring(segment) for segment in segments])


def _segment_errors(segment):
    start, end = segment
    return ['segment is degenerate'] if start == end else []


def _box_errors(box):
    min_x, max_x, min_y, max_y = box
    return [] if min_x < max_x and min_y < max_y else ['box is degenerate']


def _int_polygons(polygons, scaler):
    return [
        (scaler.ring(border), [scaler.ring(hole) for hole in holes])
        for border, holes in polygons
    ]


def _polygon_errors(polygon):
    scaler = geom.scaler_of(_polygons_points([polygon]))
    ((border, holes),) = _int_polygons([polygon], scaler)
    return geom.polygon_errors(border, holes)


def _polygons_errors(polygons):
    scaler = geom.scaler_of(_polygons_points(polygons))
    return geom.polygons_errors(_int_polygons(polygons, scaler))


def _multicontour_errors(rings):
    scaler = geom.scaler_of(_rings_points(rings))
    return geom.rings_errors([scaler.ring(ring) for ring in rings])


def _mix_errors(data):
    scaler = geom.scaler_of(_mix_points(data))
    errors = geom.mix_errors(
        scaler.ring(data['points']),
        [scaler.ring(segment) for segment in data['segments']],
        _int_polygons(data['polygons'], scaler),
    )
    if sum(map(bool, data.values())) < 2:
        errors.append('mix has less than two non-empty components')
    return errors


# --- sizes


def _size_errors(what, size, low, high):
    if size < low or (high is not None and size > high):
        return [f'{what} is {size}, not in [{low}, {high}]']
    return []


def _polygon_size_errors(polygon, params, prefix, border_prefix, hole_prefix):
    border, holes = polygon
    errors = _size_errors(
        'border size',
        len(border),
        params[f'min_{border_prefix}size'],
        params[f'max_{border_prefix}size'],
    )
    errors += _size_errors(
        'holes count',
        len(holes),
        params[f'min_{prefix}holes_size'],
        params[f'max_{prefix}holes_size'],
    )
    for hole in holes:
        errors += _size_errors(
            'hole size',
            len(hole),
            params[f'min_{hole_prefix}hole_size'],
            params[f'max_{hole_prefix}hole_size'],
        )
    return errors


def _flat_sizes(what):
    def check(data, params):
        return _size_errors(
            what, len(data), params['min_size'], params['max_size']
        )

    return check


def _multicontour_sizes(rings, params):
    errors = _size_errors(
        'multicontour size',
        len(rings),
        params['min_size'],
        params['max_size'],
    )
    for ring in rings:
        errors += _size_errors(
            'contour size',
            len(ring),
            params['min_contour_size'],
            params['max_contour_size'],
        )
    return errors


def _polygon_sizes(polygon, params):
    return _polygon_size_errors(polygon, params, '', '', '')


def _multipolygon_sizes(polygons, params):
    errors = _size_errors(
        'multipolygon size',
        len(polygons),
        params['min_size'],
        params['max_size'],
    )
    for polygon in polygons:
        errors += _polygon_size_errors(polygon, params, '', 'border_', '')
    return errors


def _mix_sizes(data, params):
    errors = []
    for what in ('points', 'segments', 'polygons'):
        errors += _size_errors(
            f'{what} count',
            len(data[what]),
            params[f'min_{what}_size'],
            params[f'max_{what}_size'],
        )
    for polygon in data['polygons']:
        errors += _polygon_size_errors(
            polygon, params, 'polygon_', 'polygon_border_', 'polygon_'
        )
    return errors


def _no_sizes(_data, _params):
    return []


# --- parameters


def _pairs(low, high, *, none=True):
    """(min, max) pairs: unbounded, exact and ranged; skewed to small sizes."""
    size = st.integers(low, high)
    exact_pair = size.map(lambda value: (value, value))
    ranged = st.tuples(size, st.integers(0, 4)).map(
        lambda pair: (pair[0], pair[0] + pair[1])
    )
    unbounded = size.map(lambda value: (value, None))
    return (
        st.one_of(unbounded, exact_pair, ranged)
        if none
        else st.one_of(exact_pair, ranged)
    )


def _named(pairs_by_name):
    """{'min_X': .., 'max_X': ..} for each name X."""

    def flatten(pairs):
        return {
            f'{bound}_{name}': value
            for name, pair in pairs.items()
            for bound, value in zip(('min', 'max'), pair)
        }

    return st.fixed_dictionaries(pairs_by_name).map(flatten)


MIX_PARAMS = {
    'normal': {
        'points_size': _pairs(0, 4),
        'segments_size': _pairs(0, 4),
        'polygons_size': _pairs(0, 3),
        'polygon_border_size': _pairs(3, 6),
        'polygon_holes_size': st.sampled_from(
            [(0, 0), (0, 0), (0, None), (0, 1), (1, 1), (0, 2), (1, 2)]
        ),
        'polygon_hole_size': _pairs(3, 5),
    },
    'small': {
        'points_size': _pairs(0, 1),
        'segments_size': _pairs(0, 2),
        'polygons_size': _pairs(0, 1),
        'polygon_border_size': _pairs(3, 4),
        'polygon_holes_size': st.just((0, 0)),
        'polygon_hole_size': st.just((3, None)),
    },
    # groups of segments next to each other
    'linear': {
        'points_size': _pairs(0, 1),
        'segments_size': st.sampled_from(
            [(2, None), (3, None), (4, None), (3, 6), (5, 8), (7, None)]
        ),
        'polygons_size': st.just((0, 1)),
        'polygon_border_size': st.just((3, 4)),
        'polygon_holes_size': st.just((0, 0)),
        'polygon_hole_size': st.just((3, None)),
    },
    'large': {
        'points_size': _pairs(0, 20),
        'segments_size': _pairs(0, 12),
        'polygons_size': _pairs(0, 5),
        'polygon_border_size': _pairs(3, 8).map(lambda pair: (pair[0], None)),
        'polygon_holes_size': st.sampled_from([(0, 0), (0, None), (0, 2)]),
        'polygon_hole_size': _pairs(3, 5),
    },
}


@st.composite
def _mix_params(draw, profile='normal'):
    params = draw(_named(MIX_PARAMS[profile]))
    # at least two components have to be possible
    names = ['points', 'segments', 'polygons']
    possible = [name for name in names if params[f'max_{name}_size'] != 0]
    if len(possible) < 2:
        for name in names:
            if name not in possible:
                params[f'max_{name}_size'] = None
    return params


def _need_mix(params):
    need_polygon = next_prime(
        params['min_polygon_border_size']
        + params['min_polygon_holes_size'] * params['min_polygon_hole_size']
    )

    def count(name):
        return max(
            params[f'min_{name}_size'],
            0 if params[f'max_{name}_size'] == 0 else 1,
        )

    return (
        count('points')
        + 2 * count('segments')
        + count('polygons') * need_polygon
    )


def _mix_compatible(x_size, y_size):
    # coordinates of one axis decide how many segments there are, then the
    # other axis has to have enough of them for a straight chain of segments
    return min(x_size, y_size) >= next_prime(max(x_size, y_size) // 2 + 1)


class Kind:
    def __init__(
        self,
        name,
        *,
        data,
        points,
        errors,
        sizes=_no_sizes,
        params=None,
        small=None,
        large=None,
        others=None,
        need=lambda params: 2,
        coordinates=True,
        closed=True,
        nontrivial=lambda data: True,
        classify=lambda data: (),
        weight=1,
        compatible=lambda x_size, y_size: True,
    ):
        # can the axes have these numbers of distinct coordinates?
        self.compatible = compatible
        self.name = name
        self.to_data = data
        self.to_points = points
        self.errors = errors
        self.size_errors = sizes
        normal = st.just({}) if params is None else params
        # distributions of sizes: `normal` ones are various, `small` ones
        # make degenerate arrangements likely, `large` ones go far beyond
        self.params = {
            'normal': normal,
            'small': normal if small is None else small,
            'large': normal if large is None else large,
            **({} if others is None else others),
        }
        self.need = need
        self.has_coordinates = coordinates
        # are all coordinates among those drawn from coordinate strategies?
        self.closed = closed
        self.nontrivial = nontrivial
        self.classify = classify
        self.weight = weight

    @property
    def factory(self):
        return getattr(planar, self.name)

    def build(self, config, context):
        """Strategy described by the config."""
        if not self.has_coordinates:
            return self.factory(context=context)
        args = [Domain(config['x']).strategy]
        if config['y'] is not None:
            args.append(Domain(config['y']).strategy)
        elif config.get('explicit_none'):
            args.append(None)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return self.factory(*args, context=context, **config['params'])


def _contour_params(low):
    return _named({'size': _pairs(low, 12)})


def _few(low, high):
    """Tight (min, max) pairs."""
    return st.tuples(st.integers(low, high), st.integers(0, 2)).map(
        lambda pair: (pair[0], pair[0] + pair[1])
    )


def _need_contour(params):
    return next_prime(params['min_size'])


def _classify_ring(ring):
    ring = geom.scaler_of(ring).ring(ring)
    yield f'{min(len(ring), 12)}-gon'
    yield 'convex' if geom.is_convex(ring) else 'concave'


def _classify_polygons(polygons):
    yield f'{sum(len(holes) for _, holes in polygons)} holes'
    yield f'{len(polygons)} polygons'


def _touching(rings):
    seen = set()
    for ring in rings:
        if not seen.isdisjoint(ring):
            return True
        seen.update(ring)
    return False


def _classify_rings(rings):
    yield f'{len(rings)} contours'
    if _touching(rings):
        yield 'touching contours'


def _classify_mix(data):
    yield '+'.join(key for key in data if data[key])
    yield from _classify_polygons(data['polygons'])


def _contour_kind(name, low, shape, closed, largest=40, **kwargs):
    return Kind(
        name,
        data=ring_data,
        points=lambda ring: ring,
        errors=_to_ring_check(shape),
        sizes=_flat_sizes('contour size'),
        params=_contour_params(low),
        small=_named({'size': _few(low, 4)}),
        large=_named({'size': _pairs(12, largest)}),
        need=_need_contour,
        closed=closed,
        nontrivial=lambda ring: len(ring) > 3,
        classify=_classify_ring,
        **kwargs,
    )


KINDS = {
    kind.name: kind
    for kind in [
        Kind(
            'empty_geometries',
            data=_empty_data,
            points=lambda data: [],
            errors=lambda data: [],
            coordinates=False,
        ),
        Kind(
            'points',
            data=point_data,
            points=lambda data: [data],
            errors=lambda data: [],
        ),
        Kind(
            'boxes',
            data=_box_data,
            points=lambda box: [(box[0], box[2]), (box[1], box[3])],
            errors=_box_errors,
        ),
        Kind(
            'segments',
            data=segment_data,
            points=lambda data: list(data),
            errors=_segment_errors,
        ),
        Kind(
            'multipoints',
            data=_multipoint_data,
            points=lambda data: data,
            errors=_points_errors,
            sizes=_flat_sizes('multipoint size'),
            params=_named({'size': _pairs(1, 20)}),
            small=_named({'size': _few(1, 3)}),
            large=_named({'size': _pairs(20, 150)}),
            need=lambda params: next_prime(
                math.isqrt(params['min_size']) + 2
            ),
            nontrivial=lambda data: len(data) > 1,
        ),
        Kind(
            'multisegments',
            data=_multisegment_data,
            points=_segments_points,
            errors=_segments_errors,
            sizes=_flat_sizes('multisegment size'),
            params=_named({'size': _pairs(2, 12)}),
            small=_named({'size': _few(2, 4)}),
            large=_named({'size': _pairs(12, 60)}),
            need=lambda params: next_prime(params['min_size'] + 1),
            closed=False,
            classify=lambda data: (f'{min(len(data), 12)} segments',),
        ),
        _contour_kind('contours', 3, None, False),
        _contour_kind('convex_contours', 3, _convex_errors, False),
        _contour_kind('concave_contours', 4, _concave_errors, True, weight=4),
        _contour_kind('star_contours', 3, geom.star_errors, True, weight=4),
        Kind(
            'triangular_contours',
            data=ring_data,
            points=lambda ring: ring,
            errors=_to_ring_check(_triangular_errors),
        ),
        Kind(
            'rectangular_contours',
            data=ring_data,
            points=lambda ring: ring,
            errors=_to_ring_check(_rectangular_errors),
        ),
        Kind(
            'multicontours',
            data=_multicontour_data,
            points=_rings_points,
            errors=_multicontour_errors,
            sizes=_multicontour_sizes,
            params=_named(
                {'size': _pairs(2, 5), 'contour_size': _pairs(3, 6)}
            ),
            small=_named(
                {'size': _few(2, 2), 'contour_size': _pairs(3, 4)}
            ),
            large=_named(
                {'size': _pairs(5, 12), 'contour_size': _pairs(3, 10)}
            ),
            need=lambda params: next_prime(
                params['min_size'] * params['min_contour_size']
            ),
            classify=_classify_rings,
            weight=2,
        ),
        Kind(
            'polygons',
            data=polygon_data,
            points=lambda data: _polygons_points([data]),
            errors=_polygon_errors,
            sizes=_polygon_sizes,
            params=_named(
                {
                    'size': _pairs(3, 9),
                    'holes_size': _pairs(0, 3),
                    'hole_size': _pairs(3, 5),
                }
            ),
            small=_named(
                {
                    'size': _few(3, 5),
                    'holes_size': st.sampled_from([(0, 0), (0, 1), (1, 1)]),
                    'hole_size': _few(3, 4),
                }
            ),
            large=_named(
                {
                    'size': _pairs(3, 20).map(lambda pair: (pair[0], None)),
                    'holes_size': _pairs(0, 6),
                    'hole_size': _pairs(3, 8),
                }
            ),
            # borders that wind between holes
            others={
                'holey': _named(
                    {
                        'size': st.integers(4, 12).map(
                            lambda size: (size, None)
                        ),
                        'holes_size': st.sampled_from(
                            [(1, None), (1, 2), (2, None), (3, None), (4, 6)]
                        ),
                        'hole_size': st.sampled_from(
                            [(3, 3), (3, 4), (3, 6), (3, None), (4, 8)]
                        ),
                    }
                )
            },
            need=lambda params: next_prime(
                params['min_size']
                + params['min_holes_size'] * params['min_hole_size']
            ),
            nontrivial=lambda data: len(data[0]) > 3 or bool(data[1]),
            classify=lambda data: _classify_polygons([data]),
            weight=2,
        ),
        Kind(
            'multipolygons',
            data=_multipolygon_data,
            points=_polygons_points,
            errors=_polygons_errors,
            sizes=_multipolygon_sizes,
            params=_named(
                {
                    'size': _pairs(2, 4),
                    'border_size': _pairs(3, 6),
                    'holes_size': st.sampled_from(
                        [
                            (0, None),
                            (0, 0),
                            (0, 1),
                            (1, 1),
                            (1, None),
                            (0, 2),
                            (1, 2),
                        ]
                    ),
                    'hole_size': _pairs(3, 5),
                }
            ),
            small=_named(
                {
                    'size': _few(2, 2),
                    'border_size': _pairs(3, 4),
                    'holes_size': st.sampled_from([(0, 0), (0, 1)]),
                    'hole_size': _few(3, 3),
                }
            ),
            large=_named(
                {
                    'size': _pairs(4, 7),
                    'border_size': _pairs(3, 9).map(
                        lambda pair: (pair[0], None)
                    ),
                    'holes_size': st.sampled_from(
                        [(0, None), (0, 3), (1, None)]
                    ),
                    'hole_size': _pairs(3, 5),
                }
            ),
            need=lambda params: max(
                params['min_size']
                * next_prime(
                    params['min_border_size']
                    + params['min_holes_size'] * params['min_hole_size']
                ),
                next_prime(params['min_size'] * params['min_border_size']),
            ),
            classify=_classify_polygons,
            weight=4,
        ),
        Kind(
            'mixes',
            data=mix_data,
            points=_mix_points,
            errors=_mix_errors,
            sizes=_mix_sizes,
            params=_mix_params(),
            small=_mix_params('small'),
            large=_mix_params('large'),
            others={'linear': _mix_params('linear')},
            need=_need_mix,
            closed=False,
            classify=_classify_mix,
            weight=4,
            compatible=_mix_compatible,
        ),
    ]
}


@st.composite
def configs(
    draw,
    kind,
    specs=domains.fraction_specs,
    context='fraction',
    profile='normal',
):
    """Configuration of a strategy of the kind, as a JSON value."""
    params = draw(kind.params[profile])
    need = kind.need(params)
    config = {'kind': kind.name, 'context': context, 'params': params}
    if kind.has_coordinates:
        config['x'] = draw(specs(need))
        y = draw(st.none() | specs(need))
        if y is not None and not kind.compatible(
            len(Domain(config['x'])), len(Domain(y))
        ):
            y = None
        config['y'] = y
    return config


# the biggest lower bounds for which most attempts are still accepted
GENTLE_SIZES = {'star_contours': 5, 'concave_contours': 7}


@st.composite
def gentle_configs(draw, kind, context='fraction'):
    """Configurations with plenty of coordinates for moderate sizes."""
    params = dict(draw(kind.params['normal']))
    low = params.get('min_size')
    if low is not None:
        cut = min(low, GENTLE_SIZES.get(kind.name, 8))
        if params['max_size'] is not None:
            params['max_size'] += 1 - (low - cut)
        params['min_size'] = cut
    # random points rarely have a small convex hull or many inner points
    if kind.name == 'polygons' and params['min_holes_size']:
        params.update(max_size=None, min_holes_size=1)
    elif kind.name == 'multipolygons':
        params.update(max_border_size=None, min_holes_size=0)
        if params['max_holes_size'] is not None:
            params['max_holes_size'] += 1
    elif kind.name == 'mixes':
        params.update(max_polygon_border_size=None, min_polygon_holes_size=0)
    need = kind.need(params)
    config = {'kind': kind.name, 'context': context, 'params': params}
    if kind.has_coordinates:
        config['x'] = draw(domains.roomy_specs(need))
        y = draw(st.none() | domains.roomy_specs(need))
        if y is not None and not kind.compatible(
            len(Domain(config['x'])), len(Domain(y))
        ):
            y = None
        config['y'] = y
    return config


def repetitive_configs(kind, context='fraction'):
    """Some of the configurations have so few coordinates that equal
    geometries are drawn again and again."""
    return st.one_of(
        gentle_configs(kind, context),
        gentle_configs(kind, context),
        configs(kind, domains.irregular_specs, context, 'small'),
    )


def coordinates_errors(kind, config, data, points):
    """Range, type and, for closed kinds, support of coordinates."""
    if not kind.has_coordinates:
        return []
    errors = []
    x_domain = Domain(config['x'])
    y_domain = x_domain if config['y'] is None else Domain(config['y'])
    for axis, domain in ((0, x_domain), (1, y_domain)):
        name = 'xy'[axis]
        for point in points:
            value = point[axis]
            if type(value) is not domain.scalar:
                return [f'{name}={value!r} is a {type(value).__name__}']
            if not domain.has_in_range(value):
                errors.append(
                    f'{name}={value} is out of'
                    f' [{domain.low}, {domain.high}]'
                )
                break
            if (
                kind.closed
                and domain.support is not None
                and value not in domain.support
            ):
                errors.append(
                    f'{name}={value} was never drawn from the coordinates'
                )
                break
    return errors
