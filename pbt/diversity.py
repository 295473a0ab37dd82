"""What strategies are able to draw: every admissible size, every coordinate,
every qualitatively different arrangement.

One fixed scenario per kind of freedom. Within a scenario each required
feature has to be met at least once; the number of draws is such that the
rarest one is expected dozens of times.
"""

from __future__ import annotations

import collections

from . import domains, geom
from .draws import describe, draw_data, shown
from .kinds import KINDS
from .runner import Suite


def grid(size, start=0, step=1):
    return {
        'form': 'sampled',
        'scalar': 'fraction',
        'values': [
            domains.encode(start + step * index) for index in range(size)
        ],
    }


def _int_ring(ring):
    return geom.scaler_of(ring).ring(ring)


def _coordinates(points):
    for x, y in points:
        yield f'x={x}'
        yield f'y={y}'


def _at_least(count, what):
    for bound in (4, 6, 8, 10, 12, 16, 20):
        if count >= bound:
            yield f'at least {bound} {what}'


def _direction(segment):
    (x0, y0), (x1, y1) = segment
    if x0 == x1:
        return 'vertical'
    if y0 == y1:
        return 'horizontal'
    return 'rising' if (x0 < x1) is (y0 < y1) else 'falling'


def _box_features(box):
    yield from _coordinates([(box[0], box[2]), (box[1], box[3])])
    width, height = box[1] - box[0], box[3] - box[2]
    yield (
        'wide' if width > height else ('tall' if width < height else 'square')
    )


def _segment_features(segment):
    yield from _coordinates(segment)
    start, end = segment
    yield f'{_direction(segment)}, {"forth" if start < end else "back"}'


def _multipoint_features(points):
    yield from _coordinates(points)
    yield f'{len(points)} points'
    yield from _at_least(len(points), 'points')


def _multisegment_features(segments):
    yield from _coordinates(
        [point for segment in segments for point in segment]
    )
    yield f'{len(segments)} segments'
    yield from _at_least(len(segments), 'segments')
    directions = {_direction(segment) for segment in segments}
    if len(directions) == 1 and directions <= {'vertical', 'horizontal'}:
        yield f'{min(directions)} chain'
    else:
        yield 'not a chain'
        yield from directions
    ends = [point for segment in segments for point in segment]
    if len(set(ends)) == len(ends):
        yield 'no common endpoints'
    degrees = collections.Counter(ends)
    if len(segments) > 2 and all(ends.count(point) == 2 for point in ends):
        yield 'closed'
    elif len(segments) > 3 and max(degrees.values()) == 2:
        chains = _components(segments)
        if len(chains) > 1 and max(map(len, chains)) > 1:
            yield 'several chains'
        elif len(chains) == 1 and len(directions) > 1:
            yield 'open chain'
    for start, end in segments:
        yield 'forth' if start < end else 'back'
    if any(
        point not in segment
        and geom.on_segment(point, *segment)
        and min(directions) != max(directions)
        for segment in segments
        for point in ends
    ):
        yield 'endpoint inside of another'


def _components(segments):
    """Chains of segments that share endpoints."""
    result = []
    for segment in segments:
        joined = [chain for chain in result if chain & set(segment)]
        result = [chain for chain in result if chain not in joined]
        result.append(set(segment).union(*joined))
    return [
        [segment for segment in segments if segment[0] in chain]
        for chain in result
    ]


def _ring_features(ring):
    yield f'{len(ring)} vertices'
    yield from _at_least(len(ring), 'vertices')
    ring = _int_ring(ring)
    turns = [
        geom.orient(ring[index - 2], ring[index - 1], ring[index])
        for index in range(len(ring))
    ]
    yield 'convex' if min(turns) == max(turns) else 'concave'
    if turns.count(min(turns)) > 1 and min(turns) != max(turns):
        yield 'several reflex vertices'
    xs, ys = {x for x, _ in ring}, {y for _, y in ring}
    if len(xs) < len(ring):
        yield 'vertices on a vertical line'
    if len(ys) < len(ring):
        yield 'vertices on a horizontal line'
    for (x0, y0), (x1, y1) in geom.edges_of(ring):
        if x0 == x1:
            yield 'vertical edge'
        elif y0 == y1:
            yield 'horizontal edge'
    if len(ring) == 4 and len(xs) == len(ys) == 2:
        yield 'rectangle'


def _vertices_features(ring):
    yield from _coordinates(ring)
    yield from _ring_features(ring)


def _separation(rings):
    """How the bounding boxes follow one another."""
    boxes = [
        (
            min(x for x, _ in ring),
            max(x for x, _ in ring),
            min(y for _, y in ring),
            max(y for _, y in ring),
        )
        for ring in rings
    ]
    apart = []
    for axis in (0, 2):
        ordered = sorted(boxes, key=lambda box: (box[axis], box[axis + 1]))
        apart.append(
            all(
                left[axis + 1] <= right[axis]
                for left, right in zip(ordered, ordered[1:])
            )
        )
    if apart == [True, False]:
        yield 'side by side'
    elif apart == [False, True]:
        yield 'one above another'


def _touching(rings):
    return any(
        set(first) & set(second)
        for index, first in enumerate(rings)
        for second in rings[:index]
    )


def _multicontour_features(rings):
    yield f'{len(rings)} contours'
    yield from _at_least(len(rings), 'contours')
    for ring in rings:
        yield from _vertices_features(ring)
    yield 'touching' if _touching(rings) else 'apart'
    yield from (f'{len(rings)} contours, {how}' for how in _separation(rings))


def _polygon_features(polygon):
    border, holes = polygon
    shape = 'convex' if geom.is_convex(_int_ring(border)) else 'concave'
    yield f'{shape} border, {len(holes)} holes'
    yield from _coordinates(border)
    yield f'{len(border)} border vertices'
    yield from _at_least(len(border), 'border vertices')
    yield from _at_least(len(holes), 'holes')
    yield from (
        f'border: {feature}'
        for feature in _ring_features(border)
        if 'line' in feature or 'edge' in feature or 'several' in feature
    )
    if len(holes) > 1:
        yield f'{"touching" if _touching(holes) else "apart"} holes'
        yield from (
            f'{len(holes)} holes, {how}' for how in _separation(holes)
        )
    for hole in holes:
        yield f'{len(hole)} hole vertices'
        yield from _at_least(len(hole), 'hole vertices')
        yield from (f'hole: {at}' for at in _coordinates(hole))
        yield from (
            f'hole: {feature}'
            for feature in _ring_features(hole)
            if 'line' in feature or 'edge' in feature
        )
        yield (
            'convex hole'
            if geom.is_convex(_int_ring(hole))
            else 'concave hole'
        )


def _multipolygon_features(polygons):
    yield f'{len(polygons)} polygons'
    yield from _at_least(len(polygons), 'polygons')
    borders = [border for border, _ in polygons]
    for polygon in polygons:
        yield from _polygon_features(polygon)
    yield 'touching' if _touching(borders) else 'apart'
    yield from (
        f'{len(polygons)} polygons, {how}' for how in _separation(borders)
    )


def _mix_features(data):
    names = [name for name in data if data[name]]
    yield '+'.join(names)
    yield f'{len(data["points"])} points'
    yield f'{len(data["segments"])} segments'
    yield f'{len(data["polygons"])} polygons'
    for polygon in data['polygons']:
        yield f'{len(polygon[1])} holes'
        yield from (f'polygon: {each}' for each in _polygon_features(polygon))
    if data['points']:
        yield from (
            f'point: {each}' for each in _multipoint_features(data['points'])
        )
    for segment in data['segments']:
        yield from (
            f'segment: {each}' for each in _segment_features(segment)
        )
    if len(data['segments']) > 1:
        yield from (
            f'multisegment: {each}'
            for each in _multisegment_features(data['segments'])
            if each[:2] not in ('x=', 'y=')
        )
    if len(data['polygons']) > 1:
        yield from (
            f'multipolygon: {each}'
            for each in _multipolygon_features(data['polygons'])
            if 'x=' not in each and 'y=' not in each
        )
    groups = {
        'points': data['points'],
        'segments': [p for segment in data['segments'] for p in segment],
        'polygons': [p for border, _ in data['polygons'] for p in border],
    }
    for first in names:
        for second in names:
            if first == second:
                continue
            before = [
                max(p[axis] for p in groups[first])
                <= min(p[axis] for p in groups[second])
                for axis in (0, 1)
            ]
            apart = [
                before[axis]
                or max(p[axis] for p in groups[second])
                <= min(p[axis] for p in groups[first])
                for axis in (0, 1)
            ]
            for axis, how in ((0, 'left of'), (1, 'below')):
                if before[axis]:
                    yield f'{first} {how} {second}'
                    # not by a mere chance
                    if not apart[1 - axis] and all(
                        len({p[axis] for p in groups[name]}) > 1
                        for name in (first, second)
                    ):
                        yield f'{first} only {how} {second}'
    if set(groups['segments']) & set(groups['polygons']):
        yield 'segment touches polygon'


FEATURES = {
    'points': lambda point: _coordinates([point]),
    'boxes': _box_features,
    'segments': _segment_features,
    'multipoints': _multipoint_features,
    'multisegments': _multisegment_features,
    'contours': _vertices_features,
    'convex_contours': _ring_features,
    'concave_contours': _vertices_features,
    'star_contours': _vertices_features,
    'triangular_contours': _vertices_features,
    'rectangular_contours': _vertices_features,
    'multicontours': _multicontour_features,
    'polygons': _polygon_features,
    'multipolygons': _multipolygon_features,
    'mixes': _mix_features,
}


class Scenario:
    def __init__(self, name, kind_name, required, count, x, y=None, **params):
        self.name = name
        self.kind = KINDS[kind_name]
        self.required = set(required)
        self.count = count
        self.config = {
            'kind': kind_name,
            'context': 'fraction',
            'params': params,
            'x': x,
            'y': y,
        }

    def case(self, draw, record):
        data = draw_data(draw, self.config)
        features = set(FEATURES[self.kind.name](data))
        record.note(
            data,
            classes=features,
            sample=lambda: {
                'config': describe(self.config),
                'geometry': shown(data),
            },
        )

    def finish(self, record):
        missing = sorted(self.required - set(record.classes))
        if missing:
            return [
                f'{len(missing)} of {len(self.required)} features are never'
                f' drawn ({record.evaluations} draws of {self.name}):'
                f' {", ".join(missing[:8])}'
            ]
        return []

    def suite(self):
        return Suite(
            self.name,
            self.case,
            quick=self.count,
            thorough=self.count * 8,
            chunk=500,
            finish=self.finish,
        )


def _axis(name, size, start=0, step=1):
    return [f'{name}={start + step * index}' for index in range(size)]


X, Y = grid(10), grid(10, 100, 2)
XY = _axis('x', 10) + _axis('y', 10, 100, 2)


def _vertices(low, high):
    return [f'{size} vertices' for size in range(low, high + 1)]


LINES = [
    'vertices on a vertical line',
    'vertices on a horizontal line',
]

def _kind(name, features):
    return [f'{name}: {feature}' for feature in features]


SCENARIOS = [
    Scenario('points', 'points', XY, 600, X, Y),
    Scenario(
        'boxes',
        'boxes',
        XY + ['wide', 'tall', 'square'],
        900,
        X,
        Y,
    ),
    Scenario(
        'segments',
        'segments',
        XY
        + [
            f'{direction}, {how}'
            for direction in ('vertical', 'horizontal', 'rising', 'falling')
            for how in ('forth', 'back')
        ],
        1200,
        X,
        Y,
    ),
    Scenario(
        'multipoints',
        'multipoints',
        XY + [f'{size} points' for size in range(1, 7)],
        900,
        X,
        Y,
        min_size=1,
        max_size=6,
    ),
    Scenario(
        'multisegments',
        'multisegments',
        [f'{size} segments' for size in range(2, 7)]
        + [
            'vertical chain',
            'horizontal chain',
            'not a chain',
            'no common endpoints',
            'closed',
            'rising',
            'falling',
        ]
        + _axis('x', 16)
        + _axis('y', 16),
        2000,
        grid(16),
        min_size=2,
        max_size=6,
    ),
    Scenario(
        'contours',
        'contours',
        _vertices(3, 7)
        + ['convex', 'concave', 'rectangle', 'vertical edge']
        + ['horizontal edge']
        + _axis('x', 20)
        + _axis('y', 20, -30),
        5000,
        grid(20),
        grid(20, -30),
        min_size=3,
        max_size=7,
    ),
    Scenario(
        'convex contours',
        'convex_contours',
        _vertices(3, 7) + ['rectangle'],
        3000,
        grid(20),
        grid(20, -30),
        min_size=3,
        max_size=7,
    ),
    Scenario(
        'concave contours',
        'concave_contours',
        _vertices(4, 7) + _axis('x', 20) + _axis('y', 20),
        1500,
        grid(20),
        min_size=4,
        max_size=7,
    ),
    Scenario(
        'star contours',
        'star_contours',
        _vertices(3, 5) + _axis('x', 20) + _axis('y', 20),
        2500,
        grid(20),
        min_size=3,
        max_size=7,
    ),
    Scenario(
        'triangular contours', 'triangular_contours', XY, 900, X, Y
    ),
    Scenario(
        'rectangular contours', 'rectangular_contours', XY, 900, X, Y
    ),
    Scenario(
        'multicontours',
        'multicontours',
        [f'{size} contours' for size in range(2, 5)]
        + _vertices(3, 5)
        + ['convex', 'concave', 'touching', 'apart']
        + _axis('x', 30)
        + _axis('y', 30),
        1500,
        grid(30),
        min_size=2,
        max_size=4,
        min_contour_size=3,
        max_contour_size=5,
    ),
    Scenario(
        'polygons',
        'polygons',
        [
            'convex border, 0 holes',
            'concave border, 0 holes',
            'convex border, 1 holes',
        ]
        + [f'{size} border vertices' for size in range(3, 7)]
        + ['3 hole vertices', '4 hole vertices', 'convex hole']
        + _axis('x', 30)
        + _axis('y', 30),
        3000,
        grid(30),
        min_size=3,
        max_size=6,
        min_holes_size=0,
        max_holes_size=2,
        min_hole_size=3,
        max_hole_size=5,
    ),
    Scenario(
        'polygons with holes',
        'polygons',
        [
            f'{shape} border, {count} holes'
            for shape in ('convex', 'concave')
            for count in (1, 2)
        ]
        + [f'{size} border vertices' for size in range(4, 10)]
        + [f'{size} hole vertices' for size in range(3, 6)]
        + ['convex hole', 'concave hole']
        + _axis('x', 60)
        + _axis('y', 60),
        2000,
        grid(60),
        min_size=3,
        max_size=None,
        min_holes_size=1,
        max_holes_size=2,
        min_hole_size=3,
        max_hole_size=5,
    ),
    Scenario(
        'multipolygons with holes',
        'multipolygons',
        [
            'convex border, 1 holes',
            'concave border, 1 holes',
            '2 polygons, side by side',
            '2 polygons, one above another',
            '3 polygons, side by side',
            '3 polygons, one above another',
            'apart',
            '2 polygons',
            '3 polygons',
            '3 hole vertices',
            '4 hole vertices',
        ],
        800,
        grid(80),
        min_size=2,
        max_size=3,
        min_border_size=3,
        min_holes_size=1,
        min_hole_size=3,
        max_hole_size=4,
    ),
    Scenario(
        'multipolygons',
        'multipolygons',
        [
            '2 polygons',
            '3 polygons',
            'convex border, 0 holes',
            'concave border, 0 holes',
            'touching',
            'apart',
            '2 polygons, side by side',
            '2 polygons, one above another',
        ]
        + [f'{size} border vertices' for size in range(3, 7)]
        + _axis('x', 50)
        + _axis('y', 50),
        2000,
        grid(50),
        min_size=2,
        max_size=3,
        min_border_size=3,
        max_border_size=6,
        min_holes_size=0,
        max_holes_size=1,
        min_hole_size=3,
        max_hole_size=4,
    ),
    Scenario(
        'mixes',
        'mixes',
        [
            'points+segments',
            'points+polygons',
            'segments+polygons',
            'points+segments+polygons',
            'segment touches polygon',
            '0 holes',
            '1 holes',
        ]
        + [
            f'{first} {how} {second}'
            for how in ('left of', 'below')
            for first in ('points', 'segments', 'polygons')
            for second in ('points', 'segments', 'polygons')
            if first != second
        ]
        + [f'{size} points' for size in range(4)]
        + [f'{size} segments' for size in range(4)]
        + [f'{size} polygons' for size in range(3)]
        + _kind('point', _axis('x', 60) + _axis('y', 60))
        + _kind('polygon', _axis('x', 60) + _axis('y', 60))
        + _kind(
            'segment',
            [
                f'{direction}, {how}'
                for direction in ('vertical', 'horizontal', 'rising', 'falling')
                for how in ('forth', 'back')
            ],
        )
        + _kind(
            'multisegment',
            ['horizontal chain', 'vertical chain', 'not a chain']
            + ['no common endpoints'],
        )
        + _kind(
            'multipolygon',
            ['2 polygons, one above another', '2 polygons, side by side']
            + ['4 border vertices', '5 border vertices', 'apart'],
        )
        + _kind(
            'polygon',
            [f'{size} border vertices' for size in range(3, 8)]
            + [f'{shape} border, 0 holes' for shape in ('convex', 'concave')]
            + [f'border: {feature}' for feature in LINES],
        ),
        3500,
        grid(60),
        max_points_size=3,
        max_segments_size=3,
        max_polygons_size=2,
        max_polygon_holes_size=1,
    ),
    *(
        Scenario(
            f'mixes without {absent}',
            'mixes',
            [present],
            100,
            grid(60),
            **{f'max_{absent}_size': 0},
        )
        for absent, present in (
            ('points', 'segments+polygons'),
            ('segments', 'points+polygons'),
            ('polygons', 'points+segments'),
        )
    ),
    Scenario(
        'multisegments of parts of rings',
        'multisegments',
        [f'{size} segments' for size in range(4, 10)]
        + ['closed', 'several chains', 'open chain', 'back', 'forth'],
        4000,
        grid(40),
        min_size=4,
        max_size=9,
    ),
    Scenario(
        'three multicontours',
        'multicontours',
        _vertices(3, 7)
        + [
            '3 contours, side by side',
            '3 contours, one above another',
            'touching',
            'apart',
            'several reflex vertices',
        ]
        + LINES,
        1000,
        grid(60),
        min_size=3,
        max_size=3,
        min_contour_size=3,
        max_contour_size=8,
    ),
    Scenario(
        'large multicontours',
        'multicontours',
        _vertices(6, 7) + ['several reflex vertices', 'convex'] + LINES,
        600,
        grid(60),
        min_size=2,
        max_size=2,
        min_contour_size=6,
        max_contour_size=9,
    ),
    Scenario(
        'large contours',
        'contours',
        _vertices(8, 12)
        + ['convex', 'concave', 'several reflex vertices']
        + _axis('x', 60)
        + _axis('y', 60)
        + LINES,
        1200,
        grid(60),
        min_size=8,
        max_size=13,
    ),
    Scenario(
        'large concave contours',
        'concave_contours',
        _vertices(8, 11)
        + ['several reflex vertices']
        + _axis('x', 60)
        + _axis('y', 60)
        + LINES,
        1000,
        grid(60),
        min_size=8,
        max_size=13,
    ),
    Scenario(
        'large convex contours',
        'convex_contours',
        _vertices(7, 9) + LINES,
        1200,
        grid(60),
        min_size=7,
        max_size=12,
    ),
    Scenario(
        'large star contours',
        'star_contours',
        _vertices(6, 7) + LINES,
        600,
        grid(60),
        min_size=6,
        max_size=12,
    ),
    Scenario(
        'polygons with large borders',
        'polygons',
        [f'{size} border vertices' for size in range(7, 10)]
        + [
            'concave border, 0 holes',
            'convex border, 0 holes',
            'border: several reflex vertices',
        ]
        + [f'border: {feature}' for feature in LINES],
        1400,
        grid(60),
        min_size=7,
        max_size=12,
        max_holes_size=0,
    ),
    Scenario(
        'polygons with many holes',
        'polygons',
        [
            'convex border, 3 holes',
            'concave border, 3 holes',
            'convex border, 4 holes',
            '3 holes, side by side',
            '3 holes, one above another',
            'touching holes',
            'apart holes',
            '3 hole vertices',
            '4 hole vertices',
            'concave hole',
        ]
        + [f'{size} border vertices' for size in range(4, 9)]
        + [f'border: {feature}' for feature in LINES]
        + [f'hole: {feature}' for feature in LINES],
        500,
        grid(80),
        min_size=3,
        max_size=8,
        min_holes_size=3,
        max_holes_size=4,
        min_hole_size=3,
        max_hole_size=4,
    ),
    Scenario(
        'polygons with large holes',
        'polygons',
        [f'{size} hole vertices' for size in range(4, 7)]
        + [f'{size} border vertices' for size in range(3, 7)]
        + [
            'convex border, 1 holes',
            'concave border, 1 holes',
            'convex hole',
            'concave hole',
        ]
        + [f'border: {feature}' for feature in LINES]
        + [f'hole: {feature}' for feature in LINES],
        900,
        grid(80),
        min_size=3,
        max_size=6,
        min_holes_size=1,
        max_holes_size=1,
        min_hole_size=4,
        max_hole_size=6,
    ),
    Scenario(
        'three multipolygons with holes',
        'multipolygons',
        [
            '3 polygons, side by side',
            '3 polygons, one above another',
        ]
        + [f'border: {feature}' for feature in LINES]
        + [f'hole: {feature}' for feature in LINES],
        300,
        grid(80),
        min_size=3,
        max_size=3,
        min_border_size=3,
        max_border_size=4,
        min_holes_size=1,
        max_holes_size=1,
        min_hole_size=3,
        max_hole_size=3,
    ),
    Scenario(
        'many multipolygons',
        'multipolygons',
        [
            '4 polygons',
            '5 polygons',
            '4 polygons, side by side',
            '4 polygons, one above another',
            'convex border, 0 holes',
            'concave border, 0 holes',
            'touching',
            'apart',
        ]
        + [f'{size} border vertices' for size in range(3, 5)]
        + [f'border: {feature}' for feature in LINES],
        400,
        grid(80),
        min_size=4,
        max_size=5,
        min_border_size=3,
        max_border_size=4,
        max_holes_size=0,
    ),
    *(
        Scenario(
            f'mixes of several {first} and {second}',
            'mixes',
            [
                f'{left} only {how} {right}'
                for left, right in ((first, second), (second, first))
                for how in ('left of', 'below')
            ],
            1000,
            grid(60),
            min_points_size=points_size,
            max_points_size=points_size,
            min_segments_size=segments_size,
            max_segments_size=segments_size,
            min_polygons_size=polygons_size,
            max_polygons_size=polygons_size,
            max_polygon_holes_size=0,
        )
        for first, second, points_size, segments_size, polygons_size in (
            ('segments', 'polygons', 0, 5, 2),
            ('points', 'polygons', 6, 0, 2),
            ('points', 'segments', 6, 5, 0),
        )
    ),
]
# what is drawn when sizes are not limited
DEFAULTS = {
    'multipoints': (500, ['1 points', '2 points', 'at least 8 points']),
    'multisegments': (
        700,
        ['2 segments', '3 segments', 'at least 4 segments']
        + ['at least 6 segments', 'horizontal chain', 'vertical chain'],
    ),
    'contours': (700, _vertices(3, 5) + ['at least 6 vertices']),
    'convex_contours': (600, _vertices(3, 5) + ['at least 6 vertices']),
    'concave_contours': (700, ['5 vertices', 'at least 8 vertices']),
    'star_contours': (700, _vertices(4, 5) + ['at least 6 vertices']),
    'multicontours': (
        1000,
        ['2 contours', '3 contours', 'at least 6 vertices', 'concave'],
    ),
    'polygons': (
        1000,
        [f'{size} border vertices' for size in range(4, 7)]
        + ['at least 6 border vertices', 'convex border, 1 holes']
        + [f'{shape} border, 0 holes' for shape in ('convex', 'concave')],
    ),
    'multipolygons': (
        700,
        ['2 polygons', '3 polygons', 'at least 4 polygons']
        + ['at least 6 border vertices', 'touching', 'apart']
        + [f'{shape} border, 0 holes' for shape in ('convex', 'concave')],
    ),
    'mixes': (
        1000,
        [
            f'{size} {part}'
            for size in range(3)
            for part in ('points', 'segments', 'polygons')
        ]
        + ['3 points']
    ),
}
SCENARIOS += [
    Scenario(f'default {name}', name, required, count, grid(100))
    for name, (count, required) in DEFAULTS.items()
]


def suites():
    return [scenario.suite() for scenario in SCENARIOS]
