"""Exact planar-geometry oracles.

Nothing here imports the code under test, nor `ground`, `locus` or
`bentley_ottmann`: every predicate is evaluated by brute force over exact
integers (coordinates are multiplied by their common denominator first), so an
answer never depends on rounding, on a sweep line or on a spatial index.

Vertices are plain pairs `(x, y)` of numbers. A function named `*_errors`
returns a list of human-readable defects, empty for a well-formed geometry.
"""

from __future__ import annotations

from fractions import Fraction
from math import lcm

DISJOINT, TOUCH, CROSS, OVERLAP = 'disjoint', 'touch', 'cross', 'overlap'


def exact(value) -> Fraction:
    return value if type(value) is Fraction else Fraction(value)


class Scaler:
    """Maps exact coordinates onto even integers (midpoints stay integral)."""

    def __init__(self, values):
        denominator = 1
        for value in values:
            denominator = lcm(denominator, exact(value).denominator)
        self.scale = 2 * denominator

    def point(self, point):
        x, y = point
        x, y = exact(x) * self.scale, exact(y) * self.scale
        assert x.denominator == 1 and y.denominator == 1
        return (x.numerator, y.numerator)

    def ring(self, points):
        return [self.point(point) for point in points]


def scaler_of(points):
    return Scaler(coordinate for point in points for coordinate in point)


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def sign(value):
    return (value > 0) - (value < 0)


def orient(o, a, b):
    return sign(cross(o, a, b))


def on_segment(p, a, b):
    return (
        min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
        and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
        and cross(a, b, p) == 0
    )


def segments_relation(a, b, c, d):
    """Relation of two non-degenerate closed segments.

    CROSS: they share one point, interior to both.
    TOUCH: they share one point, an endpoint of at least one.
    OVERLAP: they share infinitely many points.
    """
    if (
        max(a[0], b[0]) < min(c[0], d[0])
        or max(c[0], d[0]) < min(a[0], b[0])
        or max(a[1], b[1]) < min(c[1], d[1])
        or max(c[1], d[1]) < min(a[1], b[1])
    ):
        return DISJOINT
    oc, od = orient(a, b, c), orient(a, b, d)
    if oc == 0 and od == 0:
        first, second = sorted((a, b)), sorted((c, d))
        low, high = max(first[0], second[0]), min(first[1], second[1])
        if low > high:
            return DISJOINT
        return TOUCH if low == high else OVERLAP
    if oc == od:
        return DISJOINT
    oa, ob = orient(c, d, a), orient(c, d, b)
    if oa == ob:
        return DISJOINT
    return TOUCH if 0 in (oa, ob, oc, od) else CROSS


def edges_of(ring):
    return [(ring[i - 1], ring[i]) for i in range(len(ring))]


def double_area(ring):
    total = 0
    for (x0, y0), (x1, y1) in edges_of(ring):
        total += x0 * y1 - x1 * y0
    return total


def ring_errors(ring, *, name='contour', clockwise=False):
    """Strict simple polygonal ring with the given direction (int points)."""
    n = len(ring)
    if n < 3:
        return [f'{name} has {n} vertices']
    if len(set(ring)) != n:
        return [f'{name} repeats a vertex']
    errors = []
    for i in range(n):
        if orient(ring[i - 1], ring[i], ring[(i + 1) % n]) == 0:
            errors.append(
                f'{name} vertex #{i} is collinear with its neighbours'
            )
            break
    edges = edges_of(ring)
    for i in range(n):
        a, b = edges[i]
        for j in range(i + 1, n):
            c, d = edges[j]
            relation = segments_relation(a, b, c, d)
            if relation is DISJOINT:
                continue
            if relation is TOUCH and (
                j == i + 1 or (i == 0 and j == n - 1) or n == 3
            ):
                # neighbours share exactly their common vertex
                continue
            errors.append(
                f'{name} self-intersects: edges #{i} and #{j} {relation}'
            )
            return errors
    area = double_area(ring)
    if (area < 0) is not clockwise:
        errors.append(
            f'{name} is {"counterclockwise" if area > 0 else "clockwise"}'
        )
    return errors


def is_convex(ring):
    n = len(ring)
    signs = {
        orient(ring[i - 1], ring[i], ring[(i + 1) % n]) for i in range(n)
    }
    return len(signs) == 1


def locate(point, ring):
    """1 interior, 0 boundary, -1 exterior of a simple ring."""
    x, y = point
    inside = False
    for a, b in edges_of(ring):
        if on_segment(point, a, b):
            return 0
        if (a[1] > y) != (b[1] > y):
            side = orient(a, b, point)
            if (side > 0) is (b[1] > a[1]):
                inside = not inside
    return 1 if inside else -1


def _pieces_midpoints(edge, others):
    """Midpoints of the parts of `edge` between its contacts with `others`.

    Assumes that no edge of `others` overlaps with `edge`.
    """
    a, b = edge
    cuts = set()
    for c, d in others:
        relation = segments_relation(a, b, c, d)
        if relation is DISJOINT:
            continue
        denominator = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (
            d[0] - c[0]
        )
        if denominator == 0:  # collinear, touch at an endpoint
            continue
        t = Fraction(
            (c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0]),
            denominator,
        )
        if 0 < t < 1:
            cuts.add(t)
    stops = [Fraction(0), *sorted(cuts), Fraction(1)]
    for low, high in zip(stops, stops[1:]):
        t = (low + high) / 2
        yield (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))


def boundaries_errors(first, second, first_name, second_name):
    """No two edges of different rings cross or overlap."""
    for i, (a, b) in enumerate(first):
        for j, (c, d) in enumerate(second):
            relation = segments_relation(a, b, c, d)
            if relation is CROSS or relation is OVERLAP:
                return [
                    f'{first_name} edge #{i} and {second_name} edge #{j}'
                    f' {relation}'
                ]
    return []


def boxes_apart(first, second):
    return (
        max(p[0] for p in first) <= min(p[0] for p in second)
        or max(p[0] for p in second) <= min(p[0] for p in first)
        or max(p[1] for p in first) <= min(p[1] for p in second)
        or max(p[1] for p in second) <= min(p[1] for p in first)
    )


def edges_locations(first, second):
    """Locations met by the open parts of ring `first`'s edges in `second`."""
    second_edges = edges_of(second)
    return {
        locate(midpoint, second)
        for edge in edges_of(first)
        for midpoint in _pieces_midpoints(edge, second_edges)
    }


def regions_errors(first, second, first_name, second_name):
    """The regions of two simple rings have no common interior and no common
    boundary part of positive length."""
    errors = boundaries_errors(
        edges_of(first), edges_of(second), first_name, second_name
    )
    if errors or boxes_apart(first, second):
        return errors
    if 1 in edges_locations(first, second):
        return [f'{first_name} enters the interior of {second_name}']
    if 1 in edges_locations(second, first):
        return [f'{second_name} enters the interior of {first_name}']
    return []


def inside_errors(inner, outer, inner_name, outer_name):
    """The region of ring `inner` lies in the region of ring `outer`, and
    their boundaries have no common part of positive length."""
    errors = boundaries_errors(
        edges_of(inner), edges_of(outer), inner_name, outer_name
    )
    if errors:
        return errors
    if edges_locations(inner, outer) - {1}:
        return [f'{inner_name} is not inside of {outer_name}']
    if edges_locations(outer, inner) - {-1}:
        return [f'{outer_name} enters the interior of {inner_name}']
    return []


def polygon_errors(border, holes, name='polygon'):
    """`border` & `holes` are int rings."""
    errors = ring_errors(border, name=f'{name} border')
    for i, hole in enumerate(holes):
        errors += ring_errors(hole, name=f'{name} hole #{i}', clockwise=True)
    if errors:
        return errors
    for i, hole in enumerate(holes):
        errors += inside_errors(
            hole, border, f'{name} hole #{i}', f'{name} border'
        )
        for j in range(i):
            errors += regions_errors(
                holes[j], hole, f'{name} hole #{j}', f'{name} hole #{i}'
            )
    return errors


def polygons_errors(polygons):
    errors = []
    for i, (border, holes) in enumerate(polygons):
        errors += polygon_errors(border, holes, f'polygon #{i}')
    if errors:
        return errors
    for i in range(len(polygons)):
        for j in range(i):
            errors += regions_errors(
                polygons[j][0],
                polygons[i][0],
                f'polygon #{j} border',
                f'polygon #{i} border',
            )
    return errors


def rings_errors(rings):
    """Multicontour: valid rings without crossings, overlaps or nesting."""
    errors = []
    for i, ring in enumerate(rings):
        errors += ring_errors(ring, name=f'contour #{i}')
    if errors:
        return errors
    for i in range(len(rings)):
        for j in range(i):
            errors += regions_errors(
                rings[j], rings[i], f'contour #{j}', f'contour #{i}'
            )
    return errors


def segments_errors(segments):
    errors = []
    for i, (a, b) in enumerate(segments):
        if a == b:
            errors.append(f'segment #{i} is degenerate')
    if errors:
        return errors
    for i in range(len(segments)):
        a, b = segments[i]
        for j in range(i):
            relation = segments_relation(a, b, *segments[j])
            if relation is CROSS or relation is OVERLAP:
                return [f'segments #{j} and #{i} {relation}']
    return []


def locate_in_polygon(point, border, holes):
    location = locate(point, border)
    if location == 1:
        for hole in holes:
            hole_location = locate(point, hole)
            if hole_location == 1:
                return -1
            if hole_location == 0:
                return 0
    return location


def mix_errors(points, segments, polygons):
    errors = []
    if len(set(points)) != len(points):
        errors.append('discrete component repeats a point')
    errors += segments_errors(segments)
    errors += polygons_errors(polygons)
    if errors:
        return errors
    for i, point in enumerate(points):
        for j, (a, b) in enumerate(segments):
            if on_segment(point, a, b):
                return [f'point #{i} lies on segment #{j}']
        for j, (border, holes) in enumerate(polygons):
            if locate_in_polygon(point, border, holes) >= 0:
                return [f'point #{i} lies on polygon #{j}']
    for j, (border, holes) in enumerate(polygons):
        rings = [border, *holes]
        edges = [edge for ring in rings for edge in edges_of(ring)]
        errors = boundaries_errors(
            segments, edges, 'linear component', f'polygon #{j}'
        )
        if errors:
            return errors
        for i, segment in enumerate(segments):
            for midpoint in _pieces_midpoints(segment, edges):
                if locate_in_polygon(midpoint, border, holes) > 0:
                    return [f'segment #{i} enters polygon #{j}']
    return []


def region_centroid(ring):
    area2 = cx = cy = 0
    for (x0, y0), (x1, y1) in edges_of(ring):
        part = x0 * y1 - x1 * y0
        area2 += part
        cx += (x0 + x1) * part
        cy += (y0 + y1) * part
    return (Fraction(cx, 3 * area2), Fraction(cy, 3 * area2))


def star_errors(ring):
    """Every vertex is visible from the centroid of the region."""
    centroid = region_centroid(ring)
    edges = edges_of(ring)
    for i, vertex in enumerate(ring):
        if vertex == centroid:
            continue
        for j, (a, b) in enumerate(edges):
            relation = segments_relation(centroid, vertex, a, b)
            if relation is CROSS or relation is OVERLAP:
                return [
                    f'segment from centroid to vertex #{i}'
                    f' {relation} edge #{j}'
                ]
    return []


def interior_is_connected(border, holes):
    """Rings and their contact points form an acyclic graph."""
    rings = [border, *holes]
    parent = {}

    def find(node):
        while parent.setdefault(node, node) != node:
            node = parent[node]
        return node

    for i in range(len(rings)):
        for j in range(i):
            contacts = set()
            for a, b in edges_of(rings[i]):
                for c, d in edges_of(rings[j]):
                    for p in (a, b):
                        if on_segment(p, c, d):
                            contacts.add(p)
                    for p in (c, d):
                        if on_segment(p, a, b):
                            contacts.add(p)
            for contact in contacts:
                for ring_index in (i, j):
                    key = (ring_index, contact)
                    if key in parent:
                        continue
                    parent[key] = key
                    left = find(('ring', ring_index))
                    right = find(('point', contact))
                    if left == right:
                        return False
                    parent[left] = right
    return True
