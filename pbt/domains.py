"""Coordinate domains: JSON specs of coordinate strategies.

A spec fully determines a strategy, the range of its values and, for finite
domains, its exact support.
"""

from __future__ import annotations

from fractions import Fraction
from math import isqrt

from hypothesis import strategies as st


def encode(value):
    if value is None:
        return None
    if isinstance(value, float):
        return value.hex()
    value = Fraction(value)
    return f'{value.numerator}/{value.denominator}'


def decode(text):
    if text is None:
        return None
    if 'x' in text or text in ('inf', 'nan', '-inf'):
        return float.fromhex(text)
    numerator, denominator = text.split('/')
    return Fraction(int(numerator), int(denominator))


SCALARS = {'fraction': Fraction, 'float': float, 'int': int}


class Domain:
    """A coordinate strategy with known range, support and type."""

    def __init__(self, spec):
        self.spec = spec
        self.scalar = SCALARS[spec['scalar']]
        form = spec['form']
        to_scalar = self.scalar
        self.support = None
        if form == 'sampled':
            values = [to_scalar(decode(value)) for value in spec['values']]
            assert len(set(values)) == len(values)
            self.strategy = _disguised(values, spec.get('via'))
            self.support = frozenset(values)
            self.low, self.high = min(values), max(values)
        elif form == 'integers':
            low, high = spec['low'], spec['high']
            self.strategy = st.integers(low, high).map(to_scalar)
            self.low = None if low is None else to_scalar(low)
            self.high = None if high is None else to_scalar(high)
            self.integral = True
        elif form == 'scaled':  # multiples of a step
            low, high = spec['low'], spec['high']
            step = to_scalar(decode(spec['step']))
            origin = to_scalar(decode(spec['origin']))
            self.strategy = st.integers(low, high).map(
                lambda index: origin + step * to_scalar(index)
            )
            self.low, self.high = origin + step * low, origin + step * high
        elif form == 'fractions':
            self.low, self.high = decode(spec['low']), decode(spec['high'])
            self.strategy = st.fractions(
                self.low, self.high, max_denominator=spec['max_denominator']
            )
        elif form == 'floats':
            self.low, self.high = decode(spec['low']), decode(spec['high'])
            self.strategy = st.floats(
                self.low, self.high, allow_nan=False, allow_infinity=False
            )
        else:
            raise ValueError(form)

    def __len__(self):
        form = self.spec['form']
        if form == 'sampled':
            return len(self.support)
        if form in ('integers', 'scaled') and None not in (
            self.spec['low'],
            self.spec['high'],
        ):
            return self.spec['high'] - self.spec['low'] + 1
        return 10**9

    def has_in_range(self, value):
        return (self.low is None or self.low <= value) and (
            self.high is None or value <= self.high
        )

    def __repr__(self):
        return f'Domain({self.spec})'


def _disguised(values, via):
    """Other strategies of the same values."""
    if via is None:
        return st.sampled_from(values)
    indices = st.integers(0, len(values) - 1)
    if via == 'mapped':
        return indices.map(values.__getitem__)
    if via == 'united':
        middle = (len(values) + 1) // 2
        # halves overlap
        return st.sampled_from(values[: middle + 1]) | st.sampled_from(
            values[middle - 1 :]
        )
    if via == 'filtered':
        admissible = frozenset(values)
        scalar = type(values[0])
        return (
            st.sampled_from([None, scalar(10**7), *values])
            .filter(lambda value: value is not None)
            .filter(admissible.__contains__)
        )
    if via == 'repeated':
        return st.sampled_from([*values, *values[::-1], values[0]])
    if via == 'chained':
        return indices.flatmap(
            lambda index: st.sampled_from(values[index // 2 * 2 :][:2])
        )
    if via == 'composite':

        @st.composite
        def coordinates(draw):
            return values[draw(indices)]

        return coordinates()
    assert via == 'deferred', via
    return st.deferred(lambda: st.sampled_from(values))


def _sampled(values, scalar='fraction'):
    return {
        'form': 'sampled',
        'scalar': scalar,
        'values': [encode(value) for value in values],
    }


@st.composite
def sampled_specs(draw, need, scalar='fraction', max_extra=40):
    """Finite explicit supports, from the tightest one to roomy ones."""
    size = need + draw(st.sampled_from([0, 1, 2, 4, 8, 16, max_extra]))
    shape = draw(
        st.sampled_from(
            [
                'range',
                'range',
                'range',
                'gaps',
                'powers',
                'clusters',
                'halves',
                'scales',
            ]
        )
    )
    offset = draw(st.sampled_from([0, 0, -3, -50, 1000]))
    if shape == 'range':
        values = [offset + index for index in range(size)]
    elif shape == 'gaps':
        gaps = draw(
            st.lists(st.integers(1, 7), min_size=size, max_size=size)
        )
        values, current = [], offset
        for gap in gaps:
            values.append(current)
            current += gap
    elif shape == 'powers':
        values = [offset + 2**index for index in range(min(size, 40))] + [
            offset - index for index in range(max(size - 40, 0))
        ]
    elif shape == 'clusters':
        values = [
            offset + 1000 * (index // 3) + index % 3 for index in range(size)
        ]
    elif shape == 'scales':  # exceed the precision of floats
        values = [
            offset + Fraction(10) ** (9 * (index % 5) - 9) + index // 5
            for index in range(size)
        ]
    else:
        values = [Fraction(2 * offset + index, 2) for index in range(size)]
    if draw(st.booleans()):
        values = values[::-1]
    return _sampled(values, scalar)


@st.composite
def integers_specs(draw, need, scalar='fraction'):
    low = draw(st.sampled_from([0, -5, -20, 7, 10**6]))
    extra = draw(st.sampled_from([2, 6, 20, 100, 10**4, None]))
    if extra is None:
        side = draw(st.sampled_from(['low', 'high', 'none']))
        return {
            'form': 'integers',
            'scalar': scalar,
            'low': low if side == 'low' else None,
            'high': low if side == 'high' else None,
        }
    return {
        'form': 'integers',
        'scalar': scalar,
        'low': low,
        'high': low + 2 * need + extra,
    }


@st.composite
def fractions_specs(draw):
    bounds = draw(
        st.sampled_from(
            [
                (None, None),
                (0, None),
                (None, 0),
                (-1, 1),
                (0, 1),
                (-100, 100),
                (Fraction(1, 3), Fraction(22, 7)),
                (10**9, 10**9 + 1),
            ]
        )
    )
    low, high = bounds
    max_denominator = draw(st.sampled_from([None, 60, 1000]))
    return {
        'form': 'fractions',
        'scalar': 'fraction',
        'low': encode(low),
        'high': encode(high),
        'max_denominator': max_denominator,
    }


def fraction_specs(need):
    """Fraction coordinates: mostly small exact grids, where degenerate
    arrangements (collinear, cocircular, equal angles) abound."""
    return st.one_of(
        sampled_specs(need),
        sampled_specs(need),
        sampled_specs(need),
        integers_specs(need),
        fractions_specs(),
    )


@st.composite
def irregular_specs(draw, need):
    """Barely enough values with few different gaps in between: triples of
    points on a line are common, unlike on regular grids."""
    size = need + draw(st.sampled_from([0, 0, 1, 2, 3]))
    kind = draw(st.sampled_from(['gaps', 'gaps', 'even', 'roots']))
    if kind == 'even':
        return _sampled(range(size))
    if kind == 'roots':
        # squares of indices give points on a line
        values = []
        for index in range(size):
            root = isqrt(index)
            values.append(
                root + Fraction(index - root * root, 2 * root + 1)
            )
        return _sampled(values)
    gaps = draw(
        st.sampled_from([[1], [1, 2], [1, 2], [1, 3], [1, 2, 4], [2, 3, 4]])
    )
    values, current = [], draw(st.sampled_from([0, 0, -4, 30]))
    for _ in range(size):
        values.append(current)
        current += draw(st.sampled_from(gaps))
    return _sampled(values)


# gaps between values, found by search, which put as many triples as possible
# of a quadratic (i, a * i^2 mod p) pattern of points on a line
ALIGNED_GAPS = {
    5: (
        '1124 2133 4233 3123 1122 4224'
    ),
    7: (
        '211224 212145 221145 312244 552314 312455 411423 513153'
    ),
    11: (
        '1124242421 2112213315 2221124244 4421144444 2442421122 2132112444 '
        '3312333213 2111313222'
    ),
    13: (
        '421111231224 421111231233 421111222224 421111222233 121111231233 '
        '421111222413 211112132132 233213211112'
    ),
    17: (
        '4411112112211114 4422222241111224 4411112112211123 '
        '4411111121111314 4411112112211222 4312221111211213 '
        '3451211111111221 2211111121113112'
    ),
    19: (
        '211242231113224211 224132221111222224 314121111111222125 '
        '213531121412113522 312121111511112121 542333321122224235 '
        '433242222112312222 411211211111122231'
    ),
    23: (
        '2422111111121111111224 2121211111111113122442 '
        '5211311121211111111224 3235311211211111111224 '
        '2312111121212121111233 3124222111111111321324 '
        '2444222112111121122134 4112211211221122221324'
    ),
}


@st.composite
def aligned_specs(draw, need):
    """Exactly as many values as a pattern needs, with most patterns having
    collinear points."""
    sizes = [size for size in ALIGNED_GAPS if size >= need][:3]
    if not sizes:
        return draw(irregular_specs(need))
    gaps = draw(
        st.sampled_from(ALIGNED_GAPS[draw(st.sampled_from(sizes))].split())
    )
    values = [draw(st.sampled_from([0, 0, -9, 50]))]
    for gap in gaps:
        values.append(values[-1] + int(gap))
    return _sampled(values)


@st.composite
def disguised_specs(draw, need):
    """Finite supports which do not look like ones."""
    spec = draw(sampled_specs(2 * need + 3, max_extra=20))
    return {
        **spec,
        'via': draw(
            st.sampled_from(
                [
                    'mapped',
                    'united',
                    'filtered',
                    'repeated',
                    'chained',
                    'composite',
                    'deferred',
                ]
            )
        ),
    }


def cheap_specs(need):
    return sampled_specs(need)


@st.composite
def roomy_specs(draw, need):
    """At least twice as many values as needed."""
    size = 2 * need + draw(st.integers(8, 30))
    if draw(st.booleans()):
        low = draw(st.sampled_from([0, -30, 7]))
        return {
            'form': 'integers',
            'scalar': 'fraction',
            'low': low,
            'high': low + size,
        }
    offset = draw(st.sampled_from([0, -10, 100]))
    step = draw(st.sampled_from([1, 1, 2, 5]))
    return _sampled([offset + step * index for index in range(size)])


@st.composite
def large_specs(draw, need):
    """Values for geometries of large sizes."""
    size = need + need // 4 + draw(st.integers(8, 40))
    low = draw(st.sampled_from([0, -30, 10**4]))
    return {
        'form': 'integers',
        'scalar': 'fraction',
        'low': low,
        'high': low + size * draw(st.sampled_from([1, 3, 100])),
    }


def dyadic_float_specs(need):
    """Floats on which the plain float predicates are exact."""
    return sampled_specs(need, scalar='float', max_extra=30).filter(
        lambda spec: all(
            abs(value) <= 2000 and (2 * value).denominator == 1
            for value in map(decode, spec['values'])
        )
    )


@st.composite
def float_specs(draw):
    bounds = draw(
        st.sampled_from(
            [
                (-1.0, 1.0),
                (0.0, 1.0),
                (-100.0, 100.0),
                (0.1, 0.7),
                (-1e6, 1e6),
                (1e-3, 1e3),
            ]
        )
    )
    return {
        'form': 'floats',
        'scalar': 'float',
        'low': bounds[0].hex(),
        'high': bounds[1].hex(),
    }


def describe(spec):
    if spec is None:
        return 'same as x'
    if spec['form'] == 'sampled':
        values = spec['values']
        shown = ', '.join(values[:6]) + (', ...' if len(values) > 6 else '')
        via = spec.get('via')
        return (
            f'sampled_from({len(values)} {spec["scalar"]}s: {shown})'
            + (f', {via}' if via else '')
        )
    return str({key: value for key, value in spec.items()})
