"""The common shape of a case: draw a configuration, build the strategy it
describes, draw a geometry from it and judge the plain data."""

from __future__ import annotations

from fractions import Fraction

from hypothesis import strategies as st
from hypothesis.errors import UnsatisfiedAssumption

from . import domains
from .kinds import CONTEXTS, KINDS, Malformed, configs
from .runner import Violation


def plain(value):
    """JSON form of drawn data, exact."""
    if isinstance(value, (Fraction, float)):
        return domains.encode(value) if value == value else 'nan'
    if isinstance(value, dict):
        return {key: plain(item) for key, item in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(item) for item in value]
    if value is None or isinstance(value, (int, str)):
        return value
    return repr(value)


def shown(value):
    """Readable form of drawn data for samples."""
    if isinstance(value, Fraction):
        return str(value)
    if isinstance(value, dict):
        return {key: shown(item) for key, item in value.items()}
    if isinstance(value, (list, tuple)):
        return [shown(item) for item in value]
    return value


def describe(config):
    return {
        **{
            key: value for key, value in config.items() if key not in ('x', 'y')
        },
        **{
            key: domains.describe(config[key])
            for key in ('x', 'y')
            if key in config
        },
    }


def is_control(error):
    return isinstance(error, UnsatisfiedAssumption)


def draw_data(draw, config):
    """Plain data of a geometry drawn from the configured strategy."""
    kind, context = KINDS[config['kind']], CONTEXTS[config['context']]
    try:
        strategy = kind.build(config, context)
    except Exception as error:
        raise Violation(
            [f'construction raised {type(error).__name__}: {error}'],
            {'config': config},
        ) from error
    try:
        value = draw(strategy)
    except Exception as error:
        if is_control(error):
            raise
        raise Violation(
            [f'drawing raised {type(error).__name__}: {error}'],
            {'config': config},
        ) from error
    try:
        return kind.to_data(context, value)
    except Malformed as error:
        raise Violation(
            [str(error)], {'config': config, 'value': str(value)}
        ) from error


def to_case(
    kind_name,
    judge,
    specs=domains.fraction_specs,
    context='fraction',
    profile='normal',
):
    """`judge(kind, config, data)` -> errors."""
    kind = KINDS[kind_name]

    def case(draw, record):
        contexts = [context] if isinstance(context, str) else context
        config = draw(
            configs(
                kind,
                specs,
                contexts[0] if len(contexts) == 1 else draw(sampled(contexts)),
                profile
                if isinstance(profile, str)
                else draw(sampled(profile)),
            )
        )
        data = draw_data(draw, config)
        errors = judge(kind, config, data)
        if errors:
            raise Violation(errors, {'config': config, 'data': plain(data)})
        record.note(
            (config, data),
            nontrivial=kind.nontrivial(data),
            classes=kind.classify(data),
            sample=lambda: {
                'config': describe(config),
                'geometry': shown(data),
            },
        )

    return case


def to_contexts_case(kind_name, contexts, specs):
    """One strategy after another, with different contexts."""
    kind = KINDS[kind_name]

    def case(draw, record):
        names = draw(
            st.lists(sampled(contexts), min_size=2, max_size=2, unique=True)
        )
        configurations = [draw(configs(kind, specs, name)) for name in names]
        # conversion compares the classes
        values = [draw_data(draw, config) for config in configurations]
        record.note(
            (configurations, values),
            nontrivial=any(map(kind.nontrivial, values)),
            classes=[' then '.join(names)],
            sample=lambda: {
                'configs': [describe(config) for config in configurations],
                'geometries': shown(values),
            },
        )

    return case


def sampled(values):
    return st.sampled_from(values)
