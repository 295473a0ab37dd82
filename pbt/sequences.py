"""Sequences of draws as a function of a strategy and a seed."""

from __future__ import annotations

import contextlib
import hashlib

from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis import strategies as st
from hypothesis.internal.conjecture.engine import ConjectureRunner

from .kinds import CONTEXTS, KINDS


@contextlib.contextmanager
def _no_mutations():
    """Hypothesis mutates test cases by swapping parts with the same label;
    labels are made of hashes of callables, i.e. of memory addresses, so which
    ones are the same (and hence its choices) is not a function of the seed."""
    name = 'generate_mutations_from'
    original = getattr(ConjectureRunner, name, None)
    if original is None:
        yield
        return
    setattr(ConjectureRunner, name, lambda self, data: None)
    try:
        yield
    finally:
        setattr(ConjectureRunner, name, original)


def run(body, strategy, run_seed, count):
    """Calls `body` with `count` examples of the strategy."""
    test = seed(run_seed)(
        settings(
            max_examples=count,
            database=None,
            deadline=None,
            phases=[Phase.generate],
            suppress_health_check=list(HealthCheck),
            print_blob=False,
            report_multiple_bugs=False,
        )(given(strategy)(body))
    )
    with _no_mutations():
        test()


def collect(config, run_seed, count, *, strategy=None, before=None, after=None):
    """Data of examples, as canonical texts."""
    kind, context = KINDS[config['kind']], CONTEXTS[config['context']]
    if strategy is None:
        strategy = kind.build(config, context)
    result = []

    def body(data):
        if before is not None:
            before(len(result))
        value = data.draw(strategy)
        result.append(repr(kind.to_data(context, value)))
        if after is not None:
            after(value)

    run(body, st.data(), run_seed, count)
    return result


def digest(texts):
    return hashlib.sha256('\n'.join(texts).encode()).hexdigest()
