"""Same strategy, same seed: same draws - in this process, again, amid other
draws, whatever the global random generator holds, and in a fresh interpreter
with another hash seed. The global random generator is neither read nor
advanced."""

from __future__ import annotations

import atexit
import json
import os
import random
import subprocess
import sys
from pathlib import Path

from hypothesis import strategies as st

from . import sequences
from .draws import describe
from .kinds import CONTEXTS, KINDS, repetitive_configs
from .runner import Suite, Violation

COUNT = 5
LONG_COUNT = 100
_helpers = {}


def _helper(hash_seed):
    key = (os.getpid(), hash_seed)
    if key not in _helpers:
        environment = dict(os.environ, PYTHONHASHSEED=hash_seed)
        process = subprocess.Popen(
            [
                sys.executable,
                str(Path(__file__).resolve().parent / 'serve.py'),
            ],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            env=environment,
            text=True,
        )
        _helpers[key] = process
    return _helpers[key]


def _stop():
    for (pid, _), process in _helpers.items():
        if pid == os.getpid():
            process.kill()


atexit.register(_stop)


class HelperError(BaseException):
    pass


def ask(hash_seed, config, run_seed, count):
    process = _helper(hash_seed)
    process.stdin.write(json.dumps([config, run_seed, count]) + '\n')
    process.stdin.flush()
    line = process.stdout.readline()
    if not line:
        raise HelperError('helper interpreter has died')
    return json.loads(line)


def outcome(config, run_seed, count, **kwargs):
    try:
        return {'texts': sequences.collect(config, run_seed, count, **kwargs)}
    except Exception as error:
        return {'error': f'{type(error).__name__}: {error}'}


def to_case(kind_name, count=COUNT):
    kind = KINDS[kind_name]

    def case(draw, record):
        config = draw(repetitive_configs(kind))
        other = draw(repetitive_configs(kind))
        run_seed = draw(st.integers(0, 2**32))
        salts = draw(st.tuples(st.integers(0, 99), st.integers(100, 199)))
        hash_seed = draw(st.sampled_from(['1', '77']))
        described = {'config': config, 'seed': run_seed}

        def fail(what, first=None, second=None):
            raise Violation(
                [what], {**described, 'first': first, 'second': second}
            )

        strategy = kind.build(config, CONTEXTS[config['context']])
        states = []

        def salt(value):
            def before(index):
                random.seed(value + index)
                states.append(random.getstate())

            return before

        def unchanged(_value):
            if random.getstate() != states[-1]:
                raise Violation(
                    ['drawing advances the global random generator'],
                    described,
                )

        try:
            first = {
                'texts': sequences.collect(
                    config,
                    run_seed,
                    count,
                    strategy=strategy,
                    before=salt(salts[0]),
                    after=unchanged,
                )
            }
        except Violation:
            raise
        except Exception as error:
            first = {'error': f'{type(error).__name__}: {error}'}
            if type(error).__name__.startswith('Flaky'):
                fail('draws are not reproducible within a run', first)
        if 'error' in first and not first['error'].startswith(
            'Unsatisfiable'
        ):
            fail('drawing failed', first)
        # something else happens in between
        sequences.collect(
            {
                'kind': 'polygons',
                'context': 'fraction',
                'params': {},
                'x': {
                    'form': 'integers',
                    'scalar': 'fraction',
                    'low': 0,
                    'high': 60,
                },
                'y': None,
            },
            salts[0],
            1,
        )
        outcome(other, run_seed, max(count // 5, 2))
        second = outcome(
            config, run_seed, count, strategy=strategy, before=salt(salts[1])
        )
        if second != first:
            fail('the same strategy draws something else', first, second)
        third = outcome(config, run_seed, count)
        if third != first:
            fail('an equal strategy draws something else', first, third)
        fourth = ask(hash_seed, config, run_seed, count)
        if fourth != first:
            fail('another process draws something else', first, fourth)
        texts = first.get('texts', [])
        record.note(
            (config, run_seed),
            nontrivial=len(set(texts)) > 1,
            classes=[f'{len(set(texts))} distinct draws'],
            sample=lambda: {
                'config': describe(config),
                'seed': run_seed,
                'draws': texts[:1],
            },
        )

    return case


COUNTS = {
    'points': 20,
    'boxes': 20,
    'segments': 20,
    'triangular_contours': 30,
    'rectangular_contours': 20,
    'polygons': 120,
}


def suites():
    return [
        Suite(
            name,
            to_case(name),
            quick=COUNTS.get(name, 60),
            chunk=10,
            thorough=COUNTS.get(name, 60) * 20,
        )
        for name in KINDS
        if name != 'empty_geometries'
    ] + [
        Suite(
            f'long {name}',
            to_case(name, LONG_COUNT),
            quick=6,
            chunk=3,
            thorough=120,
        )
        for name in KINDS
        if name != 'empty_geometries'
    ]
