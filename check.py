"""Runs the check of one property: `check.py C07 [--thorough]`.

Exit 0: held on everything explored. Exit 1 with a line
`VIOLATION property=<id> replay=<path>`: broken. Exit 2: error of the check.
"""

import os
import sys
import time
import traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent
REPO = os.environ.get('VERIF_REPO', '/repo')


def reexec():
    """One hash seed, no bytecode written to the repository, its tree first
    on the path."""
    if os.environ.get('VERIF_CHILD') == '1':
        return
    environment = dict(os.environ)
    environment.update(
        VERIF_CHILD='1',
        PYTHONHASHSEED='0',
        PYTHONDONTWRITEBYTECODE='1',
        PYTHONPATH=REPO,
    )
    environment.pop('HYPOTHESIS_PROFILE', None)
    os.execve(
        sys.executable, [sys.executable, *map(str, sys.argv)], environment
    )


def prepare():
    sys.path.insert(0, str(ROOT))
    # Hypothesis keeps its cache in the working directory
    scratch = ROOT / '.scratch'
    scratch.mkdir(exist_ok=True)
    os.chdir(scratch)
    from hypothesis.configuration import set_hypothesis_home_dir

    set_hypothesis_home_dir(str(scratch / 'hypothesis'))
    import hypothesis_geometry

    origin = Path(hypothesis_geometry.__file__).resolve()
    if Path(REPO).resolve() not in origin.parents:
        raise RuntimeError(f'hypothesis_geometry is imported from {origin}')


def main():
    reexec()
    prepare()
    property_id = sys.argv[1]
    tier = (
        'thorough'
        if '--thorough' in sys.argv[2:]
        or os.environ.get('VERIF_TIER') == 'thorough'
        else 'quick'
    )
    run_seed = int(os.environ.get('VERIF_SEED') or '1')
    from pbt import findings, runner
    from pbt.properties import PROPERTIES

    check = PROPERTIES[property_id]
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    start = time.monotonic()
    known = findings.known(property_id)
    for entry in known:
        print(f'KNOWN-FINDING: property={property_id} {entry["what"]}')
    suites = check.suites()
    records, failure = runner.execute(
        property_id, suites, tier=tier, run_seed=run_seed, scale=scale
    )
    wall = time.monotonic() - start
    runner.write_evidence(
        property_id,
        tier,
        run_seed,
        'exploration',
        check.rule,
        suites,
        records,
        check.assumptions,
        wall,
        int(failure is not None),
    )
    evaluations = sum(record.evaluations for record in records)
    distinct = sum(len(record.digests) for record in records)
    print(
        f'{property_id} {check.title}: {evaluations} cases,'
        f' {distinct} distinct non-trivial, {wall:.1f} s'
    )
    for suite, record in zip(suites, records):
        print(
            f'  {suite.name}: {record.evaluations}'
            f' ({len(record.digests)} non-trivial)'
        )
    if failure is not None:
        path = runner.write_replay(property_id, tier, failure)
        print(f'suite {failure["suite"]}:')
        for error in failure['errors'][:5]:
            print(f'  {error}')
        print(f'VIOLATION property={property_id} replay={path}')
        return 1
    missing = [
        suite.name
        for suite, record in zip(suites, records)
        if not record.evaluations
    ]
    if missing:
        print(f'ERROR: nothing was explored by {missing}')
        return 2
    return 0


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
