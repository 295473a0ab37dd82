"""Replays a recorded violation: `replay.py replays/C07.json`.

Exit 1 if it still happens on the current tree, 0 if it does not.
"""

import base64
import json
import sys
from pathlib import Path

from check import prepare, reexec


def main():
    path = Path(sys.argv[1]).resolve()
    reexec()
    prepare()
    from pbt import runner
    from pbt.properties import PROPERTIES

    replay = json.loads(path.read_text())
    check = PROPERTIES[replay['property']]
    suite = next(
        suite for suite in check.suites() if suite.name == replay['suite']
    )
    record = runner.Record()
    failure = None
    if replay.get('choices'):
        failure = runner.run_cases(
            suite,
            replay['seed'],
            1,
            record,
            preset=base64.b64decode(replay['choices']),
            shrink=False,
        )
        how = 'the smallest found case'
    elif suite.finish is not None:
        # a verdict over many draws: draw them again
        _, failure = runner.execute(
            replay['property'],
            [suite],
            tier=replay.get('tier', 'quick'),
            run_seed=replay['seed'],
        )
        how = 'all draws of the scenario'
    else:
        failure = runner.run_cases(
            suite, replay['seed'], replay['count'], record, shrink=False
        )
        how = 'the sequence of cases'
    print(f'replaying {how} of {replay["suite"]}')
    if failure is None:
        print('the property holds')
        return 0
    for error in failure['errors'][:5]:
        print(f'  {error}')
    print(f'VIOLATION property={replay["property"]} replay={path}')
    return 1


if __name__ == '__main__':
    sys.exit(main())
