"""Answers, in a fresh interpreter, which sequences are drawn.

Reads JSON lines `[config, seed, count]`, writes JSON lists of texts.
"""

import json
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))


def main():
    out = sys.stdout
    sys.stdout = sys.stderr
    from pbt import sequences

    for line in sys.stdin:
        config, run_seed, count = json.loads(line)
        try:
            answer = {'texts': sequences.collect(config, run_seed, count)}
        except Exception as error:
            answer = {'error': f'{type(error).__name__}: {error}'}
        out.write(json.dumps(answer) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
