"""Known findings: genuine defects that are recorded rather than repaired.

`known_findings.jsonl`: one JSON object a line. `{"property", "what"}` is a
live finding, announced on every run (there is none at present, so nothing is
ever suppressed); `{"fixed": "property=<id> <commit> <what failed>"}` is
history and suppresses nothing.
"""

from __future__ import annotations

import json
from pathlib import Path

PATH = Path(__file__).resolve().parent.parent / 'known_findings.jsonl'


def known(property_id):
    if not PATH.exists():
        return []
    entries = [
        json.loads(line)
        for line in PATH.read_text().splitlines()
        if line.strip()
    ]
    return [
        entry for entry in entries if entry.get('property') == property_id
    ]
