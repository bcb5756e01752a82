#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py, properties.jsonl and the notes below."""
import json
from props import PROPS, TITLES
NA = {}
NOTE = ('TLA+ specification model checked with TLC; histories recorded from the real code are decided by TLC against '
        'the same specification. Holds for the explored histories and model bounds (see evidence); trusts TLC, the '
        'harness\'s recording and projection of what the code did, and the input domain stated in DESIGN.md.')
checks = [{'property': p, 'quick_cmd': f'python3 check.py {p}', 'thorough_cmd': f'python3 check.py {p} --thorough',
           'evidence_file': f'evidence/{p}.json',
           'technique': PROPS[p].get('technique', 'TLA+ specification checked with TLC; behaviours of it replayed in the real code and recorded histories checked against it'),
           'level': PROPS[p].get('level', 'model_checking'), 'level_note': PROPS[p].get('note', NOTE)} for p in PROPS]
na = [{'property': p, 'reason': NA.get(p, 'not built yet')} for p in TITLES if p not in PROPS]
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup',
           'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the harness uses the public interface, an instrumented copy of '
                     'parking_lot (harness/vendor, by [patch.crates-io]) and its own wrappers of write(2), clock_gettime(2) and syscall(2)', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'Specification language: TLA+ with TLC. See DESIGN.md.'}, open('MANIFEST.json', 'w'), indent=1)
