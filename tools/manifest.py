#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    'exact': 'Every recorded call is judged exactly by the specification; exhaustive over the call sequences recorded, not over all inputs. Trusts TLC, the Java replacement of BigInt (checked against its TLA+ definition) and the executor.',
    'real': 'Every recorded call is judged with rigorous fixed-point arithmetic in TLA+ (guard digits beyond the tolerance); bounded by the operands generated. Trusts TLC, the Java replacement of BigInt and the executor.',
    'hist': 'Every step of every recorded history is judged; allocation is tracked by the executor\'s allocator. Bounded by the histories generated. Trusts TLC, the Java replacement of BigInt and the executor.',
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    kind = 'real' if i in ('C19', 'C20', 'C21', 'C22') else 'hist' if i in ('C25', 'C26') else 'exact'
    checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s quick' % i, 'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
                   'technique': 'TLA+ specification, TLC validation of traces recorded from the library', 'level': 'model_checking', 'level_note': NOTE[kind]})
json.dump({'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo: the public API is enough.'}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
