#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and vlib/plan.py."""
import json
from vlib import plan

NA = {'C15': 'The property is about the outcome of compiling a program (a proc-macro panic or a trait error at compile time). It is not a pre- or postcondition of a function of the crate, and proc-macro code over token streams is outside the reach of Verus and Kani.'}
checks = []
for l in open('properties.jsonl'):
    p = json.loads(l)['id']
    if p in NA:
        continue
    checks.append({'property': p, 'quick_cmd': f'python3 check.py {p} quick', 'thorough_cmd': f'python3 check.py {p} thorough',
                   'technique': plan.TECHNIQUE(p), 'level': 'proof',
                   'level_note': plan.EXPLAIN[p] + (' Bounded, not proved: ' + plan.BOUNDED_TEXT[p] if p in plan.BOUNDED_TEXT else '')
                   + ' Trusts: ' + '; '.join(plan.TRUSTED(p)) + '.' + (' Assumes: ' + '; '.join(plan.ASSUMED(p)) + '.' if plan.ASSUMED(p) else '')})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
           'notes': 'No hooks in /repo. Known findings in known_findings.txt.'}, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
