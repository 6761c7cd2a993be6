#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables of check.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
sys.dont_write_bytecode = True
import check
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line); i = p['id']
    if i in check.RT or i in check.CT:
        rt = i in check.RT
        checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
            'technique': ('property-based testing: structured random generation against a reference model, sanitized and plain builds, byte-level shrinking' + ('; coverage-guided libFuzzer in the thorough tier' if rt else '')) if rt else
                         'property-based testing over generated programs (compile-time types) against exact rational arithmetic, with program shrinking',
            'level': 'exploration',
            'level_note': 'Holds on every generated case of the run (counts in the evidence file); trusts the reference model in /verif, the compiler and its sanitizers. Does not establish absence of violations.'})
    else: na.append({'property': i, 'reason': 'the check for this property is still being built'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. All checks: python3 check.py ID; replay a reported file with python3 check.py ID --replay FILE.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
