#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/sizes.py."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIZE = {}; RULE = {}; WHAT = {}; exec(open(os.path.join(H, 'tools', 'sizes.py')).read())
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NOTE = ("Search, not proof: seeded generation of programs, configurations, machine settings and interleavings (at every memory access and Win32 call) of the real library code "
  "over a simulated Win32 layer, judged by %s. Trusts the simulator's model of Win32 and sequentially consistent memory.")
ORACLE = globals().get('ORACLE', {})
m = {'version': 1, 'setup_cmd': 'bash tools/build.sh',
 'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
   'technique': TECH.get(p['id'], 'property-based testing: generated multi-thread programs and schedules against a reference model') if 'TECH' in globals() else 'property-based testing: generated multi-thread programs and schedules against a reference model, with shrinking',
   'level': 'fault_enumeration' if p['id'] == 'C23' else 'exploration', 'level_note': NOTE % ORACLE.get(p['id'], 'a ghost model checked at every call, every idle moment and the end')} for p in props if p['id'] in CLAIMED],
 'not_applicable': [{'property': p['id'], 'reason': 'the check for this property is not built yet'} for p in props if p['id'] not in CLAIMED],
 'notes': 'One check driver (check.py); see DESIGN.md. No hooks in /repo: the library sources are compiled unmodified and instrumented by the compiler.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
