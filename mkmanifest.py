#!/usr/bin/env python3
"""writes MANIFEST.json from table.py"""
import json, table
NA = table.NA if hasattr(table, 'NA') else {}
checks = []
for pid in sorted(table.TABLE):
    T = table.TABLE[pid]
    checks.append({'property': pid, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + pid, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + pid,
                   'evidence_file': 'evidence/%s.json' % pid, 'technique': T.get('technique', 'contracts on the real code (LLVM IR), verification conditions discharged by SMT; bounded contract checks search for the failing input'),
                   'level': T['level'], 'level_note': T.get('note', '')})
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())]}
if getattr(table, 'HOOKS', None):
    m['hooks'] = table.HOOKS
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
