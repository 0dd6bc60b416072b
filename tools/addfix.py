#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT WHAT: record a repaired defect in known-findings.json"""
import json, sys
prop, commit, what = sys.argv[1:4]
p = '/verif/known-findings.json'
d = json.load(open(p))
d['findings'].append({'property': prop, 'status': 'fixed', 'commit': commit, 'what': what,
                      'line': f'fixed: property={prop} {commit} {what}'})
json.dump(d, open(p, 'w'), indent=1, ensure_ascii=False)
open(p, 'a').write('\n')
