#!/usr/bin/env python3
"""kf.py fixed PROP COMMIT TEXT  -- append to known_findings.json (done by hand, never at run time)"""
import json, sys
p = '/verif/known_findings.json'; d = json.load(open(p))
if sys.argv[1] == 'fixed': d['fixed'].append('fixed: property=%s %s %s' % tuple(sys.argv[2:5]))
json.dump(d, open(p, 'w'), indent=1)
