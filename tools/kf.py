#!/usr/bin/env python3
"""kf.py fixed PROP COMMIT TEXT | kf.py known PROP SIG TEXT: add to known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
kind, prop, x, text = sys.argv[1:]
if kind == 'fixed':
    d['findings'].append({'property': prop, 'status': 'fixed', 'text': 'fixed: property=%s %s %s' % (prop, x, text)})
else:
    d['findings'].append({'property': prop, 'status': 'known', 'sig': x, 'what': text})
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
