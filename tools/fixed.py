"""record a repair in known_findings.json: fixed.py PROP HASH TEXT"""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
d['fixed'].append('fixed: property=%s %s %s' % tuple(sys.argv[1:4]))
json.dump(d, open(p, 'w'), indent=1)
