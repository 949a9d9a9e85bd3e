"""addfix.py PROP HASH TEXT: record a repair in known_findings.json"""
import json, sys, os
p = os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')
k = json.load(open(p)); k['fixed'].append('fixed: property=%s %s %s' % tuple(sys.argv[1:4]))
json.dump(k, open(p, 'w'), indent=1); open(p, 'a').write('\n')
