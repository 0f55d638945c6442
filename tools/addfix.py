import json,sys
d=json.load(open('known_findings.json'))
d['fixed'].append('fixed: property=%s %s %s'%tuple(sys.argv[1:4]))
json.dump(d,open('known_findings.json','w'),indent=1)
