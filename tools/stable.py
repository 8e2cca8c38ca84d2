import json,sys
r=json.load(open(sys.argv[1])); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p=set(r.get('passed',r.get('pass',[])))
print('stable missing:',sorted(b-p))
sys.exit(1 if b-p else 0)
