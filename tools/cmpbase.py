import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
p=set(o['passed']); miss=[x for x in b['stable'] if x not in p]
print('missing',len(miss),miss[:10])
