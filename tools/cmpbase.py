import json,sys
t=json.load(open(sys.argv[1] if len(sys.argv)>1 else '/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(map(str,t['passed'])); miss=[x for x in map(str,b['stable']) if x not in p]
print('stable',len(b['stable']),'missing',len(miss),miss[:5],'failed',len(t['failed']))
