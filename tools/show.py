import json,sys
for s in json.load(open(sys.argv[1])):
    print(s['sub'],s['evaluations'],s['distinct_nontrivial'],'ratio',round(s['max_ratio'],3),round(s['secs'],1),'s', ('FAIL '+s['failure']['reason'][:400]+' CASE '+json.dumps(s['failure']['case'])[:300]) if s['failure'] else '', s.get('error') or '')
