import json,sys
d=json.load(open(sys.argv[1])); p=d.get('plan',d)
for k,v in p.items():
    if k=='steps':
        for s in v: print('  ',json.dumps(s,ensure_ascii=False))
    else: print(k,json.dumps(v,ensure_ascii=False))
for t,m in d.get('problems',[]): print(t,m[:400])
