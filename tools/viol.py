import json,collections,sys
d=json.load(open(f'/verif/evidence/{sys.argv[1]}.violation.json'))
print(d['total'],collections.Counter(v['key'] for v in d['violations']))
seen=collections.Counter()
for v in d['violations']:
    if seen[v['key']]<int(sys.argv[2]) if len(sys.argv)>2 else 1:
        e=v.get('event') or {}
        print(v['key'],json.dumps(v.get('verdict') or v)[:400],json.dumps({k:e[k] for k in e if k in('T','gen','fam','P','name')})[:400])
    seen[v['key']]+=1
