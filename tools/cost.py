import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=os.path.join(V,'tools','cost.json')
d=json.load(open(p)) if os.path.exists(p) else {}
raw=d.setdefault('_raw',{})
for x in sorted(os.listdir(os.path.join(V,'evidence'))):
    if x.endswith('.json'):
        e=json.load(open(os.path.join(V,'evidence',x)))
        raw.setdefault(e['property'],{})[e['tier']]=round(e['wall_s'])
for k in raw:
    d[k]=', '.join('%s about %d s'%(t,raw[k][t]) for t in ('quick','thorough') if t in raw[k])+' on 8 cores.'
json.dump(d,open(p,'w'),indent=1,sort_keys=True)
