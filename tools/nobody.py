import json,sys
p=json.load(open('work/full.json'))
f=p['funcs']
print(len(p['entries']))
seen=set()
for x in f:
    if x['body'] is None:
        k=(x['kind'],x['krate'],x['path'])
        if k not in seen:
            seen.add(k)
for k in sorted(seen): print(*k)
print(p['statics'])
