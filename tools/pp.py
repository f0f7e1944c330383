#!/usr/bin/env python3
"""pretty-print functions of a dump: pp.py DUMP REGEX"""
import json,sys,re
p=json.load(open(sys.argv[1])); T=p['types']; F=p['funcs']
def pl(x):
    s='_%d'%x['local']
    for e in x['proj']:
        if e=='Deref': s='(*%s)'%s
        else:
            k,v=next(iter(e.items()))
            if k=='Field': s+='.%d'%v[0]
            elif k=='Index': s+='[_%d]'%v
            elif k=='ConstIndex': s+='[%s%d]'%('-' if v['from_end'] else '',v['offset'])
            else: s+='@%s%s'%(k,v)
    return s
def op(o):
    if isinstance(o,str): return o
    k,v=next(iter(o.items()))
    if k=='Copy': return pl(v)
    if k=='Move': return 'mv '+pl(v)
    if k=='Const':
        c=v['val']
        if isinstance(c,dict) and 'Scalar' in c: return '%d:%s'%(c['Scalar'],T[v['ty']]['name'])
        if isinstance(c,dict) and 'Fn' in c: return 'fn#%d'%c['Fn']
        return '%s:%s'%(str(c)[:60],T[v['ty']]['name'][:60])
    return str(o)
def rv(r):
    k,v=next(iter(r.items()))
    if k=='Use': return op(v)
    if k=='Ref' or k=='AddrOf': return '&%s%s'%('mut ' if v[0] else '',pl(v[1]))+('raw' if k=='AddrOf' else '')
    if k in('Bin','Checked'): return '%s%s(%s, %s)'%(k[0],v[0],op(v[1]),op(v[2]))
    if k=='Un': return '%s(%s)'%(v[0],op(v[1]))
    if k=='Cast': return 'cast %s %s -> %s'%(v[0],op(v[1]),T[v[2]]['name'][:80])
    if k in('Discr','Len'): return '%s(%s)'%(k,pl(v))
    if k=='Aggregate': 
        a=v[0]; 
        if isinstance(a,dict) and 'Adt' in a: a='%s#%d'%(T[a['Adt']['ty']]['name'][:60],a['Adt']['variant'])
        return 'agg %s {%s}'%(str(a)[:80],', '.join(op(x) for x in v[1]))
    return str(r)[:100]
def term(t):
    if isinstance(t,str): return t
    k,v=next(iter(t.items()))
    if k=='Goto': return '-> %d'%v
    if k=='Switch': return 'switch %s %s else %d'%(op(v['discr']),v['branches'],v['otherwise'])
    uw=lambda u: u if isinstance(u,str) else 'uw%d'%u['Cleanup']
    if k=='Drop': return 'drop %s glue %s -> %d %s'%(pl(v['place']),v['glue'],v['target'],uw(v['unwind']))
    if k=='Call':
        c=v['callee']
        c='%s#%d'%(F[c['Direct']]['path'],c['Direct']) if 'Direct' in c else 'INDIRECT '+str(c)[:40]
        return '%s = %s%s(%s) -> %s %s'%(pl(v['dest']),c,'!' if v['rust_call'] else '',', '.join(op(a) for a in v['args']),v['target'],uw(v['unwind']))
    if k=='Assert': return 'assert %s==%s %s -> %d %s'%(op(v['cond']),v['expected'],v['msg'][:50],v['target'],uw(v['unwind']))
    return str(t)
if __name__=='__main__':
  rx=re.compile(sys.argv[2])
  for i,f in enumerate(F):
    if str(i)==sys.argv[2] or (not sys.argv[2].isdigit() and rx.search(f['full'])):
        print('#%d %s [%s] %s'%(i,f['full'],f['kind'],f['krate']))
        b=f['body']
        if not b: continue
        if len(sys.argv)>3 and sys.argv[3]=='-n': continue
        for j,l in enumerate(b['locals']): print('   _%d: %s %s'%(j,T[l]['name'][:100],b['names'][j] or ''))
        for j,k in enumerate(b['blocks']):
            print(' bb%d:'%j)
            for s,_ in k['stmts']:
                if isinstance(s,dict) and 'Assign' in s: print('   %s = %s'%(pl(s['Assign'][0]),rv(s['Assign'][1])))
                elif isinstance(s,dict) and ('StorageLive' in s or 'StorageDead' in s): pass
                elif s!='Nop': print('   ',str(s)[:100])
            print('   ',term(k['term']))
