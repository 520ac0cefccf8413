"""Pretty-print a dumped body: python3 pp.py DUMP.json [regex]"""
import json,sys,re
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='v': s+=' as %s'%(e[2] or e[1])
        else: s+=str(e)
    return s
def con(k):
    if 'fn' in k: return 'fn:'+(k['fn'].get('inst') or k['fn'].get('inst_path') or k['fn']['path'])+('{%s}'%','.join(k['fn'].get('args',[]))) + (' [SHIM %s]'%k['fn']['shim'] if 'shim' in k['fn'] else '')+(' INLINE' if 'inst' in k['fn'] else '')
    return json.dumps({a:b for a,b in k.items() if a!='ty'})
def op(o):
    if o[0]=='k': return con(o[1])
    return ('move ' if o[0]=='m' else '')+pl(o[1])
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&%s%s%s'%('mut ' if r[1] else '',pl(r[2]),' FAKE' if r[3] else '')
    if k=='agg': return 'agg %s %s(%s)'%(r[1],r[3:] ,', '.join(op(x) for x in r[2]))
    if k=='bin': return '%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(r[2]))
    if k=='cast': return 'cast[%s] %s'%(r[1],op(r[2]))
    if k=='discr': return 'discr(%s)'%pl(r[1])
    return json.dumps(r)
def tm(t):
    k=t[0]
    if k=='call': return '%s = %s(%s) -> %s'%(pl(t[3]),op(t[1]),', '.join(op(a) for a in t[2]),t[4])
    if k=='switch': return 'switch %s %s else %s'%(op(t[1]),t[2],t[3])
    if k=='drop': return 'drop %s -> %s'%(pl(t[1]),t[2])
    if k=='assert': return 'assert %s==%s %s (%s) -> %s'%(op(t[1]),t[2],t[3],','.join(op(x) for x in t[4]),t[5])
    if k=='yield': return 'yield %s -> %s'%(op(t[1]),t[2])
    return json.dumps(t)
def show(d,key):
    b=d['bodies'][key]
    print('=== %s argc=%d coroutine=%s %s'%(key,b['argc'],b['coroutine'],b['span']))
    for i,l in enumerate(b['locals']): print('   _%d: %s %s'%(i,d['types'][l]['s'][:150],b['names'].get(str(i),'')))
    for i,bb in enumerate(b['blocks']):
        if bb['cleanup']: continue
        print(' bb%d:'%i)
        for s in bb['s']:
            if s[0]=='=': print('    %s = %s'%(pl(s[1]),rv(s[2])))
            elif s[0] not in('live','dead'): print('    ',s)
        print('    '+tm(bb['t']))
if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    if len(sys.argv)<3:
        for k,b in sorted(d['bodies'].items()): print(len(b['blocks']),k)
    else:
        for k in sorted(d['bodies']):
            if re.search(sys.argv[2],k): show(d,k)
