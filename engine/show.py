import json,sys
def load(cfg,c): return json.load(open('/verif/.build/dump-%s/%s.json'%(cfg,c)))
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='d': s+='@%d'%e[1]
        else: s+=str(e)
    return s
def op(o):
    if o[0] in 'cm' and len(o)==2: return ('move ' if o[0]=='m' else '')+pl(o[1])
    return 'k:'+json.dumps(o[2] if len(o)>2 else o)
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k in('ref','addr'): return k+ '&'+('mut ' if r[2] else '')+pl(r[1])
    if k in('bin','cbin'): return '%s %s(%s,%s)'%(k,r[1],op(r[2]),op(r[3]))
    if k=='cast': return 'cast %s(%s)'%(r[1],op(r[2]))
    if k=='discr' or k=='len': return k+' '+pl(r[1])
    if k=='agg': return 'agg %s(%s)'%(r[1],', '.join(op(x) for x in r[2]))
    if k=='un': return 'un %s %s'%(r[1],op(r[2]))
    return json.dumps(r)
def show(d,f):
    print('fn',f['name'],f['span'],'argc',f['argc'],'spread',f['spread'])
    for i,l in enumerate(f['locals']): print('   _%d: %s %s'%(i,d['types'][l[0]]['s'],l[1] if len(l)>1 else ''))
    for i,b in enumerate(f['bbs']):
        print(' bb%d:'%i)
        for s in b['s']:
            if s[0]=='=': print('    %s = %s'%(pl(s[1]),rv(s[2])))
            else: print('   ',s)
        t=b['t']
        if t[0]=='call': print('    %s = call %s(%s) -> %s'%(pl(t[3]), t[1][2] if t[1][0]=='fn' else t[1], ', '.join(op(x) for x in t[2]), t[4]))
        elif t[0]=='sw': print('    sw %s %s else %s'%(op(t[1]),t[2],t[3]))
        elif t[0]=='assert': print('    assert %s==%s %s -> %s'%(op(t[1]),t[2],t[3][0],t[4]))
        elif t[0]=='drop': print('    drop %s -> %s'%(pl(t[1]),t[2]))
        else: print('   ',t)
if __name__=='__main__':
    d=load(sys.argv[1],sys.argv[2])
    for f in d['fns']:
        if sys.argv[3] in f['name']: show(d,f)
