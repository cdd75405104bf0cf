import json,sys
d=json.load(open(sys.argv[1]))
T=d['types']
def ty(i): return T[i]['s']
def pl(p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='v': s+='@%d'%e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        else: s+=str(e)
    return s
def cn(k):
    if 'int' in k: return '%d'%k['int']
    if 'bytes' in k: return repr(bytes.fromhex(k['bytes']))
    if 'fn' in k: 
        f=k['fn']; return 'fn<%s|%s|%s|%s>'%(f['path'],f['kind'],f['key'],[ty(t) for t in f['targs']])
    return json.dumps(k)
def op(o):
    if 'c' in o: return pl(o['c'])
    if 'm' in o: return 'mv '+pl(o['m'])
    if 'k' in o: return cn(o['k'])
    return str(o)
def rv(r):
    if r[0]=='use': return op(r[1])
    if r[0]=='ref': return '&%s%s'%('mut ' if r[1] else '',pl(r[2]))
    if r[0]=='bin': return '%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
    if r[0]=='un': return '%s(%s)'%(r[1],op(r[2]))
    if r[0]=='cast': return '%s as %s [%s]'%(op(r[2]),ty(r[3]),r[1])
    if r[0]=='discr': return 'discr(%s)'%pl(r[1])
    if r[0]=='agg': return '%s%s(%s)'%(r[1][0],(' '+ty(r[1][1])+' v%s'%r[1][2]) if r[1][0]=='adt' else r[1][1:],', '.join(op(o) for o in r[2]))
    if r[0]=='raw': return '&raw '+pl(r[1])
    return json.dumps(r)
def show(f):
    print('FN',f['key'],f['span'],'argc',f['argc'])
    for i,(t,n) in enumerate(f['locals']): print('   _%d: %s %s'%(i,ty(t),n or ''))
    for i,b in enumerate(f['bbs']):
        if b is None: continue
        print(' bb%d:'%i)
        for s in b['s']:
            if s[0]=='=': print('    %s = %s'%(pl(s[1]),rv(s[2])))
            else: print('    ',s)
        t=b['t']
        if t[0]=='call': print('    CALL %s = %s(%s) -> %s'%(pl(t[3]),op(t[1]),', '.join(op(a) for a in t[2]),t[4]))
        elif t[0]=='switch': print('    SWITCH %s %s else %s'%(op(t[1]),t[2],t[3]))
        elif t[0]=='assert': print('    ASSERT %s==%s %s [%s] -> %s'%(op(t[1]),t[2],t[3],', '.join(op(o) for o in t[4]),t[5]))
        elif t[0]=='drop': print('    DROP',pl(t[1]),ty(t[3]),t[4],'->',t[2])
        else: print('    ',t)
if __name__=='__main__':
    for f in d['fns']:
        if sys.argv[2] in f['key']: show(f)
