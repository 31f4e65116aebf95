"""Developer aid: print exported MIR. usage: dump.py crate pattern"""
import json,sys,os
def load(c): return json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'.build/out/%s.main.json'%c)))
def pl(p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='d': s+='@%d'%e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        else: s+=str(e)
    return s
def op(o,T):
    if 'c' in o: return pl(o['c'])
    if 'm' in o: return 'mv '+pl(o['m'])
    if 'k' in o:
        k=o['k']
        if 'fn' in k: return 'fn '+k['fn']['path']
        if 'bits' in k: return '%s:%s'%(k['bits'],T[k['ty']]['s'])
        return 'const '+json.dumps({a:b for a,b in k.items() if a!='ty'})+':'+T[k['ty']]['s']
    return str(o)
def rv(r,T):
    k=r[0]
    if k=='use': return op(r[1],T)
    if k=='ref': return ('&mut ' if r[2] else '&')+pl(r[1])
    if k=='cast': return 'cast %s %s %s->%s'%(r[1],op(r[2],T),T[r[3]]['s'],T[r[4]]['s'])
    if k=='bin': return '%s(%s, %s)'%(r[1],op(r[2],T),op(r[3],T))
    if k=='un': return '%s(%s)'%(r[1],op(r[2],T))
    if k=='discr': return 'discr '+pl(r[1])
    if k=='agg': return str(r[1])+'{'+', '.join(op(x,T) for x in r[2])+'}'
    return str(r)
def fn(f,T):
    if 'indirect' in f: return 'indirect '+op(f['indirect'],T)
    s=f['path']
    if f.get('rpath'): s+=' => '+f['rpath']
    s+='<'+','.join(T[a]['s'] if isinstance(a,int) else a for a in f.get('args',[]))+'>'
    if 'body' in f: s+=' #%d'%f['body']
    if 'intrinsic' in f: s+=' INTR'
    return s
def body(b,T):
    print('=== #',b.get('key'),b.get('loc'),'argc',b['argc'],'spread',b.get('spread'))
    for i,t in enumerate(b['locals']): print('   _%d: %s'%(i,T[t]['s']))
    for i,bb in enumerate(b['bbs']):
        if bb['cl']: continue
        print(' bb%d:'%i)
        for s in bb['s']:
            if s[0]=='=': print('    ',pl(s[1]),'=',rv(s[2],T))
            elif s[0]=='dead': pass
            else: print('    ',s)
        t=bb['t']
        if t['t']=='call': print('    ',pl(t['dest']),'= CALL',fn(t['f'],T),'(',', '.join(op(a,T) for a in t['args']),') ->',t['to'])
        elif t['t']=='switch': print('     switch',op(t['op'],T),t['vals'],'else',t['else'])
        elif t['t']=='drop': print('     drop',pl(t['p']),'->',t['to'])
        else: print('    ',{k:v for k,v in t.items() if k!='sp'})
if __name__=='__main__':
    d=load(sys.argv[1]); T=d['types']
    for i,b in enumerate(d['bodies']):
        if b and (sys.argv[2] in (b.get('key') or '') or sys.argv[2]=='#%d'%i): print(i,end=' ');body(b,T)
