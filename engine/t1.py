import sys
sys.path.insert(0,'/verif/engine')
import models, signal
from interp import *
_show=show
db=DB('/tmp/dump.json')
roots={}
for b in db.roots:
    x=db.bodies[b]
    roots.setdefault(x['p'],b)
class TO(Exception): pass
def _h(*a): raise TO()
signal.signal(signal.SIGALRM,_h)
def run(p, verbose=True, barriers=None, to=20):
    bid=roots[p]; b=db.bodies[bid]
    I=Interp(db,barriers)
    st=State(); args=[]
    for i in range(b['argc']):
        ty,nm=b['locals'][i+1]; nm=nm or 'arg%d'%i
        t=db.ty(ty)
        s=sym(nm, db.kind(ty), db.strip(ty))
        if s.kind=='bool': s=boolterm(s)
        if t['k']=='ref' and t['mut']:
            st.set(('A',i), s); args.append(I.mkref([(TRUE,('A',i),())]))
        else: args.append(s)
    signal.alarm(to)
    try: r=I.run_body(bid,args,st,TRUE)
    finally: signal.alarm(0)
    if verbose:
        def show(x):
            return _show(x)[:1500]
        print('==',p); print('ret',show(I.deep(st,r)))
        for i in range(b['argc']):
            if ('A',i) in st.m: print('  post',b['locals'][i+1][1],'=',show(I.deep(st,st.m[('A',i)])))
        for e in I.events: print('   ',e.kind,e.name,'if',show(e.guard)[:200],str(e.loops)[:300], [show(a)[:80] for a in e.args])
        print('   unmod',I.unmodelled)
    return I,st,r
if __name__=='__main__':
    ok=bad=0
    import traceback,collections
    errs=collections.Counter(); unm=collections.Counter()
    import time
    for p in roots:
        if len(sys.argv)>1 and sys.argv[1] not in p: continue
        try:
            t0=time.time()
            I,_,_=run(p, verbose=False); ok+=1
            dt=time.time()-t0
            if dt>1: print(p,round(dt,1))
            unm.update(I.unmodelled)
        except (Exception,TO) as e:
            bad+=1; errs[p+': '+repr(e)[:100]]+=1
            if '-v' in sys.argv: traceback.print_exc(); break
    print(ok,bad); 
    for k,v in errs.items(): print(k)
    for k,v in unm.most_common(): print(v,k)
