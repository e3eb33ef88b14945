import sys,time,tempfile,importlib; sys.path.insert(0,'/verif/tool'); sys.path.insert(0,'/verif/spec')
from lvc.fe import *; from lvc.ex import *; from lvc.std import *; from lvc.solve import *; from lvc import spec
import time
mods=sys.argv[1].split(','); pat=sys.argv[2] if len(sys.argv)>2 and sys.argv[2][0]!='-' else ''
for m in mods: importlib.import_module(m)
tmp=tempfile.mkdtemp()
files=repo_sources()
P=Prog().load(files,tmp)
if P.failed: print('FAILED',P.failed)
C,where,gone=spec.resolve(P)
print('gone',gone)
if '-l' in sys.argv:
    for k in P.funcs:
        if isinstance(k,str): print(spec.short(k))
std=Std()
from lvc import spec as sp
for k,F in where.items():
    if pat not in k or C[F.key].assumed: continue
    ex=Executor(P,C,std); t=time.time()
    try: ex.verify(F,C[F.key])
    except Unsupported as e: print(k,'UNSUPPORTED',e); continue
    except Exception as e: import traceback; print(k,'EXC',traceback.format_exc()[-900:]); continue
    t1=time.time()
    if '-n' in sys.argv: print(k,len(ex.obls)); continue
    ob=list(ex.obls)
    prove_all(ob,tmp)
    bad=[o for o in ob if o.res.status!='unsat']
    if '-s' in sys.argv:
        for o in sorted(ob,key=lambda o:-o.res.time)[:8]: print('   %.1f %s %s'%(o.res.time,o.res.solver,o.name[-70:]),len(o.hyps),sum(len(tm.show(h,40)) for h in o.hyps),len(tm.show(o.goal,40)))
    print('%s: %d obls, %d bad, vc %.1fs solve %.1fs (max %.1f)  trivial %d'%(k,len(ob),len(bad),t1-t,time.time()-t1,max([o.res.time for o in ob]+[0]),getattr(ex,'trivial',0)))
    for o in bad:
        print('   BAD',o.name[-110:],o.res.status,o.res.out.replace('\n',' | ')[:600])
        if '-v' in sys.argv:
            for h in o.hyps: print('       H',tm.show(h,8))
            print('       G',tm.show(o.goal,8))
    rs=[]
    for r in ex.reach:
        rs.append(r)
    for r in rs:
        os_=r[1] if isinstance(r,tuple) else [r]
        for o in os_:
            prove(o,tmp,(2,),[['B-z3']])
        if all(o.res.status=='unsat' for o in os_): print('   VACUOUS',os_[0].name if os_ else r)
for n,L in spec.LEMMAS.items():
    if pat not in n: continue
    for o in L.obligations():
        prove(o,tmp); print(o.name,o.res.status,o.res.solver,'%.1f'%o.res.time,o.res.out[:300] if o.res.status!='unsat' else '')
