import sys,tempfile,importlib; sys.path.insert(0,'/verif/tool'); sys.path.insert(0,'/verif/spec')
from lvc.fe import *; from lvc.ex import *; from lvc.std import *; from lvc.solve import *; from lvc import spec
mods=sys.argv[1].split(',')
for m in mods: importlib.import_module(m)
tmp=tempfile.mkdtemp()
files=repo_sources()
P=Prog().load(files,tmp); C,where,gone=spec.resolve(P); std=Std()
for k,F in where.items():
    if sys.argv[2] not in k: continue
    ex=Executor(P,C,std); ex.verify(F,C[F.key])
    for o in ex.obls:
        if sys.argv[3] not in o.name: continue
        prove(o,tmp)
        if o.res.status!='unsat':
            print(o.name,o.res.status)
            for h in o.hyps: print('  H',show(h,8))
            print('  G',show(o.goal,9))
