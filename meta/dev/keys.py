import sys,tempfile; sys.path.insert(0,'/verif/tool'); sys.path.insert(0,'/verif/spec')
from lvc.fe import *; from lvc import spec
P=Prog().load(repo_sources(),tempfile.mkdtemp())
import re
for k in sorted(spec.short(k) for k in P.funcs if isinstance(k,str)):
    if re.search(sys.argv[1] if len(sys.argv)>1 else '',k): print(k)
