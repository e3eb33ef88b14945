#!/bin/bash
# run one harness against /repo: h.sh C11 [budget]
cd /verif; python3 - "$@" <<'P'
import sys,os,tempfile; sys.path.insert(0,'/verif/tool'); 
from lvc.check import *
tmp=tempfile.mkdtemp(dir='/verif/build'); 
try:
    H=Harness(sys.argv[1],tmp); t=time.time()
    if H.build(): print('built %.0f'%(time.time()-t)); H.run(float(sys.argv[2]) if len(sys.argv)>2 else 6)
    print(H.err or '',H.stats)
    for f in H.fails[:12]: print(f['key'],f['detail'][:900],f['sanitizer'][-1500:])
finally: shutil.rmtree(tmp)
P
