"""Loads the front end's dump of /repo's translation units (made afresh on every run)."""
import subprocess, json, os, concurrent.futures, glob
REPO=os.environ.get('LVC_REPO','/repo')
ROOT=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
DUMP=os.path.join(ROOT,'build','dump')
FLAGS=['-std=c++20','-fPIC','-include','cstdint','-I'+REPO]
def repo_sources():
    r=[]
    for d in('core','extra'):
        for p,ds,fs in os.walk(os.path.join(REPO,d)):
            for f in fs:
                if f.endswith('.cpp'): r.append(os.path.relpath(os.path.join(p,f),REPO))
    return sorted(r)
class FrontEndError(Exception): pass
class Func:
    def __init__(s,d,tu):
        s.d=d; s.tu=tu; s.name=d['name']; s.sig=d['sig']; s.key=s.name+s.sig; s.params=d['params']; s.ret=d['ret']; s.file=d['file']; s.line=d['line']; s.body=d['body']
        s.cls=d.get('cls'); s.static=d.get('static'); s.noexcept=d.get('noexcept'); s.inits=d.get('inits'); s.internal=d.get('internal')
class Prog:
    def __init__(s):
        s.types={}; s.funcs={}; s.byname={}; s.recs={}; s.vars={}; s.enums={}; s.failed={}
    def load(s,files,tmp,jobs=8):
        def one(f):
            out=os.path.join(tmp,f.replace('/','_')+'.json')
            p=subprocess.run([DUMP,REPO,out,os.path.join(REPO,f)]+FLAGS,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            if p.returncode!=0: return f,None,p.stdout
            d=json.load(open(out)); os.unlink(out)
            return f,d,''
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex: rs=list(ex.map(one,files))
        for f,d,err in rs:
            if d is None: s.failed[f]=err; continue
            s.types.update(d['types'])
            for t in d['types'].values():      # a path is the text it was made from
                if t.get('k')=='rec' and t.get('name') in('std::filesystem::path','std::filesystem::__cxx11::path'): t['name']='std::basic_string'; t['args']=['char']
            for r in d['records']: s.recs[r['name']]=r
            for e in d['enums']: s.enums[e['name']]={k:int(v) for k,v in e['values'].items()}
            for v in d['vars']: v['tu']=f; s.vars[(f,v['q'])]=v; s.vars.setdefault((None,v['q']),v)
            for fd in d['functions']:
                F=Func(fd,f)
                if F.internal:
                    s.funcs[(f,F.key)]=F
                s.funcs.setdefault(F.key,F)
                s.byname.setdefault(F.name,[])
                if not any(x.key==F.key for x in s.byname[F.name]): s.byname[F.name].append(F)
        return s
    def find(s,key,tu=None):
        return s.funcs.get((tu,key)) or s.funcs.get(key)
