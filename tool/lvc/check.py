"""Decides one property on /repo's current source: proves every obligation of the
functions and lemmas it rests on, and runs the executable oracle against the real code."""
import sys, os, re, json, time, glob, importlib, tempfile, subprocess, threading, shutil, hashlib, traceback, concurrent.futures
ROOT=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0,os.path.join(ROOT,'tool')); sys.path.insert(0,os.path.join(ROOT,'spec'))
from lvc.fe import *
from lvc.ex import *
from lvc.std import *
from lvc.solve import *
from lvc import spec as sp, term as tm
SAN=['-fsanitize=address,undefined','-fno-sanitize=vptr','-fno-sanitize-recover=undefined']
CXX=['g++','-std=c++20','-O1','-g1','-fno-omit-frame-pointer','-w','-include','cstdint','-DLVC_REPO="%s"'%REPO,'-I'+REPO,'-I'+os.path.join(ROOT,'harness')]

# ------------------------------------------------------------------ executable oracle
class Harness:
    def __init__(s,pid,tmp):
        s.pid=pid; s.src=os.path.join(ROOT,'harness',pid+'.cpp'); s.tmp=tmp; s.exe=None; s.err=None; s.fails=[]; s.stats={}; s.samples=[]; s.runs=0
        s.present=os.path.exists(s.src)
    def build(s):
        head=open(s.src).read(4000)
        opt=lambda k:[w for l in re.findall(r'^// %s: *(.*)$'%k,head,re.M) for w in l.split()]
        srcs=[]
        for x in opt('SRC'):
            g=sorted(glob.glob(os.path.join(REPO,x),recursive=True)); srcs+=[y for y in g if y not in srcs]
        flags=opt('FLAGS'); san=[] if 'nosan' in opt('SAN') else SAN
        cache=os.path.join(ROOT,'build','objcache'); os.makedirs(cache,exist_ok=True)
        def one(f):
            base=CXX+san+flags
            p=subprocess.run(base+['-E',f],stdout=subprocess.PIPE,stderr=subprocess.PIPE)
            if p.returncode!=0: return None,p.stderr.decode(errors='replace')
            h=hashlib.sha256(' '.join(base).encode()+p.stdout).hexdigest(); o=os.path.join(cache,h+'.o')
            if not os.path.exists(o):
                q=subprocess.run(base+['-c',f,'-o',o+'.%d.tmp'%os.getpid()],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
                if q.returncode!=0: return None,q.stdout
                os.rename(o+'.%d.tmp'%os.getpid(),o)
            return o,''
        with concurrent.futures.ThreadPoolExecutor(6) as ex: rs=list(ex.map(one,srcs+[s.src]))
        for o,e in rs:
            if o is None: s.err='does not compile: '+e[-1500:]; return False
        s.exe=os.path.join(s.tmp,s.pid+'.exe')
        q=subprocess.run(['g++']+san+[o for o,_ in rs]+['-o',s.exe,'-pthread']+opt('LIBS'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if q.returncode!=0: s.err='does not link: '+q.stdout[-1500:]; s.exe=None; return False
        return True
    def run(s,budget,salt=0,seeds=None):
        env=dict(os.environ,LVC_BUDGET=str(budget),LVC_SALT=str(salt)); env.setdefault('VERIF_SEED','1')
        if seeds: env['LVC_SEEDS']=seeds
        w=tempfile.mkdtemp(dir=s.tmp); env['LVC_SCRATCH']=w
        try:
            p=subprocess.run([s.exe],cwd=w,env=env,stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=budget*4+120,stdin=subprocess.DEVNULL)
            out=p.stdout.decode('latin1'); rc=p.returncode; err=p.stderr.decode('latin1')
        except subprocess.TimeoutExpired as e:
            out=(e.stdout or b'').decode('latin1'); rc='timeout'; err=''
        finally: shutil.rmtree(w,ignore_errors=True)
        s.runs+=1
        if os.environ.get('LVC_SECT'): print(err)
        got=False
        for l in out.split('\n'):
            f=l.split('\t')
            if f[0]=='FAIL': s.fails.append({'key':f[1],'detail':'\t'.join(f[2:])[:3000],'sanitizer':err[:3000] if 'crash' in f[1] else ''}); got=True
            elif f[0]=='STAT' and len(f)==3: s.stats[f[1]]=s.stats.get(f[1],0)+int(f[2])
            elif f[0]=='SAMPLE' and len(s.samples)<8: s.samples.append('\t'.join(f[1:]))
        if 'DONE' not in out and not got:
            s.fails.append({'key':'abnormal-exit','detail':'exit %s without a verdict: %s'%(rc,err[-1500:]),'sanitizer':''})
        return s.fails

def known(pid):
    r={}
    fn=os.path.join(ROOT,'known_findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            m=re.match(r'known: property=(\S+) key=(\S+) (.*)',l)
            if m and m.group(1)==pid: r[m.group(2)]=m.group(3)
    return r

def model_seeds(obls,tmp):
    """byte strings in the solver's counterexamples, to be replayed by the oracle"""
    out=set()
    for o in obls[:6]:
        try:
            text,P=to_smt(o.hyps,o.goal,'A','z3new',o.fuel)
            vs=[n for n,s in P.decl.items() if s==Bytes]
            if not vs: continue
            text=text.replace('(check-sat)','(check-sat)\n'+'\n'.join('(get-value (%s))'%v for v in vs))
            st,dt,txt=run_solver([Z3NEW,'-T:8','model=true'],text,8,tmp)
            if st!='sat' and 'unknown' not in txt: continue
            for l in re.findall(r'\(\(\|.*?\|(.*?)\)\)\s*$',txt,re.M|re.S):
                for part in l.split('\n'):
                    b=[int(x,16) for x in re.findall(r'#x([0-9a-f]{2})\b',part)]
                    if b and len(b)<4000: out.add(bytes(b))
        except Exception: pass
    return out

def main(pid,tier):
    t0=time.time(); ST={}
    os.makedirs(os.path.join(ROOT,'build'),exist_ok=True); os.makedirs(os.path.join(ROOT,'evidence'),exist_ok=True)
    subprocess.run(['bash',os.path.join(ROOT,'setup.sh')],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    tmp=tempfile.mkdtemp(prefix='run-',dir=os.path.join(ROOT,'build'))
    try: return run(pid,tier,tmp,t0)
    finally: shutil.rmtree(tmp,ignore_errors=True)

def load_specs():
    for f in sorted(glob.glob(os.path.join(ROOT,'spec','*.py'))): importlib.import_module(os.path.basename(f)[:-3])

def verify_closure(pid,P,log):
    """obligations of the property's functions, of every contracted function they rely on, and of the lemmas used"""
    p=sp.PROPS[pid]; C,where,gone=sp.resolve(P); std=Std()
    full2short={F.key:k for k,F in where.items()}
    todo=list(p.funcs); done=set(); obls=[]; funcs=[]; standin=[]; assumed=set(); inl=set(); reach=[]
    sp.USED_LEMMAS.clear()
    while todo:
        k=todo.pop(0)
        if k in done: continue
        done.add(k)
        if k not in where:
            if any(sp.short(x)==k for x in sp.ABSTRACT): assumed.add(k+' (interface)'); continue
            con=sp.REG[k]
            if con.assumed: assumed.add(k)
            else: standin.append((k,'not found in the source (renamed, removed or its body moved out of reach)'))
            continue
        F=where[k]; con=C[F.key]
        if con.assumed: assumed.add(k); continue
        ex=Executor(P,C,std)
        try:
            ex.verify(F,con)
        except Unsupported as e: standin.append((k,str(e))); continue
        except RecursionError: standin.append((k,'recursion limit')); continue
        except Exception as e:
            standin.append((k,'internal: %s: %s'%(type(e).__name__,str(e)[:200]))); log.append(traceback.format_exc()); continue
        ex.obls=[o for o in ex.obls if not (lambda m:m and m.group(1)!=pid)(re.search(r'\[(C\d\d)\]',o.name))]
        for o in ex.obls: o.func=k
        obls+=ex.obls; funcs.append({'function':k,'where':'%s:%d'%(F.file.replace(REPO+'/',''),F.line),'obligations':len(ex.obls),'settled_by_simplification':getattr(ex,'trivial',0)})
        inl|={sp.short(x) for x in ex.inlined}
        reach+=ex.reach
        for fk in ex.used_contracts:
            todo.append(full2short.get(fk,sp.short(fk)))
    names=list(p.lemmas); ld=set(); lob=[]
    names+=[n for n in sp.USED_LEMMAS if n not in names]
    while names:
        n=names.pop(0)
        if n in ld: continue
        ld.add(n); sp.USED_LEMMAS.clear()
        L=sp.LEMMAS[n]
        for o in L.obligations(): o.func='lemma '+n; lob.append(o)
        names+=[m for m in sp.USED_LEMMAS if m not in ld]
    return dict(obls=obls,lobls=lob,funcs=funcs,lemmas=sorted(ld),standin=standin,assumed=assumed,inlined=inl,std=std,gone=gone,reach=reach)

def run(pid,tier,tmp,t0):
    log=[]; thorough=tier=='thorough'; seed=int(os.environ.get('VERIF_SEED','1') or 1)
    load_specs(); p=sp.PROPS[pid]
    H=Harness(pid,tmp); budget=(90 if thorough else 10)
    def hrun():
        try:
            if H.present and H.build():
                H.run(budget)
                if thorough:
                    for k in range(1,4): 
                        if not H.fails: H.run(budget,k)
        except Exception as e: H.err='harness: %r'%e
    ht=threading.Thread(target=hrun); ht.start()
    R=None; obls=[]
    try:
        P=Prog().load(repo_sources(),tmp)
        if P.failed: log.append('front end failed on: '+', '.join(P.failed))
        R=verify_closure(pid,P,log); obls=R['obls']+R['lobls']
    except Exception as e:
        log.append(traceback.format_exc()); print('NOTE: the prover could not run, only the bounded run decides: %r'%(e,))
    tv=time.time()
    if obls:
        kn0=known(pid)
        prove_all(obls,tmp,jobs=7,timeouts=(3,2,8,12),stop=lambda:any(f['key'] not in kn0 for f in H.fails))
        bk=[o for o in obls if getattr(o,'broken',0)]
        if bk: print('NOTE: the prover could not encode %d obligations, for these only the bounded run decides: %s %s'%(len(bk),bk[0].name,bk[0].res.out)); log.append(bk[0].res.out)
        bad=[o for o in obls if o.res.status not in('unsat','skipped')]
        if bad:
            # second pass, longer and less loaded
            ht.join()
            if [f for f in H.fails if f['key'] not in known(pid)]: rem=-1000
            else: rem=max(30,(700 if thorough else 330)-(time.time()-t0))
            for o in bad[:24]: o.first=o.res
            if rem>0:
             with concurrent.futures.ThreadPoolExecutor(4) as ex: list(ex.map(lambda o:prove(o,tmp,(20,5,25,25)) if time.time()-t0<rem+120 else o,bad[:24]))
    ht.join()
    bad=[o for o in obls if o.res.status not in('unsat','skipped')]
    kn=known(pid)
    if bad and H.exe and not [f for f in H.fails if f['key'] not in kn]:
        # look for an input that shows the failed obligation, starting from the solver's models
        sd=model_seeds(bad,tmp); sf=None
        if sd:
            sf=os.path.join(tmp,'seeds'); open(sf,'w').write('\n'.join(b.hex() for b in sd)+'\n')
        for k in range(10,13):
            H.run(20,k,sf)
            if [f for f in H.fails if f['key'] not in kn]: break
    # ---- verdict
    rdir=os.path.join(ROOT,'build','replay'); os.makedirs(rdir,exist_ok=True)
    fresh_=[]; kseen={}
    for f in H.fails:
        if f['key'] in kn: kseen[f['key']]=kn[f['key']]
        else: fresh_.append(f)
    for k,t in kseen.items(): print('KNOWN-FINDING: property=%s %s: %s'%(pid,k,t))
    viol=0
    if fresh_:
        viol=1; rp=os.path.join(rdir,'%s.json'%pid)
        json.dump({'property':pid,'kind':'failing input on the real code','failures':fresh_[:20],'failed_obligations':[o.name for o in bad][:20],
            'how':'VERIF_SEED=%d: build harness/%s.cpp with the sources it names from /repo (see tool/lvc/check.py) and run it; the failing case is printed.'%(seed,pid)},open(rp,'w'),indent=1)
        for f in fresh_[:8]: print('  failing input [%s]: %s'%(f['key'],f['detail'][:400]))
        for o in bad[:8]: print('  failed obligation: '+o.name)
        print('VIOLATION property=%s replay=%s'%(pid,rp))
    elif bad:
        viol=1; rp=os.path.join(rdir,'%s.json'%pid)
        json.dump({'property':pid,'kind':'failed proof obligation','obligations':[{'name':o.name,'function':getattr(o,'func',''),'status':o.res.status,'solver_output':o.res.out,'goal':show(o.goal,12)[:3000],'hypotheses':[show(h,8)[:600] for h in o.hyps][:60]} for o in bad[:20]]},open(rp,'w'),indent=1)
        for o in bad[:12]: print('  failed obligation: %s (%s)'%(o.name,o.res.status))
        print('VIOLATION property=%s replay=%s no-failing-input-found'%(pid,rp))
    # ---- evidence
    solvers={}
    for o in obls:
        if o.res.status=='unsat': solvers[o.res.solver]=solvers.get(o.res.solver,0)+1
    cross=None
    if thorough and obls and not bad:
        # every obligation again with a different solver
        n=0; ok=0
        def again(o):
            r=prove(Obl(o.name,o.hyps,o.goal,fuel=o.fuel),tmp,(6,),[['B-cvc5','B-z3new','A-cvc5'] if not o.res.solver.endswith('cvc5') else ['B-z3new','B-z3']])
            return r.res.status=='unsat' and r.res.solver!=o.res.solver
        sub=[o for o in obls if o.res.solver!='simplifier']
        tx=time.time()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            rs=list(ex.map(lambda o:again(o) if time.time()-tx<300 else None,sub))
        cross={'tried':sum(r is not None for r in rs),'confirmed_by_a_second_solver':sum(bool(r) for r in rs)}
    vac=None
    if thorough and R:
        v=[]
        for r in R['reach']:
            os_=r[1] if isinstance(r,tuple) else [r]
            for o in os_: prove(o,tmp,(2,),[['B-z3']])
            if os_ and all(o.res.status=='unsat' for o in os_): v.append(os_[0].name)
        vac={'guards_checked':len(R['reach']),'vacuous':v}
    nd=sum(o.res.status=='unsat' for o in obls)
    cov={'obligations':len(obls),'discharged':nd,
      'checker_cmd':'./check.sh %s %s'%(pid,tier),
      'trusted_base':['tool/dump.cpp (clang 18 front end: AST of /repo\'s translation units)','tool/lvc (verification-condition generator, term simplifier, axioms of sequences)','z3 4.8.12, z3 5.3.2, cvc5 1.1.2',
         'assumed models of the standard library used on this run: '+', '.join(sorted(R['std'].used)) if R else ''],
      'functions_under_contract':R['funcs'] if R else [], 'functions_inlined_into_them':sorted(R['inlined']) if R else [],
      'lemmas':R['lemmas'] if R else [], 'discharged_by':solvers,'solver_seconds':round(sum(o.res.time for o in obls),2),
      'assumed_contracts':sorted(R['assumed']) if R else [],
      'bounded_standins':[{'function':k,'reason':r} for k,r in (R['standin'] if R else [])]+[{'function':k,'reason':r} for k,r in p.bounded],
      'conformance_run':{'label':'bounded, not counted as proved','cases':H.stats.get('cases',0),'distinct':H.stats.get('distinct',0),'runs':H.runs,'samples':H.samples,'harness':'harness/%s.cpp'%pid if H.present else None,'problem':H.err},
      'failed_obligations':[o.name for o in bad][:50],'log':log[-3:]}
    if p.level!='proof': cov['explanation']=p.notes[0] if p.notes else 'see DESIGN.md'; cov['evaluations']=H.stats.get('cases',0); cov['distinct_nontrivial']=H.stats.get('distinct',0); cov['rule']='cases generated by the harness; distinct = different case text'; cov['samples']=H.samples
    if cross: cov['second_solver']=cross
    if vac: cov['vacuity']=vac
    ev={'property':pid,'tier':tier,'seed':seed,'level':p.level,'coverage':cov,
        'assumptions':['sizes of containers and strings held by the program are below 2^48','memory allocation does not fail','the library models listed in trusted_base']+list(p.assume),
        'wall_s':round(time.time()-t0,2),'violations':viol}
    json.dump(ev,open(os.path.join(ROOT,'evidence',pid+'.json'),'w'),indent=1)
    if os.environ.get('LVC_DEBUG'):
        for k,r in cov['bounded_standins'] and [(x['function'],x['reason']) for x in cov['bounded_standins']]: print('  standin',k,':',r)
        for l in log: print(l)
    print('%s %s: %d/%d obligations discharged over %d functions and %d lemmas; %d conformance cases%s; %.1f s'%(pid,tier,nd,len(obls),len(cov['functions_under_contract']),len(cov['lemmas']),H.stats.get('cases',0),' (%s)'%H.err[:200] if H.err else '',time.time()-t0))
    return 1 if viol else 0

if __name__=='__main__':
    pid=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
    try: rc=main(pid,tier)
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc=0 if False else 2
    sys.stdout.flush(); os._exit(rc)
