"""Printing of obligations to SMT-LIB (two encodings) and the solver portfolio."""
import subprocess, tempfile, os, time, threading, concurrent.futures, itertools
from . import term as tm
from .term import *

Z3NEW='z3-new'; Z3OLD='/usr/bin/z3'; CVC5='cvc5'

def seqsorts(s,acc):
    if isinstance(s,tuple):
        if s[0]=='Seq': seqsorts(s[1],acc); acc.add(s)
        elif s[0]=='Arr': seqsorts(s[1],acc); seqsorts(s[2],acc)
        elif s[0]=='DT':
            if s not in acc:
                acc.add(s)
                for f,fs in DTS[s[1]]: seqsorts(fs,acc)

def sname(s,be):
    if isinstance(s,str): return s
    if s[0]=='BV': return '(_ BitVec %d)'%s[1]
    if s[0]=='Seq':
        return '(Seq %s)'%sname(s[1],be) if be!='B' else 'Seq_'+mang(s[1])
    if s[0]=='Arr': return '(Array %s %s)'%(sname(s[1],be),sname(s[2],be))
    if s[0]=='DT': return 'D_'+s[1]
def mang(s):
    if isinstance(s,str): return s
    if s[0]=='BV': return 'BV%d'%s[1]
    if s[0]=='Seq': return 'S'+mang(s[1])
    if s[0]=='Arr': return 'A'+mang(s[1])+'_'+mang(s[2])
    return s[1]

def axiomsB(s):
    S=sname(s,'B'); E=sname(s[1],'B'); m=mang(s[1])
    t='''
(declare-fun len_M (S) Int)
(declare-fun nth_M (S Int) E)
(declare-fun app_M (S S) S)
(declare-fun unit_M (E) S)
(declare-fun empty_M () S)
(declare-fun ext_M (S Int Int) S)
(declare-fun upd_M (S Int E) S)
(declare-fun rep_M (E Int) S)
(declare-fun eq_M (S S) Bool)
(assert (forall ((s S)) (! (>= (len_M s) 0) :pattern ((len_M s)))))
(assert (= (len_M empty_M) 0))
(assert (forall ((s S)) (! (=> (= (len_M s) 0) (= s empty_M)) :pattern ((len_M s)))))
(assert (forall ((x E)) (! (and (= (len_M (unit_M x)) 1) (= (nth_M (unit_M x) 0) x)) :pattern ((unit_M x)))))
(assert (forall ((a S) (b S)) (! (= (len_M (app_M a b)) (+ (len_M a) (len_M b))) :pattern ((app_M a b)))))
(assert (forall ((a S) (b S)) (! (and (=> (= (len_M a) 0) (= (app_M a b) b)) (=> (= (len_M b) 0) (= (app_M a b) a))) :pattern ((app_M a b)))))
(assert (forall ((a S) (b S) (k Int)) (! (and (=> (< k (len_M a)) (= (nth_M (app_M a b) k) (nth_M a k))) (=> (>= k (len_M a)) (= (nth_M (app_M a b) k) (nth_M b (- k (len_M a)))))) :pattern ((nth_M (app_M a b) k)))))
(assert (forall ((a S) (b S) (k Int)) (! (=> (and (<= 0 k) (< k (len_M a))) (= (nth_M (app_M a b) k) (nth_M a k))) :pattern ((app_M a b) (nth_M a k)))))
(assert (forall ((a S) (b S) (k Int)) (! (=> (and (<= 0 k) (< k (len_M b))) (= (nth_M (app_M a b) (+ k (len_M a))) (nth_M b k))) :pattern ((app_M a b) (nth_M b k)))))
(assert (forall ((s S) (i Int) (n Int)) (! (= (len_M (ext_M s i n)) (ite (or (< i 0) (>= i (len_M s)) (<= n 0)) 0 (ite (<= n (- (len_M s) i)) n (- (len_M s) i)))) :pattern ((ext_M s i n)))))
(assert (forall ((s S) (i Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k (len_M (ext_M s i n)))) (= (nth_M (ext_M s i n) k) (nth_M s (+ i k)))) :pattern ((nth_M (ext_M s i n) k)))))
(assert (forall ((s S) (i Int) (n Int) (k Int)) (! (=> (and (<= i k) (< k (+ i (len_M (ext_M s i n))))) (= (nth_M (ext_M s i n) (- k i)) (nth_M s k))) :pattern ((ext_M s i n) (nth_M s k)))))
(assert (forall ((s S) (i Int) (n Int)) (! (=> (and (= i 0) (>= n (len_M s))) (= (ext_M s i n) s)) :pattern ((ext_M s i n)))))
(assert (forall ((a S) (b S) (i Int) (n Int)) (! (and (=> (and (>= i (len_M a))) (= (ext_M (app_M a b) i n) (ext_M b (- i (len_M a)) n))) (=> (and (<= 0 i) (<= (+ i n) (len_M a))) (= (ext_M (app_M a b) i n) (ext_M a i n)))) :pattern ((ext_M (app_M a b) i n)))))
(assert (forall ((s S) (i Int) (n Int) (j Int) (m Int)) (! (=> (and (<= 0 i) (<= 0 j) (<= (+ j m) (len_M (ext_M s i n)))) (= (ext_M (ext_M s i n) j m) (ext_M s (+ i j) m))) :pattern ((ext_M (ext_M s i n) j m)))))
(assert (forall ((s S) (i Int) (v E)) (! (and (= (len_M (upd_M s i v)) (len_M s)) (=> (and (<= 0 i) (< i (len_M s))) (= (nth_M (upd_M s i v) i) v))) :pattern ((upd_M s i v)))))
(assert (forall ((s S) (i Int) (v E) (k Int)) (! (=> (not (= i k)) (= (nth_M (upd_M s i v) k) (nth_M s k))) :pattern ((nth_M (upd_M s i v) k)))))
(assert (forall ((s S) (i Int) (v E) (k Int)) (! (=> (not (= i k)) (= (nth_M (upd_M s i v) k) (nth_M s k))) :pattern ((upd_M s i v) (nth_M s k)))))
(assert (forall ((v E) (n Int)) (! (= (len_M (rep_M v n)) (ite (<= n 0) 0 n)) :pattern ((rep_M v n)))))
(assert (forall ((v E) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n)) (= (nth_M (rep_M v n) k) v)) :pattern ((nth_M (rep_M v n) k)))))
(assert (forall ((a S) (b S)) (! (=> (eq_M a b) (= a b)) :pattern ((eq_M a b)))))
(assert (forall ((a S) (b S)) (! (=> (and (= (len_M a) (len_M b)) (forall ((k Int)) (! (=> (and (<= 0 k) (< k (len_M a))) (= (nth_M a k) (nth_M b k))) :pattern ((nth_M a k)) :pattern ((nth_M b k))))) (eq_M a b)) :pattern ((eq_M a b)))))
'''
    import re
    t=re.sub(r'_M\b','_'+m,t)
    t=re.sub(r'\(([a-z]) S\)',lambda q:'(%s %s)'%(q.group(1),S),t)
    t=re.sub(r'\(([a-z]) E\)',lambda q:'(%s %s)'%(q.group(1),E),t)
    t=t.replace('(S)','(%s)'%S).replace('(S Int)','(%s Int)'%S).replace('(S S)','(%s %s)'%(S,S)).replace('(E)','(%s)'%E).replace('(S Int Int)','(%s Int Int)'%S).replace('(S Int E)','(%s Int %s)'%(S,E)).replace('(E Int)','(%s Int)'%E)
    t=t.replace(') S)',') %s)'%S).replace(') E)',') %s)'%E)
    return t

class Printer:
    def __init__(self,be,solver):
        self.be=be; self.solver=solver; self.memo={}; self.defs=[]; self.n=0; self.decl={}; self.sorts=set(); self.tbls=set(); self.funs={}; self.hasb={}; self.quant=False
        self.used={}; self.itedef=[]
    def p(self,t):
        # iterative would be safer; recursion depth set high
        r=self.memo.get(t)
        if r is not None: return r
        seqsorts(t.sort,self.sorts)
        s=self.p1(t)
        if self.be=='B' and t.op=='ite' and t.sort!='Bool' and not self.bound(t):
            # a constant with a defining equation: patterns must not contain ite
            nm='ite%d'%t.id; self.itedef.append((nm,sname(t.sort,self.be),s)); self.memo[t]=nm; return nm
        if t.op not in('bvar','forall') and t.args and len(s)>60 and not self.bound(t) and self.used.get(t,0)>1:
            self.n+=1; nm='t%d'%self.n
            self.defs.append('(define-fun %s () %s %s)'%(nm,sname(t.sort,self.be),s)); s=nm
        self.memo[t]=s
        return s
    def bound(self,t):
        r=self.hasb.get(t)
        if r is None:
            r=t.op=='bvar' or any(self.bound(c) for c in children(t)) 
            self.hasb[t]=r
        return r
    def p1(self,t):
        o=t.op; a=t.args; P=self.p; be=self.be
        if o=='int': return str(a[0]) if a[0]>=0 else '(- %d)'%-a[0]
        if o=='bv': return '(_ bv%d %d)'%(a[0],t.sort[1])
        if o in('true','false'): return o
        if o=='var':
            n='|%s|'%a[0]; self.decl[n]=t.sort; return n
        if o=='bvar': return a[0]
        if o=='lin':
            xs=[] if a[0]==0 else [str(a[0]) if a[0]>=0 else '(- %d)'%-a[0]]
            for k,v in a[1]:
                pk=P(k); xs.append(pk if v==1 else '(* %s %s)'%(str(v) if v>=0 else '(- %d)'%-v,pk))
            return xs[0] if len(xs)==1 else '(+ %s)'%' '.join(xs)
        if o=='le': return '(<= %s %s)'%(P(a[0]),P(a[1]))
        if o=='lt': return '(< %s %s)'%(P(a[0]),P(a[1]))
        if o in('div','mod','*','not','and','or','=>','ite'):
            return '(%s %s)'%(o,' '.join(P(x) for x in a))
        if o=='=':
            s=a[0].sort
            if be=='B' and isinstance(s,tuple) and s[0]=='Seq': return '(eq_%s %s %s)'%(mang(s[1]),P(a[0]),P(a[1]))
            return '(= %s %s)'%(P(a[0]),P(a[1]))
        if o=='zext': return '((_ zero_extend %d) %s)'%(t.sort[1]-a[0].sort[1],P(a[0]))
        if o=='sext': return '((_ sign_extend %d) %s)'%(t.sort[1]-a[0].sort[1],P(a[0]))
        if o=='extract': return '((_ extract %d %d) %s)'%(a[0],a[1],P(a[2]))
        if o=='bvconcat': return '(concat %s %s)'%(P(a[0]),P(a[1]))
        if o=='bv2nat': return '(bv2nat %s)'%P(a[0])
        if o=='int2bv': return '((_ int2bv %d) %s)'%(t.sort[1],P(a[0]))
        if o.startswith('bv'): return '(%s %s)'%(o,' '.join(P(x) for x in a))
        if o=='app':
            f=FUN[a[0]]; self.funs[a[0]]=f
            for s in f.argsorts: seqsorts(s,self.sorts)
            return '(f_%s %s)'%(a[0],' '.join(P(x) for x in a[1:])) if len(a)>1 else 'f_'+a[0]
        if o=='tbl':
            self.tbls.add(a[0]); seqsorts(TABLES[a[0]][2],self.sorts)
            for v in TABLES[a[0]][0]: P(v)
            return '(tbl_%s %s)'%(a[0],P(a[1]))
        if o=='select': return '(select %s %s)'%(P(a[0]),P(a[1]))
        if o=='store': return '(store %s %s %s)'%(P(a[0]),P(a[1]),P(a[2]))
        if o=='constarr': return '((as const %s) %s)'%(sname(t.sort,be),P(a[0]))
        if o=='dcons': return '(mk_%s %s)'%(a[0],' '.join(P(x) for x in a[1:]))
        if o=='dsel': return '(%s_%s %s)'%(a[0],a[1],P(a[2]))
        if o=='forall':
            self.quant=True
            vs=' '.join('(%s %s)'%(v.args[0],sname(v.sort,be)) for v in a[0])
            for v in a[0]: seqsorts(v.sort,self.sorts)
            b=P(a[1])
            pt=''.join(' :pattern (%s)'%' '.join(P(x) for x in p) for p in a[2])
            return '(forall (%s) (! %s%s))'%(vs,b,pt) if pt else '(forall (%s) %s)'%(vs,b)
        # sequences
        S=t.sort if o not in('len','nth') else a[0].sort
        if be=='B':
            m=mang(S[1])
            if o=='empty': return 'empty_'+m
            if o=='concat':
                r=P(a[-1])
                for x in reversed(a[:-1]): r='(app_%s %s %s)'%(m,P(x),r)
                return r
            return '(%s_%s %s)'%(o,m,' '.join(P(x) for x in a))
        if o=='empty': return '(as seq.empty %s)'%sname(S,be)
        if o=='unit': return '(seq.unit %s)'%P(a[0])
        if o=='concat': return '(seq.++ %s)'%' '.join(P(x) for x in a)
        if o=='len': return '(seq.len %s)'%P(a[0])
        if o=='nth': return '(seq.nth %s %s)'%(P(a[0]),P(a[1]))
        if o=='ext': return '(seq.extract %s %s %s)'%(P(a[0]),P(a[1]),P(a[2]))
        if o=='upd':
            s,i,v=P(a[0]),P(a[1]),P(a[2])
            if self.solver=='cvc5': return '(seq.update %s %s (seq.unit %s))'%(s,i,v)
            return '(ite (and (<= 0 %s) (< %s (seq.len %s))) (seq.++ (seq.extract %s 0 %s) (seq.unit %s) (seq.extract %s (+ 1 %s) (- (seq.len %s) (+ 1 %s)))) %s)'%(i,i,s,s,i,v,s,i,s,i,s)
        if o=='rep':
            return '(rep_%s %s %s)'%(mang(S[1]),P(a[0]),P(a[1]))
        raise KeyError(o)

def count_uses(ts):
    used={}
    st=list(ts); seen=set()
    while st:
        t=st.pop()
        if t in seen: continue
        seen.add(t)
        for c in children(t):
            used[c]=used.get(c,0)+1
            st.append(c)
    return used

def ground_terms(ts):
    """all subterms without bound variables; and whether bound apps occur"""
    seen=set(); hasb={}
    order=[]
    def hb(t):
        r=hasb.get(t)
        if r is None:
            r=t.op=='bvar' or any(hb(c) for c in children(t)); hasb[t]=r
        return r
    st=list(ts)
    while st:
        t=st.pop()
        if t in seen: continue
        seen.add(t)
        if not hb(t): order.append(t)
        st.extend(children(t))
    return order

def expand(hyps,goal,fuel=2,extra=None):
    """hyps + ground instances of definitions and facts"""
    facts=[]; level={}
    todo=[(t,0) for t in ground_terms(hyps+[goal])]
    done=set(); 
    i=0
    while i<len(todo):
        t,l=todo[i]; i+=1
        if t in done: continue
        done.add(t)
        if t.op=='app':
            f=FUN[t.args[0]]
            new=[]
            if f.defn and l<fuel:
                new.append((eq(t,lift(f.defn(*t.args[1:]))),l+1))
            if f.facts and l<fuel+2:
                for x in f.facts(t,*t.args[1:]): new.append((lift(x),l+ (1 if f.defn is None else 0)))
            for x,nl in new:
                if x is TRUE: continue
                facts.append(x)
                for g in ground_terms([x]):
                    if g not in done: todo.append((g,nl))
    return facts

def to_smt(hyps,goal,be,solver,fuel=2,timeout=None,model=False,opaque=False):
    facts=expand(hyps,goal,fuel)
    allh=hyps+facts
    seen=set(); hs=[]
    for h in allh:
        if h is TRUE or h in seen: continue
        seen.add(h); hs.append(h)
    ng=Not(goal)
    # the size assumption (term._rng uses it when simplifying) as explicit facts
    for t in ground_terms(hs+[ng]):
        if t.op=='len' and tm._prog(t.args[0]): hs.append(mk('lt',(t,I(tm.MAXLEN)),Bool))
    P=Printer(be,solver)
    P.used=count_uses(hs+[ng])
    body=[]
    for h in hs+[ng]:
        s=P.p(h); body.append('(assert %s)'%s)
    # tables
    tb=[]
    for n in sorted(P.tbls):
        vals,isort,es=TABLES[n]
        if opaque and len(vals)>16:
            tb.append('(declare-fun tbl_%s (%s) %s)'%(n,sname(isort,be),sname(es,be))); continue
        def mkc(i): return '(_ bv%d %d)'%(i,isort[1]) if isort!=Int else str(i)
        # binary decision on index: ordered ite chain
        ex=P.p(vals[-1])
        for i in range(len(vals)-2,-1,-1):
            ex='(ite (= i %s) %s %s)'%(mkc(i),P.p(vals[i]),ex)
        tb.append('(define-fun tbl_%s ((i %s)) %s %s)'%(n,sname(isort,be),sname(es,be),ex))
    out=[]
    if solver=='cvc5': out.append('(set-logic ALL)')
    elif be=='B': out.append('(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)' if solver=='z3' else '(set-option :auto_config false)\n(set-option :smt.mbqi false)')
    # sorts: order datatypes and sequences by dependency
    emitted=set()
    def emit_sort(s):
        if isinstance(s,str) or s in emitted: return
        if s[0]=='BV': return
        emitted.add(s)
        if s[0]=='Seq':
            if be=='B': out.append('(declare-sort %s 0)'%sname(s,be))
            emit_sort(s[1])
        elif s[0]=='Arr': emit_sort(s[1]); emit_sort(s[2])
        elif s[0]=='DT':
            for f,fs in DTS[s[1]]: emit_sort(fs)
            out.append('(declare-datatypes ((D_%s 0)) (((mk_%s %s))))'%(s[1],s[1],' '.join('(%s_%s %s)'%(s[1],f,sname(fs,be)) for f,fs in DTS[s[1]])))
    for s in sorted(P.sorts,key=str): emit_sort(s)
    if be=='B':
        for s in sorted((s for s in emitted if s[0]=='Seq'),key=str): out.append(axiomsB(s))
    else:
        reps=[s for s in emitted if s[0]=='Seq']
        txt=' '.join(body+P.defs)
        for s in reps:
            m=mang(s[1])
            if 'rep_%s '%m in txt:
                S=sname(s,be);E=sname(s[1],be)
                out.append('(declare-fun rep_%s (%s Int) %s)\n(assert (forall ((v %s) (n Int)) (! (= (seq.len (rep_%s v n)) (ite (<= n 0) 0 n)) :pattern ((rep_%s v n)))))\n(assert (forall ((v %s) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n)) (= (seq.nth (rep_%s v n) k) v)) :pattern ((seq.nth (rep_%s v n) k)))))'%(m,E,S,E,m,m,E,m,m))
    for n,f in sorted(P.funs.items()): out.append('(declare-fun f_%s (%s) %s)'%(n,' '.join(sname(s,be) for s in f.argsorts),sname(f.ret,be)))
    for n,s in P.decl.items(): out.append('(declare-fun %s () %s)'%(n,sname(s,be)))
    # tables and shared terms, in order of creation
    for nm,so,d in P.itedef: out.append('(declare-fun %s () %s)'%(nm,so))
    out+=tb+P.defs+['(assert (= %s %s))'%(nm,d) for nm,so,d in P.itedef]+body
    out.append('(check-sat)')
    return '\n'.join(out)+'\n',P

class Result:
    def __init__(self,status,solver,time,path=None,out=''): self.status=status; self.solver=solver; self.time=time; self.path=path; self.out=out

def run_solver(cmd,text,timeout,tmp):
    fd,fn=tempfile.mkstemp(suffix='.smt2',dir=tmp); os.write(fd,text.encode()); os.close(fd)
    t=time.time()
    try:
        p=subprocess.run(cmd+[fn],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout+3,text=True)
        o=p.stdout
    except subprocess.TimeoutExpired as e:
        o='timeout'
    finally:
        try: os.unlink(fn)
        except OSError: pass
    dt=time.time()-t
    w=o.strip().split('\n')
    st='unknown'
    for x in w:
        if x in('unsat','sat','unknown','timeout'): st=x; break
    if '(error' in o and st!='unsat': st='error'
    if '(error' in o and st=='unsat': st='error'
    return st,dt,o

def cmds(which,timeout):
    which=which.replace('o-','-')
    if which in('B-z3new','A-z3new'): return [Z3NEW,'-T:%d'%timeout,'-memory:4000']
    if which in('B-z3','A-z3'): return [Z3OLD,'-T:%d'%timeout,'-memory:4000']
    if which=='A-cvc5': return [CVC5,'--tlimit=%d'%(timeout*1000),'--strings-exp','--seq-array=lazy']
    if which=='B-cvc5': return [CVC5,'--tlimit=%d'%(timeout*1000)]
def solver_of(which): return 'cvc5' if 'cvc5' in which else ('z3' if which.endswith('z3') else 'z3new')

STAGES=[['Bo-z3','B-z3'],['B-z3@arith','B-z3new@near','B-z3new@apps'],['B-z3new'],['A-cvc5','B-cvc5']]
LIMIT={'near':2,'apps':2,'arith':2}
class Obl:
    def __init__(self,name,hyps,goal,where='',kind='post',fuel=2,hint=None):
        self.name=name; self.hyps=hyps; self.goal=goal; self.where=where; self.kind=kind; self.fuel=fuel; self.hint=hint
        self.res=None
class By:
    """a step to be proved from the given facts only (each of which is proved separately unless already known)"""
    def __init__(s,goal,facts=(),fuel=0): s.goal=lift(goal); s.facts=[lift(f) for f in facts]; s.fuel=fuel
class Hint:
    """instance of a lemma, assumed as a step"""
    def __init__(s,goal): s.goal=lift(goal)
def atoms(t,_c={}):
    r=_c.get(t)
    if r is None:
        r=set()
        for x in ground_terms([t]):
            if x.op in('app','var'): r.add(x)
        r=_c[t]=frozenset(r)
    return r
def relevant(hyps,goal,how):
    """a subset of the hypotheses (fewer hypotheses can only make an obligation harder to prove)"""
    ga=atoms(goal); gp={x for x in ga if x.op=='app'}; gv={x for x in ga if x.op=='var'}
    if how=='near': return [h for h in hyps if atoms(h)<=ga]
    return [h for h in hyps if (lambda a:a<=ga or any(x in gp for x in a if x.op=='app'))(atoms(h))]
ARITH={'lin','le','lt','and','or','not','=>','=','ite','div','mod','*','true','false','int'}
def skeleton(hyps,goal):
    """the obligation with everything but integer arithmetic and propositional structure replaced by variables (valid only if the original is)"""
    memo={}; var={}
    def go(t):
        r=memo.get(t)
        if r is not None: return r
        if t.op in ARITH and t.sort in(Int,Bool) and not(t.op=='=' and t.args[0].sort not in(Int,Bool)):
            if t.op=='lin':
                r=I(t.args[0])
                for k,v in t.args[1]: r=r+go(k)*v
            elif t.args and isinstance(t.args[0],T):
                r=mk(t.op,tuple(go(a) for a in t.args),t.sort)
            else: r=t
        elif t.sort in(Int,Bool): r=var.setdefault(t,fresh('sk',t.sort))
        else: r=t
        memo[t]=r; return r
    hs=[go(h) for h in hyps]; g=go(goal)
    for t,v in list(var.items()):
        if t.op=='len': hs.append(le(0,v)); hs.append(lt(v,I(tm.MAXLEN)))
    return hs,g
def prove(o,tmp,timeouts=(2,2,6,10),stages=None,keep=None):
    g=o.goal
    if g is TRUE or any(h is FALSE for h in o.hyps): 
        o.res=Result('unsat','simplifier',0); return o
    if any(h is g for h in o.hyps):
        o.res=Result('unsat','simplifier',0); return o
    tot=0; outs=[]
    last='unknown'
    st=stages or STAGES
    if o.hint: st=[[o.hint]]+[s for s in st]
    for si,stage in enumerate(st):
        for w in stage:
            to=timeouts[min(si,len(timeouts)-1)]; hs=o.hyps; fu=o.fuel
            if '@' in w:
                w,how=w.split('@'); to=LIMIT[how]; hs=relevant(o.hyps,g,how) if how!='arith' else hs
                if how=='arith': 
                    if o.goal.op not in ARITH: continue
                    hs,gg=skeleton(expand(o.hyps,g,1)+o.hyps,g)
                    text,PP=to_smt(hs,gg,w[0],solver_of(w),0)
                    r,dt,out=run_solver(cmds(w,to),text,to,tmp); tot+=dt; outs.append('arith: %s (%.1fs)'%(r,dt))
                    if r=='unsat': o.res=Result('unsat',w,tot); return o
                    continue
                if len(o.hyps)<12 or len(hs)>=len(o.hyps)-3: continue
                if how=='near': fu=0
            try: text,PP=to_smt(hs,g,w[0],solver_of(w),fu,opaque=w[1]=='o')
            except RecursionError: outs.append('%s: recursion'%w); continue
            if w[1]=='o' and not any(len(TABLES[n][0])>16 for n in PP.tbls): continue
            r,dt,out=run_solver(cmds(w,to),text,to,tmp)
            tot+=dt
            outs.append('%s: %s (%.1fs)%s'%(w,r,dt,' '+out[:300] if r=='error' else ''))
            if r=='unsat':
                o.res=Result('unsat',w,tot); return o
            if r=='sat' and w[0]=='A' and hs is o.hyps: last='sat'
            if keep: open(keep,'w').write(text)
        if last=='sat': break
    o.res=Result(last,'none',tot,out='\n'.join(outs))
    return o
def prove_all(obls,tmp,jobs=8,timeouts=(2,2,6,10),progress=None,stop=None):
    """stop(): a failing input is already known; once an obligation has failed too, the rest is left"""
    failed=[]
    def one(o):
        if stop and failed and stop(): o.res=Result('skipped','',0,None,'not attempted: a failing input is already known'); return o
        try: prove(o,tmp,timeouts)
        except Exception as e: o.res=Result('skipped','',0,None,'the prover failed: %r'%(e,)); o.broken=True
        if o.res.status not in('unsat','skipped'): failed.append(o)
        return o
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        fs=[ex.submit(one,o) for o in obls]
        for f in concurrent.futures.as_completed(fs):
            o=f.result()
            if progress: progress(o)
    return obls
