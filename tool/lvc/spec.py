"""Registry of contracts, lemmas and properties; signatures are abbreviated
(string = std::basic_string<char,...>, vector<X> = std::vector<X,...>)."""
import re
from .ex import Contract, LoopSpec
from .term import *
from .solve import Obl, By, Hint
def short(k):
    k=k.replace('std::__cxx11::','std::')
    k=re.sub(r'std::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>','string',k)
    k=re.sub(r'std::basic_string_view<char, std::char_traits<char>\s*>','string_view',k)
    for _ in range(4):
        k=re.sub(r'std::vector<([^<>]+|[^<>]*<[^<>]*>[^<>]*), std::allocator<\1\s*>\s*>',r'vector<\1>',k)
    k=re.sub(r'\bLambda::','',k)
    k=re.sub(r'\s*,\s*',',',k)
    return k.replace('(void)','()')
REG={}      # short key -> Contract
ASSUMED={}
ABSTRACT={}; GHOSTS=[]; OWNED=[]; ATOMIC=[]; OPAQUE=set(); GGHOSTS={}; GUARDED={}
LEMMAS={}   # name -> (pid, function giving (hyps, goal, opts))
PROPS={}
USED_LEMMAS=[]
class Property:
    def __init__(s,pid,files,harness=None,level='proof'): 
        s.pid=pid; s.files=files; s.funcs=[]; s.lemmas=[]; s.harness=harness; s.notes=[]; s.assume=[]; s.bounded=[]; s.uses=[]; s.level=level
def prop(pid,**k):
    p=PROPS.get(pid)
    if p is None: p=PROPS[pid]=Property(pid,k.get('files',[]),k.get('harness'),k.get('level','proof'))
    return p
def contract(key,props=(),**k):
    """contract on the repo function with the abbreviated signature `key`; verified for the properties in `props`"""
    key=re.sub(r"\s*,\s*",",",key); c=Contract(key,**k)
    assert key not in REG,key
    REG[key]=c
    for p in ([props] if isinstance(props,str) else props): prop(p).funcs.append(key)
    return c
def abstract(key,**k):
    """assumed contract of a function without a body in /repo's verified text (a pure virtual member: the interface contract)"""
    key=re.sub(r"\s*,\s*",",",key); k['assumed']=True; ABSTRACT[key]=Contract(key,**k)
def ghost(rec,name,sort):
    """specification-only field of a class"""
    GHOSTS.append((rec,name,sort))
def owned(rec,field,to=None):
    """the raw pointer member `field` of class `rec` owns what it points to (or is null); `to` names the record behind a void pointer"""
    OWNED.append((rec,field,to))
def atomic(name,*args):
    """values of the template instance `name`<args..> are indivisible: all that is known of them is which one it is; a copy is equal to the original"""
    ATOMIC.append((name,args))
MODELREC={}; RELEASES={}
def releases(rec,*path):
    """a local object of this class has to make the (specification) flag at `path` false when it is destroyed"""
    RELEASES[rec]=path
def modelrec(rec,**fields):
    """the fields of a library record that its model uses (any other field is unsupported)"""
    MODELREC[rec]=fields
def guarded(rec,mutex,*fields):
    """every use of these fields of an object of class `rec` that other threads may know happens while its `mutex` is held"""
    for f in fields: GUARDED[(rec,f)]=(mutex,())
def guardedcall(rec,mutex,*names):
    """members of class `rec` call these library functions only while they hold `mutex`"""
    for n in names: GUARDED[('call',n)]=(rec,mutex)
def opaque(name):
    """the contents of the constant global `name` are not looked at (a table checked by running the code)"""
    OPAQUE.add(name)
def gghost(name,sort):
    """specification-only global state"""
    GGHOSTS[name]=sort
def touch(x):
    """a true, meaningless statement that mentions x (gives the solver the term to instantiate with)"""
    x=lift(x); n='touch_'+re.sub(r'[^A-Za-z0-9]','_',str(x.sort))
    if n not in FUN: Fun(n,[x.sort],Bool)
    return FUN[n](x)
class Lemma:
    """a statement over typed parameters, proved once for all values; instances may be used as hints.
    ih: list of argument tuples at which the statement may be assumed when the measure is smaller (strong induction on naturals)"""
    def __init__(s,pid,name,sorts,stmt,measure=None,ih=None,hints=None,fuel=2,cases=None,steps=None): 
        s.steps=steps
        s.pid=pid; s.name=name; s.sorts=sorts; s.stmt=stmt; s.measure=measure; s.ih=ih; s.hints=hints; s.fuel=fuel; s.cases=cases
        assert name not in LEMMAS,name
        LEMMAS[name]=s; prop(pid).lemmas.append(name)
    def __call__(s,*a):
        if s.name not in USED_LEMMAS: USED_LEMMAS.append(s.name)
        return lift(s.stmt(*[lift(x) for x in a]))
    def obligations(s):
        a=[fresh('a%d'%i,so) for i,so in enumerate(s.sorts)]
        h=[]
        if s.ih:
            m=s.measure(*a)
            for b in s.ih(*a):
                b=[lift(x) for x in b]
                h.append(Implies(And(le(0,s.measure(*b)),lt(s.measure(*b),m)),s.stmt(*b)))
        if s.hints: h+=[lift(x) for x in s.hints(*a)]
        g=lift(s.stmt(*a))
        # split a => (b and c)
        pre=[]
        while g.op=='=>': pre.append(g.args[0]); g=g.args[1]
        gs=g.args if g.op=='and' else (g,)
        cs=s.cases(*a) if s.cases else [TRUE]
        out=[]
        if s.steps:
            for k,x in enumerate(s.steps(*a)):
                if isinstance(x,By):
                    have=set(h)|set(pre)
                    for j,f in enumerate(x.facts):
                        if f not in have and f is not TRUE: out.append(Obl('lemma %s step %d fact %d'%(s.name,k+1,j+1),h+list(pre),f,kind='lemma',fuel=s.fuel))
                    out.append(Obl('lemma %s step %d'%(s.name,k+1),[f for f in x.facts if f is not TRUE],x.goal,kind='lemma',fuel=x.fuel)); pre.append(x.goal); continue
                x=lift(x)
                out.append(Obl('lemma %s step %d'%(s.name,k+1),h+list(pre),x,kind='lemma',fuel=s.fuel)); pre.append(x)
        for n,c in enumerate(cs):
            for k,x in enumerate(gs): out.append(Obl('lemma %s%s'%(s.name,'' if len(gs)*len(cs)==1 else ' [%d.%d]'%(n+1,k+1)),h+pre+[lift(c)],x,kind='lemma',fuel=s.fuel))
        if len(cs)>1: out.append(Obl('lemma %s: cases are exhaustive'%s.name,pre,Or(*cs),kind='lemma',fuel=s.fuel))
        return out
def lemma(pid,name,sorts,stmt,**k): return Lemma(pid,name,sorts,stmt,**k)
def resolve(P):
    """contract table by full key; names of contracts whose function is gone"""
    P.abstract=ABSTRACT; P.gghosts=GGHOSTS; P.opaque=OPAQUE; P.guarded=GUARDED; P.short=short
    for rec,fs in MODELREC.items(): P.recs.setdefault(rec,{'name':rec,'union':False,'bases':[],'fields':[{'name':n,'type':t} for n,t in fs.items()]})
    for rec,n,so in GHOSTS:
        r=P.recs.get(rec)
        if isinstance(so,str) and so[0]=='@':
            so=next((t for t,d in P.types.items() if d.get('k')=='rec' and d.get('name')==so[1:] and not t.startswith('own:')),None)
            if so is None: continue
        if r is not None and not any(f['name']==n for f in r['fields']): r['fields'].append({'name':n,'type':so})
    for n,a in ATOMIC:
        for t,d in list(P.types.items()):
            if d.get('k')=='rec' and d.get('name')==n and tuple(short(x) for x in d.get('args',())[:len(a)])==a: P.types[t]={'k':'float','bits':0,'atomic':True}
    P.ownedcls={rec for rec,_,_ in OWNED}|set(RELEASES); P.releases=dict(RELEASES)
    for rec,n,to in OWNED:
        for f in (P.recs.get(rec) or {'fields':[]})['fields']:
            if f['name']==n and P.types.get(f['type'],{}).get('k')=='ptr':
                t=P.types[f['type']]['to'] if to is None else next((t for t,d in P.types.items() if d.get('k')=='rec' and d.get('name')==to and not t.startswith('own:')),None)
                if t is None: continue
                P.types['own:'+t]={'k':'rec','name':'std::$own','args':[t]}; f['type']='own:'+t
    idx={}
    for k,F in P.funcs.items():
        if isinstance(k,str): idx.setdefault(short(k),[]).append(F)
    out={}; gone=[]; where={}
    for k,c in REG.items():
        fs=idx.get(k)
        if not fs: gone.append(k); continue
        full=fs[0].key
        n=Contract(full,c.requires,c.ensures,c.raises,c.modifies,c.loops,c.assumed,opts=c.opts,inline=c.inline,final=c.final,hints=c.hints,steps=c.steps)
        out[full]=n; where[k]=fs[0]
    return out,where,gone
