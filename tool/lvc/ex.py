"""Verification-condition generator: forward symbolic execution of the real
function bodies, function by function, callee contracts at calls, invariants at
loops."""
import sys, itertools, re
from .term import *
from . import term as tm
from .solve import Obl, By, Hint
sys.setrecursionlimit(20000)
class Unsupported(Exception): pass
class Dead(Exception): pass

class Rec:
    __slots__=('ty','f')
    def __init__(s,ty,f): s.ty=ty; s.f=f
    def set(s,k,v): d=dict(s.f); d[k]=v; return Rec(s.ty,d)
    def __repr__(s): return 'Rec(%s)'%s.f
class ArrV:
    __slots__=('e',)
    def __init__(s,e): s.e=tuple(e)
    def __repr__(s): return 'ArrV%s'%(s.e,)
class Uni:
    __slots__=('ty','b')
    def __init__(s,ty,b): s.ty=ty; s.b=tuple(b)
class TblV:
    """constant table"""
    def __init__(s,name,n,es): s.name=name; s.n=n; s.es=es
class LV:
    __slots__=('root','path')
    def __init__(s,root,path=()): s.root=root; s.path=tuple(path)
    def sub(s,*st): return LV(s.root,s.path+st)
    def key(s): return (s.root,s.path)
    def __repr__(s): return 'LV(%s%s)'%(s.root,s.path)
class Ptr:
    """pointer or iterator: lv=container (None: null), off=element index, or off None: points at lv itself; nul: Bool term 'is null'"""
    __slots__=('lv','off','nul','el')
    def __init__(s,lv,off=None,nul=FALSE,el=None): s.lv=lv; s.off=off; s.nul=nul; s.el=el
    def __repr__(s): return 'Ptr(%s,%s)'%(s.lv,s.off)
NULL=Ptr(None,None,TRUE)
class MapIt:
    __slots__=('lv','key','end')
    def __init__(s,lv,key,end): s.lv=lv; s.key=key; s.end=end
class Opaque:
    _n=itertools.count(1)
    __slots__=('ty','id')
    def __init__(s,ty,id=None): s.ty=ty; s.id=id or next(Opaque._n)
    def __repr__(s): return 'Opaque(%s#%s)'%(s.ty,s.id)
class Clo:
    def __init__(s,e,frame,tu,caps): s.e=e; s.frame=frame; s.tu=tu; s.caps=caps
class FnV:
    def __init__(s,f): s.f=f
class CSet:
    def __init__(s,els): s.els=els
class Exc:
    def __init__(s,ty,val=None,where=''): s.ty=ty; s.val=val; s.where=where

ATOMS=('=','le','lt','app','select','bvult','bvule','bvslt','bvsle','dsel','nth')
_itec={}
def itec(t):
    r=_itec.get(t)
    if r is None:
        r=frozenset()
        for c in tm.children(t):
            if isinstance(c,T): r=r|itec(c)
        if t.op=='ite': r=r|frozenset(_atoms(t.args[0]))
        _itec[t]=r
    return r
def _atoms(c):
    if c.op in('and','or','not','=>'): return [y for x in c.args for y in _atoms(x)]
    return [c]
class St:
    __slots__=('env','pc','binds','types','known','locks')
    def __init__(s): s.env={}; s.pc=[]; s.binds={}; s.types={}; s.known={}; s.locks=frozenset()      # locks: (mutex, who holds it)
    def clone(s):
        n=St.__new__(St); n.env=dict(s.env); n.pc=list(s.pc); n.binds=dict(s.binds); n.types=dict(s.types); n.known=dict(s.known); n.locks=s.locks; return n
    def assume(s,t,kind='f'):
        t=lift(t)
        if t is TRUE: return s
        if t is FALSE: raise Dead()
        xs=t.args if t.op=='and' and kind=='f' else (t,)
        for x in xs: s.pc.append((kind,x))
        s.learn(t.args if t.op=='and' else (t,))
        s.propagate(t.args if t.op=='and' else (t,))
        return s
    def learn(s,xs):
        for x in xs:
            v=TRUE
            if x.op=='not': x=x.args[0]; v=FALSE
            if x.op in ATOMS: s.known[x]=v
            if x.op=='=' and x.args[0].sort==Int:
                for a,b in((x.args[0],x.args[1]),(x.args[1],x.args[0])):
                    if a is I(0) and b.op=='len':
                        for y,n in((lt(0,b),0),(le(1,b),0),(le(b,0),1),(lt(b,1),1)):
                            if y.op in ATOMS: s.known[y]=v if n else Not(v)
                    elif b.op=='len' and isint(a) and v is TRUE and a.args[0]>0: s.known[eq(b,I(0))]=FALSE
            elif x.op in('lt','le'):
                a,b=x.args; z=None
                if b.op=='len' and (a is I(0) and x.op=='lt' or a is I(1) and x.op=='le'): z=b; w=Not(v)
                elif b.op=='len' and isint(a) and a.args[0]>0 and v is TRUE: z=b; w=FALSE
                elif a.op=='len' and (b is I(0) and x.op=='le' or b is I(1) and x.op=='lt'): z=a; w=v
                if z is not None:
                    s.known[eq(z,I(0))]=w
                    for y in(lt(0,z),le(1,z)):
                        if y.op in ATOMS: s.known[y]=Not(w)
    def simp(s,v):
        """a value read in this state: conditionals decided by what is assumed are resolved"""
        if not s.known or not isinstance(v,T): return v
        for _ in range(3):
            cs=[c for c in itec(v) if c in s.known]
            if not cs: break
            v=tm.subst(v,{c:s.known[c] for c in cs})
        return v
    def propagate(s,xs):
        """unit propagation through the disjunctions and implications already assumed (facts only)"""
        todo=list(xs)
        have=None
        while todo:
            x=todo.pop()
            if have is None: have=set(y for _,y in s.pc)
            new=[]
            if x.op in('or','=>'): cand=[x]
            else:
                nx=Not(x)
                cand=[y for _,y in s.pc if (y.op=='or' and any(z is nx for z in y.args)) or (y.op=='=>' and (y.args[0] is x or y.args[1] is nx))]
            for y in cand:
                if y.op=='or':
                    rest=[z for z in y.args if Not(z) not in have]
                    if len(rest)==len(y.args): continue
                    r=Or(*rest)
                else:
                    if y.args[0] in have: r=y.args[1]
                    elif Not(y.args[1]) in have: r=Not(y.args[0])
                    else: continue
                if r is FALSE: raise Dead()
                for z in (r.args if r.op=='and' else (r,)):
                    if z not in have and z is not TRUE: new.append(z)
            s.learn(new)
            for z in new: s.pc.append(('f',z)); have.add(z); todo.append(z)
    def hyps(s): return [t for k,t in s.pc]
class Exit:
    __slots__=('kind','st','val')
    def __init__(s,kind,st,val=None): s.kind=kind; s.st=st; s.val=val

EXC_BASE={'std::runtime_error':'std::exception','std::logic_error':'std::exception','std::invalid_argument':'std::logic_error','std::out_of_range':'std::logic_error','std::length_error':'std::logic_error',
 'std::range_error':'std::runtime_error','std::filesystem::filesystem_error':'std::system_error','std::filesystem::__cxx11::filesystem_error':'std::system_error','std::system_error':'std::runtime_error','std::bad_optional_access':'std::exception','std::bad_alloc':'std::exception','std::bad_function_call':'std::exception','std::future_error':'std::logic_error'}

def zsort(so):
    if so==Bool: return FALSE
    if so==Int: return I(0)
    if so[0]=='BV': return bv(0,so[1])
    if so[0]=='Seq': return empty(so[1])
    if so[0]=='Arr': return constarr(so[1],FALSE) if so[2]==Bool else var('novalues_'+mangle(str(so)),so)
    if so[0]=='DT': return dcons(so[1],[zsort(x) for _,x in DTS[so[1]]])
    raise Unsupported('zero of sort '+str(so))
def shape_dt(c,out):
    return declare_dt(c+'_'+'_'.join(mangle(str(so)) for n,so in out),out)
def PairS(a,b): return shape_dt('pair',[('first',a),('second',b)])
def OptS(a): return shape_dt('optional',[('has',Bool),('val',a)])
def MapS(k,v): return shape_dt('map',[('dom',Arr(k,Bool)),('val',Arr(k,v)),('n',Int)])
def mangle(t): return re.sub(r'[^A-Za-z0-9]','_',t)

LOCKCLS=re.compile(r'std::(lock_guard|unique_lock|scoped_lock|shared_lock)\b')
class LoopSpec:
    def __init__(s,inv,dec=None,unroll=None,hints=None,steps=None): s.steps=steps; s.inv=inv; s.dec=dec; s.unroll=unroll; s.hints=hints
class Contract:
    """requires/ensures/raises are functions of a Ctx and give [(name,term)] or [term]"""
    def __init__(s,key,requires=None,ensures=None,raises=None,modifies=(),loops=(),assumed=False,pure=False,opts=None,reads=None,inline=False,frame=None,final=None,hints=None,steps=None):
        s.hints=hints; s.steps=steps
        s.key=key; s.requires=requires; s.ensures=ensures; s.raises=raises; s.modifies=tuple(modifies); s.loops=list(loops); s.assumed=assumed; s.opts=opts or {}; s.inline=inline; s.final=final

class Ctx:
    """what a contract may talk about"""
    def __init__(s,ex,F,pre_st,post_st,frame,ret=None,args=None,exc=None,locals_=None):
        s.ex=ex; s.F=F; s.pre=pre_st; s.post_=post_st; s.frame=frame; s.ret=ret; s.args=args; s.exc=exc; s._args=args
    def seqarg(s,v,i):
        if isinstance(v,ArrV) and isinstance(i,int) and s.F is not None and i<len(s.F.params) and s.ex.cls(s.F.params[i]['t']) in s.ex.SEQ and v.e: return s.ex.to_term(v)
        return v
    def arg(s,i): return s.seqarg(s.ex.spec_read(s.pre,s.args[i]),i)
    def post(s,i): return s.ex.spec_read(s.post_,s.args[i])
    @property
    def this(s): return s.ex.spec_read(s.pre,s.args['this'])
    @property
    def this_post(s): return s.ex.spec_read(s.post_,s.args['this'])
    def field(s,v,*names):
        for n in names:
            if isinstance(v,Ptr) and v.lv is not None: v=s.ex.spec_read(s.post_,v.lv)     # reference member bound by this function
            v=s.ex.field(v,n)
        return v
    def snap(s,n,x=None):
        """*this (or the local variable x) as it was when the local variable n was declared"""
        return s.post_.env.get('snap:'+n+(':'+x if x else ''))
    def local(s,n):
        """final value of a local variable; None where it is not declared yet"""
        names=s.ex.frames[s.frame]['names']; m=s.ex.rolemap.get(n,n)
        for k,nm in reversed(list(names.items())):
            if nm==m and (s.frame,k) in s.post_.binds:
                try: return s.ex.spec_read(s.post_,s.post_.binds[(s.frame,k)])
                except (Unsupported,KeyError): return None
        return None
    def g(s,n): return s.ex.gread(s.pre,n)
    def g_post(s,n): return s.ex.gread(s.post_,n)
    def term(s,v,ty): return s.ex.to_term(v)

class LoopEnv:
    """accessor to program variables for loop invariants"""
    def __init__(s,ex,st,frame,entry,loopinfo,mapping=None):
        d=s.__dict__; d['ex']=ex; d['st']=st; d['frame']=frame; d['entry']=entry; d['li']=loopinfo; d['prev']=None
    def __getattr__(s,n): return s.get(n)
    def get(s,n,st=None):
        ex=s.__dict__['ex']; st=st or s.__dict__['st']
        lv=ex.lookup_name(st,s.__dict__['frame'],n)
        return ex.spec_read(st,lv)
    def old(s,n): return s.get(n,s.__dict__['ex'].entry_state(s.__dict__['frame']))
    def at_entry(s,n): return s.get(n,s.__dict__['entry'])
    def arg(s,i):
        ex=s.__dict__['ex']; fr=s.__dict__['frame']; return ex.spec_read(s.__dict__['st'],ex.frames[fr]['args'][i])
    def old_arg(s,i):
        ex=s.__dict__['ex']; fr=s.__dict__['frame']; return ex.spec_read(ex.entry_state(fr),ex.frames[fr]['args'][i])
    @property
    def this(s): 
        ex=s.__dict__['ex']; fr=s.__dict__['frame']; return ex.spec_read(s.__dict__['st'],ex.frames[fr]['args']['this'])
    @property
    def old_this(s): 
        ex=s.__dict__['ex']; fr=s.__dict__['frame']; return ex.spec_read(ex.entry_state(fr),ex.frames[fr]['args']['this'])
    @property
    def entry_this(s):
        ex=s.__dict__['ex']; fr=s.__dict__['frame']; return ex.spec_read(s.__dict__['entry'],ex.frames[fr]['args']['this'])
    @property
    def idx(s):
        li=s.__dict__['li']; ex=s.__dict__['ex']
        return ex.spec_read(s.__dict__['st'],LV(li['idx'])) if li.get('idx') else None
    @property
    def range(s):
        li=s.__dict__['li']; ex=s.__dict__['ex']
        return ex.spec_read(s.__dict__['st'],li['range'])
    def g(s,n): return s.__dict__['ex'].gread(s.__dict__['st'],n)
    def old_g(s,n):
        ex=s.__dict__['ex']; return ex.gread(ex.entry_state(s.__dict__['frame']),n)
    def f(s,v,*names):
        for n in names: v=s.__dict__['ex'].field(v,n)
        return v

FSTREAM=('basic_fstream','basic_ifstream','basic_ofstream')
class Executor:
    def __init__(s,prog,contracts,std,opts=None):
        s.P=prog; s.C=contracts; s.std=std; s.opts=opts or {}
        s.obls=[]; s.lockmtx={}; s.quiet=0; s.frames={}; s.nframe=itertools.count(1); s.pend=[]; s.depth=0; s.notes=set(); s.used_contracts=set(); s.inlined=set(); s.assumed_used=set()
        s.rolemap={}; s.bv64=False; s.reach=[]; s._gcache={}; s.ntmp=itertools.count(1); s.cur=None; s.missing=[]; s.loopnames={}
        s.maxpaths=(opts or {}).get('maxpaths',12)
    # ---------------------------------------------------------------- types
    def ty(s,t):
        d=s.P.types.get(t)
        if d is None: raise Unsupported('type '+t)
        return d
    def nonref(s,t):
        d=s.ty(t)
        return d['to'] if d['k']=='ref' else t
    def cls(s,t):
        d=s.ty(t)
        if d['k']=='ref': return s.cls(d['to'])
        if d['k']!='rec': return None
        n=d['name']
        if n.startswith('std::') or n.startswith('__gnu_cxx'): return n.split('::')[-1]
        return n
    def isstd(s,t):
        d=s.ty(t)
        return d['k']=='rec' and (d['name'].startswith('std::') or d['name'].startswith('__gnu_cxx'))
    SEQ=('basic_string','vector','basic_string_view','initializer_list','array','deque','queue')
    def elem(s,t):
        d=s.ty(t)
        if d['k']=='ref': return s.elem(d['to'])
        if d['k']=='array': return d['of']
        if d['k']=='ptr': return d['to']
        if d.get('args'): return d['args'][0]
        raise Unsupported('elem of '+t)
    def intty(s,t):
        d=s.ty(t)
        if d['k']=='ref': d=s.ty(d['to'])
        if d['k']=='bool': return (1,False)
        if d['k'] in('int','enum'): return (d['bits'],d['signed'])
        return None
    def sort(s,t):
        d=s.ty(t); k=d['k']
        if k=='ref': return s.sort(d['to'])
        if k=='bool': return Bool
        if k in('int','enum'):
            if d['bits']==64 and not s.bv64: return Int
            return BV(d['bits'])
        if k=='array': 
            e=s.sort(d['of']); return Seq(e) if e else None
        if k=='float': return Int
        if k=='rec':
            c=s.cls(t)
            if s.isstd(t) and c in s.SEQ:
                e=s.sort(d['args'][0]); return Seq(e) if e else None
            fs=s.fields(t)
            if fs is None: return None
            out=[]
            for n,ft in fs:
                so=s.fsort(t,n,ft)
                if so is None: return None
                out.append((n,so))
            if s.isstd(t) and c in('pair','optional','map','unordered_map'):
                return shape_dt({'unordered_map':'map'}.get(c,c),out)
            return declare_dt(mangle(d['name']+('<'+','.join(map(str,d.get('args',[])))+'>' if d.get('args') else '')),out)
        return None
    def fsort(s,t,n,ft):
        if isinstance(ft,tuple): return ft
        if ft=='#bool': return Bool
        if ft=='#int': return Int
        return s.sort(ft)
    def fields(s,t):
        """[(name,type)] of record; type may be an explicit sort"""
        d=s.ty(t)
        c=s.cls(t)
        if s.isstd(t):
            a=d.get('args',[])
            if c=='optional': return [('has','#bool'),('val',a[0])]
            if c=='$own': return [('has','#bool'),('live','#bool'),('val',a[0])]
            if c=='pair': return [('first',a[0]),('second',a[1])]
            if c=='atomic': return [('v',a[0])]
            if c in FSTREAM: return [('file',Bytes),('open','#bool'),('data',Bytes),('pos','#int'),('eof','#bool'),('fail','#bool'),('cnt','#int'),('out',Bytes)]
            if c=='istreambuf_iterator': return [('rest',Bytes)]
            if c in('map','unordered_map'):
                k=s.sort(a[0]); v=s.sort(a[1])
                if k is None or v is None: return None
                return [('dom',Arr(k,Bool)),('val',Arr(k,v)),('n','#int')]
            if c=='set':
                k=s.sort(a[0])
                return [('dom',Arr(k,Bool))] if k else None
            if c=='time_point' : return [('t','#int')]
            if c=='duration': return [('d','#int')]
            return None
        r=s.P.recs.get(d['name'])
        if r is None or r['union']: return None
        out=[]
        for b in r['bases']:
            bf=s.fields(b)
            if bf: out+=bf
        return out+[(f['name'],f['type']) for f in r['fields']]
    def ftype(s,t,n):
        for a,b in s.fields(t) or []:
            if a==n: return b
        raise Unsupported('field %s of %s'%(n,t))
    # ---------------------------------------------------------------- values
    def field(s,v,n):
        if isinstance(v,Rec):
            if n not in v.f: raise Unsupported('field '+n)
            return v.f[n]
        if isinstance(v,T): return dsel(v,n)
        if isinstance(v,Uni): return s.uread(v,[('f',n)])
        raise Unsupported('field %s of %r'%(n,v))
    def to_term(s,v,ty=None):
        if isinstance(v,T): return v
        if isinstance(v,Rec):
            so=s.sort(v.ty)
            if so is None: raise Unsupported('record as term '+v.ty)
            return dcons(so[1],[s.to_term(v.f[n]) for n,_ in DTS[so[1]]])
        if isinstance(v,ArrV): return slist([s.to_term(x) for x in v.e])
        if isinstance(v,TblV) and v.es==BV8: return slist(list(TABLES[v.name][0]),BV8)
        if type(v).__name__=='CMap': return s.to_term(s.std.to_generic_map(s,v))
        if isinstance(v,Ptr) and v.lv is None: raise Unsupported('null as term')
        raise Unsupported('as term: %r'%(v,))
    def explode(s,v,ty):
        if isinstance(v,T) and isinstance(v.sort,tuple) and v.sort[0]=='DT':
            return Rec(ty,{n:dsel(v,n) for n,_ in DTS[v.sort[1]]})
        return v
    def spec_read(s,st,lv):
        if isinstance(lv,LV): lv=s.read(st,lv)
        return lv
    def fresh(s,t,name,st,depth=0):
        """arbitrary value of type t; its type facts are assumed in st"""
        if isinstance(t,tuple): return fresh(name,t)
        if t=='#bool': return fresh(name,Bool)
        if t=='#int': v=fresh(name,Int); st.assume(le(0,v)); return v
        d=s.ty(t); k=d['k']
        if k=='ref': return s.fresh(d['to'],name,st,depth)
        if k in('bool','int','enum'):
            v=fresh(name,s.sort(t)); s.tyfacts(st,v,t); return v
        if k=='array':
            n=d['n']
            if 0<=n<=16: return ArrV([s.fresh(d['of'],'%s_%d'%(name,i),st,depth+1) for i in range(n)])
            es=s.sort(d['of'])
            if es is None: raise Unsupported('fresh array '+t)
            v=fresh(name,Seq(es)); st.assume(eq(slen(v),n)); return v
        if k=='rec':
            c=s.cls(t)
            if s.isstd(t) and c in s.SEQ:
                so=s.sort(t)
                if so is None: return Opaque(t)
                v=fresh(name,so); s.tyfacts(st,v,t); return v
            r=s.P.recs.get(d['name'])
            if r is not None and r['union']:
                return Uni(t,[fresh('%s_b%d'%(name,i),BV8) for i in range(s.usize(t))])
            fs=s.fields(t)
            if fs is None or depth>6: return Opaque(t)
            return Rec(t,{n:s.fresh(ft,name+'.'+n,st,depth+1) for n,ft in fs})
        if k=='float': return fresh(name,Int)
        if k=='ptr':
            return Opaque(t)
        if k=='void': return None
        return Opaque(t)
    def tyfacts(s,st,v,t):
        d=s.ty(t)
        if v.sort==Int and d['k'] in('int','enum') and not isconst(v):
            if d['signed']: st.assume(And(le(-(1<<63),v),lt(v,1<<63)))
            else: st.assume(And(le(0,v),lt(v,1<<64)))
        elif isinstance(v.sort,tuple) and v.sort[0]=='Seq':
            if d['k']=='rec' and s.cls(t)=='array': st.assume(eq(slen(v),d['args'][1]))
            else: st.assume(lt(slen(v),tm_MAX))
    def zero(s,t):
        if isinstance(t,tuple):
            return zsort(t)   # values at absent keys are not observable
        if t=='#bool': return FALSE
        if t=='#int': return I(0)
        d=s.ty(t); k=d['k']
        if k=='bool': return FALSE
        if k in('int','enum'): return I(0) if s.sort(t)==Int else bv(0,d['bits'])
        if k=='array':
            if d['n']<=16: return ArrV([s.zero(d['of']) for _ in range(d['n'])])
            return rep(s.zero(d['of']),I(d['n']))
        if k=='ptr': return NULL
        if k=='rec':
            c=s.cls(t)
            if s.isstd(t) and c in s.SEQ:
                if c=='array': return rep(s.zero(d['args'][0]),I(d['args'][1]))
                so=s.sort(t); return empty(so[1]) if so else Opaque(t)
            r=s.P.recs.get(d['name'])
            if r is not None and r['union']: return Uni(t,[bv(0,8)]*s.usize(t))
            fs=s.fields(t)
            if fs is None: return Opaque(t)
            return Rec(t,{n:s.zero(ft) for n,ft in fs})
        return Opaque(t)
    def default(s,st,t):
        """default-initialised value (indeterminate scalars are arbitrary)"""
        if isinstance(t,tuple): return zsort(t)
        if t=='#bool': return FALSE
        if t=='#int': return I(0)
        d=s.ty(t); k=d['k']
        if k in('bool','int','enum','float'): return s.fresh(t,'uninit',st)
        if k=='array': 
            if d['n']<=16: return ArrV([s.default(st,d['of']) for _ in range(d['n'])])
            return s.fresh(t,'uninit',st)
        if k=='rec':
            c=s.cls(t)
            if s.isstd(t):
                if c=='array': return s.fresh(t,'uninit',st)
                if c in s.SEQ: return s.zero(t)
                if c in('map','unordered_map','set'):
                    z=s.zero(t); return z
                fs=s.fields(t)
                if c=='optional': return Rec(t,{'has':FALSE,'val':s.fresh(fs[1][1],'noval',st)})
                if fs is None: return Opaque(t)
                return Rec(t,{n:(s.default(st,ft) if isinstance(ft,str) and ft[0]!='#' else s.zero(ft)) for n,ft in fs})
            r=s.P.recs.get(d['name'])
            if r is None: return Opaque(t)
            if r['union']: return s.fresh(t,'uninit',st)
            out={}
            for b in r['bases']:
                bv_=s.default(st,b)
                if isinstance(bv_,Rec): out.update(bv_.f)
            for f in r['fields']:
                if f['type'][:4]=='own:': out[f['name']]=Rec(f['type'],{'has':FALSE,'live':FALSE,'val':s.fresh(f['type'][4:],'noval',st)})
                elif 'init' in f: out[f['name']]=s.conv_init(st,f['init'],f['type'])
                else: out[f['name']]=s.default(st,f['type'])
            return Rec(t,out)
        return s.zero(t)
    # unions flattened to bytes
    def leaves(s,t):
        d=s.ty(t)
        if d['k'] in('int','bool','enum'): return d.get('bits',8)//8 or 1
        if d['k']=='array': return d['n']*s.leaves(d['of'])
        if d['k']=='rec':
            r=s.P.recs.get(d['name'])
            if r is None: raise Unsupported('union member '+t)
            ls=[s.leaves(f['type']) for f in r['fields']]
            return max(ls) if r['union'] else sum(ls)
        raise Unsupported('union member '+t)
    def usize(s,t): return s.leaves(t)
    def uoff(s,t,path):
        """(offset,type) of the member at path"""
        off=0
        for st in path:
            d=s.ty(t)
            if st[0]=='f':
                r=s.P.recs[d['name']]
                for f in r['fields']:
                    if f['name']==st[1]: t=f['type']; break
                    if not r['union']: off+=s.leaves(f['type'])
                else: raise Unsupported('union field '+st[1])
            elif st[0]=='i':
                if not isconst(st[1]): raise Unsupported('symbolic index in union')
                off+=st[1].args[0]*s.leaves(d['of']); t=d['of']
        return off,t
    def ubuild(s,bs,t):
        d=s.ty(t)
        if d['k'] in('int','enum'):
            r=bs[0]
            for b in bs[1:]: r=bvconcat(b,r)      # little-endian object representation
            return r if not (d['bits']==64 and s.sort(t)==Int) else bv2nat(r)
        if d['k']=='array':
            n=s.leaves(d['of']); return ArrV([s.ubuild(bs[i*n:(i+1)*n],d['of']) for i in range(d['n'])])
        if d['k']=='rec':
            r=s.P.recs[d['name']]
            if r['union']: return Uni(t,bs)
            o=0; f={}
            for x in r['fields']: n=s.leaves(x['type']); f[x['name']]=s.ubuild(bs[o:o+n],x['type']); o+=n
            return Rec(t,f)
        raise Unsupported('union')
    def uflat(s,v):
        if isinstance(v,T):
            if v.sort==Bool or v.sort==Int: raise Unsupported('union flat')
            return [extract(v,i+7,i) for i in range(0,v.sort[1],8)]
        if isinstance(v,ArrV): return [b for x in v.e for b in s.uflat(x)]
        if isinstance(v,Uni): return list(v.b)
        if isinstance(v,Rec): return [b for x in v.f.values() for b in s.uflat(x)]
        raise Unsupported('union flat')
    def uread(s,u,path):
        o,t=s.uoff(u.ty,path); n=s.leaves(t)
        return s.ubuild(u.b[o:o+n],t)
    # ---------------------------------------------------------------- memory
    def rdpath(s,v,path):
        i=0
        while i<len(path):
            st=path[i]
            if isinstance(v,Uni): return s.uread(v,path[i:])
            if st[0]=='f': v=s.field(v,st[1])
            elif st[0]=='i':
                k=st[1]
                if isinstance(v,ArrV): v=s.arrget(v,k)
                elif isinstance(v,TblV): v=s.tblget(v,k)
                elif isinstance(v,T): v=nth(v,s.toint(k))
                else: raise Unsupported('index of %r'%(v,))
            elif st[0]=='m':
                if type(v).__name__=='CMap':
                    r=v.items[-1][1]
                    for k,x in reversed(v.items[:-1]): r=s.vite(eq(st[1],k),x,r)
                    v=r
                else: v=select(s.field(v,'val'),st[1])
            elif st[0]=='term': v=st[1]
            else: raise Unsupported('path '+str(st))
            i+=1
        return v
    def toint(s,k):
        if isinstance(k.sort,tuple): return bv2nat(k)
        return k
    def arrget(s,v,k):
        if isconst(k):
            i=k.args[0]
            if 0<=i<len(v.e): return v.e[i]
            return v.e[0]
        r=v.e[-1]
        for i in range(len(v.e)-2,-1,-1):
            c=eq(k,I(i)) if k.sort==Int else eq(k,bv(i,k.sort[1]))
            r=s.vite(c,v.e[i],r)
        return r
    def tblget(s,v,k):
        if k.op=='bv2nat': k=zext(k.args[0],32) if k.args[0].sort[1]<=32 else k
        if k.sort==Int:
            n=v.name+'_i'
            if n not in TABLES: TABLES[n]=(TABLES[v.name][0],Int,v.es)
            return tbl(n,k)
        n=v.name+'_%d'%k.sort[1]
        if n not in TABLES: TABLES[n]=(TABLES[v.name][0],k.sort,v.es)
        return tbl(n,k)
    def wrpath(s,v,path,val):
        if not path: return val
        st=path[0]
        if isinstance(v,Uni):
            o,t=s.uoff(v.ty,path); b=list(v.b); fl=s.uflat(val)
            if len(fl)!=s.leaves(t): raise Unsupported('union write')
            b[o:o+len(fl)]=fl; return Uni(v.ty,b)
        if st[0]=='f':
            if isinstance(v,T): 
                dt=v.sort[1]
                i=[n for n,_ in DTS[dt]].index(st[1])
                vals=[dsel(v,n) for n,_ in DTS[dt]]; vals[i]=s.to_term(s.wrpath(vals[i],path[1:],val))
                return dcons(dt,vals)
            if not isinstance(v,Rec): raise Unsupported('write field of %r'%(v,))
            return v.set(st[1],s.wrpath(v.f.get(st[1]) if len(path)>1 else None,path[1:],val))
        if st[0]=='i':
            k=st[1]
            if isinstance(v,ArrV):
                if isconst(k):
                    e=list(v.e); e[k.args[0]]=s.wrpath(e[k.args[0]],path[1:],val); return ArrV(e)
                e=[s.vite(eq(k,I(i)) if k.sort==Int else eq(k,bv(i,k.sort[1])),s.wrpath(x,path[1:],val),x) for i,x in enumerate(v.e)]
                return ArrV(e)
            if isinstance(v,T):
                k=s.toint(k)
                return upd(v,k,s.to_term(s.wrpath(nth(v,k),path[1:],val) if len(path)>1 else val))
            raise Unsupported('write index of %r'%(v,))
        if st[0]=='m':
            k=st[1]; cur=s.field(v,'val')
            nv=s.to_term(s.wrpath(select(cur,k),path[1:],val))
            if isinstance(v,Rec): return v.set('val',store(cur,k,nv))
            return s.wrpath(v,(('f','val'),),store(cur,k,nv))
        raise Unsupported('write path')
    def read(s,st,lv):
        if lv.root.startswith('g:'):
            v=st.env.get(lv.root)
            if v is None: v=s.gvalue(lv.root,st)
        else:
            v=st.env.get(lv.root)
            if v is None: raise Unsupported('read of unknown '+lv.root)
        r=st.simp(s.rdpath(v,lv.path))
        if isinstance(r,Rec) and r.ty.startswith('own:'): return Ptr(lv.sub(('f','val')),None,Not(r.f['has']),r.ty[4:])
        return r
    def own(s,st,lv):
        v=st.env.get(lv.root)
        if v is None: return None
        try: r=s.rdpath(v,lv.path)
        except (Unsupported,AttributeError,KeyError): return None
        return r if isinstance(r,Rec) and r.ty.startswith('own:') else None
    def write(s,st,lv,val):
        if lv.root.startswith('lit:') : raise Unsupported('write to constant')
        v=st.env.get(lv.root)
        if v is None and lv.root.startswith('g:'): v=s.gvalue(lv.root,st)
        if isinstance(val,Rec) and val.ty.startswith('own:'): pass
        elif isinstance(val,(Ptr,Opaque)):
            o=s.own(st,lv)
            src=None
            if o is not None and isinstance(val,Ptr) and val.lv is not None and val.off is None and val.lv.path[-1:]==(('f','val'),):
                at=LV(val.lv.root,val.lv.path[:-1]); src=s.own(st,at)
            if src is not None:      # handed over by another owner: until that is changed it holds on to something it may neither use nor release
                s.check(st,Not(o.f['live']),'what an owning pointer points to is released before the pointer is replaced')
                st.env[at.root]=s.wrpath(st.env[at.root],at.path,Rec(src.ty,{**src.f,'live':FALSE}))
                v=st.env.get(lv.root); val=src
            elif o is not None:
                if isinstance(val,Opaque) or (val.lv is not None and (val.nul is not FALSE or not val.lv.root.split(':',1)[-1]=='heap')): raise Unsupported('owning pointer set to something not just allocated')
                s.check(st,Not(o.f['live']),'what an owning pointer points to is released before the pointer is replaced')
                val=Rec(o.ty,{'has':FALSE,'live':FALSE,'val':o.f['val']}) if val.lv is None else Rec(o.ty,{'has':TRUE,'live':TRUE,'val':s.read(st,val.lv)})
        st.env[lv.root]=s.wrpath(v,lv.path,val)
    def nameb(s,st,b,n):
        """a name for a truth value, to keep terms small"""
        if b is TRUE or b is FALSE or b.op=='var': return b
        x=fresh(n,Bool); st.assume(Iff(x,b)); return x
    def temp(s,st,val,ty,name='tmp'):
        r='t%d:%s'%(next(s.ntmp),name); st.env[r]=val; st.types[r]=ty; return LV(r)
    # ---------------------------------------------------------------- globals
    def gvalue(s,root,st):
        if root in s._gcache: return s._gcache[root]
        _,tu,q=root.split(':',2)
        v=s.P.vars.get((tu,q)) or s.P.vars.get((None,q))
        if v is not None and 'init' not in v: v=next((x for (t,n),x in s.P.vars.items() if n==q and 'init' in x),None)      # only declared here
        if v is None or 'init' not in v: raise Unsupported('global '+q)
        d=s.ty(v['type'])
        if not (d.get('const') or (d['k']=='array' and s.ty(d['of']).get('const')) or s.const_global(v)): raise Unsupported('mutable global '+q)
        if q.split('::')[-1] in getattr(s.P,'opaque',()):       # a constant of which the proofs need not know the value
            t=s.uncv(v['type']); so=s.sort(t); nm='const_'+mangle(q)
            r=s._gcache[root]=s.from_term(var(nm,so),t) if hasattr(s,'from_term') else var(nm,so); return r
        fr=next(s.nframe); s.frames[fr]={'parent':None,'tu':v['tu'],'args':{},'func':None,'names':{}}
        sv=s.curframe if hasattr(s,'curframe') else None
        s.curframe=fr
        st0=St()
        init=v['init']
        try:
            if d['k']=='array':
                es=s.sort(d['of'])
                if init['k']=='str':
                    bs=init['bytes']+[0]*(d['n']-len(init['bytes'])); vals=[bv(b,8) for b in bs]
                    r=s.mktable(q,vals,es)
                elif init['k']=='initlist':
                    vals=[s.conv_init(st0,a,d['of']) for a in init['args']]
                    while len(vals)<d['n']: vals.append(s.zero(d['of']))
                    if all(isinstance(x,T) and isconst(x) for x in vals): r=s.mktable(q,vals,es)
                    else: r=ArrV(vals)
                else: raise Unsupported('global init '+q)
            else: r=s.conv_init(st0,init,v['type'])
        finally:
            s.curframe=sv
        s._gcache[root]=r
        return r
    def const_global(s,v):
        # a closure object without captures has no state
        return v['init'].get('k')=='lambda' and not v['init'].get('caps') or '#lambda' in str(s.ty(v['type']).get('name',''))
    def mktable(s,q,vals,es):
        n=mangle(q)
        TABLES[n]=(tuple(vals),BV(32),es)
        return TblV(n,len(vals),es)
    # ---------------------------------------------------------------- obligations
    def oblige(s,st,goal,name,kind):
        goal=st.simp(lift(goal))
        if s.quiet: 
            return
        if goal is TRUE: s.trivial=getattr(s,'trivial',0)+1; return
        s.obls.append(Obl('%s: %s'%(s.cur or '?',name),st.hyps(),goal,kind=kind,where=name,fuel=s.fuel))
    def step(s,st,t,name):
        if isinstance(t,Hint): st.assume(t.goal)
        elif isinstance(t,By):
            have=set(st.hyps())
            for k,f in enumerate(t.facts):
                if f not in have and f is not TRUE: s.oblige(st,f,name+' fact %d'%(k+1),'step')
            if not s.quiet and t.goal is not TRUE: s.obls.append(Obl('%s: %s'%(s.cur or '?',name),[f for f in t.facts if f is not TRUE],t.goal,kind='step',where=name,fuel=t.fuel))
            st.assume(t.goal)
        else:
            s.oblige(st,t,name,'step'); st.assume(t)
    fuel=2
    def check(s,st,goal,name,kind='safety',e=None):
        """obligation, then assumed"""
        goal=lift(goal)
        if e is not None and isinstance(e,dict) and 'line' in e: name='%s (line %d)'%(name,e['line'])
        s.oblige(st,goal,name,kind)
        st.assume(goal)
    # ---------------------------------------------------------------- joining
    def vite(s,c,a,b):
        if a is b: return a
        if isinstance(a,T) and isinstance(b,T): return ite(c,a,b)
        if isinstance(a,T) and isinstance(b,Rec): a=s.explode(a,b.ty)
        if isinstance(b,T) and isinstance(a,Rec): b=s.explode(b,a.ty)
        if isinstance(a,Rec) and isinstance(b,Rec): return Rec(a.ty,{k:s.vite(c,a.f[k],b.f[k]) for k in a.f})
        if isinstance(a,ArrV) and isinstance(b,ArrV) and len(a.e)==len(b.e): return ArrV([s.vite(c,x,y) for x,y in zip(a.e,b.e)])
        if isinstance(a,Uni) and isinstance(b,Uni): return Uni(a.ty,[s.vite(c,x,y) for x,y in zip(a.b,b.b)])
        if isinstance(a,ArrV) and isinstance(b,T): return ite(c,s.to_term(a),b)
        if isinstance(b,ArrV) and isinstance(a,T): return ite(c,a,s.to_term(b))
        if isinstance(a,Ptr) and isinstance(b,Ptr):
            if a.lv is None and b.lv is None: return a
            if a.lv is None: return Ptr(b.lv,b.off,ite(c,TRUE,b.nul),b.el)
            if b.lv is None: return Ptr(a.lv,a.off,ite(c,a.nul,TRUE),a.el)
            if a.lv.key()==b.lv.key() and (a.off is None)==(b.off is None):
                return Ptr(a.lv,None if a.off is None else ite(c,a.off,b.off),ite(c,a.nul,b.nul),a.el)
        if isinstance(a,MapIt) and isinstance(b,MapIt) and a.lv.key()==b.lv.key(): return MapIt(a.lv,ite(c,a.key,b.key),ite(c,a.end,b.end))
        if isinstance(a,Opaque) and isinstance(b,Opaque):
            if a.id==b.id: return a
            return Opaque(a.ty)
        if a is None and b is None: return None
        if isinstance(a,TblV) and isinstance(b,TblV) and a.name==b.name: return a
        if isinstance(a,Exc) or isinstance(b,Exc): return a
        raise Unsupported('merge %r / %r'%(a,b))
    def join(s,items):
        """items: [(st,val)] mutually exclusive successors of one state -> (st,val)"""
        if len(items)==1: return items[0]
        pcs=[i[0].pc for i in items]
        n=0
        m=min(len(p) for p in pcs)
        while n<m and all(p[n] is pcs[0][n] or p[n]==pcs[0][n] for p in pcs): n+=1
        gs=[]
        for p in pcs: gs.append(And(*[t for k,t in p[n:] if k=='b']))
        out=items[0][0].clone(); out.pc=list(pcs[0][:n]); out.known={k:v for k,v in out.known.items() if all(i[0].known.get(k) is v for i in items)}
        out.assume(Or(*gs),'b')
        for g,p in zip(gs,pcs):
            for k,t in p[n:]:
                if k=='f': out.assume(Implies(g,t))
        roots=set(items[0][0].env)
        for st,_ in items[1:]: roots&=set(st.env)
        env={}
        val=items[-1][1]
        for (st,v),g in zip(reversed(items[:-1]),reversed(gs[:-1])): val=s.vite(g,v,val)
        for r in roots:
            v=items[-1][0].env[r]
            for (st,_),g in zip(reversed(items[:-1]),reversed(gs[:-1])):
                if st.env[r] is not v: 
                    try: v=s.vite(g,st.env[r],v)
                    except Unsupported: 
                        if r.startswith('t'): v=None; break
                        raise
            if v is not None or items[0][0].env[r] is None: env[r]=v
        out.env=env
        b={}
        for k,lv in items[0][0].binds.items():
            if all(k in st.binds for st,_ in items):
                if all(st.binds[k] is lv or st.binds[k].key()==lv.key() for st,_ in items): b[k]=lv
                else:
                    raise Unsupported('merge of reference bindings')
        out.binds=b; out.locks=frozenset.intersection(*[i[0].locks for i in items])
        for st,_ in items: out.types.update(st.types)
        return out,val
    # ---------------------------------------------------------------- functions
    def entry_state(s,frame): return s.frames[frame]['entry']
    def lookup_name(s,st,frame,n):
        names=s.frames[frame]['names']
        m=s.rolemap.get(n,n)
        key=None
        for (k,nm) in reversed(list(names.items())):
            if nm==m and (frame,k) in st.binds: key=(frame,k); break
        if key is None:
            s.missing.append(n); raise Unsupported('no variable named %s (spec)'%n)
        s.loopnames.setdefault(n,s.P)
        return st.binds[key]
    def newframe(s,F,tu,parent=None):
        fr=next(s.nframe); s.frames[fr]={'parent':parent,'tu':tu,'args':{},'func':F,'names':{},'loopn':0}
        return fr
    def bind(s,st,fr,id,name,lv,ty=None):
        st.binds[(fr,id)]=lv; s.frames[fr]['names'][id]=name
    def verify(s,F,con):
        """all obligations of function F against its contract"""
        s.cur=F.key.split('(')[0].replace('Lambda::','')+F.key[len(F.name):].replace('std::','').replace('__cxx11::','')
        s.bv64=bool(con.opts.get('bv64')); s.fuel=con.opts.get('fuel',2); s.maxpaths=con.opts.get('maxpaths',12)
        s.con=con; s.F0=F
        st=St(); fr=s.newframe(F,F.tu); s.curframe=fr
        args={}
        for i,p in enumerate(F.params):
            d=s.ty(p['t'])
            isref=d['k']=='ref'
            t=d['to'] if isref else p['t']
            r='p%d:%s'%(i,p['n'])
            td=s.ty(t)
            if td['k']=='ptr': 
                st.env[r]=s.freshptr(st,t,p['n'],r,con.opts.get('ptr',{}).get(i))
            else: st.env[r]=s.fresh(t,p['n'] or 'arg%d'%i,st)
            st.types[r]=t
            s.bind(st,fr,p['id'],p['n'],LV(r)); args[i]=LV(r)
        for n in getattr(s.P,'gghosts',{}): s.gread(st,n)
        isctor=F.name.endswith('::#ctor')
        if F.cls and not F.static:
            st.env['this']=s.default(st,F.cls) if isctor else s.fresh(F.cls,'this',st)
            st.types['this']=F.cls; st.binds[(fr,'this')]=LV('this'); args['this']=LV('this')
        s.frames[fr]['args']=args
        if isctor: s.ctor_inits(st,F,fr,LV('this'))
        ent=st.clone(); s.frames[fr]['entry']=ent
        if con.requires:
            c=Ctx(s,F,ent,ent,fr,args=args)
            for n,t in norm(con.requires(c)): st.assume(t)
            s.frames[fr]['entry']=ent=st.clone()
        s.reach.append(Obl('%s: precondition is satisfiable'%s.cur,st.hyps(),FALSE,kind='reach',fuel=1))
        s.frames[fr]['con']=con
        s.runret(st,F,con,fr,args,ent)
    def owners_out(s,st,fr):
        """local objects that own memory are destroyed at the end of their function"""
        for r,t in reversed(list(s.frames[fr].get('owners',{}).items())):
            if r not in st.env: continue
            name=s.ty(t)['name']; D=next((F for k,F in s.P.funcs.items() if isinstance(k,str) and F.cls and s.ty(F.cls).get('name')==name and F.name.endswith('::#dtor')),None)
            if D is not None:
                c=s.C.get(D.key)
                if c is not None: s.apply_contract(st,D,c,[],LV(r),None,D.name,None,[])
                else: s.inline(st,D,[],LV(r),None)
            v=st.env[r]
            if name in s.P.releases:
                v1=v
                for n in s.P.releases[name]: v1=s.field(v1,n)
                s.check(st,Not(v1),'what a local object holds is released with it (%s)'%name)
            for n,x in v.f.items():
                if isinstance(x,Rec) and x.ty.startswith('own:'): s.check(st,Not(x.f['live']),'what a local object owns is released with it (%s)'%n)
            if name not in s.P.releases: del st.env[r]
    def runret(s,st,F,con,fr,args,ent):
        s.pend=[]
        exits=s.stmt(st,F.body)
        for x in exits:
            if x.kind in('normal','return'): s.owners_out(x.st,fr)
            for m,by in sorted(x.st.locks,key=str):
                if by!='caller': s.oblige(x.st,FALSE,'a mutex that was taken is released','safety')
        normal=0
        for x in exits:
            if x.kind in('normal','return'):
                normal+=1
                c=Ctx(s,F,ent,x.st,fr,ret=s.spec_read(x.st,x.val),args=args)
                if con.raises and con.opts.get('iff',True):
                    rc=con.raises(c)
                    if isinstance(rc,T): s.oblige(x.st,Not(rc),'returns normally only when it must not throw','post')
                for n,g in con.opts.get('ghostset',{}).items():
                    s.write(x.st,LV('this',(('f',n),)),lift(g(c))); c=Ctx(s,F,ent,x.st,fr,ret=s.spec_read(x.st,x.val),args=args)
                s.frame_oblige(con,F,ent,x.st,'return')
                if con.hints:
                    for n,t in norm(con.hints(c)): x.st.assume(t)
                if con.steps:
                    for n,t in norm(con.steps(c)): s.step(x.st,t,'step '+n)
                if con.ensures:
                    for n,t in norm(con.ensures(c)): s.oblige(x.st,t,'ensures '+n,'post')
                if con.final: con.final(s,c,x)
            elif x.kind=='throw':
                c=Ctx(s,F,ent,x.st,fr,args=args,exc=x.val)
                s.frame_oblige(con,F,ent,x.st,'exception')
                if con.opts.get('throwsteps'):
                    for n,t in norm(con.opts['throwsteps'](c)): s.step(x.st,t,'step '+n)
                if con.opts.get('onthrow'):
                    for n,t in norm(con.opts['onthrow'](c)): s.oblige(x.st,t,'when it throws: '+n,'exc')
                if F.noexcept: s.oblige(x.st,FALSE,'no exception leaves a noexcept function (%s)'%x.val.where,'noexcept')
                elif con.raises:
                    rc=con.raises(c)
                    if rc!='any': s.oblige(x.st,lift(rc),'throws only when allowed (%s)'%x.val.where,'exc')
                else: s.oblige(x.st,FALSE,'does not throw (%s)'%x.val.where,'exc')
            else: raise Unsupported('exit '+x.kind)
        if normal and not s.quiet:
            # vacuity guard: at least one normal exit must be reachable (not refutable)
            s.reach.append(('any',[Obl('%s: a normal exit is reachable'%s.cur,x.st.hyps(),FALSE,kind='reach',fuel=1) for x in exits if x.kind in('normal','return')]))
    # everything the contract does not list as modified is left as it was
    def frame_oblige(s,con,F,ent,st,how):
        if con.opts.get('noframe') or F.name.endswith('#ctor') or F.name.endswith('#dtor'): return
        whole={m for m in con.modifies if not isinstance(m,tuple)}; part={m for m in con.modifies if isinstance(m,tuple)}
        for r,v in ent.env.items():
            if r.startswith('p') or r.startswith('buf:p') or r.startswith('obj:p'):
                i=int(re.match(r'(?:buf:|obj:)?p(\d+):',r).group(1)) if re.match(r'(?:buf:|obj:)?p(\d+):',r) else None
                if i is None: continue
                isref=s.ty(F.params[i]['t'])['k']=='ref'
                if r[0]=='p' and not isref: continue
                if i in whole: continue
                ps=[m[1:] for m in part if m[0]==i]
            elif r=='this':
                if 'this' in whole: continue
                ps=[m[1:] for m in part if m[0]=='this']
            elif r.startswith('g:'):
                if r in whole: continue
                ps=[]
            else: continue
            n=st.env.get(r)
            g=s.same(v,n,(),ps)
            if g is not TRUE: s.oblige(st,g,'leaves %s unchanged except as declared (%s)'%(r,how),'frame')
    def same(s,a,b,path,skip):
        if path in skip or a is b: return TRUE
        if isinstance(a,T) and isinstance(b,T): return eq(a,b)
        if isinstance(a,Rec) and isinstance(b,Rec): return And(*[s.same(a.f[k],b.f.get(k),path+(k,),skip) for k in a.f])
        if isinstance(a,Rec) or isinstance(b,Rec):
            try: return eq(s.to_term(a),s.to_term(b))
            except (Unsupported,AttributeError): return FALSE
        if isinstance(a,ArrV) and isinstance(b,ArrV): return And(*[s.same(x,y,path,skip) for x,y in zip(a.e,b.e)])
        if isinstance(a,Uni) and isinstance(b,Uni): return And(*[eq(x,y) for x,y in zip(a.b,b.b)])
        if isinstance(a,Ptr) and isinstance(b,Ptr):
            same=(a.lv is b.lv or (a.lv is not None and b.lv is not None and a.lv.key()==b.lv.key()))
            return And(same,eq(a.nul,b.nul),eq(a.off,b.off) if a.off is not None and b.off is not None else a.off is b.off)
        if isinstance(a,Opaque) and isinstance(b,Opaque): return TRUE if a.id==b.id else FALSE
        return FALSE
    def freshptr(s,st,t,name,r,spec):
        el=s.ty(t)['to']
        es=s.sort(el)
        d=s.ty(el)
        if d['k']=='void' or es is None or spec=='opaque': return Opaque(t)
        if d['k']=='rec' and spec!='array':
            o='obj:'+r; st.env[o]=s.fresh(el,name,st); st.types[o]=el
            return Ptr(LV(o),None,FALSE,el)
        # pointer to a buffer
        o='buf:'+r; v=fresh(name+'_buf',Seq(es)); st.env[o]=v; st.types[o]=('buf',el); st.assume(lt(slen(v),tm_MAX))
        off=I(0)
        if spec in('cstr','cstr?'):
            # NUL-terminated (with ?: or a null pointer)
            from .std import zpos
            st.assume(And(le(0,zpos(v)),lt(zpos(v),slen(v))))
        return Ptr(LV(o),off,fresh(name+'_isnull',Bool) if spec=='cstr?' else FALSE,el)
    def ctor_inits(s,st,F,fr,lv):
        for i in F.inits or []:
            if 'field' in i:
                t=s.ftype(s.nonref(F.cls),i['field'])
                if s.ty(t)['k']=='ref':
                    x=s.ev(st,i['e']); 
                    st.env[lv.root]=s.wrpath(st.env[lv.root],lv.path+(('f',i['field']),),Ptr(x,None) if isinstance(x,LV) else x)
                    continue
                s.write(st,lv.sub(('f',i['field'])),s.conv_init(st,i['e'],t))
            elif 'base' in i:
                b=s.rv(st,i['e'])
                if isinstance(b,Rec):
                    for k,v in b.f.items(): s.write(st,lv.sub(('f',k)),v)
            else: raise Unsupported('delegating constructor')
    # call of a repo function body in place
    def inline(s,st,F,args,thislv,e):
        if s.depth>14: raise Unsupported('inline depth')
        if any(f.key==F.key for f in s.stack()): raise Unsupported('recursive call of %s needs a contract'%F.key)
        s.inlined.add(F.key)
        fr=s.newframe(F,F.tu); 
        for i,p in enumerate(F.params):
            s.bind(st,fr,p['id'],p['n'],args[i]); s.frames[fr]['args'][i]=args[i]
        if thislv is not None: st.binds[(fr,'this')]=thislv; s.frames[fr]['args']['this']=thislv
        s.frames[fr]['entry']=st.clone()
        return s.runbody(st,F,fr,F.body,e,lambda st:s.ctor_inits(st,F,fr,thislv) if F.name.endswith('#ctor') else None)
    def stack(s): return getattr(s,'_stack',[])
    def runbody(s,st,F,fr,body,e,pre=None,isvoid=None,noexc=None):
        sv=(s.curframe,s.pend); s.curframe=fr; s.pend=[]; s.depth+=1
        s._stack=s.stack()+([F] if F else [])
        try:
            if pre: pre(st)
            exits=s.stmt(st,body) + s.pend
        finally:
            s.curframe,s.pend=sv; s.depth-=1; s._stack=s._stack[:-1] if F else s._stack
        rets=[]
        for x in exits:
            if x.kind in('normal','return'): 
                if s.frames[fr].get('owners'): s.owners_out(x.st,fr)
                rets.append((x.st,x.val))
            elif x.kind=='throw':
                if F is not None and F.noexcept:
                    s.oblige(x.st,FALSE,'no exception leaves noexcept %s (%s)'%(F.name,x.val.where),'noexcept')
                else: s.pend.append(x)
            else: raise Unsupported('exit from body: '+x.kind)
        if not rets: raise Dead()
        st2,v=s.join(rets)
        s.become(st,st2)
        return v
    def become(s,st,st2): st.env=st2.env; st.known=st2.known; st.pc=st2.pc; st.binds=st2.binds; st.types=st2.types
    # ---------------------------------------------------------------- contracts at calls
    def apply_contract(s,st,F,con,args,thislv,e,name,ret,params):
        s.used_contracts.add(con.key)
        if con.assumed: s.assumed_used.add(con.key)
        pre=st.clone()
        A=dict(enumerate(args)); 
        if thislv is not None: A['this']=thislv
        c=Ctx(s,F,pre,pre,None,args=A)
        ln=' (line %d)'%e['line'] if e and 'line' in e else ''
        if con.requires:
            for n,t in norm(con.requires(c)): s.check(st,t,'precondition of %s: %s%s'%(name,n,ln),'pre')
        pre=st.clone()
        # exceptional exit
        rc=None
        if con.raises:
            c=Ctx(s,F,pre,pre,None,args=A)
            rc=con.raises(c)
            ex=st.clone()
            try:
                if isinstance(rc,T): ex.assume(rc,'b')
                else: g=fresh('throws',Bool); ex.assume(g,'b'); rc=g
                for m in con.modifies: s.havoc_arg(ex,A,m,params,thislv)
                if con.opts.get('onthrow'):
                    for n,t in norm(con.opts['onthrow'](Ctx(s,F,pre,ex,None,args=A))): ex.assume(t)
                s.pend.append(Exit('throw',ex,Exc(con.opts.get('exctype','std::runtime_error'),None,'call of '+name+ln)))
            except Dead: pass
            st.assume(Not(rc),'b')
        for m in con.modifies: s.havoc_arg(st,A,m,params,thislv)
        rv=None
        d=s.ty(ret) if ret is not None else {'k':'void'}
        if d['k']!='void':
            if con.opts.get('ret'): rv=con.opts['ret'](Ctx(s,F,pre,st,None,args=A))
            else: rv=s.fresh(s.nonref(ret),'ret_'+mangle(name.split('::')[-1]),st)
        c=Ctx(s,F,pre,st,None,ret=rv,args=A)
        if con.ensures:
            en=norm(con.ensures(c)); sub_={}
            # results the contract defines by an equation are replaced by their definition
            news=set(); s.leafvars(rv,news)
            for r,v in st.env.items():
                if pre.env.get(r) is not v: s.leafvars(v,news)
            olds=set()
            for v in pre.env.values(): s.leafvars(v,olds)
            news-=olds
            if news:
                for n,t in en:
                    for y in (t.args if isinstance(t,T) and t.op=='and' else (t,)):
                        if isinstance(y,T) and y.op=='=':
                            for a,b in((y.args[0],y.args[1]),(y.args[1],y.args[0])):
                                if a in news and a not in sub_ and not (tm.freevars(b)&(news|set(sub_))): sub_[a]=b; break
            if sub_:
                rv=s.substval(rv,sub_)
                for r,v in list(st.env.items()):
                    if pre.env.get(r) is not v: st.env[r]=s.substval(v,sub_)
                st.pc=[(k,tm.subst(t,sub_)) if tm.freevars(t)&set(sub_) else (k,t) for k,t in st.pc]
            for n,t in en:
                t=tm.subst(t,sub_) if sub_ and isinstance(t,T) else t
                st.assume(t)
                for y in (t.args if t.op=='and' else (t,)):
                    for z in instances(y): st.assume(z)
        return rv
    def leafvars(s,v,out):
        if isinstance(v,T):
            if v.op=='var': out.add(v)
        elif isinstance(v,Rec):
            for x in v.f.values(): s.leafvars(x,out)
        elif isinstance(v,ArrV):
            for x in v.e: s.leafvars(x,out)
        elif isinstance(v,Uni):
            for x in v.b: s.leafvars(x,out)
    def substval(s,v,m):
        if isinstance(v,T): return tm.subst(v,m)
        if isinstance(v,Rec): return Rec(v.ty,{k:s.substval(x,m) for k,x in v.f.items()})
        if isinstance(v,ArrV): return ArrV([s.substval(x,m) for x in v.e])
        if isinstance(v,Uni): return Uni(v.ty,[s.substval(x,m) for x in v.b])
        if isinstance(v,Ptr) and v.lv is not None: return Ptr(v.lv,None if v.off is None else tm.subst(v.off,m),tm.subst(v.nul,m),v.el)
        return v
    def havoc_arg(s,st,A,m,params,thislv):
        if isinstance(m,str) and m.startswith('g:'):
            old=s.gread(st,m[2:]); st.env[m]=fresh('g_'+m[2:],old.sort); return
        if isinstance(m,tuple): lv=A[m[0]]; path=m[1:]
        else: lv=A[m]; path=()
        if not isinstance(lv,LV): return
        v=s.read(st,lv)
        if isinstance(v,Ptr) and not path:      # pointee
            lv=v.lv; 
            if lv is None: return
            old=s.read(st,lv)
            if isinstance(old,T) and isinstance(old.sort,tuple) and old.sort[0]=='Seq':
                n=fresh('buf',old.sort); st.assume(eq(slen(n),slen(old))); s.write(st,lv,n); return
            if isinstance(old,ArrV): s.write(st,lv,ArrV([fresh('buf',x.sort) for x in old.e])); return
            s.write(st,lv,s.freshlike(st,old)); return
        for p in path: lv=lv.sub(('f',p))
        if s.havoc_own(st,lv): return
        old=s.read(st,lv)
        s.write(st,lv,s.freshlike(st,old,s.lvtype(st,lv)))
    def havoc_own(s,st,lv):
        o=s.own(st,lv)
        if o is None: return False
        st.env[lv.root]=s.wrpath(st.env[lv.root],lv.path,Rec(o.ty,{k:s.freshlike(st,x,None) if isinstance(x,T) else s.freshlike(st,x,o.ty[4:]) for k,x in o.f.items()})); return True
    def gread(s,st,n):
        """global specification-only state (declared in the specification)"""
        v=st.env.get('g:'+n)
        if v is None: v=st.env['g:'+n]=var('g_'+n+'_initial',s.P.gghosts[n])
        return v
    def lvtype(s,st,lv):
        t=st.types.get(lv.root)
        for p in lv.path:
            if t is None or isinstance(t,tuple): return None
            t=s.nonref(t)
            try:
                if p[0]=='f': t=s.ftype(t,p[1])
                elif p[0]=='i': t=s.elem(t)
                elif p[0]=='m': t=s.ty(t)['args'][1]
                else: return None
            except Unsupported: return None
        return t
    def freshlike(s,st,v,ty=None):
        if isinstance(ty,str) and ty and ty[0]!='#' and s.ty(s.nonref(ty))['k']!='ptr' and not isinstance(v,Ptr):
            return s.fresh(ty,'h',st) if not isinstance(v,Opaque) else Opaque(v.ty)
        if isinstance(v,T):
            n=fresh('h',v.sort)
            if v.sort==Int: st.assume(And(le(-(1<<63),n),lt(n,1<<64)))
            if isinstance(v.sort,tuple) and v.sort[0]=='Seq': st.assume(lt(slen(n),tm_MAX))
            return n
        if isinstance(v,Rec): return Rec(v.ty,{k:s.freshlike(st,x,s.ftype(v.ty,k)) for k,x in v.f.items()})
        if isinstance(v,ArrV): return ArrV([s.freshlike(st,x) for x in v.e])
        if isinstance(v,Uni): return Uni(v.ty,[s.freshlike(st,x) for x in v.b])
        if isinstance(v,Opaque): return Opaque(v.ty)
        if isinstance(v,Ptr): 
            if v.lv is None: return Opaque('pointer')
            if v.off is None: return Ptr(v.lv,None,fresh('nul',Bool),v.el)
            o=fresh('off',Int)
            # bounded by the container's size only if the container itself stays as it is
            if not any(r==v.lv.root and tuple(('f',x) for x in p)==v.lv.path[:len(p)] for r,p in getattr(s,'havocking',())): st.assume(And(le(0,o),le(o,s.clen(st,v.lv))))
            return Ptr(v.lv,o,v.nul,v.el)
        raise Unsupported('havoc %r'%(v,))
    def clen(s,st,lv):
        t=s.lvtype(st,lv)
        if isinstance(t,str) and t and t[0]!='#':
            t=s.nonref(t)
            if s.isstd(t) and s.cls(t)=='array': return I(s.ty(t)['args'][1])
        v=s.read(st,lv)
        return s.vlen(v)
    def vlen(s,v):
        if isinstance(v,T): return slen(v)
        if isinstance(v,ArrV): return I(len(v.e))
        if isinstance(v,TblV): return I(v.n)
        raise Unsupported('length of %r'%(v,))
    # ---------------------------------------------------------------- statements
    def stmt(s,st,n):
        if n is None: return [Exit('normal',st)]
        sv=s.pend; s.pend=[]
        try:
            try: ex=getattr(s,'s_'+n['k'],s.s_unsupported)(st,n)
            except Dead: ex=[]
            ex=list(ex)+s.pend
        finally: s.pend=sv
        return ex
    def s_unsupported(s,st,n): raise Unsupported('statement %s line %s'%(n.get('cls',n['k']),n.get('line')))
    def s_null(s,st,n): return [Exit('normal',st)]
    def s_expr(s,st,n): s.ev(st,n['e']); return [Exit('normal',st)]
    def seq(s,st,items):
        cur=[st]; out=[]
        for it in items:
            nxt=[]
            for c in cur:
                for x in s.stmt(c,it):
                    if x.kind=='normal': nxt.append(x.st)
                    else: out.append(x)
            cur=nxt
            if not cur: break
            if len(cur)>s.maxpaths:
                try: cur=[s.join([(c,None) for c in cur])[0]]
                except Unsupported: pass
                if len(cur)>400: raise Unsupported('too many paths')
        return out+[Exit('normal',c) for c in cur]
    def s_block(s,st,n):
        out=s.seq(st,n['s']); fr=s.curframe
        mine={('f%d:%d:%s'%(fr,d['id'],d['n'])) for i in n['s'] if i['k']=='decl' for d in i['d'] if 'id' in d}
        for x in out:
            if x.st.locks: x.st.locks=frozenset(l for l in x.st.locks if l[1] not in mine)
        return out
    # ---------------------------------------------------------------- mutexes
    def lockof(s,st,e):
        lv=s.ev(st,e)
        if not isinstance(lv,LV): raise Unsupported('mutex')
        return lv.key()
    def acquire(s,st,m,by,shared=False):
        if any(l[0]==m for l in st.locks): s.oblige(st,FALSE,'a mutex is not taken twice by the same thread','safety')
        st.locks=st.locks|{(m,by)}
    def lockdecl(s,st,d,td,r):
        """local object that holds one or more mutexes while it lives"""
        e=d.get('init'); 
        while e is not None and e['k'] in('cast','paren','temp','cleanup','bind'): e=e['e']
        if e is None or e['k']!='ctor': raise Unsupported('lock')
        if any('_lock_t' in s.nonref(a['t']) for a in e['args']): raise Unsupported('lock mode')
        ms=[s.lockof(st,a) for a in e['args']]; s.lockmtx[r]=ms
        for m in ms: s.acquire(st,m,r)
        return Opaque(d['t'])
    def guardcheck(s,st,b,rec,n):
        g=getattr(s.P,'guarded',{}).get((rec,n))
        if g is None or s.con is None: return
        mtx,exempt=g; F0=s.F0
        if F0.cls and s.ty(F0.cls).get('name')==rec and (F0.name.endswith('::#ctor') or F0.name.endswith('::#dtor') or F0.name.endswith('::operator=')): return
        if b.root[0] in 'ft' and not b.path and not b.root.startswith('this'): return      # an object of this call
        k=b.sub(('f',mtx)).key()
        if not any(l[0]==k for l in st.locks): s.oblige(st,FALSE,'%s is used under its mutex'%n,'safety')
    def s_decl(s,st,n):
        for d in n['d']: s.decl(st,d)
        return [Exit('normal',st)]
    def decl(s,st,d):
        fr=s.curframe
        if d.get('static'):
            q='g:%s:%s'%(s.frames[fr]['tu'],d['q'])
            td=s.ty(d['t'])
            s.bind(st,fr,d['id'],d['n'],LV(q)); return
        t=d['t']; td=s.ty(t)
        if td['k']=='ref':
            x=s.ev(st,d['init'])
            lv=x if isinstance(x,LV) else s.temp(st,x,td['to'],d['n'])
            s.bind(st,fr,d['id'],d['n'],lv)
            if d.get('bindings'): s.bindings(st,d,lv)
            return
        if td['k']=='rec' and LOCKCLS.match(td.get('name','')):
            r='f%d:%d:%s'%(fr,d['id'],d['n']); v=s.lockdecl(st,d,td,r)
        else: v=s.conv_init(st,d['init'],t) if 'init' in d else s.default(st,t)
        if s.con and d['n'] in s.con.opts.get('snap',()):
            st.env['snap:'+d['n']]=st.env['this']
            for x in s.con.opts.get('snapvars',()):
                try: st.env['snap:%s:%s'%(d['n'],x)]=s.spec_read(st,s.lookup_name(st,fr,x))
                except Unsupported: s.missing=[m for m in s.missing if m!=x]
        if s.con and d['n'] in s.con.opts.get('name',()) and isinstance(v,T) and v.args:
            w=fresh(d['n'],v.sort); st.assume(mk('=',(w,v),Bool)); v=w
        r='f%d:%d:%s'%(fr,d['id'],d['n']); st.env[r]=v; st.types[r]=t
        if td['k']=='rec' and td.get('name') in getattr(s.P,'ownedcls',()): s.frames[fr].setdefault('owners',{})[r]=t
        s.bind(st,fr,d['id'],d['n'],LV(r))
        if d.get('bindings'): s.bindings(st,d,LV(r))
    def bindings(s,st,d,lv):
        v=s.read(st,lv)
        ty=s.nonref(d['t'])
        fs=[n for n,_ in s.fields(ty)]
        for b,f in zip(d['bindings'],fs): s.bind(st,s.curframe,b['id'],b['n'],lv.sub(('f',f)))
    def conv_init(s,st,e,t):
        """value of type t from initialiser expression e"""
        d=s.ty(t)
        if e['k']=='str' and d['k']=='array':
            bs=e['bytes'][:d['n']]; bs=bs+[0]*(d['n']-len(bs))
            if d['n']<=64: return ArrV([bv(b,8) for b in bs])
            return concat(sconst(bytes(e['bytes'])),rep(bv(0,8),d['n']-len(e['bytes'])))
        v=s.rv(st,e,t)
        return v
    def branch(s,st,e):
        """-> (true states, false states)"""
        k=e['k']
        if k=='bin' and e['op'] in('&&','||'):
            a=e['op']=='&&'
            t1,f1=s.branch(st,e['l'])
            go,stay=(t1,f1) if a else (f1,t1)
            T_,F_=[],[]
            for x in go:
                t2,f2=s.branch(x,e['r']); T_+=t2; F_+=f2
            return (T_,stay+F_) if a else (stay+T_,F_)
        if k=='un' and e['op']=='!':
            t,f=s.branch(st,e['e']); return f,t
        try: c=s.tobool(s.rv(st,e))
        except Dead: return [],[]
        return s.split(st,c)
    def split(s,st,c):
        if c is TRUE: return [st],[]
        if c is FALSE: return [],[st]
        hs=set(t for k,t in st.pc)
        if c in hs: return [st],[]
        if Not(c) in hs: return [],[st]
        f=st.clone()
        st.assume(c,'b'); f.assume(Not(c),'b')
        return [st],[f]
    def one(s,sts):
        """merge condition states when possible"""
        if len(sts)<=1: return sts
        try: return [s.join([(x,None) for x in sts])[0]]
        except Unsupported: return sts
    def s_if(s,st,n):
        out=[]; 
        if 'init' in n:
            for x in s.stmt(st,n['init']): assert x.kind=='normal'
        if 'cv' in n: s.decl(st,n['cv'])
        t,f=s.branch(st,n['c'])
        out=[]
        for x in s.one(t): out+=s.stmt(x,n['a'])
        for x in s.one(f): out+=s.stmt(x,n['b']) if n.get('b') else [Exit('normal',x)]
        nn=[x for x in out if x.kind=='normal']
        if len(nn)>1 and (s.con.opts.get('merge') or s.depth>0 or len(nn)>s.maxpaths):
            try:
                stj,_=s.join([(x.st,None) for x in nn])
                out=[x for x in out if x.kind!='normal']+[Exit('normal',stj)]
            except Unsupported: pass
        return out
    def s_return(s,st,n):
        F=s.frames[s.curframe]
        if 'e' not in n: return [Exit('return',st,None)]
        rt=F.get('ret') or (F['func'].ret if F['func'] else None)
        if rt and s.ty(rt)['k']=='ref':
            v=s.ev(st,n['e'])
        else:
            v=s.rv(st,n['e'],rt)
        return [Exit('return',st,v)]
    def s_break(s,st,n): return [Exit('break',st)]
    def s_continue(s,st,n): return [Exit('continue',st)]
    def s_switch(s,st,n):
        if 'init' in n: s.stmt(st,n['init'])
        v=s.rv(st,n['c'])
        # flatten the body into (labels, stmts)
        body=n['body']['s'] if n['body']['k']=='block' else [n['body']]
        flat=[]
        def add(x):
            if x['k']=='case': flat.append(('case',x['v'])); add(x['s'])
            elif x['k']=='default': flat.append(('default',)); add(x['s'])
            else: flat.append(('s',x))
        for x in body: add(x)
        consts=[f[1] for f in flat if f[0]=='case']
        mkc=lambda c: I(int(c)) if v.sort==Int else bv(int(c),v.sort[1])
        out=[]; hasdef=any(f[0]=='default' for f in flat)
        def run(state,pos):
            stm=[f[1] for f in flat[pos:] if f[0]=='s']
            for x in s.seq(state,stm):
                if x.kind=='break': x.kind='normal'
                out.append(x)
        rest=st
        for i,f in enumerate(flat):
            if f[0]=='case' and rest is not None:
                t,fl=s.split(rest,eq(v,mkc(f[1])))
                for x in t: run(x,i)
                rest=fl[0] if fl else None
        if rest is not None:
            if hasdef: run(rest,[i for i,f in enumerate(flat) if f[0]=='default'][0])
            else: out.append(Exit('normal',rest))
        return out
    def s_try(s,st,n):
        out=[]
        for x in s.stmt(st,n['body']):
            if x.kind!='throw': out.append(x); continue
            for h in n['handlers']:
                ht=s.nonref(h['v']['t']) if 'v' in h else None
                if ht is None or s.exc_match(x.val.ty,ht):
                    if h.get('v') and h['v']['n']:
                        lv=s.temp(x.st,Opaque(ht),ht,h['v']['n']); s.bind(x.st,s.curframe,h['v']['id'],h['v']['n'],lv)
                    sv=getattr(s,'curexc',None); s.curexc=x.val
                    out+=s.stmt(x.st,h['body']); s.curexc=sv
                    break
            else: out.append(x)
        return out
    def exc_match(s,et,ht):
        h=s.ty(ht).get('name',ht)
        h=h.replace('const ','')
        cur=et.replace('const ','')
        for _ in range(10):
            if cur.replace('__cxx11::','')==h.replace('__cxx11::',''): return True
            if cur in EXC_BASE: cur=EXC_BASE[cur]; continue
            r=s.P.recs.get(cur)
            if r and r['bases']: cur=s.ty(r['bases'][0]).get('name'); continue
            return False
        return False
    # ---------------------------------------------------------------- loops
    def loopspec(s,n):
        """specification of this loop, by order of appearance in the function"""
        F=s.frames[s.curframe]['func']
        if F is None: return None,None
        loops=s.looplist(F)
        ix=next((i for i,l in enumerate(loops) if l is n),None)
        con=s.C.get(F.key)
        if F is s.F0: con=s.con
        if con is None: 
            cons=[c for k,c in s.C.items() if isinstance(c,Contract) and c.key==F.key]
            con=cons[0] if cons else None
        if con is None or ix is None or ix>=len(con.loops): return None,ix
        return con.loops[ix],ix
    def looplist(s,F):
        if hasattr(F,'_loops'): return F._loops
        out=[]
        def w(x):
            if isinstance(x,dict):
                if x.get('k') in('for','while','do','rangefor'): out.append(x)
                for v in x.values(): w(v)
            elif isinstance(x,list):
                for v in x: w(v)
        w(F.body); F._loops=out
        return out
    def s_while(s,st,n):
        return s.loop(st,n,lambda q:s.branch(q,n['c']),n['body'],None)
    def s_do(s,st,n): 
        # body; while(c) body
        out=[]; cont=[]
        for x in s.stmt(st,n['body']):
            if x.kind in('normal','continue'): cont.append(x.st)
            elif x.kind=='break': out.append(Exit('normal',x.st))
            else: out.append(x)
        for c in cont: out+=s.loop(c,n,lambda q:s.branch(q,n['c']),n['body'],None)
        return out
    def s_for(s,st,n):
        if n.get('init'):
            for x in s.stmt(st,n['init']): assert x.kind=='normal'
        return s.loop(st,n,(lambda q:s.branch(q,n['c'])) if n.get('c') else (lambda q:([q],[])),n['body'],(lambda q:s.ev(q,n['inc'])) if n.get('inc') else None)
    def s_rangefor(s,st,n):
        if n.get('init'): s.stmt(st,n['init'])
        r=s.ev(st,n['range'])
        rt=s.nonref(n['range']['t'])
        if not isinstance(r,LV): r=s.temp(st,r,rt,'range')
        v=s.read(st,r)
        if isinstance(v,T) and v.op not in('var','empty','unit','concat') and not r.path and r.root[0] in 'tf':
            # name the sequence: the terms of the loop stay small
            nv=fresh('range',v.sort); st.assume(eq(nv,v)); s.write(st,r,nv)
        fr=s.curframe
        if s.cls(rt) in('map','unordered_map','set'):
            # iteration order: an arbitrary enumeration of the keys present
            v=s.read(st,r)
            if type(v).__name__=='CMap':
                def ko(k):
                    b=cbytes(k); return b if b is not None else (k.args[0] if k.op=='int' or not s.intty(s.ty(rt)['args'][0])[1] else tm._sg(k.args[0],k.sort[1]))
                its=sorted(v.items,key=lambda kv:ko(kv[0]))
                pt=s.nonref(n['var']['t'])
                r=s.temp(st,ArrV([Rec(pt,{'first':k,'second':x}) for k,x in its]),('items',rt),'items')
                return s.rangeseq(st,n,r,rt)
            ks=s.keyseq(st,v,rt)
            r2=s.temp(st,ks,('keys',rt),'keys')
            it=s.temp(st,I(0),'unsigned long','idx'); info={'idx':it.root,'range':r2}
            def bindvar(q):
                i=s.read(q,it); k=nth(s.read(q,r2),i)
                mv=s.read(q,r)
                if s.cls(rt)=='set': val=k
                else:
                    pt=s.nonref(n['var']['t'])
                    val=Rec(pt,{'first':k,'second':select(s.field(mv,'val'),k)})
                d=n['var']; lv=s.temp(q,val,s.nonref(d['t']),d['n'] or 'it'); s.bind(q,fr,d['id'],d['n'],lv)
                if d.get('bindings'): s.bindings(q,d,lv)
            return s.loop(st,n,lambda q:s.split(q,lt(s.read(q,it),slen(s.read(q,r2)))),n['body'],lambda q:s.write(q,it,s.read(q,it)+1),info,bindvar)
        return s.rangeseq(st,n,r,rt)
    def rangeseq(s,st,n,r,rt):
        fr=s.curframe
        it=s.temp(st,I(0),'unsigned long','idx'); info={'idx':it.root,'range':r}
        def bindvar(q):
            d=n['var']; i=s.read(q,it); vt=s.ty(d['t'])
            if isinstance(s.read(q,r),Opaque): raise Unsupported('range over opaque')
            el=r.sub(('i',i))
            if vt['k']=='ref':
                s.bind(q,fr,d['id'],d['n'],el); lv=el
            else:
                rr='f%d:%d:%s'%(fr,d['id'],d['n']); q.env[rr]=s.read(q,el); q.types[rr]=d['t']; lv=LV(rr); s.bind(q,fr,d['id'],d['n'],lv)
            if d.get('bindings'): s.bindings(q,d,lv)
        return s.loop(st,n,lambda q:s.split(q,lt(s.read(q,it),s.clen(q,r))),n['body'],lambda q:s.write(q,it,s.read(q,it)+1),info,bindvar)
    def keyseq(s,st,v,rt):
        dom=s.field(v,'dom'); ks=dom.sort[1]
        r=keysfun(dom.sort)(dom); st.assume(lt(slen(r),tm_MAX))
        return r
    def loop(s,st,n,cond,body,inc,info=None,pre=None):
        spec,ix=s.loopspec(n)
        info=info or {}
        fr=s.curframe
        if spec is None or spec.unroll: return s.unroll(st,n,cond,body,inc,pre,(spec.unroll if spec else None) or 260)
        def step(q):
            """one iteration from head state q: (exits after cond false, exits of body)"""
            t,f=cond(q)
            outs=[]; nexts=[]
            for x in s.one(f): outs.append(Exit('normal',x))
            for x in s.one(t):
                try:
                    if pre: pre(x)
                except Dead: continue
                for y in s.stmt(x,body):
                    if y.kind in('normal','continue'):
                        sv=s.pend; s.pend=[]
                        try:
                            if inc: inc(y.st)
                            nexts.append(y.st)
                        except Dead: pass
                        outs+=s.pend; s.pend=sv
                    elif y.kind=='break': outs.append(Exit('normal',y.st))
                    else: outs.append(y)
            return outs,nexts
        # which locations does an iteration change?
        mods=s.modified(st,step)
        env=lambda q:LoopEnv(s,q,fr,st0,info)
        st0=st.clone()
        nm='loop %d'%(ix+1)
        inv=lambda q:norm(spec.inv(env(q)))
        for m,t in inv(st): s.oblige(st,t,'%s invariant on entry: %s'%(nm,m),'inv')
        h=st.clone()
        s.havocking=mods
        for (root,path) in mods: s.havoc_at(h,root,path)
        s.havocking=()
        for m,t in inv(h): h.assume(t)
        if spec.hints:
            for m,t in norm(spec.hints(env(h))): h.assume(t)
        d0=None
        if spec.dec:
            d0=spec.dec(env(h))
            d0=[lift(x) for x in (d0 if isinstance(d0,(list,tuple)) else [d0])]
        h0=h.clone()
        if not s.quiet:      # on some path that leads to the loop
            o=Obl('%s: %s body is reachable under its invariant'%(s.cur,nm),h.hyps(),FALSE,kind='reach',fuel=1)
            for r in s.reach:
                if isinstance(r,tuple) and r[1] and r[1][0].name==o.name: r[1].append(o); break
            else: s.reach.append(('any',[o]))
        outs,nexts=step(h)
        for q in nexts:
            if spec.hints:
                v=env(q); v.__dict__['prev']=env(h0)
                for m,t in norm(spec.hints(v)): q.assume(t)
            if spec.steps:
                v=env(q); v.__dict__['prev']=env(h0)
                for m,t in norm(spec.steps(v)): s.step(q,t,'%s step: %s'%(nm,m))
            for m,t in inv(q): s.oblige(q,t,'%s invariant kept: %s'%(nm,m),'inv')
            if d0 is not None:
                d1=spec.dec(env(q)); d1=[lift(x) for x in (d1 if isinstance(d1,(list,tuple)) else [d1])]
                # lexicographic
                g=FALSE
                for i in range(len(d0)-1,-1,-1):
                    g=Or(And(lt(d1[i],d0[i]),le(0,d0[i])),And(eq(d1[i],d0[i]),g)) if i<len(d0)-1 else And(lt(d1[i],d0[i]),le(0,d0[i]))
                s.oblige(q,g,'%s terminates (measure decreases)'%nm,'term')
            if q.locks!=h0.locks: raise Unsupported('a mutex held across iterations')
            s.checkframe(h0,q,mods)
        return outs
    def checkframe(s,a,b,mods): pass
    def modified(s,st,step):
        mods=[]
        sv=(s.pend,s.obls,s.reach); s.quiet+=1
        tr=getattr(s,'trivial',0)
        try:
            for it in range(8):
                q=st.clone()
                s.havocking=mods
                for root,path in mods: s.havoc_at(q,root,path)
                s.havocking=()
                base=q.clone()
                s.pend=[]
                try: outs,nexts=step(q)
                except Dead: outs,nexts=[],[]
                new=[]
                for e in nexts: 
                    for r in base.env:
                        if r in e.env and e.env[r] is not base.env[r]: new+=s.diff(base.env[r],e.env[r],(r,()))
                new=[m for m in new if not any(m[0]==o[0] and m[1][:len(o[1])]==o[1] for o in mods)]
                if not new: break
                for m in new:
                    if m not in mods: mods.append(m)
            else: raise Unsupported('modified set does not stabilise')
        finally:
            s.pend,s.obls,s.reach=sv; s.quiet-=1; s.trivial=tr
        return mods
    def diff(s,a,b,at):
        r,p=at
        if a is b: return []
        if isinstance(a,Rec) and isinstance(b,Rec):
            o=[]
            for k in a.f:
                if k in b.f: o+=s.diff(a.f[k],b.f[k],(r,p+(k,)))
            return o
        if isinstance(a,ArrV) and isinstance(b,ArrV) and all(x is y for x,y in zip(a.e,b.e)): return []
        if isinstance(a,Ptr) and isinstance(b,Ptr) and a.lv is not None and b.lv is not None and a.lv.key()==b.lv.key() and a.off is b.off and a.nul is b.nul: return []
        if isinstance(a,Opaque) and isinstance(b,Opaque) and a.id==b.id: return []
        return [at]
    def havoc_at(s,st,root,path):
        lv=LV(root,tuple(('f',p) for p in path))
        if s.havoc_own(st,lv): return
        t=s.lvtype(st,lv)
        s.write(st,lv,s.freshlike(st,s.read(st,lv),t if isinstance(t,str) else None))
    def unroll(s,st,n,cond,body,inc,pre,limit):
        out=[]; cur=[st]; k=0
        while cur:
            k+=1
            if k>limit: raise Unsupported('loop at line %s has no invariant'%n.get('line'))
            nxt=[]
            for q in cur:
                base=len(q.pc)
                t,f=cond(q)
                if t and f and k>s.con.opts.get('symunroll',0): raise Unsupported('loop at line %s has no invariant'%n.get('line'))
                for x in f: out.append(Exit('normal',x))
                for x in s.one(t):
                    if pre: pre(x)
                    for y in s.stmt(x,body):
                        if y.kind in('normal','continue'):
                            if inc: inc(y.st)
                            nxt.append(y.st)
                        elif y.kind=='break': out.append(Exit('normal',y.st))
                        else: out.append(y)
            cur=nxt
            if len(cur)>s.maxpaths: cur=s.one(cur)
        return out
    # ---------------------------------------------------------------- expressions
    def rv(s,st,e,t=None):
        v=s.ev(st,e)
        if isinstance(v,LV): v=s.read(st,v)
        return v
    def lv(s,st,e):
        v=s.ev(st,e)
        if isinstance(v,LV): return v
        return s.temp(st,v,s.nonref(e['t']))
    def tobool(s,v):
        if isinstance(v,Ptr): return Not(v.nul)
        if isinstance(v,Opaque): return fresh('opq',Bool)
        if v.sort==Bool: return v
        if v.sort==Int: return ne(v,0)
        return ne(v,bv(0,v.sort[1]))
    def ev(s,st,e):
        f=getattr(s,'e_'+e['k'],None)
        if f is None: raise Unsupported('expression %s line %s'%(e.get('cls',e['k']),e.get('line')))
        return f(st,e)
    def e_mat(s,st,e):
        v=s.ev(st,e['e'])
        if isinstance(v,LV): return v
        return s.temp(st,v,e['t'])
    def num(s,v,t):
        d=s.intty(t)
        if d is None: return I(int(v))
        if s.ty(t)['k']=='bool': return lift(bool(int(v)))
        return I(int(v)) if s.sort(t)==Int else bv(int(v),d[0])
    def e_int(s,st,e): return s.num(e['v'],e['t'])
    def e_bool(s,st,e): return lift(bool(e['v']))
    def e_null(s,st,e): return NULL
    def e_float(s,st,e): return fresh('float',Int)
    def e_srcloc(s,st,e): return Opaque(e['t'])
    def e_zero(s,st,e): return s.zero(e['t'])
    def e_str(s,st,e):
        r='lit:'+bytes(e['bytes']).hex()
        st.env[r]=sconst(bytes(e['bytes'])+b'\0'); st.types[r]=e['t']
        return LV(r)
    def findvar(s,st,id):
        fr=s.curframe
        while fr is not None:
            if (fr,id) in st.binds: return st.binds[(fr,id)]
            fr=s.frames[fr]['parent']
        return None
    def e_var(s,st,e):
        lv=s.findvar(st,e['id'])
        if lv is not None: return lv
        if e.get('global'):
            if e.get('ext'): 
                h=s.std.extvar(s,st,e)
                if h is not None: return h
                raise Unsupported('external variable '+e['q'])
            return LV('g:%s:%s'%(s.frames[s.curframe]['tu'],e['q']))
        raise Unsupported('variable '+e['n'])
    def e_binding(s,st,e):
        lv=s.findvar(st,e['id'])
        if lv is not None: return lv
        raise Unsupported('binding '+e['n'])
    def e_this(s,st,e):
        fr=s.curframe
        while fr is not None:
            if (fr,'this') in st.binds: return Ptr(st.binds[(fr,'this')],None,FALSE)
            fr=s.frames[fr]['parent']
        raise Unsupported('this')
    def deref(s,st,p,e):
        if isinstance(p,LV): p=s.read(st,p)
        if isinstance(p,Ptr):
            if p.nul is not FALSE: s.check(st,Not(p.nul),'pointer is not null',e=e)
            if p.lv is None: raise Dead()
            if p.off is None:
                if p.lv.path and p.lv.path[-1]==('f','val'):
                    o=s.own(st,LV(p.lv.root,p.lv.path[:-1]))
                    if o is not None: s.check(st,o.f['live'],'pointer to an object that was not released',e=e)
                return p.lv
            L=s.clen(st,p.lv)
            s.check(st,And(le(0,p.off),lt(p.off,L)),'dereference is in bounds',e=e)
            return p.lv.sub(('i',p.off))
        if isinstance(p,MapIt):
            s.check(st,Not(p.end),'dereferenced map iterator is not end()',e=e)
            # pair lvalue
            v=s.read(st,p.lv)
            return ('mapit',p)
        raise Unsupported('dereference of %r'%(p,))
    def e_member(s,st,e):
        b=s.ev(st,e['base'])
        if e.get('arrow'):
            b=s.deref(st,b,e)
        if isinstance(b,tuple) and b[0]=='mapit': return s.mapfield(st,b[1],e['n'])
        if isinstance(b,LV):
            v=s.read(st,b) if not b.path or True else None
            if isinstance(v,Opaque): return LV(s.temp(st,s.fresh(s.nonref(e['t']),'of',st),e['t']).root)
            if getattr(s.P,'guarded',None): s.guardcheck(st,b,e.get('rec',''),e['n'])
            if isinstance(v,Rec) and isinstance(v.f.get(e['n']),Ptr) and s.isreffield(v.ty,e['n']): return v.f[e['n']].lv
            return b.sub(('f',e['n']))
        if isinstance(b,Opaque): return s.fresh(s.nonref(e['t']),'of',st)
        return s.field(b,e['n'])
    def isreffield(s,t,n):
        try: ft=s.ftype(t,n)
        except Unsupported: return False
        return isinstance(ft,str) and ft[0]!='#' and s.ty(ft)['k']=='ref'
    def mapfield(s,st,p,n):
        if n=='second': return p.lv.sub(('m',p.key))
        return p.key
    def e_memfn(s,st,e): raise Unsupported('member function value')
    def e_fn(s,st,e): return FnV(e['f'])
    def e_index(s,st,e):
        b=s.rv(st,e['base']) if e['base']['k']!='cast' or e['base']['ck']!='ArrayToPointerDecay' else s.ev(st,e['base'])
        i=s.rv(st,e['i'])
        return s.index(st,b,i,e)
    def ix(s,st,i,it):
        """index term as Int (signed aware)"""
        return i
    def index(s,st,p,i,e):
        if isinstance(p,LV): p=s.read(st,p)
        if not isinstance(p,Ptr): raise Unsupported('index of %r'%(p,))
        if p.lv is None: raise Unsupported('index of null')
        c=s.read(st,p.lv)
        it=s.intty(e['i']['t']) if 'i' in e else (64,False)
        if isinstance(c,TblV) and p.off is I(0) and isinstance(i.sort,tuple):
            n=i.sort[1]
            g=bvcmp('bvult',i,bv(c.n,n)) if c.n<(1<<n) else TRUE
            s.check(st,g,'index is in bounds',e=e)
            return p.lv.sub(('i',i))
        j=i if i.sort==Int else (sbv2int(i) if it[1] else bv2nat(i))
        k=add(p.off,j) if p.off is not None else j
        if p.off is None: raise Unsupported('index of object pointer')
        s.check(st,And(le(0,k),lt(k,s.vlen(c))),'index is in bounds',e=e)
        return p.lv.sub(('i',k))
    def e_copyarr(s,st,e): return s.rv(st,e['e'])
    # --- conversions
    def conv(s,v,ft,tt):
        """integral conversion"""
        if isinstance(v,Opaque): raise Unsupported('conversion of opaque')
        fd=s.intty(ft); td=s.intty(tt)
        if s.ty(s.nonref(tt))['k']=='bool': return s.tobool(v)
        tb,tsg=td
        so=s.sort(tt)
        if v.sort==Bool:
            return ite(v,I(1),I(0)) if so==Int else ite(v,bv(1,tb),bv(0,tb))
        fb,fsg=fd
        if v.sort==Int:
            if so==Int:
                if fsg==tsg: return v
                if tsg:
                    if isconst(v): return I(v.args[0]-(1<<64) if v.args[0]>=(1<<63) else v.args[0])
                    lo,hi=tm._rng(v)
                    if hi is not None and hi<(1<<63): return v
                    if v.op=='len': return v        # no container holds 2^48 elements (assumed throughout)
                    return ite(lt(v,1<<63),v,v-(1<<64))
                if isconst(v): return I(v.args[0]%(1<<64))
                lo,hi=tm._rng(v)
                if lo is not None and lo>=0: return v
                return ite(le(0,v),v,v+(1<<64))
            return int2bv(v,tb)
        # from BV
        if so==Int:
            r=sbv2int(v) if fsg else bv2nat(v)
            if not tsg and fsg:
                lo,hi=tm._rng(r)
                if lo is None or lo<0: r=ite(le(0,r),r,r+(1<<64))
            return r
        n=v.sort[1]
        if tb==n: return v
        if tb<n: return extract(v,tb-1,0)
        return sext(v,tb) if fsg else zext(v,tb)
    def e_cast(s,st,e):
        ck=e['ck']; sub=e['e']
        if ck=='LValueToRValue': 
            v=s.ev(st,sub)
            return s.read(st,v) if isinstance(v,LV) else v
        if ck in('NoOp','ConstructorConversion','UserDefinedConversion','DerivedToBase','UncheckedDerivedToBase','FunctionToPointerDecay','BaseToDerived','BuiltinFnToFnPtr'): 
            return s.ev(st,sub)
        if ck=='LValueBitCast' : raise Unsupported('cast '+ck)
        if ck=='IntegralCast': return s.conv(s.rv(st,sub),sub['t'],e['t'])
        if ck=='IntegralToBoolean': return s.tobool(s.rv(st,sub))
        if ck=='PointerToBoolean': return s.tobool(s.rv(st,sub))
        if ck=='NullToPointer': return NULL
        if ck=='ArrayToPointerDecay':
            v=s.ev(st,sub)
            if not isinstance(v,LV): v=s.temp(st,v,sub['t'])
            return Ptr(v,I(0),FALSE,s.elem(sub['t']))
        if ck=='BitCast': 
            v=s.rv(st,sub)
            if isinstance(v,Ptr): 
                el=s.ty(e['t']).get('to')
                fe=s.ty(sub['t']).get('to')
                if el and fe:
                    a=s.intty(el) if s.ty(el)['k'] in('int','enum') else None; b=s.intty(fe) if s.ty(fe)['k'] in('int','enum') else None
                    if a and b and a[0]==b[0]: return Ptr(v.lv,v.off,v.nul,el)
                    if s.ty(el)['k']=='void': return v
                    if s.ty(fe)['k']=='rec' and b is None and a and a[0]==8 and v.off is None: return Ptr(v.lv,None,v.nul,'void') # bytes of an object: only models that know the object can look at them
                    if s.ty(fe)['k']=='void' and (v.el is None or s.intty(el)==s.intty(v.el) or True): return v
                return s.std.bitcast(s,st,v,sub['t'],e['t'])
            return v
        if ck=='ToVoid': s.ev(st,sub); return None
        if ck in('IntegralToFloating','FloatingCast','FloatingToIntegral','FloatingToBoolean'):
            v=s.rv(st,sub); fb=s.ty(e['t']).get('bits',0); d=s.ty(sub['t'])
            if ck=='FloatingCast' and fb>=d.get('bits',999): return v      # widening keeps the value
            if ck=='IntegralToFloating' and isinstance(v,T) and isinstance(v.sort,tuple) and v.sort[0]=='BV' and v.sort[1]<=32 and fb>=64: return sbv2int(v) if s.intty(sub['t'])[1] else bv2nat(v)     # exact
            return s.fresh(e['t'],'flt',st)
        if ck=='Dynamic': return s.ev(st,sub)
        if ck=='PointerToIntegral': 
            v=s.rv(st,sub); return s.fresh(e['t'],'ptrint',st)
        raise Unsupported('cast '+ck)
    # --- operators
    def arith(s,st,op,a,b,t,e,bt=None):
        """a op b in type t"""
        if isinstance(a,Opaque) or isinstance(b,Opaque): return s.fresh(t,'arith',st)
        d=s.ty(t)
        if d['k']=='float': return fresh('flt',Int)
        bits,sg=s.intty(t)
        if a.sort==Bool: a=s.conv(a,'bool',t)
        if b.sort==Bool: b=s.conv(b,'bool',t)
        if a.sort==Int:
            if op in('<<','>>') and b.sort!=Int: b=bv2nat(b)
            if b.sort!=Int: b=bv2nat(b)
            if op in('+','-') and not sg:
                if op=='+' and s.nposof(b) is not None: a,b=b,a
                q=s.nposof(a)
                if q is not None:
                    big=s.wrap(st,add(a.args[1],b) if op=='+' else sub(a.args[1],b),sg,e,op)
                    if op=='-':
                        d0=sub(q.args[-1],b); lo,_=tm._rng(d0)     # found at or after the start index
                        small=sub(q,b) if (lo is not None and lo>=0) or s.nonnegfact(st,d0) else s.wrap(st,sub(q,b),sg,e,op)
                    else: small=s.wrap(st,add(q,b),sg,e,op)
                    return ite(a.args[0],big,small)
            if op in('+','-','*'):
                r={'+':add,'-':sub,'*':mul}[op](a,b)
                return s.wrap(st,r,sg,e,op)
            if op in('/','%'):
                s.check(st,ne(b,0),'division by zero',e=e)
                if sg:
                    la,_=tm._rng(a); lb,_=tm._rng(b)
                    if not(la is not None and la>=0 and lb is not None and lb>=0):
                        s.check(st,And(le(0,a),lt(0,b)),'signed division of non-negative numbers (model restriction)',e=e)
                return div(a,b) if op=='/' else mod(a,b)
            if op=='<<':
                if isconst(b):
                    s.check(st,lt(b,64),'shift amount below width',e=e)
                    r=mul(a,1<<b.args[0])
                    if sg: return s.wrap(st,r,sg,e,op)
                    lo,hi=tm._rng(r)
                    return r if hi is not None and hi<(1<<64) else mod(r,1<<64)
                raise Unsupported('64-bit shift by variable')
            if op=='>>':
                if isconst(b): return div(a,1<<b.args[0])
                raise Unsupported('64-bit shift by variable')
            if op=='&':
                for x,y in((a,b),(b,a)):
                    if isconst(y):
                        m=y.args[0]
                        if m>=0 and (m&(m+1))==0: return mod(x,m+1)
                raise Unsupported('64-bit &')
            if op=='|':
                if isconst(a) and a.args[0]==0: return b
                if isconst(b) and b.args[0]==0: return a
                return s.or64(st,a,b,e)
            raise Unsupported('64-bit '+op)
        n=a.sort[1]
        if op in('<<','>>'):
            if b.sort==Int: b=int2bv(b,n)
            bn=b.sort[1]
            s.check(st,bvcmp('bvult',b,bv(n,bn)),'shift amount below width',e=e)
            b=zext(b,n) if bn<n else extract(b,n-1,0) if bn>n else b
            if op=='<<': return bvop('bvshl',a,b)
            return bvop('bvashr' if sg else 'bvlshr',a,b)
        if op in('+','-','*') and sg:
            m=n*2 if op=='*' else n+1
            f={'+':'bvadd','-':'bvsub','*':'bvmul'}[op]
            ra,rb=tm._bvrng(a,True),tm._bvrng(b,True)
            c=[x for x in ({'+':[ra[0]+rb[0],ra[1]+rb[1]],'-':[ra[0]-rb[1],ra[1]-rb[0]],'*':[x*y for x in ra for y in rb]}[op])]
            if min(c)<-(1<<(n-1)) or max(c)>=(1<<(n-1)):
                w=bvop(f,sext(a,m),sext(b,m))
                s.check(st,eq(w,sext(bvop(f,a,b),m)),'no signed overflow in %s'%op,e=e)
        if op in('/','%'):
            s.check(st,ne(b,bv(0,n)),'division by zero',e=e)
            if sg: s.check(st,Not(And(eq(a,bv(1<<(n-1),n)),eq(b,bv(-1,n)))),'no signed overflow in /',e=e)
        o={'+':'bvadd','-':'bvsub','*':'bvmul','&':'bvand','|':'bvor','^':'bvxor','/':'bvsdiv' if sg else 'bvudiv','%':'bvsrem' if sg else 'bvurem'}[op]
        return bvop(o,a,b)
    def or64(s,st,a,b,e):
        # disjoint or: provable when one is a multiple of 2^k and the other below 2^k
        def tz(t):
            if isint(t): v=t.args[0]; return 64 if v==0 else (v&-v).bit_length()-1
            if t.op=='*' or t.op=='mul': return sum(tz(x) for x in t.args)
            if t.op in('+','add'): return min(tz(x) for x in t.args)
            if t.op=='ite': return min(tz(t.args[1]),tz(t.args[2]))
            return 0
        c=[]
        for x,y in((a,b),(b,a)):
            lo,hi=tm._rng(x)
            if hi is None or lo is None or lo<0: continue
            k=max(hi,0).bit_length()
            if tz(y)>=k: return add(x,y)
            c.append((k,x,y))
        for k,x,y in sorted(c,key=lambda z:z[0]):
            s.check(st,And(eq(mod(y,1<<k),0)),'operands of | have no common bits',e=e)
            return add(x,y)
        raise Unsupported('64-bit |')
    def nposof(s,a):
        """r when a is npos-if-not-found of the search result r"""
        if a.op=='ite' and a.args[1].op=='int' and a.args[1].args[0]==(1<<64)-1:
            r=a.args[2]
            if r.op=='app' and FUN[r.args[0]].index and r.args[0]!='zpos' and len(r.args)>2 and r.args[-1].sort==Int and a.args[0] is eq(r,I(-1)): return r
    def wrap(s,st,r,sg,e,op):
        if isconst(r):
            v=r.args[0]
            if sg: s.check(st,lift(-(1<<63)<=v<(1<<63)),'no signed overflow in %s'%op,e=e); return r
            return I(v%(1<<64))
        lo,hi=tm._rng(r)
        if sg:
            s.check(st,And(le(-(1<<63),r),lt(r,1<<63)),'no signed overflow in %s'%op,e=e); return r
        lo_ok=lo is not None and lo>=0
        if op=='*': 
            if lo_ok and hi is not None and hi<(1<<64): return r
            if s.smallfact(st,r): return r
            return mod(r,1<<64)
        if op=='+':
            if hi is not None and hi<(1<<64): return r
            if s.smallfact(st,r): return r
            return ite(lt(r,1<<64),r,r-(1<<64))
        if lo_ok: return r
        if s.nonnegfact(st,r): return r
        return ite(le(0,r),r,r+(1<<64))
    def bounds(s,st):
        """upper/lower bounds of atoms syntactically present in the path condition"""
        ub={}; lb={}
        for _,t in st.pc[-400:]:
            if t.op in('le','lt'):
                a,b=t.args
                d=sub(b,a)           # d >= 0 (or > 0)
                yield d,(1 if t.op=='lt' else 0)
            elif t.op=='=' and t.args[0].sort==Int:
                d=sub(t.args[0],t.args[1]); yield d,0; yield -d,0
    def nonnegfact(s,st,r):
        """r>=0 follows from one or two facts syntactically"""
        ds=list(s.bounds(st))
        for d,k in ds:
            x=sub(r,d); lo,_=tm._rng(x)
            if lo is not None and lo>=-k: return True
        for i,(d,k) in enumerate(ds):
            x=sub(r,d)
            if x.op!='lin' and x.op!='int': pass
            for d2,k2 in ds[:i]:
                y=sub(x,d2); lo,_=tm._rng(y)
                if lo is not None and lo>=-(k+k2): return True
        return False
    def smallfact(s,st,r):
        return s.nonnegfact(st,sub(I((1<<64)-1),r))
    def cmp(s,op,a,b,t):
        """comparison of two scalars of type t"""
        if isinstance(a,Ptr) or isinstance(b,Ptr): return s.ptrcmp(op,a,b)
        if op=='==': return eq(a,b)
        if op=='!=': return ne(a,b)
        if a.sort==Int: return {'<':lt(a,b),'<=':le(a,b),'>':lt(b,a),'>=':le(b,a)}[op]
        sg=s.intty(t)[1]
        o={'<':'lt','<=':'le','>':'gt','>=':'ge'}[op]
        if a.sort==Bool: a=ite(a,bv(1,8),bv(0,8)); b=ite(b,bv(1,8),bv(0,8)); sg=False
        return bvcmp('bv'+('s' if sg else 'u')+o,a,b)
    def ptrcmp(s,op,a,b):
        if isinstance(a,Opaque) or isinstance(b,Opaque): 
            if isinstance(a,Opaque) and isinstance(b,Ptr) and b.lv is None or isinstance(b,Opaque) and isinstance(a,Ptr) and a.lv is None:
                o=a if isinstance(a,Opaque) else b
                r=var('null_opaque_%s'%o.id,Bool); return r if op=='==' else Not(r)
            return fresh('pcmp',Bool)
        if a.lv is None and b.lv is None: r=TRUE
        elif a.lv is None: r=b.nul
        elif b.lv is None: r=a.nul
        elif a.lv.key()==b.lv.key():
            if a.off is None: r=TRUE
            elif op in('==','!='): r=eq(a.off,b.off)
            else: return {'<':lt(a.off,b.off),'<=':le(a.off,b.off),'>':lt(b.off,a.off),'>=':le(b.off,a.off)}[op]
        else: r=FALSE
        if op=='==': return r
        if op=='!=': return Not(r)
        raise Unsupported('pointer comparison')
    def e_bin(s,st,e):
        op=e['op']
        if op in('&&','||'):
            t,f=s.branch(st.clone(),e)
            items=[(x,TRUE) for x in t]+[(x,FALSE) for x in f]
            if not items: raise Dead()
            st2,v=s.join(items); s.become(st,st2); return v
        if op==',': s.ev(st,e['l']); return s.ev(st,e['r'])
        if op=='=':
            v=s.rv(st,e['r']); l=s.ev(st,e['l']); s.write(st,l,v); return l
        a=s.rv(st,e['l']); b=s.rv(st,e['r'])
        if op in('==','!=','<','<=','>','>='): 
            return s.cmp(op,a,b,e['l']['t'])
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if isinstance(a,Ptr) and isinstance(b,Ptr) and op=='-':
                if a.lv.key()!=b.lv.key(): raise Unsupported('pointer difference')
                return sub(a.off,b.off)
            if isinstance(b,Ptr): a,b=b,a; bt=e['l']['t']
            else: bt=e['r']['t']
            return s.ptradd(st,a,b,bt,op,e)
        return s.arith(st,op,a,b,e['t'],e)
    def ptradd(s,st,p,k,kt,op,e):
        if k.sort!=Int: k=sbv2int(k) if s.intty(kt)[1] else bv2nat(k)
        if p.off is None: raise Unsupported('pointer arithmetic on object')
        o=add(p.off,k) if op=='+' else sub(p.off,k)
        s.check(st,And(le(0,o),le(o,s.clen(st,p.lv))),'pointer arithmetic stays in the buffer',e=e)
        return Ptr(p.lv,o,p.nul,p.el)
    def e_assignop(s,st,e):
        r=s.rv(st,e['r']); l=s.ev(st,e['l']); a=s.read(st,l)
        if isinstance(a,Ptr): v=s.ptradd(st,a,r,e['r']['t'],e['op'],e)
        else:
            lt_=e['l']['t']; ct=e['ct']
            a2=s.conv(a,lt_,e.get('clt',ct)) if lt_!=e.get('clt',ct) else a
            v=s.arith(st,e['op'],a2,r,ct,e)
            if ct!=lt_: v=s.conv(v,ct,lt_)
        s.write(st,l,v); return l
    def e_un(s,st,e):
        op=e['op']
        if op in('++','--'):
            l=s.ev(st,e['e']); a=s.read(st,l); t=e['e']['t']
            if isinstance(a,Ptr): v=s.ptradd(st,a,I(1),'unsigned long','+' if op=='++' else '-',e)
            else:
                bits,sg=s.intty(t)
                if a.sort!=Int and bits<32:
                    v=extract(bvop('bvadd' if op=='++' else 'bvsub',zext(a,32),bv(1,32)),bits-1,0)
                else:
                    v=s.arith(st,'+' if op=='++' else '-',a,s.num(1,t),t,e)
            s.write(st,l,v)
            return a if e['post'] else l
        if op=='!': return Not(s.tobool(s.rv(st,e['e'])))
        if op=='&':
            v=s.ev(st,e['e'])
            if not isinstance(v,LV):
                if isinstance(v,FnV): return v
                raise Unsupported('address of value')
            if v.path and v.path[-1][0]=='i': return Ptr(LV(v.root,v.path[:-1]),s.toint(v.path[-1][1]),FALSE,e['e']['t'])
            return Ptr(v,None,FALSE,e['e']['t'])
        if op=='*': 
            r=s.deref(st,s.rv(st,e['e']),e)
            return r
        v=s.rv(st,e['e'])
        if op=='-':
            if s.ty(e['t'])['k']=='float': return fresh('flt',Int)
            if v.sort==Int: return s.wrap(st,-v,s.intty(e['t'])[1],e,'-')
            if s.intty(e['t'])[1]: s.check(st,ne(v,bv(1<<(v.sort[1]-1),v.sort[1])),'no signed overflow in negation',e=e)
            return bvneg(v)
        if op=='+': return v
        if op=='~':
            if v.sort==Int: return s.wrap(st,sub(-v,1),False,e,'-') if not s.intty(e['t'])[1] else sub(-v,1)
            return bvnot(v)
        raise Unsupported('unary '+op)
    def e_cond(s,st,e):
        t,f=s.branch(st.clone(),e['c'])
        items=[]
        lval=e.get('lv')=='l'
        for sts,br in((t,e['a']),(f,e['b'])):
            for q in sts:
                try: 
                    v=s.ev(q,br)
                    if isinstance(v,LV): v=s.read(q,v)
                    if v is None and br['k']=='throw': continue
                    items.append((q,v))
                except Dead: pass
        if not items: raise Dead()
        # decay different string literals to a common representation
        vs=[v for _,v in items]
        if len(vs)>1 and all(isinstance(v,Ptr) and v.lv is not None for v in vs) and len(set(v.lv.key() for v in vs))>1:
            it2=[]
            for q,v in items:
                buf=s.read(q,v.lv)
                if isinstance(buf,TblV) or v.off is None: raise Unsupported('conditional pointer')
                bt=s.to_term(buf); it2.append((q,drop(bt,v.off) if v.off is not I(0) else bt))
            st2,v=s.join(it2); s.become(st,st2)
            return Ptr(s.temp(st,v,('buf',vs[0].el),'condlit'),I(0),FALSE,vs[0].el)
        if len(vs)>1 and all(isinstance(v,ArrV) or isinstance(v,T) for v in vs):
            items=[(q,s.to_term(v)) if not all(isinstance(x,ArrV) for x in vs) else (q,v) for q,v in items]
        st2,v=s.join(items); s.become(st,st2)
        return v
    def e_throw(s,st,e):
        if 'e' in e:
            v=s.rv(st,e['e']); t=s.nonref(e['e']['t']); tn=s.ty(t).get('name',t)
        else:
            v=None; ce=getattr(s,'curexc',None); tn=ce.ty if ce else 'std::exception'
        s.pend.append(Exit('throw',st.clone(),Exc(tn,v,'throw at line %s'%e.get('line'))))
        raise Dead()
    def e_stdinit(s,st,e):
        v=s.rv(st,e['e']); return v
    def e_initlist(s,st,e):
        t=e['t']; d=s.ty(t)
        if d['k']=='array':
            vals=[s.conv_init(st,a,d['of']) for a in e['args']]
            while len(vals)<d['n']: vals.append(s.zero(d['of']) )
            if d['n']>64: 
                if all(isinstance(x,T) and isconst(x) for x in vals) and len(set(vals))==1: return rep(vals[0],I(d['n']))
                return slist([s.to_term(x) for x in vals])
            return ArrV(vals)
        if d['k']=='rec':
            r=s.P.recs.get(d['name'])
            if r and r['union']: raise Unsupported('union init list') if e['args'] else Unsupported('u')
            if r:
                f={}
                ai=0
                for b in r['bases']:
                    bv_=s.rv(st,e['args'][ai]); ai+=1
                    if isinstance(bv_,Rec): f.update(bv_.f)
                for fl,a in zip(r['fields'],e['args'][ai:]): f[fl['name']]=s.conv_init(st,a,fl['type'])
                for fl in r['fields']:
                    if fl['name'] not in f: f[fl['name']]=s.default(st,fl['type'])
                return Rec(t,f)
            return s.std.initlist(s,st,t,e)
        if len(e['args'])==1: return s.rv(st,e['args'][0])
        if not e['args']: return s.zero(t)
        raise Unsupported('init list')
    def e_lambda(s,st,e):
        caps={}
        for c in e['caps']:
            if c.get('this'): continue
            lv=s.findvar(st,c['id'])
            if lv is None: continue
            if not c['byref']: caps[c['id']]=(c['n'],s.read(st,lv),c['t'])
        return Clo(e,s.curframe,s.frames[s.curframe]['tu'],caps)
    def call_closure(s,st,c,args,e):
        fr=s.newframe(None,c.tu,parent=c.frame); s.frames[fr]['ret']=c.e['ret']
        s.frames[fr]['func']=None
        for k,(n,v,t) in c.caps.items():
            r='f%d:%d:%s'%(fr,k,n); st.env[r]=v; st.types[r]=s.nonref(t); s.bind(st,fr,k,n,LV(r))
        for p,a in zip(c.e['params'],args): s.bind(st,fr,p['id'],p['n'],a)
        # loops inside a lambda take their specification from the enclosing function
        f=c.frame; 
        while s.frames[f]['func'] is None and s.frames[f]['parent'] is not None: f=s.frames[f]['parent']
        s.frames[fr]['func']=s.frames[f]['func']; s.frames[fr]['args']=s.frames[f]['args']; s.frames[fr]['entry']=s.frames[f].get('entry')
        s.frames[fr]['names'].update(s.frames[f]['names'])
        return s.runbody(st,None,fr,c.e['body'],e)
    def e_new(s,st,e): return s.std.new(s,st,e)
    def e_delete(s,st,e): 
        p=s.rv(st,e['e'])
        if isinstance(p,Ptr) and p.lv is not None and p.lv.path and p.lv.path[-1]==('f','val'):
            ol=LV(p.lv.root,p.lv.path[:-1]); o=s.own(st,ol)
            if o is not None:
                s.check(st,Or(p.nul,o.f['live']),'released only once',e=e); s.write(st,ol,Rec(o.ty,{'has':o.f['has'],'live':FALSE,'val':o.f['val']})); return None
        if isinstance(p,Ptr): raise Unsupported('delete')
        return None
    # --- calls
    def pass_args(s,st,params,args):
        out=[]
        for pt,a in zip(params,args):
            d=s.ty(pt)
            if d['k']=='ref':
                v=s.ev(st,a)
                if not isinstance(v,LV): v=s.temp(st,v,d['to'],'arg')
                out.append(v)
            else:
                out.append(s.temp(st,s.conv_init(st,a,pt),pt,'arg'))
        return out
    def call_repo(s,st,f,args,thislv,e):
        key=f['name']+f['sig']
        con=s.C.get(key)
        F=s.P.find(key,s.frames[s.curframe]['tu'])
        if con is None and F is None: con=getattr(s.P,'abstract',{}).get(s.P.short(key)) if getattr(s.P,'abstract',None) else None
        al=s.pass_args(st,f['params'],args)
        if con is not None and not con.inline and not (F is not None and s.con.opts.get('inline') and key in s.con.opts['inline']):
            v=s.apply_contract(st,F,con,al,thislv,e,f['name'],f['ret'],f['params'])
            return v
        if F is None: raise Unsupported('no body for '+key)
        if f.get('virtual') and not e.get('qual') and s.con.opts.get('virtual',True):
            raise Unsupported('virtual call of %s needs a contract'%key)
        return s.inline(st,F,al,thislv,e)
    def retwrap(s,st,f,v):
        return v
    def e_call(s,st,e):
        f=e.get('f')
        if f is None:
            v=s.rv(st,e['fe'])
            if isinstance(v,FnV): f=v.f
            elif isinstance(v,Clo): return s.call_closure(st,v,[s.lv(st,a) for a in e['args']],e)
            else: raise Unsupported('indirect call')
        if f.get('repo') and not f.get('implicit'): return s.call_repo(st,f,e['args'],None,e)
        return s.std.call(s,st,f,e['args'],e)
    def objlv(s,st,e):
        o=s.ev(st,e['obj'])
        if e.get('arrow'): o=s.deref(st,o,e)
        if isinstance(o,tuple): raise Unsupported('map pair object')
        if not isinstance(o,LV): o=s.temp(st,o,s.nonref(e['obj']['t']) if not e.get('arrow') else s.ty(e['obj']['t'])['to'],'obj')
        return o
    def e_mcall(s,st,e):
        f=e['f']
        if f.get('repo') and not f.get('implicit'):
            o=s.objlv(st,e)
            return s.call_repo(st,f,e['args'],o,e)
        if f.get('implicit'): return s.implicit(st,f,e)
        return s.std.method(s,st,f,e,e['args'])
    def implicit(s,st,f,e): 
        raise Unsupported('implicit member '+f['name'])
    def e_opcall(s,st,e):
        f=e.get('f')
        if f is None: raise Unsupported('operator call')
        if e['op']=='()' and f['name'].startswith('lambda#'):
            v=s.rv(st,e['args'][0])
            if isinstance(v,Clo): return s.call_closure(st,v,s.pass_args(st,f['params'],e['args'][1:]),e)
            raise Unsupported('call of lambda')
        if f.get('repo') and not f.get('implicit'):
            if e.get('method'):
                o=s.ev(st,e['args'][0])
                if not isinstance(o,LV): o=s.temp(st,o,s.nonref(e['args'][0]['t']))
                return s.call_repo(st,f,e['args'][1:],o,e)
            return s.call_repo(st,f,e['args'],None,e)
        if e['op']=='=' and (f.get('copyassign') or f.get('moveassign')):
            v=s.rv(st,e['args'][1]); l=s.ev(st,e['args'][0])
            if f.get('moveassign') and isinstance(l,LV): s.std.moved(s,st,e['args'][1])
            s.write(st,l,v); return l
        return s.std.oper(s,st,f,e)
    def e_ctor(s,st,e):
        f=e['f']; t=e['t']
        d=s.ty(t)
        if d['k']=='array': return s.default(st,t)
        if d.get('atomic'): return s.rv(st,e['args'][0]) if e['copy'] or e['move'] else s.fresh(t,'atom',st)
        if (e['copy'] or e['move']) and (f.get('implicit') or not f.get('repo')): 
            v=s.rv(st,e['args'][0])
            return v
        if f.get('repo') and not f.get('implicit'):
            key=f['name']+f['sig']
            con=s.C.get(key)
            F=s.P.find(key,s.frames[s.curframe]['tu'])
            o=s.temp(st,s.default(st,s.uncv(t)) if not isinstance(s.ty(t),str) else None,s.uncv(t),'obj')
            s.call_repo(st,f,e['args'],o,e)
            return s.read(st,o)
        if f.get('implicit') and f.get('repo'):
            if e['default'] or not e['args']:
                return s.default(st,s.uncv(t)) if not e.get('zero') else s.zerodef(st,s.uncv(t))
            raise Unsupported('implicit ctor')
        if f.get('implicit') and not e['args'] and not s.isstd(t) and s.ty(s.uncv(t)).get('name') in s.P.recs: return s.default(st,s.uncv(t)) if not e.get('zero') else s.zerodef(st,s.uncv(t))
        return s.std.ctor(s,st,f,e)
    def zerodef(s,st,t):
        z=s.zero(t)
        d=s.default(st,t)
        # value-init: zero then default member initialisers
        r=s.P.recs.get(s.ty(t)['name'])
        if isinstance(z,Rec) and r:
            for fl in r['fields']:
                if 'init' in fl or (isinstance(fl['type'],str) and fl['type'][0]!='#' and s.ty(fl['type'])['k']=='rec'): z=z.set(fl['name'],d.f[fl['name']])
        return z
    def uncv(s,t):
        if t.startswith('const '): 
            u=t[6:]
            if u in s.P.types: return u
        return t

def keysfun(ds):
    """the keys present, in iteration order (each once)"""
    ks=ds[1]; f='keys_'+mangle(str(ds))
    if f not in FUN:
        F=Fun(f,[ds],Seq(ks)); kp=Fun('kpos_'+f,[ds,ks],Int)
        def facts(r,d):
            return [forall([Int],lambda i:Implies(And(le(0,i),lt(i,slen(r))),And(select(d,nth(r,i)),eq(kp(d,nth(r,i)),i))),pats=lambda i:[[nth(r,i)]]),
                    forall([ks],lambda k:Implies(select(d,k),And(le(0,kp(d,k)),lt(kp(d,k),slen(r)),eq(nth(r,kp(d,k)),k))),pats=lambda k:[[kp(d,k)],[select(d,k)]])]
        F.facts=facts; F.kpos=kp
    return FUN[f]
def instances(t,limit=40):
    """all instances of a quantified fact over a short constant range of integers"""
    if t.op!='forall' or len(t.args[0])!=1 or t.args[0][0].sort!=Int or t.args[1].op!='=>': return []
    q=t.args[0][0]; b=t.args[1].args[0]; lo=hi=None
    for x in (b.args if b.op=='and' else (b,)):
        if x.op in('le','lt'):
            u,v=x.args; k=1 if x.op=='lt' else 0
            if v is q and isconst(u): lo=u.args[0]+k if lo is None else max(lo,u.args[0]+k)
            if u is q and isconst(v): hi=v.args[0]-k if hi is None else min(hi,v.args[0]-k)
    if lo is None or hi is None or hi-lo>=limit: return []
    return [z for z in (tm.subst(t.args[1],{q:I(i)}) for i in range(lo,hi+1)) if z is not TRUE]
tm_MAX=1<<48
def norm(l):
    if l is None: return []
    if isinstance(l,T): return [('1',l)]
    out=[]
    for i,x in enumerate(l):
        n,x=x if isinstance(x,tuple) else (str(i+1),x)
        out.append((n,x if isinstance(x,(By,Hint)) else lift(x)))
    return out
def RecS(name,*fs):
    """sort of a repo record; must list exactly its fields (a changed record is then a different sort: Unsupported)"""
    return declare_dt(mangle('Lambda::'+name),list(fs))
