"""Assumed contracts of the C++ standard library and libc (the trusted models).
Every model used in a run is listed in the evidence (ex.std_used)."""
from .term import *
from . import term as tm
from .ex import *
from .ex import tm_MAX
NPOS=(1<<64)-1

# ---------------------------------------------------------------- spec functions shared with contracts
def _findc_facts(r,s,c,i):
    return [And(le(-1,r),lt(r,imax(slen(s),I(0)))),
            Or(eq(r,-1),And(le(i,r),le(0,r),lt(r,slen(s)),eq(nth(s,r),c))),
            forall([Int],lambda k:Implies(And(le(i,k),le(0,k),lt(k,slen(s)),Or(eq(r,-1),lt(k,r))),ne(nth(s,k),c)),pats=lambda k:[[nth(s,k)]])]
def _findc_simp(s,c,i):
    b=cbytes(s)
    if b is not None and isbv(c) and isint(i): return I(b.find(bytes([c.args[0]]),max(0,i.args[0])) if i.args[0]<=len(b) else -1)
findc=Fun('findc',[Bytes,BV8,Int],Int,facts=_findc_facts,simp=_findc_simp)
def matchat(s,t,k): return eq(ext(s,k,slen(t)),t)
def _finds_facts(r,s,t,i):
    return [And(le(-1,r),le(r,slen(s))),
            Or(eq(r,-1),And(le(i,r),le(0,r),le(r+slen(t),slen(s)),Or(eq(slen(t),0),matchat(s,t,r)))),
            Implies(And(eq(slen(t),0),le(0,i),le(i,slen(s))),eq(r,i)),
            forall([Int],lambda k:Implies(And(le(i,k),le(0,k),le(k+slen(t),slen(s)),Or(eq(r,-1),lt(k,r))),Not(matchat(s,t,k))),pats=lambda k:[[ext(s,k,slen(t))]])]
def _finds_simp(s,t,i):
    b=cbytes(s);c=cbytes(t)
    if b is not None and c is not None and isint(i): return I(b.find(c,i.args[0])) if 0<=i.args[0]<=len(b) else I(-1)
    if c is not None and len(c)==1: return findc(s,bv(c[0],8),i)
finds=Fun('finds',[Bytes,Bytes,Int],Int,facts=_finds_facts,simp=_finds_simp)
findc.index=finds.index=True
def inset(c,bs): return Or(*[eq(c,bv(b,8)) for b in sorted(set(bs))])
_fo={}
def find_first_of(bs):
    """first index >= i whose byte is in the constant set bs, -1 if none"""
    bs=bytes(sorted(set(bs)))
    n='ffo_'+bs.hex()
    if n not in FUN:
        Fun(n,[Bytes,Int],Int,facts=lambda r,s,i:[And(le(-1,r),lt(r,slen(s))),Or(eq(r,-1),And(le(i,r),le(0,r),inset(nth(s,r),bs))),
            forall([Int],lambda k:Implies(And(le(i,k),le(0,k),lt(k,slen(s)),Or(eq(r,-1),lt(k,r))),Not(inset(nth(s,k),bs))),pats=lambda k:[[nth(s,k)]])]).index=True
    return FUN[n]
def find_last_of(bs):
    bs=bytes(sorted(set(bs)))
    n='flo_'+bs.hex()
    if n not in FUN:
        Fun(n,[Bytes],Int,facts=lambda r,s:[And(le(-1,r),lt(r,slen(s))),Or(eq(r,-1),inset(nth(s,r),bs)),
            forall([Int],lambda k:Implies(And(lt(r,k),le(0,k),lt(k,slen(s))),Not(inset(nth(s,k),bs))),pats=lambda k:[[nth(s,k)]])]).index=True
    return FUN[n]
def zpos(s): return findc(s,B8(0),I(0))
def npos(r): return ite(eq(r,-1),I(NPOS),r)
def dec_simp(n):
    if isint(n): return sconst(str(n.args[0]).encode())
def _dec_facts(r,n):
    return [And(le(1,slen(r)),lt(slen(r),22)),Implies(le(0,n),lt(slen(r),21)),Implies(And(le(I(-999999999),n),le(n,I(9999999999))),le(slen(r),10)),Implies(And(le(I(-9999999999),n),le(n,I(9999999999))),le(slen(r),11)),allk(I(0),slen(r),lambda k:Or(And(bvcmp('bvule',B8('0'),nth(r,k)),bvcmp('bvule',nth(r,k),B8('9'))),And(lt(n,0),eq(nth(r,k),B8('-')))),pat=lambda k:nth(r,k))]
decimal=Fun('decimal',[Int],Bytes,facts=_dec_facts,simp=dec_simp)     # std::to_string

# maps in specifications
@specfn([Seq(Bytes),Int],Arr(Bytes,Bool))
def setof(q,i): return ite(le(i,0),constarr(Bytes,FALSE),store(setof(q,i-1),nth(q,i-1),TRUE))
def mempty(k,v): return dcons(MapS(k,v)[1],[constarr(k,FALSE),zsort(Arr(k,v)),I(0)])
def mhas(m,k): return select(dsel(m,'dom'),k)
def mget(m,k): return select(dsel(m,'val'),k)
def mput(m,k,v): return dcons(m.sort[1],[store(dsel(m,'dom'),k,TRUE),store(dsel(m,'val'),k,v),ite(mhas(m,k),dsel(m,'n'),dsel(m,'n')+1)])
def mdel(m,k): return dcons(m.sort[1],[store(dsel(m,'dom'),k,FALSE),dsel(m,'val'),ite(mhas(m,k),dsel(m,'n')-1,dsel(m,'n'))])
def keysof(m): return keysfun(dsel(m,'dom').sort)(dsel(m,'dom'))
OPENMODE={'std::ios_base::app':1,'std::ios_base::ate':2,'std::ios_base::binary':4,'std::ios_base::in':8,'std::ios_base::out':16,'std::ios_base::trunc':32,'std::ios_base::beg':0,'std::ios_base::cur':1,'std::ios_base::end':2}
def rep_fresh(st,m):
    w=fresh('partial',Bytes); st.assume(eq(slen(w),m)); return w
class CMap:
    def __init__(s,ty,items): s.ty=ty; s.items=items   # later entries never override earlier (insert semantics)
# the zlib formats (assumed): length of the complete stream of a kind (1 gzip, 2 zlib, 3 raw, 0 gzip or zlib) at the start of the bytes or -1, what it decodes to, and 'no stream starts with these bytes'
zlen=Fun('zlen',[Int,Bytes],Int,facts=lambda r,k,s:[le(-1,r),le(r,slen(s)),ne(r,I(0))])
zplain=Fun('zplain',[Int,Bytes],Bytes)
zbad=Fun('zbad',[Int,Bytes],Bool)
bplain=Fun('bplain',[Bytes],Bytes); blen=Fun('blen',[Bytes],Int,facts=lambda r,s:[le(-1,r),le(r,slen(s)),ne(r,I(0))]); bbad=Fun('bbad',[Bytes],Bool)      # brotli
# calendar (assumed: gmtime_r and strftime of the C library, UTC, C locale)
TMF=('tm_sec','tm_min','tm_hour','tm_mday','tm_mon','tm_year','tm_wday','tm_yday')
TMR={'tm_sec':(0,60),'tm_min':(0,59),'tm_hour':(0,23),'tm_mday':(1,31),'tm_mon':(0,11),'tm_year':(-(1<<31),(1<<31)-1901),'tm_wday':(0,6),'tm_yday':(0,365)}
civil={n:Fun('utc_'+n,[Int],Int) for n in TMF}
CONV={'a':('tm_wday',3),'b':('tm_mon',3),'d':('tm_mday',2),'H':('tm_hour',2),'M':('tm_min',2),'S':('tm_sec',2),'m':('tm_mon',2),'Y':('tm_year',11)}
def timetext(fmt,f):
    """text that strftime gives for this format; f gives the fields of the broken-down time. Known of it: its length and that it has no NUL"""
    n=0; used=[]; i=0
    while i<len(fmt):
        if fmt[i:i+1]!=b'%': n+=1; i+=1; continue
        k=chr(fmt[i+1]); i+=2
        if k not in CONV: return None
        n+=CONV[k][1]; used.append(CONV[k][0])
    nm='strftime_'+fmt.hex()
    if nm not in FUN: Fun(nm,[Int]*len(used),Bytes,facts=lambda r,*v:[Implies(And(*[And(le(I(TMR[u][0]),x),le(x,I(TMR[u][1]))) for u,x in zip(used,v)]),And(le(1,slen(r)),le(slen(r),n)))])
    return FUN[nm](*[f(u) for u in used])
# files (assumed not to change while they are read)
isfile=Fun('isfile',[Bytes],Bool); isdir=Fun('isdir',[Bytes],Bool); pexists=Fun('pexists',[Bytes],Bool); fopens=Fun('fopens',[Bytes],Bool)
filetext=Fun('filetext',[Bytes],Bytes,facts=lambda r,s:[lt(slen(r),tm_MAX)])
def pathext(s):
    """std::filesystem::path::extension: from the last dot of the last component, unless that begins it or the component is '.' or '..'"""
    b=drop(s,find_last_of(b'/')(s)+1); d=find_last_of(b'.')(b); return ite(Or(le(d,0),eq(b,sconst(b'..'))),empty(BV8),drop(b,d))
fltstr=Fun('fltstr',[Int],Bytes)      # std::to_string of a floating-point number
class Std:
    def __init__(s): s.used=set(); s.M={}; s.F={}; s.setup()
    def note(s,n): s.used.add(n)
    def method(s,ex,st,f,e,args):
        cls=ex.cls(f['cls']) if f.get('cls') else None
        name=f['name'].split('::')[-1]
        if cls in('mutex','shared_mutex','recursive_mutex','unique_lock','shared_lock') and name in('lock','unlock','lock_shared','unlock_shared'):
            o=ex.objlv(st,e); ms=[o.key()] if 'mutex' in cls else ex.lockmtx.get(o.root)
            if ms is None or o.path and 'mutex' not in cls: raise Unsupported('lock')
            by='explicit' if 'mutex' in cls else o.root
            for m in ms:
                if 'un' in name: st.locks=frozenset(l for l in st.locks if l[0]!=m)
                else: ex.acquire(st,m,by)
            return Opaque('void')
        h=s.M.get((cls,name)) or s.M.get((s.alias(cls),name))
        if h is None: 
            h=s.ext_method(ex,cls,name)
            if h is None: raise Unsupported('library method %s::%s'%(cls,name))
        s.note('%s::%s'%(cls,name))
        o=ex.objlv_std(st,e) if hasattr(ex,'objlv_std') else ex.objlv(st,e)
        return h(ex,st,o,args,e)
    def ext_method(s,ex,cls,name): return None
    def alias(s,c):
        return {'basic_string':'seq','vector':'seq','basic_string_view':'seq','initializer_list':'seq','array':'seq','unordered_map':'map'}.get(c,c)
    def call(s,ex,st,f,args,e):
        n=f['name']
        h=s.F.get(n)
        g=getattr(ex.P,'guarded',{}).get(('call',n))
        if g is not None and ex.con is not None and ex.F0.cls and ex.ty(ex.F0.cls).get('name')==g[0] and not any(l[0]==('this',(('f',g[1]),)) for l in st.locks):
            ex.oblige(st,FALSE,'%s is called under the mutex of its direction'%n,'safety')
        if h is None: raise Unsupported('library function '+n)
        s.note(n)
        return h(ex,st,args,e)
    def extvar(s,ex,st,e):
        if e['q'] in('std::nullopt',): return ex.temp(st,Opaque(e['t']),e['t'])
        if e['q'] in OPENMODE: return ex.temp(st,bv(OPENMODE[e['q']],32),'unsigned int')
        if e['q'].endswith('::npos'): return ex.temp(st,I(NPOS),'unsigned long')
        return None
    def bitcast(s,ex,st,v,ft,tt): raise Unsupported('cast %s to %s'%(ft,tt))
    def new(s,ex,st,e):
        t=e['of']
        if 'size' in e: raise Unsupported('new[]')
        v=ex.rv(st,e['init']) if 'init' in e else ex.default(st,t)
        lv=ex.temp(st,v,t,'heap'); return Ptr(lv,None,FALSE,t)
    def moved(s,ex,st,srcexpr): pass
    def initlist(s,ex,st,t,e):
        if len(e['args'])==1 and ex.cls(e['args'][0]['t'])==ex.cls(t): return ex.rv(st,e['args'][0])
        raise Unsupported('init list of '+t)
    # -------------------------------------------------- helpers
    def cstr(s,ex,st,p):
        """bytes of a NUL-terminated string at p"""
        if isinstance(p,LV): p=ex.read(st,p)
        if not isinstance(p,Ptr): raise Unsupported('C string %r'%(p,))
        if p.nul is not FALSE: ex.check(st,Not(p.nul),'C string pointer is not null')
        v=ex.read(st,p.lv)
        if isinstance(v,ArrV):
            if isint(p.off):
                o=[]
                for x in v.e[p.off.args[0]:]:
                    if isbv(x) and x.args[0]==0: return slist(o,BV8)
                    if tm._bvrng(x,False)[0]<=0: break
                    o.append(x)
            v=ex.to_term(v)
        if isinstance(v,TblV): raise Unsupported('C string from table')
        b=cbytes(v)
        if b is not None and isint(p.off):
            k=b.find(0,p.off.args[0])
            if k>=0: return sconst(b[p.off.args[0]:k])
        # s ++ [0] built by c_str()
        if p.lv.root in st.env and (p.lv.root,'cstr') in st.binds:
            base=ex.read(st,st.binds[(p.lv.root,'cstr')])
            if p.off is I(0) : 
                z=findc(base,B8(0),I(0))
                return ite(eq(z,-1),base,ext(base,I(0),z))
        z=findc(v,B8(0),p.off)
        ex.check(st,ne(z,-1),'C string is terminated inside its buffer')
        return ext(v,p.off,z-p.off)
    def bytes_of(s,ex,st,v,t):
        """a string-like value as a byte sequence"""
        d=ex.ty(ex.nonref(t))
        if isinstance(v,LV): v=ex.read(st,v)
        if isinstance(v,Ptr): return s.cstr(ex,st,v)
        if isinstance(v,T):
            if v.sort==BV8: return unit(v)
            if d['k']=='array': return s.cstr(ex,st,Ptr(ex.temp(st,v,t),I(0)))
            return v
        if isinstance(v,ArrV): return s.cstr(ex,st,Ptr(ex.temp(st,v,t),I(0)))
        raise Unsupported('bytes of %r'%(v,))
    def strarg(s,ex,st,a): return s.bytes_of(ex,st,ex.rv(st,a),a['t'])
    def text(s,ex,st,x):
        return s.bytes_of(ex,st,ex.rv(st,x),x['t'])
    def memlayout(s,ex,t):
        """[(field,kind,bytes)] of a record of integers and character arrays without gaps"""
        o=[]; at=0
        for n,ft in ex.fields(t) or []:
            if not isinstance(ft,str) or ft[0]=='#': raise Unsupported('bytes of '+t)
            d=ex.ty(ft)
            if d['k'] in('int','enum'): k=d['bits']//8; al=k
            elif d['k']=='array' and ex.ty(d['of'])['k']=='int' and ex.ty(d['of'])['bits']==8: k=d['n']; al=1
            else: raise Unsupported('bytes of %s: %s'%(t,ft))
            if at%al: raise Unsupported('gap in '+t)
            o.append((n,'i' if al>1 or d['k']!='array' else 'a',k)); at+=k
        mx=max([k for _,q,k in o if q=='i']+[1])
        if at%mx: raise Unsupported('gap in '+t)
        return o,at
    def rawbytes(s,ex,st,p,n,e):
        t=ex.lvtype(st,p.lv); lay,size=s.memlayout(ex,t); ex.check(st,eq(n,size),'the whole object is taken',e=e); r=empty(BV8)
        for f,q,k in lay:
            v=ex.to_term(ex.read(st,p.lv.sub(('f',f))))
            if q=='i':
                if v.sort==Int: v=int2bv(v,64)
                v=slist([extract(v,8*j+7,8*j) for j in range(k)] if k>1 else [v],BV8)
            r=concat(r,v)
        return r
    def rawread(s,ex,st,p,D,pos,full,n,e):
        """the object at p becomes the bytes of D at pos if full, otherwise it is arbitrary"""
        t=ex.lvtype(st,p.lv); lay,size=s.memlayout(ex,t); ex.check(st,eq(n,size),'the whole object is taken',e=e); at=0
        for f,q,m in lay:
            l=p.lv.sub(('f',f)); ft=ex.ftype(t,f)
            if q=='i':
                so=ex.sort(ft); v=nth(D,pos+at)
                for j in range(1,m): v=bvconcat(nth(D,pos+at+j),v)
                v=ite(full,v,fresh('partial',v.sort))
                if so==Int: v=bv2nat(v) if not ex.ty(ft)['signed'] else sbv2int(v)
            else:
                v=ArrV([ite(full,nth(D,pos+at+j),fresh('partial',BV8)) for j in range(m)]) if isinstance(ex.read(st,l),ArrV) else ite(full,ext(D,pos+at,I(m)),rep_fresh(st,m))
            ex.write(st,l,v); at+=m
    def iterrange(s,ex,st,a,b):
        """contents of [a,b) iterators/pointers"""
        if not(isinstance(a,Ptr) and isinstance(b,Ptr)): raise Unsupported('iterator range')
        if a.lv is None or a.lv.key()!=b.lv.key(): raise Unsupported('iterator range over different containers')
        v=ex.to_term(ex.read(st,a.lv))
        ex.check(st,And(le(0,a.off),le(a.off,b.off),le(b.off,slen(v))),'iterator range is valid')
        return ext(v,a.off,b.off-a.off)
    def setlen(s,st,v):
        st.assume(lt(slen(v),tm_MAX)); return v
    def throws_sticky(s,ex,st,f_,what):
        """an operating system call fails: remembered in the ghost $iofault"""
        st.env['g:$iofault']=Or(ex.gread(st,'$iofault'),f_); s.throws(ex,st,f_,'std::runtime_error',what)
    def throws(s,ex,st,cond,ty,what):
        if cond is FALSE: return
        x=st.clone()
        try:
            x.assume(cond,'b'); ex.pend.append(Exit('throw',x,Exc(ty,None,what)))
        except Dead: pass
        st.assume(Not(cond),'b')
    # -------------------------------------------------- models
    def setup(S):
        M=S.M; F=S.F
        def m(*names,cls='seq'):
            def d(f):
                for n in names: M[(cls,n)]=f
                return f
            return d
        def f(*names):
            def d(g):
                for n in names: F[n]=g
                return g
            return d
        rd=lambda ex,st,o: ex.read(st,o)
        def rdt(ex,st,o): return ex.to_term(ex.read(st,o))
        @m('size','length')
        def _(ex,st,o,a,e): 
            v=ex.read(st,o)
            if isinstance(v,Opaque): return ex.fresh('unsigned long','size',st)
            return ex.clen(st,o)
        @m('empty')
        def _(ex,st,o,a,e): return eq(ex.vlen(rd(ex,st,o)),0)
        @m('reserve','shrink_to_fit')
        def _(ex,st,o,a,e): 
            for x in a: ex.rv(st,x)
            return None
        @m('clear')
        def _(ex,st,o,a,e): ex.write(st,o,mk('empty',(),rdt(ex,st,o).sort)); return None
        @m('push_back')
        def _(ex,st,o,a,e):
            x=ex.to_term(ex.rv(st,a[0])); v=concat(rdt(ex,st,o),unit(x)); S.setlen(st,v); ex.write(st,o,v); return None
        @m('pop_back')
        def _(ex,st,o,a,e):
            v=rdt(ex,st,o); ex.check(st,lt(0,slen(v)),'pop_back on non-empty',e=e); ex.write(st,o,ext(v,I(0),slen(v)-1))
        @m('resize')
        def _(ex,st,o,a,e):
            v=rdt(ex,st,o); n=ex.rv(st,a[0])
            x=ex.to_term(ex.rv(st,a[1])) if len(a)>1 and a[1]['k']!='dflt' else ex.to_term(ex.zero(ex.elem(e['obj']['t'] if not e.get('arrow') else ex.ty(e['obj']['t'])['to'])))
            L=slen(v)
            d=sub(n,L); lo,hi=tm._rng(d)
            if v.op=='empty': r=rep(x,n)
            elif (lo is not None and lo>=0) or ex.nonnegfact(st,d): r=concat(v,rep(x,d))
            elif (hi is not None and hi<=0) or ex.nonnegfact(st,-d): r=ext(v,I(0),n)
            else: r=ite(le(n,L),ext(v,I(0),n),concat(v,rep(x,d)))
            st.assume(lt(n,tm_MAX)); ex.write(st,o,r); return None
        @m('at')
        def _(ex,st,o,a,e):
            i=ex.rv(st,a[0]); L=ex.clen(st,o)
            S.throws(ex,st,Not(lt(i,L)),'std::out_of_range','at() out of range, line %s'%e.get('line'))
            return o.sub(('i',i))
        @m('front')
        def _(ex,st,o,a,e):
            ex.check(st,lt(0,ex.clen(st,o)),'front() on non-empty',e=e); return o.sub(('i',I(0)))
        @m('back')
        def _(ex,st,o,a,e):
            L=ex.clen(st,o); ex.check(st,lt(0,L),'back() on non-empty',e=e); return o.sub(('i',L-1))
        @m('begin','cbegin','data')
        def _(ex,st,o,a,e): return Ptr(o,I(0),FALSE,None)
        @m('end','cend')
        def _(ex,st,o,a,e): return Ptr(o,ex.clen(st,o),FALSE,None)
        @m('c_str')
        def _(ex,st,o,a,e):
            v=rdt(ex,st,o); t=ex.temp(st,concat(v,unit(B8(0))),('buf','char'),'cstr')
            b=ex.temp(st,v,('buf','char'),'cstrbase'); st.binds[(t.root,'cstr')]=b
            return Ptr(t,I(0),FALSE,'char')
        @m('operator basic_string_view','operator std::basic_string_view<char>')
        def _(ex,st,o,a,e): return rdt(ex,st,o)
        @m('substr')
        def _(ex,st,o,a,e):
            v=rdt(ex,st,o); p=ex.rv(st,a[0]) if a else I(0); L=slen(v)
            S.throws(ex,st,lt(L,p),'std::out_of_range','substr position past the end, line %s'%e.get('line'))
            if len(a)>1:
                n=ex.rv(st,a[1])
                def cut(n):
                    if n.op=='ite': return ite(n.args[0],cut(n.args[1]),cut(n.args[2]))
                    lo,_=tm._rng(n)
                    return ext(v,p,L-p) if n is I(NPOS) or (lo is not None and lo>=tm.MAXLEN and tm._prog(v)) else ext(v,p,n)
                return cut(n)
            return ext(v,p,L-p)
        @m('find')
        def _(ex,st,o,a,e):
            v=rdt(ex,st,o); p=ex.rv(st,a[1]) if len(a)>1 else I(0)
            x=ex.rv(st,a[0])
            if isinstance(x,T) and x.sort==BV8: return npos(findc(v,x,p))
            t=S.bytes_of(ex,st,x,a[0]['t'])
            r=finds(v,t,p)
            # pos > size gives npos
            return npos(r)        # a start past the end finds nothing (facts of findc, finds)
        @m('find_first_of')
        def _(ex,st,o,a,e):
            v=rdt(ex,st,o); p=ex.rv(st,a[1]) if len(a)>1 else I(0); x=ex.rv(st,a[0])
            if isinstance(x,T) and x.sort==BV8: return npos(findc(v,x,p))
            b=cbytes(S.bytes_of(ex,st,x,a[0]['t']))
            if b is None: raise Unsupported('find_first_of with non-constant set')
            return npos(find_first_of(b)(v,p))
        @m('find_last_of','rfind')
        def _(ex,st,o,a,e):
            v=rdt(ex,st,o); x=ex.rv(st,a[0])
            if len(a)>1 and ex.rv(st,a[1]) is not I(NPOS): raise Unsupported('find_last_of with position')
            b=bytes([x.args[0]]) if isinstance(x,T) and isbv(x) else cbytes(S.bytes_of(ex,st,x,a[0]['t']))
            if b is None or (e['f']['name'].endswith('rfind') and len(b)!=1): raise Unsupported('find_last_of with non-constant set')
            return npos(find_last_of(b)(v))
        @m('starts_with')
        def _(ex,st,o,a,e):
            v=rdt(ex,st,o); t=S.strarg(ex,st,a[0])
            return And(le(slen(t),slen(v)),eq(ext(v,I(0),slen(t)),t)) if t.op!='empty' else TRUE
        @m('ends_with')
        def _(ex,st,o,a,e):
            v=rdt(ex,st,o); t=S.strarg(ex,st,a[0])
            return And(le(slen(t),slen(v)),Or(eq(slen(t),0),eq(ext(v,slen(v)-slen(t),slen(t)),t)))
        @m('compare')
        def _(ex,st,o,a,e):
            v=rdt(ex,st,o)
            if len(a)==1:
                t=S.strarg(ex,st,a[0]); r=fresh('cmp',BV(32)); st.assume(Iff(eq(r,bv(0,32)),eq(v,t))); return r
            if len(a)==3:
                p=ex.rv(st,a[0]); n=ex.rv(st,a[1]); t=S.strarg(ex,st,a[2])
                S.throws(ex,st,lt(slen(v),p),'std::out_of_range','compare position past the end')
                r=fresh('cmp',BV(32)); st.assume(Iff(eq(r,bv(0,32)),eq(ext(v,p,n),t))); return r
            raise Unsupported('compare')
        def appendv(ex,st,o,t):
            v=concat(rdt(ex,st,o),t); S.setlen(st,v); ex.write(st,o,v)
        @m('append')
        def _(ex,st,o,a,e):
            if len(a)==1: appendv(ex,st,o,S.strarg(ex,st,a[0])); return o
            x=ex.rv(st,a[0]); y=ex.rv(st,a[1])
            if isinstance(x,Ptr) and isinstance(y,Ptr): appendv(ex,st,o,S.iterrange(ex,st,x,y)); return o
            if isinstance(x,Ptr) and isinstance(y,T):
                v=ex.to_term(ex.read(st,x.lv)); ex.check(st,le(x.off+y,slen(v)),'append reads inside the buffer',e=e); appendv(ex,st,o,ext(v,x.off,y)); return o
            if isinstance(x,T) and x.sort==Int and isinstance(y,T) and y.sort==BV8: appendv(ex,st,o,rep(y,x)); return o
            raise Unsupported('append form')
        @m('insert')
        def _(ex,st,o,a,e):
            p=ex.rv(st,a[0]); v=rdt(ex,st,o)
            if isinstance(p,Ptr):
                pos=p.off
                ex.check(st,And(le(0,pos),le(pos,slen(v))),'insert position is valid',e=e)
                if len(a)==3: 
                    x=ex.rv(st,a[1]); y=ex.rv(st,a[2])
                    if isinstance(x,T): ins=rep(ex.to_term(y),x)
                    else: ins=S.iterrange(ex,st,x,y)
                elif len(a)==2:
                    x=ex.rv(st,a[1]); 
                    x=ex.to_term(x); ins=x if x.sort==v.sort else unit(x)
                else: raise Unsupported('insert form')
                if sub(pos,slen(v)) is I(0): r=concat(v,ins)
                elif pos is I(0): r=concat(ins,v)
                else: r=concat(ext(v,I(0),pos),ins,ext(v,pos,slen(v)-pos))
                S.setlen(st,r); ex.write(st,o,r); return Ptr(o,pos,FALSE)
            pos=p
            S.throws(ex,st,lt(slen(v),pos),'std::out_of_range','insert position past the end')
            if len(a)==2: ins=S.strarg(ex,st,a[1])
            elif len(a)==3 and isinstance(ex.rv(st,a[1]),T): ins=rep(ex.rv(st,a[2]),ex.rv(st,a[1]))
            else: raise Unsupported('insert form')
            r=concat(ext(v,I(0),pos),ins,ext(v,pos,slen(v)-pos)) if pos is not I(0) else concat(ins,v)
            S.setlen(st,r); ex.write(st,o,r); return o
        @m('erase')
        def _(ex,st,o,a,e):
            v=rdt(ex,st,o); x=ex.rv(st,a[0]) if a else I(0)
            if isinstance(x,Ptr):
                if len(a)==2:
                    y=ex.rv(st,a[1])
                    if isinstance(y,Ptr):
                        if x.lv.key()!=o.key() or y.lv.key()!=o.key(): raise Unsupported('erase with foreign iterators')
                        ex.check(st,And(le(0,x.off),le(x.off,y.off),le(y.off,slen(v))),'erase range is valid',e=e)
                        i,j=x.off,y.off
                    else: raise Unsupported('erase form')
                else:
                    i=x.off; j=i+1; ex.check(st,And(le(0,i),lt(i,slen(v))),'erase position is valid',e=e)
                r=concat(ext(v,I(0),i),ext(v,j,slen(v)-j)) if i is not I(0) else ext(v,j,slen(v)-j)
                ex.write(st,o,r); return Ptr(o,i,FALSE)
            n=ex.rv(st,a[1]) if len(a)>1 else I(NPOS)
            S.throws(ex,st,lt(slen(v),x),'std::out_of_range','erase position past the end')
            r=ext(v,I(0),x) if n is I(NPOS) else concat(ext(v,I(0),x),ite(lt(x+n,slen(v)),ext(v,x+n,slen(v)-x-n),mk('empty',(),v.sort)))
            ex.write(st,o,r); return o
        @m('replace')
        def _(ex,st,o,a,e):
            v=rdt(ex,st,o)
            if len(a)!=3: raise Unsupported('replace form')
            p=ex.rv(st,a[0]); n=ex.rv(st,a[1]); t=S.strarg(ex,st,a[2])
            if isinstance(p,Ptr): raise Unsupported('replace form')
            S.throws(ex,st,lt(slen(v),p),'std::out_of_range','replace position past the end')
            L=slen(v); q=p+n
            tail=ext(v,q,L-q) if ex.nonnegfact(st,sub(L,q)) else ite(le(q,L),ext(v,q,L-q),mk('empty',(),v.sort))
            r=concat(ext(v,I(0),p),t,tail); S.setlen(st,r); ex.write(st,o,r); return o
        @m('assign')
        def _(ex,st,o,a,e):
            if len(a)==1: ex.write(st,o,S.strarg(ex,st,a[0])); return o
            x=ex.rv(st,a[0]); y=ex.rv(st,a[1])
            if isinstance(x,Ptr) and isinstance(y,Ptr): ex.write(st,o,S.iterrange(ex,st,x,y)); return o
            if isinstance(x,T) and isinstance(y,T): ex.write(st,o,rep(y,x)); return o
            raise Unsupported('assign form')
        @m('swap')
        def _(ex,st,o,a,e):
            p=ex.lv(st,a[0]); x=ex.read(st,o); y=ex.read(st,p); ex.write(st,o,y); ex.write(st,p,x)
        @m('contains')
        def _(ex,st,o,a,e): return ne(finds(rdt(ex,st,o),S.strarg(ex,st,a[0]),I(0)),-1)
        # queue
        @m('push',cls='queue')
        def _(ex,st,o,a,e):
            v=rdt(ex,st,o); ex.write(st,o,concat(v,unit(ex.to_term(ex.rv(st,a[0])))))
        @m('pop',cls='queue')
        def _(ex,st,o,a,e):
            v=rdt(ex,st,o); ex.check(st,lt(0,slen(v)),'pop on non-empty',e=e); ex.write(st,o,ext(v,I(1),slen(v)-1))
        @m('front',cls='queue')
        def _(ex,st,o,a,e):
            ex.check(st,lt(0,ex.clen(st,o)),'front on non-empty',e=e); return o.sub(('i',I(0)))
        M[('queue','size')]=M[('seq','size')]; M[('queue','empty')]=M[('seq','empty')]
        # atomic (sequentially: other threads are not modelled)
        @m('load','operator bool','operator int','operator unsigned int','operator unsigned long','operator long',cls='atomic')
        def _(ex,st,o,a,e): return ex.field(rd(ex,st,o),'v')
        @m('store',cls='atomic')
        def _(ex,st,o,a,e): ex.write(st,o.sub(('f','v')),ex.rv(st,a[0]))
        # optional
        @m('has_value','operator bool',cls='optional')
        def _(ex,st,o,a,e): return ex.field(rd(ex,st,o),'has')
        @m('value',cls='optional')
        def _(ex,st,o,a,e):
            h=ex.field(rd(ex,st,o),'has')
            S.throws(ex,st,Not(h),'std::bad_optional_access','value() of an empty optional, line %s'%e.get('line'))
            return o.sub(('f','val'))
        @m('value_or',cls='optional')
        def _(ex,st,o,a,e):
            v=rd(ex,st,o); d=ex.rv(st,a[0])
            ot=ex.uncv(ex.nonref(e['t']))
            if isinstance(d,Ptr) and ex.cls(ot)=='basic_string': d=S.bytes_of(ex,st,d,a[0]['t'])
            return ex.vite(ex.field(v,'has'),ex.field(v,'val'),d)
        @m('reset',cls='optional')
        def _(ex,st,o,a,e): v=ex.explode(rd(ex,st,o),ex.lvtype(st,o)); ex.write(st,o.sub(('f','has')),FALSE)
        # map
        def kterm(ex,st,a,v):
            k=ex.rv(st,a)
            ks=None
            if isinstance(v,CMap): 
                if isinstance(k,Ptr): return S.bytes_of(ex,st,k,a['t'])
                return ex.to_term(k)
            ks=ex.field(v,'dom').sort[1]
            if ks==Bytes: return S.bytes_of(ex,st,k,a['t'])
            return ex.to_term(k)
        def has(ex,v,k):
            if isinstance(v,CMap): return Or(*[eq(k,x) for x,_ in v.items])
            if isinstance(v,CSet): return Or(*[eq(k,x) for x in v.els])
            return select(ex.field(v,'dom'),k)
        S.maphas=has
        @m('contains','count',cls='map')
        def _(ex,st,o,a,e): 
            v=rd(ex,st,o); r=has(ex,v,kterm(ex,st,a[0],v))
            return r if e['f']['name'].endswith('contains') else ite(r,I(1),I(0))
        @m('find',cls='map')
        def _(ex,st,o,a,e):
            v=rd(ex,st,o); k=kterm(ex,st,a[0],v); return MapIt(o,k,Not(has(ex,v,k)))
        @m('end',cls='map')
        def _(ex,st,o,a,e): return MapIt(o,None,TRUE)
        @m('size',cls='map')
        def _(ex,st,o,a,e): 
            v=rd(ex,st,o)
            if isinstance(v,CMap): return I(len(v.items))
            return ex.field(v,'n')
        @m('empty',cls='map')
        def _(ex,st,o,a,e): return eq(ex.field(rd(ex,st,o),'n'),0)
        @m('at',cls='map')
        def _(ex,st,o,a,e):
            v=rd(ex,st,o); k=kterm(ex,st,a[0],v)
            S.throws(ex,st,Not(has(ex,v,k)),'std::out_of_range','map::at, line %s'%e.get('line'))
            return o.sub(('m',k))
        @m('erase',cls='map')
        def _(ex,st,o,a,e):
            v=rd(ex,st,o)
            x=ex.rv(st,a[0]) if True else None
            if isinstance(x,MapIt):
                ex.check(st,Not(x.end),'erase of a dereferenceable iterator',e=e); k=x.key
            else: k=kterm(ex,st,a[0],v)
            d=ex.field(v,'dom'); h=select(d,k)
            ex.write(st,o.sub(('f','dom')),store(d,k,FALSE)); ex.write(st,o.sub(('f','n')),ite(h,ex.field(v,'n')-1,ex.field(v,'n')))
            return MapIt(o,k,TRUE) if isinstance(x,MapIt) else ite(h,I(1),I(0))
        @m('clear',cls='map')
        def _(ex,st,o,a,e):
            v=rd(ex,st,o); d=ex.field(v,'dom')
            ex.write(st,o.sub(('f','dom')),constarr(d.sort[1],FALSE)); ex.write(st,o.sub(('f','n')),I(0)); ex.write(st,o.sub(('f','val')),zsort(ex.field(v,'val').sort))
        def mapindex(ex,st,o,k,e):
            v=rd(ex,st,o)
            d=ex.field(v,'dom'); h=select(d,k)
            vt=ex.ty(ex.nonref(e['args'][0]['t']))['args'][1] if e['k']=='opcall' else None
            old=select(ex.field(v,'val'),k)
            ex.write(st,o.sub(('f','val')),store(ex.field(v,'val'),k,ite(h,old,ex.to_term(ex.zero(vt)))))
            ex.write(st,o.sub(('f','dom')),store(d,k,TRUE)); ex.write(st,o.sub(('f','n')),ite(h,ex.field(v,'n'),ex.field(v,'n')+1))
            return o.sub(('m',k))
        S.mapindex=mapindex
        def minsert(ex,st,o,k,val,assign):
            v=rd(ex,st,o); d=ex.field(v,'dom'); h=select(d,k); cur=ex.field(v,'val')
            ex.write(st,o.sub(('f','val')),store(cur,k,val if assign else ite(h,select(cur,k),val)))
            ex.write(st,o.sub(('f','dom')),store(d,k,TRUE)); ex.write(st,o.sub(('f','n')),ite(h,ex.field(v,'n'),ex.field(v,'n')+1))
        @m('insert_or_assign','emplace','insert',cls='map')
        def _(ex,st,o,a,e):
            v=rd(ex,st,o); n=e['f']['name'].split('::')[-1]
            if len(a)==2:
                k=kterm(ex,st,a[0],v); val=ex.to_term(ex.rv(st,a[1]))
            else:
                p=ex.rv(st,a[0]); 
                if not isinstance(p,(Rec,T)): raise Unsupported('map insert')
                k=ex.field(p,'first'); val=ex.field(p,'second')
            minsert(ex,st,o,k,val,n=='insert_or_assign'); return Opaque(e['t'])
        @m('contains','count',cls='set')
        def _(ex,st,o,a,e):
            v=rd(ex,st,o); k=ex.to_term(ex.rv(st,a[0])); return has(ex,v,k)
        # exceptions
        @m('what',cls='exception')
        def _(ex,st,o,a,e):
            t=fresh('what',Bytes); st.assume(And(lt(slen(t),tm_MAX),eq(findc(t,B8(0),I(0)),-1)))
            lv=ex.temp(st,concat(t,unit(B8(0))),('buf','char'),'what'); b=ex.temp(st,t,('buf','char'),'whatb'); st.binds[(lv.root,'cstr')]=b
            return Ptr(lv,I(0),FALSE,'char')
        for c in('runtime_error','invalid_argument','logic_error','out_of_range'): M[(c,'what')]=M[('exception','what')]
        # ---------------- free functions
        @f('std::move','std::forward','std::ref','std::cref','std::as_const')
        def _(ex,st,a,e): 
            return ex.ev(st,a[0])
        @f('gmtime_r')
        def _(ex,st,a,e):
            p=ex.rv(st,a[0]); d=ex.rv(st,a[1]); t=ex.read(st,p.lv)
            ex.check(st,And(le(I(-(1<<55)),t),le(t,I(1<<55))),'the time fits a calendar year',e=e)
            for n in TMF:
                v=civil[n](t); lo,hi=TMR[n]; st.assume(And(le(I(lo),v),le(v,I(hi))))
                w=fresh(n,BV(32)); st.assume(eq(sbv2int(w),v)); ex.write(st,d.lv.sub(('f',n)),w)
            return d
        @f('strftime')
        def _(ex,st,a,e):
            p=ex.rv(st,a[0]); n=ex.rv(st,a[1]); fm=cbytes(S.cstr(ex,st,ex.rv(st,a[2]))); t=ex.rv(st,a[3])
            if fm is None or p.off is None: raise Unsupported('strftime')
            v=ex.to_term(ex.read(st,p.lv)); x=timetext(fm,lambda n:sbv2int(ex.to_term(ex.read(st,t.lv.sub(('f',n))))))
            if x is None: raise Unsupported('strftime format')
            ex.check(st,And(le(0,p.off),le(p.off+n,slen(v))),'strftime writes inside the buffer',e=e); ex.check(st,lt(slen(x),n),'the text of the time fits the buffer',e=e)
            wrbuf(ex,st,p,concat(x,unit(bv(0,8))),e,'strftime'); w=ex.to_term(ex.read(st,p.lv)); st.assume(eq(findc(w,B8(0),p.off),p.off+slen(x))); return slen(x)     # no conversion writes a NUL
        @f('fwrite','std::fwrite')
        def _(ex,st,a,e):
            p=ex.rv(st,a[0]); n=mul(ex.rv(st,a[1]),ex.rv(st,a[2])); x=e['args'][3]
            while x['k']=='cast': x=x['e']
            if x.get('n') not in('stdout','stderr') or '$'+x['n'] not in getattr(ex.P,'gghosts',{}): raise Unsupported('fwrite to something else')
            v=ex.to_term(ex.read(st,p.lv)); ex.check(st,And(le(0,p.off),le(p.off+n,slen(v))),'fwrite reads inside the buffer',e=e)
            g='$'+x['n']; st.env['g:'+g]=concat(ex.gread(st,g),unit(ext(v,p.off,n)))
            r=fresh('written',Int); st.assume(And(le(0,r),le(r,n))); return r
        @f('std::swap')
        def _(ex,st,a,e):
            p=ex.ev(st,a[0]); q=ex.ev(st,a[1])
            if not isinstance(p,LV) or not isinstance(q,LV): raise Unsupported('swap')
            x=ex.own(st,p) or ex.read(st,p); y=ex.own(st,q) or ex.read(st,q); ex.write(st,p,y); ex.write(st,q,x)
        @f('std::numeric_limits::max','std::numeric_limits::min')
        def _(ex,st,a,e):
            t=e['t']; k=ex.ty(t)['k']
            if k!='int': raise Unsupported('numeric_limits of '+t)
            bits,sg=ex.intty(t); mx=(1<<(bits-(1 if sg else 0)))-1; mn=-(1<<(bits-1)) if sg else 0
            x=mx if e['f']['name'].endswith('max') else mn
            so=ex.sort(t)
            return I(x) if so==Int else bv(x&((1<<bits)-1),bits)
        @f('std::min','std::max')
        def _(ex,st,a,e):
            if len(a)==1:
                x=ex.rv(st,a[0])
                if isinstance(x,T) and isinstance(x.sort,tuple) and x.sort[0]=='Seq': x=ArrV([u.args[0] for u in ((x,) if x.op=='unit' else x.args if x.op=='concat' else ()) if u.op=='unit']) if x.op=='unit' or x.op=='concat' and all(u.op=='unit' for u in x.args) else x
                if not isinstance(x,ArrV) or not x.e: raise Unsupported('min/max of a list')
                t=ex.elem(a[0]['t']); r=x.e[0]
                for y in x.e[1:]: r=ite(ex.cmp('<',y,r,t) if 'min' in e['f']['name'] else ex.cmp('<',r,y,t),y,r)
                return r
            x=ex.rv(st,a[0]); y=ex.rv(st,a[1]); t=ex.nonref(a[0]['t'])
            c=ex.cmp('<',y,x,t) if e['f']['name'].endswith('min') else ex.cmp('<',x,y,t)
            return ex.vite(c,y,x)
        @f('std::distance')
        def _(ex,st,a,e):
            x=ex.rv(st,a[0]); y=ex.rv(st,a[1])
            if isinstance(x,Ptr) and isinstance(y,Ptr) and x.lv.key()==y.lv.key(): return y.off-x.off
            raise Unsupported('distance')
        @f('std::to_string')
        def _(ex,st,a,e):
            v=ex.rv(st,a[0]); t=a[0]['t']
            if ex.ty(ex.nonref(t))['k']=='float':
                r=fltstr(v) if v.sort==Int else fresh('fltstr',Bytes); st.assume(And(lt(0,slen(r)),lt(slen(r),6000))); return r
            if v.sort!=Int: v=sbv2int(v) if ex.intty(t)[1] else bv2nat(v)
            return decimal(v)
        def isin(*rs):
            def g(ex,st,a,e):
                v=ex.rv(st,a[0])          # int
                ok=Or(And(bvcmp('bvsle',bv(0,32),v),bvcmp('bvsle',v,bv(255,32))),eq(v,bv(-1,32)))
                ex.check(st,ok,'argument of %s is EOF or an unsigned char value'%e['f']['name'],e=e)
                c=Or(*[And(bvcmp('bvsle',bv(ord(x[0]),32),v),bvcmp('bvsle',v,bv(ord(x[1]),32))) for x in rs])
                return ite(c,bv(1,32),bv(0,32))
            return g
        F['isalnum']=isin('09','AZ','az'); F['isdigit']=isin('09'); F['isalpha']=isin('AZ','az'); F['isxdigit']=isin('09','AF','af'); F['isspace']=isin('\t\r','  '); F['isupper']=isin('AZ'); F['islower']=isin('az')
        def case(lo,hi,d):
            def g(ex,st,a,e):
                v=ex.rv(st,a[0])
                ex.check(st,Or(And(bvcmp('bvsle',bv(0,32),v),bvcmp('bvsle',v,bv(255,32))),eq(v,bv(-1,32))),'argument of %s is EOF or an unsigned char value'%e['f']['name'],e=e)
                return ite(And(bvcmp('bvsle',bv(ord(lo),32),v),bvcmp('bvsle',v,bv(ord(hi),32))),bvop('bvadd',v,bv(d,32)),v)
            return g
        F['tolower']=case('A','Z',32); F['toupper']=case('a','z',-32)
        for n in list(F):
            if n.startswith(('is','to')) : F['std::'+n]=F[n]
        @f('strlen','std::strlen','__builtin_strlen')
        def _(ex,st,a,e): return slen(S.cstr(ex,st,ex.rv(st,a[0])))
        def wrbuf(ex,st,p,data,e,what):
            """write the bytes data at pointer p"""
            n=slen(data)
            v=ex.read(st,p.lv)
            ex.check(st,And(le(0,p.off),le(p.off+n,ex.vlen(v))),what+' writes inside the buffer',e=e)
            if isinstance(v,ArrV):
                if not isint(n) or not isint(p.off): 
                    v2=ex.to_term(v); 
                    r=concat(ext(v2,I(0),p.off),data,ext(v2,p.off+n,slen(v2)-p.off-n))
                    ex.write(st,p.lv,ArrV([nth(r,I(i)) for i in range(len(v.e))])); return
                els=list(v.e)
                for i in range(n.args[0]): els[p.off.args[0]+i]=nth(data,I(i))
                ex.write(st,p.lv,ArrV(els)); return
            v=ex.to_term(v)
            if p.off is I(0) and n is slen(v): r=data
            else: r=concat(ext(v,I(0),p.off),data,ext(v,p.off+n,slen(v)-p.off-n))
            ex.write(st,p.lv,r)
        S.wrbuf=wrbuf
        @f('strncpy','std::strncpy')
        def _(ex,st,a,e):
            d=ex.rv(st,a[0]); s=ex.rv(st,a[1]); n=ex.rv(st,a[2])
            v=S.cstr(ex,st,s)
            if isint(n) and n.args[0]<=64:
                L=slen(v)
                data=slist([ite(lt(I(i),L),nth(v,I(i)),B8(0)) for i in range(n.args[0])],BV8)
                # strncpy reads at most n bytes: cstr's own check is stronger only for unterminated buffers
            else: data=ite(le(n,slen(v)),ext(v,I(0),n),concat(v,rep(B8(0),n-slen(v))))
            wrbuf(ex,st,d,data,e,'strncpy'); return d
        @f('strcpy')
        def _(ex,st,a,e):
            d=ex.rv(st,a[0]); v=S.cstr(ex,st,ex.rv(st,a[1])); wrbuf(ex,st,d,concat(v,unit(B8(0))),e,'strcpy'); return d
        @f('strcmp','std::strcmp')
        def _(ex,st,a,e):
            x=S.cstr(ex,st,ex.rv(st,a[0])); y=S.cstr(ex,st,ex.rv(st,a[1]))
            r=fresh('cmp',BV(32)); st.assume(Iff(eq(r,bv(0,32)),eq(x,y))); return r
        @f('memset','std::memset')
        def _(ex,st,a,e):
            d=ex.rv(st,a[0]); c=ex.rv(st,a[1]); n=ex.rv(st,a[2])
            if d.off is None:
                t=ex.lvtype(st,d.lv); 
                if isbv(c) and c.args[0]==0 and t: ex.write(st,d.lv,ex.zero(t)); return d
                raise Unsupported('memset of object')
            v=ex.read(st,d.lv)
            es=v.e[0].sort if isinstance(v,ArrV) else ex.to_term(v).sort[1]
            if es!=BV8:
                if isbv(c) and c.args[0]==0 and isinstance(v,ArrV) and isint(n) and n.args[0]*8==es[1]*len(v.e): ex.write(st,d.lv,ArrV([bv(0,es[1])]*len(v.e))); return d
                raise Unsupported('memset of wide elements')
            wrbuf(ex,st,d,rep(extract(c,7,0),n),e,'memset'); return d
        @f('memcpy','memmove','std::memcpy','std::memmove')
        def _(ex,st,a,e):
            d=ex.rv(st,a[0]); s=ex.rv(st,a[1]); n=ex.rv(st,a[2])
            if s.off is None and d.off is not None and n.op=='int':
                v=ex.read(st,s.lv)
                if isinstance(v,T) and isinstance(v.sort,tuple) and v.sort[0]=='BV' and n.args[0]*8==v.sort[1]:
                    wrbuf(ex,st,d,slist([extract(v,8*k+7,8*k) for k in range(n.args[0])]),e,'memcpy'); return d
            if s.off is None or d.off is None: raise Unsupported('memcpy of object')
            v=ex.to_term(ex.read(st,s.lv)); ex.check(st,And(le(0,s.off),le(s.off+n,slen(v))),'memcpy reads inside the buffer',e=e)
            if v.sort[1]!=BV8: raise Unsupported('memcpy of wide elements')
            wrbuf(ex,st,d,ext(v,s.off,n),e,'memcpy'); return d
        @f('memcmp','std::memcmp')
        def _(ex,st,a,e):
            x=ex.rv(st,a[0]); y=ex.rv(st,a[1]); n=ex.rv(st,a[2])
            vs=[]
            for p in(x,y):
                v=ex.to_term(ex.read(st,p.lv)); ex.check(st,And(le(0,p.off),le(p.off+n,slen(v))),'memcmp reads inside the buffer',e=e); vs.append(ext(v,p.off,n))
            r=fresh('cmp',BV(32)); st.assume(Iff(eq(r,bv(0,32)),eq(*vs))); return r
        @f('std::equal')
        def _(ex,st,a,e):
            x=ex.rv(st,a[0]); y=ex.rv(st,a[1]); z=ex.rv(st,a[2]); p=S.iterrange(ex,st,x,y)
            if len(a)==4: return eq(p,S.iterrange(ex,st,z,ex.rv(st,a[3])))
            if len(a)!=3: raise Unsupported('std::equal form')
            v=ex.to_term(ex.read(st,z.lv)); ex.check(st,le(z.off+slen(p),slen(v)),'equal reads inside the range',e=e)
            return eq(p,ext(v,z.off,slen(p)))
        @f('std::search')
        def _(ex,st,a,e):
            if len(a)!=4: raise Unsupported('search')
            x,y,p,q=[ex.rv(st,i) for i in a]
            v=ex.to_term(ex.read(st,x.lv)); t=S.iterrange(ex,st,p,q)
            if y.off is not slen(v): v=ext(v,I(0),y.off)
            r=finds(v,t,x.off); return Ptr(x.lv,ite(eq(r,-1),y.off,r),FALSE,x.el)
        @f('std::find')
        def _(ex,st,a,e):
            x,y=ex.rv(st,a[0]),ex.rv(st,a[1]); c=ex.to_term(ex.rv(st,a[2])); v=ex.to_term(ex.read(st,x.lv))
            if y.off is not slen(v) or v.sort!=Bytes: raise Unsupported('std::find')
            r=findc(v,c,x.off); return Ptr(x.lv,ite(eq(r,-1),y.off,r),FALSE,x.el)
        # files: their content is what it was before the function began (filetext), a stream that writes collects what it wrote in 'out'
        @f('std::filesystem::is_regular_file')
        def _(ex,st,a,e): x=S.text(ex,st,a[0]); return isfile(x)
        @f('std::filesystem::exists')
        def _(ex,st,a,e): x=S.text(ex,st,a[0]); st.assume(And(Implies(isfile(x),pexists(x)),Implies(isdir(x),pexists(x)))); return pexists(x)
        @f('std::filesystem::is_directory')
        def _(ex,st,a,e): x=S.text(ex,st,a[0]); return isdir(x)
        @m('generic_string','string','native','u8string','remove_filename','extension','filename','parent_path')
        def _(ex,st,o,a,e):
            n=e['f']['name'].split('::')[-1]; v=ex.read(st,o)
            if n in('generic_string','string','native'): return v
            if n=='extension': return pathext(v)
            if n=='remove_filename':
                r=ext(v,I(0),find_last_of(b'/')(v)+1); ex.write(st,o,r); return o
            raise Unsupported('path::'+n)
        for c in FSTREAM:
            def g(n): return lambda ex,st,o,a,e: ex.read(st,o.sub(('f',n)))
            M[(c,'is_open')]=g('open'); 
            def close(ex,st,o,a,e):
                if ex.con.opts.get('disk'): synced(ex,st,o)
                ex.write(st,o.sub(('f','open')),FALSE); return None
            M[(c,'close')]=close
        def sbase(*names):      # members of the base classes
            def d(h):
                for n in names:
                    for c in FSTREAM+('basic_istream','basic_ostream','basic_ios','ios_base'): M[(c,n)]=h
                return h
            return d
        @sbase('eof','gcount','operator!','operator bool','fail','good')
        def _(ex,st,o,a,e):
            n=e['f']['name'].split('::')[-1]; get=lambda n:ex.read(st,o.sub(('f',n)))
            if n=='eof': return get('eof')
            if n=='gcount': return get('cnt')
            if n in('operator!','fail'): return get('fail')
            if n=='good': return And(Not(get('fail')),Not(get('eof')))
            return Not(get('fail'))
        @sbase('read')
        def _(ex,st,o,a,e):
            get=lambda n:ex.read(st,o.sub(('f',n))); p=ex.rv(st,a[0]); n=ex.toint(ex.rv(st,a[1]))
            if not isinstance(p,Ptr): raise Unsupported('read into %r'%(p,))
            bad=Or(get('fail'),get('eof'),Not(get('open'))); left=slen(get('data'))-get('pos'); st.assume(le(0,get('pos')))
            ex.check(st,le(0,n),'number of bytes to read is not negative',e=e)
            bad=ex.nameb(st,bad,'unreadable'); full=ex.nameb(st,And(Not(bad),le(n,left)),'full'); k=fresh('count',Int); D=get('data'); pos0=get('pos')
            st.assume(And(Implies(full,eq(k,n)),Implies(And(Not(full),Not(bad)),And(lt(k,n),eq(k,ite(le(0,left),left,I(0))))),Implies(bad,eq(k,0)),le(0,k),le(k,n)))
            if p.off is None: S.rawread(ex,st,p,D,pos0,full,n,e)      # after a short read the object is arbitrary
            elif p.lv is not None:
                v=ex.to_term(ex.read(st,p.lv)); ex.check(st,And(le(0,p.off),le(p.off+n,slen(v))),'file is read into the buffer',e=e)
                w=fresh('partial',Bytes); st.assume(eq(slen(w),slen(v))); ex.write(st,p.lv,ite(full,concat(ext(v,I(0),p.off),concat(ext(D,pos0,n),drop(v,p.off+n))),w))
            else: ex.check(st,eq(n,0),'file is read into a buffer',e=e)
            for f_,v in(('cnt',k),('pos',pos0+k),('eof',Or(get('eof'),And(Not(bad),Not(full)))),('fail',Or(get('fail'),Not(full)))): ex.write(st,o.sub(('f',f_)),v)
            return o
        @sbase('seekg')
        def _(ex,st,o,a,e):
            if len(a)!=2: raise Unsupported('seekg form')
            n=ex.toint(ex.rv(st,a[0])); w=ex.rv(st,a[1]); ex.check(st,eq(w,bv(1,32)),'seek is relative',e=e); ex.check(st,le(0,n),'seek forward',e=e)
            get=lambda n:ex.read(st,o.sub(('f',n))); ok=And(Not(get('fail')),get('open'))
            ex.write(st,o.sub(('f','pos')),ite(ok,get('pos')+n,get('pos'))); ex.write(st,o.sub(('f','eof')),FALSE); return o
        def wfault(ex,st,o):
            f_=fresh('iofault',Bool); l=o.sub(('f','fail')); st.assume(Implies(Or(ex.read(st,l),Not(ex.read(st,o.sub(('f','open'))))),f_)); ex.write(st,l,f_)
            if ex.con.opts.get('disk'): st.env['g:$iofault']=Or(ex.gread(st,'$iofault'),f_)
            return f_
        def synced(ex,st,o):      # what was written is in the file, unless it failed
            f_=wfault(ex,st,o); put=ite(f_,fresh('partial',Bytes),ex.read(st,o.sub(('f','out')))); st.env['g:$disk']=store(ex.gread(st,'$disk'),ex.read(st,o.sub(('f','file'))),put)
        def _rename(ex,st,a,e):
            if not ex.con.opts.get('disk'): raise Unsupported('rename')
            x,y=[S.text(ex,st,q) for q in a[:2]]; f_=fresh('iofault',Bool); S.throws_sticky(ex,st,f_,'rename fails'); d=ex.gread(st,'$disk'); st.env['g:$disk']=store(d,y,select(d,x)); return None
        F['std::filesystem::rename']=_rename
        def _mkdirs(ex,st,a,e):
            if not ex.con.opts.get('disk'): raise Unsupported('create_directories')
            S.text(ex,st,a[0]); S.throws_sticky(ex,st,fresh('iofault',Bool),'create_directories fails'); return fresh('created',Bool)
        F['std::filesystem::create_directories']=_mkdirs
        @sbase('write')
        def _(ex,st,o,a,e):
            p=ex.rv(st,a[0]); n=ex.toint(ex.rv(st,a[1]))
            if not isinstance(p,Ptr): raise Unsupported('write from %r'%(p,))
            if p.lv is None: ex.check(st,eq(n,0),'file is written from a buffer',e=e); d=empty(BV8)
            elif p.off is None: d=S.rawbytes(ex,st,p,n,e)
            else: v=ex.to_term(ex.read(st,p.lv)); ex.check(st,And(le(0,p.off),le(0,n),le(p.off+n,slen(v))),'file is written from inside of the buffer',e=e); d=ext(v,p.off,n)
            l=o.sub(('f','out')); out=ex.read(st,l); f_=wfault(ex,st,o); new=concat(out,d); S.setlen(st,new); w=fresh('written',Bytes); st.assume(Implies(Not(f_),eq(w,new))); ex.write(st,l,w)
            if ex.con.opts.get('disk'): st.env['g:$disk']=store(ex.gread(st,'$disk'),ex.read(st,o.sub(('f','file'))),fresh('partial',Bytes))
            return o
        @sbase('flush')
        def _(ex,st,o,a,e):
            if ex.con.opts.get('disk'): synced(ex,st,o)
            else: wfault(ex,st,o)
            return o
        # zlib: a stream has consumed $fed and produced $out; the format is the assumed functions zlen (length of the complete stream at the start of some bytes, or -1) and zplain (what it decodes to)
        def zs(ex,st,a):
            p=ex.rv(st,a[0])
            if not isinstance(p,Ptr) or p.off is not None: raise Unsupported('z_stream')
            return ex.deref(st,p,None)
        def zinit(kind):
            def g(ex,st,a,e):
                S.note('zlib'); o=zs(ex,st,a); w=ex.rv(st,a[1] if kind==0 else a[3]); r=fresh('zinit',BV(32)); lvl=None if kind==0 else ex.rv(st,a[1])
                flt=fresh('zfault',Bool); st.assume(Implies(ex.gread(st,'zfault'),flt)); st.env['g:zfault']=flt
                good=TRUE if kind==0 else And(bvcmp("bvsle",bv(-1,32),lvl),bvcmp("bvsle",lvl,bv(9,32)))
                wb=eq(w,bv(32,32)) if kind==0 else Or(And(bvcmp("bvsle",bv(24,32),w),bvcmp("bvsle",w,bv(31,32))),And(bvcmp("bvsle",bv(8,32),w),bvcmp("bvsle",w,bv(15,32))),And(bvcmp("bvsle",bv(-15,32),w),bvcmp("bvsle",w,bv(-8,32))))
                ex.check(st,wb,'window bits are valid',e=e)
                st.assume(And(Implies(eq(r,bv(0,32)),good),Implies(And(ne(r,bv(0,32)),good),flt),bvcmp("bvsle",r,bv(0,32))))
                for n,v in(('$fed',empty(BV8)),('$seen',empty(BV8)),('$out',empty(BV8)),('$end',FALSE),('$live',eq(r,bv(0,32))),('$kind',I(0) if kind==0 else ite(bvcmp("bvsle",bv(24,32),w),I(1),ite(bvcmp("bvsle",bv(8,32),w),I(2),I(3))))): ex.write(st,o.sub(('f',n)),v)
                return r
            return g
        F['deflateInit2_']=zinit(1); F['inflateInit2_']=zinit(0)
        def zend(ex,st,a,e):
            o=zs(ex,st,a); g=o.sub(('f','$live')); ex.write(st,g,FALSE); return fresh('zend',BV(32))
        F['deflateEnd']=F['inflateEnd']=zend
        def zreset(ex,st,a,e):
            o=zs(ex,st,a); ex.check(st,ex.read(st,o.sub(('f','$live'))),'zlib stream is initialized',e=e)
            for n,v in(('$fed',empty(BV8)),('$seen',empty(BV8)),('$out',empty(BV8)),('$end',FALSE)): ex.write(st,o.sub(('f',n)),v)
            return bv(0,32)
        F['deflateReset']=F['inflateReset']=zreset
        def zstep(dec):
            def g(ex,st,a,e):
                S.note('zlib'); o=zs(ex,st,a); fl=ex.rv(st,a[1]); get=lambda n:ex.read(st,o.sub(('f',n))); put=lambda n,v:ex.write(st,o.sub(('f',n)),v)
                ex.check(st,get('$live'),'zlib stream is initialized',e=e)
                ni,no=get('next_in'),get('next_out'); ai,ao=bv2nat(get('avail_in')),bv2nat(get('avail_out')); fed,out,end,kind=get('$fed'),get('$out'),get('$end'),get('$kind')
                if not isinstance(ni,Ptr) or not isinstance(no,Ptr): raise Unsupported('z_stream buffers')
                if ni.lv is None: ex.check(st,eq(ai,0),'input of the stream is given',e=e); I_=empty(BV8)
                else: v=ex.to_term(ex.read(st,ni.lv)); ex.check(st,And(le(0,ni.off),le(ni.off+ai,slen(v))),'zlib reads inside of the buffer',e=e); I_=ext(v,ni.off,ai)
                if no.lv is None: raise Unsupported('no output buffer')
                b=ex.to_term(ex.read(st,no.lv)); ex.check(st,And(le(0,no.off),le(no.off+ao,slen(b)),lt(0,ao)),'zlib writes inside of the buffer',e=e)
                if not dec: ex.check(st,Or(eq(fl,bv(0,32)),eq(fl,bv(4,32))),'flush mode is known',e=e)
                else: ex.check(st,eq(fl,bv(0,32)),'flush mode is known',e=e)
                k,m=fresh('zin',Int),fresh('zout',Int); d=fresh('zdata',Bytes); r=fresh('zres',BV(32)); flt=fresh('zfault',Bool)
                st.assume(And(le(0,k),le(k,ai),le(0,m),le(m,ao),eq(slen(d),m),Implies(ex.gread(st,'zfault'),flt))); st.env['g:zfault']=flt
                fed1=concat(fed,ext(I_,I(0),k)); out1=concat(out,d); S.setlen(st,fed1); S.setlen(st,out1)
                OK,E,B=eq(r,bv(0,32)),eq(r,bv(1,32)),eq(r,bv(-5,32)); bad=And(Not(OK),Not(E),Not(B)); full=eq(m,ao); st.assume(And(bvcmp('bvsle',bv(-4,32),r) if dec else Or(bvcmp('bvsle',bv(-2,32),r),B),bvcmp('bvsle',r,bv(2,32))) if not dec else And(Or(bvcmp('bvsle',bv(-4,32),r),B),ne(r,bv(-1,32)),bvcmp('bvsle',r,bv(2,32))))
                if dec:
                    st.assume(And(Implies(bad,Or(flt,zbad(kind,concat(fed,I_)))),Implies(E,And(eq(zlen(kind,fed1),slen(fed1)),eq(zplain(kind,fed1),out1))),
                        Implies(end,And(eq(k,0),eq(m,0),E)),Implies(And(Or(OK,B),Not(full)),And(eq(k,ai),eq(zlen(kind,fed1),-1))),Implies(B,And(eq(k,0),eq(m,0),eq(ai,0)))))
                else:
                    fin=eq(fl,bv(4,32))
                    st.assume(And(Or(OK,E,B,And(bvcmp("bvslt",r,bv(0,32)),Or(flt,And(end,Not(fin)))))),)
                    st.assume(And(Implies(E,And(fin,eq(k,ai),eq(zlen(kind,out1),slen(out1)),eq(zplain(kind,out1),fed1))),Implies(B,And(eq(k,0),eq(m,0),Or(eq(ai,0),end))),
                        Implies(end,And(eq(k,0),eq(m,0),Implies(And(fin,eq(ai,0),Not(bad)),E))),Implies(And(Not(bad),Not(full),Not(end)),And(eq(k,ai),Implies(fin,E)))))
                put('$seen',concat(fed,I_)); put('$fed',fed1); put('$out',out1); put('$end',Or(end,E)); put('avail_in',bvop('bvsub',get('avail_in'),int2bv(k,32))); put('avail_out',bvop('bvsub',get('avail_out'),int2bv(m,32)))
                for w in(get('avail_in'),): st.assume(eq(bv2nat(w),ai-k))
                st.assume(eq(bv2nat(get('avail_out')),ao-m))
                if ni.lv is not None: put('next_in',Ptr(ni.lv,ni.off+k,FALSE,ni.el))
                put('next_out',Ptr(no.lv,no.off+m,FALSE,no.el))
                ex.write(st,no.lv,concat(ext(b,I(0),no.off),concat(d,drop(b,no.off+m)))); return r
            return g
        F['deflate']=zstep(False); F['inflate']=zstep(True)
        # brotli, in the same way (one format: blen, bplain)
        def bnew(which):
            def g(ex,st,a,e):
                S.note('brotli'); t=ex.ty(e['t'])['to']; v=ex.default(st,ex.uncv(t))
                for n,x in(('$fed',empty(BV8)),('$seen',empty(BV8)),('$out',empty(BV8)),('$end',FALSE)): v=v.set(n,x)
                lv=ex.temp(st,v,ex.uncv(t),'heap'); return Ptr(lv,None,FALSE,t)
            return g
        F['BrotliEncoderCreateInstance']=F['BrotliDecoderCreateInstance']=bnew(0)
        def bfree(ex,st,a,e):
            p=ex.rv(st,a[0])
            if p.lv is None or p.lv.path[-1:]!=(('f','val'),): raise Unsupported('brotli state that is not owned')
            ol=LV(p.lv.root,p.lv.path[:-1]); o=ex.own(st,ol)
            ex.check(st,Or(p.nul,o.f['live']),'released only once',e=e); ex.write(st,ol,Rec(o.ty,{'has':o.f['has'],'live':FALSE,'val':o.f['val']}))
        F['BrotliEncoderDestroyInstance']=F['BrotliDecoderDestroyInstance']=bfree
        def fault(ex,st,r):
            flt=fresh('zfault',Bool); st.assume(Implies(Or(ex.gread(st,'zfault'),r),flt)); st.env['g:zfault']=flt; return flt
        @f('BrotliEncoderSetParameter')
        def _(ex,st,a,e): ex.deref(st,ex.rv(st,a[0]),e); ex.rv(st,a[1]); ex.rv(st,a[2]); r=fresh('bset',BV(32)); fault(ex,st,eq(r,bv(0,32))); return r
        @f('BrotliEncoderIsFinished')
        def _(ex,st,a,e): o=ex.deref(st,ex.rv(st,a[0]),e); return ite(ex.read(st,o.sub(('f','$end'))),bv(1,32),bv(0,32))
        @f('BrotliDecoderGetErrorCode')
        def _(ex,st,a,e): ex.deref(st,ex.rv(st,a[0]),e); return fresh('berr',BV(32))
        @f('BrotliDecoderErrorString')
        def _(ex,st,a,e): return M[('exception','what')](ex,st,None,[],e)
        def bstep(dec):
            def g(ex,st,a,e):
                S.note('brotli'); o=ex.deref(st,ex.rv(st,a[0]),e); a=a[1:] if dec else a[1:]; op=None
                if not dec: op=ex.rv(st,a[0]); a=a[1:]
                L=[ex.rv(st,x).lv for x in a[:4]]; ai,ni,ao,no=[ex.read(st,l) for l in L]; get=lambda n:ex.read(st,o.sub(('f',n))); put=lambda n,v:ex.write(st,o.sub(('f',n)),v)
                if not isinstance(ni,Ptr) or not isinstance(no,Ptr): raise Unsupported('brotli buffers')
                v=ex.to_term(ex.read(st,ni.lv)); ex.check(st,And(le(0,ni.off),le(ni.off+ai,slen(v))),'brotli reads inside of the buffer',e=e); I_=ext(v,ni.off,ai)
                b=ex.to_term(ex.read(st,no.lv)); ex.check(st,And(le(0,no.off),le(no.off+ao,slen(b))),'brotli writes inside of the buffer',e=e)
                fed,out,end=get('$fed'),get('$out'),get('$end'); k,m=fresh('zin',Int),fresh('zout',Int); d=fresh('zdata',Bytes); r=fresh('zres',BV(32))
                st.assume(And(le(0,k),le(k,ai),le(0,m),le(m,ao),eq(slen(d),m))); fed1=concat(fed,ext(I_,I(0),k)); out1=concat(out,d); S.setlen(st,fed1); S.setlen(st,out1); full=eq(m,ao)
                ex.check(st,Not(end),'not used behind the end of the stream',e=e)
                if dec:
                    flt=fault(ex,st,FALSE); R=lambda n:eq(r,bv(n,32)); E=R(1)
                    st.assume(And(Or(R(0),R(1),R(2),R(3)),Implies(R(0),Or(flt,bbad(concat(fed,I_)))),Implies(E,And(eq(blen(fed1),slen(fed1)),eq(bplain(fed1),out1))),Implies(R(2),And(eq(k,ai),eq(blen(fed1),-1))),Implies(R(3),full)))
                else:
                    ok=ne(r,bv(0,32)); fault(ex,st,Not(ok)); fin=eq(op,bv(2,32)); ex.check(st,Or(fin,eq(op,bv(0,32))),'operation is known',e=e); E=fresh('bend',Bool)
                    st.assume(And(Implies(E,And(ok,fin,eq(k,ai),eq(blen(out1),slen(out1)),eq(bplain(out1),fed1))),Implies(And(ok,Not(full)),And(eq(k,ai),Implies(fin,E)))))
                put('$seen',concat(fed,I_)); put('$fed',fed1); put('$out',out1); put('$end',E)
                ex.write(st,L[0],ai-k); ex.write(st,L[2],ao-m); ex.write(st,L[1],Ptr(ni.lv,ni.off+k,FALSE,ni.el)); ex.write(st,L[3],Ptr(no.lv,no.off+m,FALSE,no.el))
                ex.write(st,no.lv,concat(ext(b,I(0),no.off),concat(d,drop(b,no.off+m)))); return r
            return g
        F['BrotliEncoderCompressStream']=bstep(False); F['BrotliDecoderDecompressStream']=bstep(True)
        # sockets: what is received or sent on a handle is appended to the ghost fields $rx / $tx of the object holding the handle
        def owner(ex,st,a):
            x=a
            while x['k']=='cast': x=x['e']
            lv=ex.ev(st,x)
            if isinstance(lv,LV) and lv.path and lv.path[-1][0]=='f':
                o=LV(lv.root,lv.path[:-1]); v=ex.read(st,o)
                if isinstance(v,Rec) and '$rx' in v.f: return o
            raise Unsupported('socket handle not held by a connection object')
        @f('recv')
        def _(ex,st,a,e):
            o=owner(ex,st,a[0]); p=ex.rv(st,a[1]); n=ex.rv(st,a[2])
            ex.check(st,ne(ex.rv(st,a[0]),bv(-1,32)),'recv on an open handle',e=e)
            v=ex.to_term(ex.read(st,p.lv)); ex.check(st,And(le(0,p.off),le(p.off+n,slen(v))),'recv writes inside the buffer',e=e)
            k=fresh('received',Int); d=fresh('rxdata',Bytes)
            st.assume(And(le(-1,k),le(k,n),le(slen(d),tm_MAX-1),eq(slen(d),imax(k,I(0)))))
            if not(p.off is I(0)): raise Unsupported('recv into the middle of a buffer')
            ex.write(st,p.lv,concat(d,ext(v,slen(d),slen(v)-slen(d))))
            g=o.sub(('f','$rx')); ex.write(st,g,concat(ex.read(st,g),d)); return k
        @f('send')
        def _(ex,st,a,e):
            o=owner(ex,st,a[0]); p=ex.rv(st,a[1]); n=ex.rv(st,a[2]); fl=ex.rv(st,a[3])
            ex.check(st,ne(ex.rv(st,a[0]),bv(-1,32)),'send on an open handle',e=e)
            ex.check(st,ne(bvop('bvand',fl,bv(0x4000,32)),bv(0,32)),'send does not raise SIGPIPE (MSG_NOSIGNAL)',e=e)
            v=ex.to_term(ex.read(st,p.lv)); ex.check(st,And(le(0,p.off),le(p.off+n,slen(v))),'send reads inside the buffer',e=e)
            k=fresh('sent',Int); st.assume(And(le(-1,k),le(k,n)))
            g=o.sub(('f','$tx')); ex.write(st,g,concat(ex.read(st,g),ext(v,p.off,imax(k,I(0))))); return k
        @f('shutdown')
        def _(ex,st,a,e):
            for x in a: ex.rv(st,x)
            r=fresh('ret',BV(32)); st.assume(Or(eq(r,bv(0,32)),eq(r,bv(-1,32)))); return r
        @f('close')
        def _(ex,st,a,e):
            h=ex.rv(st,a[0]); st.env['g:closed']=concat(ex.gread(st,'closed'),unit(h))
            r=fresh('ret',BV(32)); st.assume(Or(eq(r,bv(0,32)),eq(r,bv(-1,32)))); return r
        @f('setsockopt')
        def _(ex,st,a,e):
            o=owner(ex,st,a[0]); nm=ex.rv(st,a[2]); p=ex.rv(st,a[3]); r=fresh('ret',BV(32)); st.assume(Or(eq(r,bv(0,32)),eq(r,bv(-1,32))))
            if not isbv(nm) or nm.args[0] not in(20,21) or not isinstance(p,Ptr): raise Unsupported('setsockopt')
            tv=ex.read(st,p.lv); ms=add(mul(1000,ex.field(tv,'tv_sec')),div(ex.field(tv,'tv_usec'),1000))
            ex.check(st,And(le(0,ex.field(tv,'tv_usec')),lt(ex.field(tv,'tv_usec'),1000000)),'a timeval holds less than a second of microseconds',e=e)
            g=o.sub(('f','$rcvtimeo' if nm.args[0]==20 else '$sndtimeo')); ex.write(st,g,ite(eq(r,bv(0,32)),ms,ex.read(st,g))); return r
        @f('__errno_location')
        def _(ex,st,a,e):
            r=fresh('errno',BV(32)); return Ptr(ex.temp(st,r,'int'),None,FALSE,'int')
        @f('std::chrono::steady_clock::now','std::chrono::system_clock::now','std::chrono::_V2::steady_clock::now','std::chrono::_V2::system_clock::now')
        def _(ex,st,a,e): return ex.fresh(e['t'],'now',st)
        @f('std::async')
        def _(ex,st,a,e): return ex.fresh(e['t'],'async',st)
        @f('time','std::time')
        def _(ex,st,a,e):
            p=ex.rv(st,a[0])
            if isinstance(p,Ptr) and p.nul is TRUE: r=fresh('now',Int); st.assume(And(le(0,r),lt(r,1<<40))); return r
            raise Unsupported('time')
        @f('std::transform')
        def _(ex,st,a,e): raise Unsupported('std::transform')
    # -------------------------------------------------- operators
    def oper(S,ex,st,f,e):
        op=e['op']; a=e['args']; n=f['name']
        cls=ex.cls(a[0]['t']); al=S.alias(cls)
        S.note('operator%s(%s)'%(op,cls))
        if op in('()','call') and cls=='uniform_int_distribution': return ex.fresh(e['t'],'random',st)
        if op=='[]':
            o=ex.lv(st,a[0])
            v=ex.read(st,o)
            if al=='map':
                k=ex.rv(st,a[1]); k=S.bytes_of(ex,st,k,a[1]['t']) if ex.field(v,'dom').sort[1]==Bytes else ex.to_term(k)
                return S.mapindex(ex,st,o,k,e)
            i=ex.rv(st,a[1]); i=ex.toint(i)
            L=ex.clen(st,o)
            if cls=='basic_string' and ex.con.opts.get('nulread') and e.get('lv') and ex.ty(ex.nonref(e['t'])).get('const'):
                ex.check(st,And(le(0,i),le(i,L)),'index is in bounds',e=e)
                return ex.temp(st,ite(lt(i,L),nth(ex.to_term(v),i),B8(0)),'char')
            ex.check(st,And(le(0,i),lt(i,L)),'index is in bounds',e=e)
            return o.sub(('i',i))
        if cls in('__normal_iterator',) or (ex.ty(ex.nonref(a[0]['t']))['k']=='ptr' and not(len(a)>1 and ex.cls(a[1]['t']) in('basic_string','basic_string_view'))):
            return S.iterop(ex,st,op,a,e)
        if cls in('_Rb_tree_const_iterator','_Rb_tree_iterator','_Node_iterator','_Node_const_iterator','_Self','_Node_iterator_base'):
            if op in('==','!='):
                x=ex.rv(st,a[0]); y=ex.rv(st,a[1])
                if isinstance(x,MapIt) and isinstance(y,MapIt):
                    if x.key is None: r=y.end
                    elif y.key is None: r=x.end
                    else: r=Or(And(x.end,y.end),And(Not(x.end),Not(y.end),eq(x.key,y.key)))
                    return r if op=='==' else Not(r)
                raise Unsupported('map iterator comparison')
            if op in('->','*'):
                x=ex.rv(st,a[0])
                if isinstance(x,MapIt): return x
            raise Unsupported('map iterator operator '+op)
        if op in('+','+='):
            x=ex.rv(st,a[0]) if op=='+' else ex.lv(st,a[0])
            if op=='+=':
                y=S.bytes_of(ex,st,ex.rv(st,a[1]),a[1]['t']); v=concat(ex.to_term(ex.read(st,x)),y); S.setlen(st,v); ex.write(st,x,v); return x
            xs=S.bytes_of(ex,st,x,a[0]['t']); ys=S.bytes_of(ex,st,ex.rv(st,a[1]),a[1]['t'])
            r=concat(xs,ys); S.setlen(st,r); return r
        if op in('==','!='):
            x=ex.rv(st,a[0]); y=ex.rv(st,a[1])
            r=S.equal(ex,st,x,y,a[0]['t'],a[1]['t'])
            return r if op=='==' else Not(r)
        if op=='=':
            r=S.assignval(ex,st,f,a,e); l=ex.lv(st,a[0]); ex.write(st,l,r); return l
        if op=='->' and cls=='optional':
            o=ex.lv(st,a[0]); ex.check(st,ex.field(ex.read(st,o),'has'),'optional has a value',e=e); return Ptr(o.sub(('f','val')),None,FALSE)
        if op=='*' and cls=='optional':
            o=ex.lv(st,a[0]); ex.check(st,ex.field(ex.read(st,o),'has'),'optional has a value',e=e); return o.sub(('f','val'))
        h=S.ext_oper(ex,st,f,e,op,cls)
        if h is not None: return h
        if op in('|','&') and all(ex.ty(ex.nonref(x['t']))['k']=='enum' for x in a):
            x,y=[ex.rv(st,x) for x in a]; return bvop('bvor' if op=='|' else 'bvand',x,y)
        raise Unsupported('operator %s on %s'%(op,cls))
    def ext_oper(S,ex,st,f,e,op,cls):
        if cls in('time_point','duration','strong_ordering') and op in('<','>','<=','>=','==','!=','-','+','<=>'):      # clocks: any outcome
            for x in e['args']:
                if ex.cls(x['t']) in('time_point','duration'): ex.rv(st,x)
            if op=='<=>': return Opaque(e['t'])
            return fresh('clock',Bool) if op in('<','>','<=','>=','==','!=') else ex.fresh(e['t'],'clock',st)
        if cls in('time_point','future') and op=='=':
            v=ex.rv(st,e['args'][1]); l=ex.lv(st,e['args'][0]); ex.write(st,l,v); return l
        return None
    def assignval(S,ex,st,f,a,e):
        t=ex.nonref(a[0]['t']); cls=ex.cls(t)
        y=ex.rv(st,a[1])
        if cls=='basic_string': return S.bytes_of(ex,st,y,a[1]['t'])
        if cls=='optional':
            if isinstance(y,Opaque) and ex.cls(a[1]['t'])=='nullopt_t': return Rec(ex.uncv(t),{'has':FALSE,'val':ex.zero(ex.ty(t)['args'][0]) })
            if ex.cls(a[1]['t'])=='optional': return y
            it=ex.ty(t)['args'][0]
            if ex.cls(it)=='basic_string': y=S.bytes_of(ex,st,y,a[1]['t'])
            return Rec(ex.uncv(t),{'has':TRUE,'val':y})
        if cls=='atomic' and ex.cls(a[1]['t'])!='atomic': return Rec(ex.uncv(t),{'v':y})
        if S.alias(cls) in('seq','map','set'):
            if isinstance(y,ArrV): return ex.to_term(y)
            return y
        if isinstance(y,Opaque): return y
        raise Unsupported('assignment to '+cls)
    def equal(S,ex,st,x,y,tx,ty_):
        cx,cy=ex.cls(tx),ex.cls(ty_)
        if cx in('basic_string','basic_string_view') or cy in('basic_string','basic_string_view'):
            return eq(S.bytes_of(ex,st,x,tx),S.bytes_of(ex,st,y,ty_))
        if cx=='optional' and cy!='optional':
            return And(ex.field(x,'has'),eq(ex.to_term(ex.field(x,'val')),S.bytes_of(ex,st,y,ty_) if isinstance(y,Ptr) else ex.to_term(y)))
        if cx in('vector','array'): return eq(ex.to_term(x),ex.to_term(y))
        if cx=='optional': 
            return And(eq(ex.field(x,'has'),ex.field(y,'has')),Implies(ex.field(x,'has'),eq(ex.to_term(ex.field(x,'val')),ex.to_term(ex.field(y,'val')))))
        raise Unsupported('== on '+str(cx))
    def iterop(S,ex,st,op,a,e):
        if op in('++','--'):
            l=ex.lv(st,a[0]); p=ex.read(st,l)
            q=ex.ptradd(st,p,I(1),'unsigned long','+' if op=='++' else '-',e); ex.write(st,l,q)
            return p if len(a)>1 else l
        if op in('+=','-='):
            l=ex.lv(st,a[0]); p=ex.read(st,l); k=ex.rv(st,a[1]); ex.write(st,l,ex.ptradd(st,p,k,a[1]['t'],op[0],e)); return l
        x=ex.rv(st,a[0])
        if op=='*': return ex.deref(st,x,e)
        if op=='->': 
            lv=ex.deref(st,x,e); return Ptr(lv,None,FALSE)
        y=ex.rv(st,a[1])
        if op in('==','!=','<','<=','>','>='): return ex.ptrcmp(op,x,y)
        if op in('+','-'):
            if isinstance(y,Ptr): return sub(x.off,y.off)
            return ex.ptradd(st,x,y,a[1]['t'],op,e)
        raise Unsupported('iterator '+op)
    # -------------------------------------------------- constructors
    def ctor(S,ex,st,f,e):
        t=ex.uncv(e['t']); d=ex.ty(t); cls=ex.cls(t); a=e['args']
        S.note('%s constructor'%cls)
        sig=f['sig']
        def nd(x): return ex.cls(x['t'])!='allocator'
        a=[x for x in a if nd(x)]
        if cls in('allocator',): return Opaque(t)
        if cls in FSTREAM:
            z=ex.zero(t)
            if not a: return z
            if ex.cls(a[0]['t'])==cls: return ex.rv(st,a[0])
            p=S.text(ex,st,a[0]); m=ex.toint(ex.rv(st,a[1])) if len(a)>1 else None
            wr=cls=='basic_ofstream' or m is not None and m.op=='int' and m.args[0]&16!=0
            if cls=='basic_fstream' and (m is None or m.op!='int' or m.args[0] not in(8|4,16|4,16|4|1)) or cls!='basic_fstream' and (m is None or m.op!='int' or m.args[0]&~(8|16|32)!=4): raise Unsupported('open mode')
            op=fresh('opened',Bool) if wr else fopens(p)
            if ex.con.opts.get('disk'):
                d=ex.gread(st,'$disk')
                if wr:
                    st.env['g:$iofault']=Or(ex.gread(st,'$iofault'),Not(op)); app=m.args[0]&1
                    if not app: st.env['g:$disk']=store(d,p,ite(op,empty(BV8),select(d,p)))
                    return z.set('file',p).set('open',op).set('fail',Not(op)).set('out',select(d,p) if app else empty(BV8))
                return z.set('file',p).set('open',op).set('fail',Not(op)).set('data',select(d,p))
            return z.set('file',p).set('open',op).set('fail',Not(op)).set('data',filetext(p) if not wr else empty(BV8))
        if cls=='istreambuf_iterator':
            if not a: return Rec(t,{'rest':empty(BV8)})
            o=ex.lv(st,a[0]); get=lambda n:ex.read(st,o.sub(('f',n))); r=ite(get('open'),drop(get('data'),get('pos')),empty(BV8)); ex.write(st,o.sub(('f','pos')),slen(get('data'))); return Rec(t,{'rest':r})
        if cls in('basic_string','basic_string_view'):
            if not a: return empty(BV8)
            x=ex.rv(st,a[0])
            if len(a)==1:
                if isinstance(x,T) and x.sort==Bytes: return x
                if isinstance(x,Ptr): return S.cstr(ex,st,x)
                if isinstance(x,ArrV): return ex.to_term(x)
                raise Unsupported('string ctor')
            if 'filesystem::path::format' in a[1]['t'] and isinstance(x,T): return x
            y=ex.rv(st,a[1])
            if isinstance(x,Ptr) and isinstance(y,Ptr): return S.iterrange(ex,st,x,y)
            if isinstance(x,Ptr) and isinstance(y,T):
                v=ex.to_term(ex.read(st,x.lv)); ex.check(st,le(x.off+y,slen(v)),'string constructor reads inside the buffer',e=e); return ext(v,x.off,y)
            if isinstance(x,T) and x.sort==Int: return rep(y,x)
            if isinstance(x,T) and x.sort==Bytes and len(a)==3:
                n=ex.rv(st,a[2]); S.throws(ex,st,lt(slen(x),y),'std::out_of_range','string ctor'); return ext(x,y,n)
            raise Unsupported('string ctor')
        if cls in('vector','initializer_list','deque'):
            es=ex.sort(t)
            if es is None: return Opaque(t)
            if not a: return empty(es[1])
            x=ex.rv(st,a[0])
            if isinstance(x,ArrV): return slist([ex.to_term(v) for v in x.e],es[1])
            if len(a)==1:
                if isinstance(x,T) and x.sort==es: return x
                if isinstance(x,T) and x.sort==Int: return rep(ex.to_term(ex.zero(d['args'][0])),x)
                raise Unsupported('vector ctor')
            y=ex.rv(st,a[1])
            if isinstance(x,Rec) and 'rest' in x.f: return x.f['rest']
            if isinstance(x,Ptr) and isinstance(y,Ptr): return S.iterrange(ex,st,x,y)
            if isinstance(x,T) and x.sort==Int: return rep(ex.to_term(y),x)
            raise Unsupported('vector ctor')
        if cls in('queue',):
            so=ex.sort(t); return empty(so[1]) if so else Opaque(t)
        if cls=='array': return ex.default(st,t)
        if cls=='atomic': return Rec(t,{'v':ex.rv(st,a[0]) if a else ex.fresh(d['args'][0],'atomic',st)})
        if cls=='optional':
            it=d['args'][0]
            if not a or ex.cls(a[0]['t'])=='nullopt_t': return Rec(t,{'has':FALSE,'val':ex.fresh(it,'noval',st)})
            x=ex.rv(st,a[0])
            if ex.cls(a[0]['t'])=='optional' and not (ex.cls(it)=='optional'): return x
            if ex.cls(it)=='basic_string': x=S.bytes_of(ex,st,x,a[0]['t'])
            return Rec(t,{'has':TRUE,'val':x})
        if cls=='pair':
            if not a: return ex.default(st,t)
            if len(a)==2:
                vs=[]
                for x,ft in zip(a,d['args']):
                    v=ex.rv(st,x)
                    if ex.cls(ft)=='basic_string': v=S.bytes_of(ex,st,v,x['t'])
                    vs.append(v)
                return Rec(t,{'first':vs[0],'second':vs[1]})
            return ex.rv(st,a[0])
        if cls in('set',):
            if not a: return ex.zero(t)
            if a[0]['k']=='stdinit':
                x=ex.rv(st,a[0])
                if isinstance(x,ArrV): return CSet([ex.to_term(v) for v in x.e])
            x=ex.rv(st,a[0])
            if isinstance(x,(CSet,Rec)): return x
            if isinstance(x,Ptr) and len(a)==2:
                y=ex.rv(st,a[1]); q=S.iterrange(ex,st,x,y)
                if isinstance(q,T) and q.sort==Seq(Bytes): return Rec(t,{'dom':setof(q,slen(q))})
            raise Unsupported('set ctor')
        if cls in('map','unordered_map'):
            if not a: return ex.zero(t)
            x=ex.rv(st,a[0])
            if isinstance(x,ArrV):
                items=[(ex.to_term(ex.field(p,'first')),ex.field(p,'second')) for p in x.e]
                seen=[]; out=[]
                for k,v in items:
                    if any(k is y for y in seen): continue
                    seen.append(k); out.append((k,v))
                if all(cbytes(k) is not None or isconst(k) for k in seen): return CMap(t,out)
                # general list
                m=ex.zero(t); lv=ex.temp(st,m,t)
                raise Unsupported('map from list')
            if isinstance(x,(Rec,T,CMap)): return x
            raise Unsupported('map ctor')
        if cls=='function':
            if a:
                x=ex.rv(st,a[0]); return x
            return Opaque(t)
        if cls in('__normal_iterator','_Rb_tree_const_iterator','_Node_const_iterator','_Node_iterator') and len(a)==1: return ex.rv(st,a[0])
        h=S.ext_ctor(ex,st,f,e,cls,a)
        if h is not None: return h
        for x in a:
            if cls in('runtime_error','invalid_argument','exception','logic_error','out_of_range'): ex.rv(st,x)
        return Opaque(t)
    def ext_ctor(S,ex,st,f,e,cls,a):
        if cls in('error_code','error_category'):
            for x in a: ex.rv(st,x)
            return Opaque(ex.uncv(e['t']))
        if cls in('duration','time_point'):
            for x in a: ex.rv(st,x)
            return ex.fresh(ex.uncv(e['t']),'clock',st)
        return None
    def to_generic_map(S,ex,v):
        """CMap as an array map"""
        z=ex.zero(v.ty); dom=z.f['dom']; val=z.f['val']
        for k,x in v.items: dom=store(dom,k,TRUE); val=store(val,k,ex.to_term(x))
        return Rec(v.ty,{'dom':dom,'val':val,'n':I(len(v.items))})
