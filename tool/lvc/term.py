"""Terms: hash-consed, typed, simplified on construction, printable to SMT-LIB
in two encodings (native theory of sequences / axiomatised sequences)."""
import itertools
Bool='Bool'; Int='Int'
def BV(n): return ('BV',n)
def Seq(e): return ('Seq',e)
def Arr(k,v): return ('Arr',k,v)
def DT(n): return ('DT',n)
BV8=BV(8); Bytes=Seq(BV8); SeqS=Seq(Bytes)
DTS={}      # name -> [(field, sort)]
def declare_dt(name, fields):
    if name in DTS:
        assert DTS[name]==fields,(name,DTS[name],fields)
    DTS[name]=fields
    return DT(name)

_tab={}
_cnt=itertools.count(1)
class T:
    __slots__=('op','args','sort','id','fv')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self,o): return self is o
    # sugar for specs (Int / Bool)
    def __add__(a,b): return add(a,b)
    def __radd__(a,b): return add(b,a)
    def __sub__(a,b): return sub(a,b)
    def __rsub__(a,b): return sub(b,a)
    def __mul__(a,b): return mul(a,b)
    def __rmul__(a,b): return mul(a,b)
    def __neg__(a): return mul(a,-1)
    def __lt__(a,b): return lt(a,b)
    def __le__(a,b): return le(a,b)
    def __gt__(a,b): return lt(b,a)
    def __ge__(a,b): return le(b,a)
    def __invert__(a): return Not(a)
    def __and__(a,b): return And(a,b)
    def __or__(a,b): return Or(a,b)
    def __rshift__(a,b): return Implies(a,b)
    def __getitem__(a,i):
        if isinstance(i,slice):
            lo=lift(i.start if i.start is not None else 0)
            hi=lift(i.stop) if i.stop is not None else slen(a)
            return ext(a,lo,hi-lo)
        return nth(a,i)
def mk(op,args,sort):
    key=(op,args,sort)
    t=_tab.get(key)
    if t is None:
        t=T.__new__(T); t.op=op; t.args=args; t.sort=sort; t.id=next(_cnt)
        _tab[key]=t
    return t
def lift(x):
    if isinstance(x,T): return x
    if isinstance(x,bool): return TRUE if x else FALSE
    if isinstance(x,int): return mk('int',(x,),Int)
    if isinstance(x,(bytes,bytearray)): return sconst(bytes(x))
    if isinstance(x,str): return sconst(x.encode('latin1'))
    raise TypeError(repr(x))
TRUE=mk('true',(),Bool); FALSE=mk('false',(),Bool)
def I(n): return mk('int',(n,),Int)
def bv(v,n): return mk('bv',(v%(1<<n),),BV(n))
def B8(c): return bv(ord(c) if isinstance(c,str) else c,8)
def var(name,sort): return mk('var',(name,),sort)
_fresh=itertools.count(1)
def fresh(name,sort): return var('%s!%d'%(name,next(_fresh)),sort)
def isint(t): return t.op=='int'
def isbv(t): return t.op=='bv'
def isconst(t): return t.op in('int','bv','true','false')

# ---------- Bool
def Not(a):
    a=lift(a)
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op=='not': return a.args[0]
    if a.op=='le': return lt(a.args[1],a.args[0])
    if a.op=='lt': return le(a.args[1],a.args[0])
    return mk('not',(a,),Bool)
def And(*xs):
    out=[]; seen=set()
    def go(l):
        for x in l:
            if isinstance(x,(list,tuple)): 
                if go(x): return True
                continue
            x=lift(x)
            if x is TRUE: continue
            if x is FALSE: return True
            if x.op=='and':
                if go(x.args): return True
                continue
            if x in seen: continue
            if Not(x) in seen: return True
            seen.add(x); out.append(x)
    if go(xs): return FALSE
    if not out: return TRUE
    if len(out)==1: return out[0]
    return mk('and',tuple(out),Bool)
def Or(*xs):
    r=And(*[Not(lift(x)) for x in _flat(xs)])
    if r.op=='and': return mk('or',tuple(Not(x) for x in r.args),Bool) if len(r.args)>1 else Not(r.args[0])
    return Not(r)
def _flat(xs):
    for x in xs:
        if isinstance(x,(list,tuple)): yield from _flat(x)
        else:
            x=lift(x)
            if x.op=='or': yield from _flat(x.args)
            else: yield x
def Implies(a,b):
    a=lift(a); b=lift(b)
    if a is TRUE: return b
    if a is FALSE or b is TRUE: return TRUE
    if b is FALSE: return Not(a)
    if a is b: return TRUE
    return mk('=>',(a,b),Bool)
def Iff(a,b): return eq(a,b)
def ite(c,a,b):
    c=lift(c); a=lift(a); b=lift(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    assert a.sort==b.sort,(a.sort,b.sort,a,b)
    if c.op=='not': return ite(c.args[0],b,a)
    if a.sort==Bool:
        if a is TRUE: return Or(c,b)
        if a is FALSE: return And(Not(c),b)
        if b is TRUE: return Or(Not(c),a)
        if b is FALSE: return And(c,a)
    if a.op=='ite' and a.args[0] is c: a=a.args[1]
    if b.op=='ite' and b.args[0] is c: b=b.args[2]
    return mk('ite',(c,a,b),a.sort)
def eq(a,b):
    a=lift(a); b=lift(b)
    if a is b: return TRUE
    assert a.sort==b.sort,(a.sort,b.sort,a,b)
    if isconst(a) and isconst(b): return FALSE if a is not b else TRUE
    if a.sort==Bool:
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return Not(b)
        if b is FALSE: return Not(a)
    if a.sort==Int:
        d=sub(a,b)
        if isint(d): return TRUE if d.args[0]==0 else FALSE
        if isint(a) or isint(b):
            lo,hi=_rng(d)
            if (lo is not None and lo>0) or (hi is not None and hi<0): return FALSE
    if isinstance(a.sort,tuple) and a.sort[0]=='Seq':
        ca=cbytes(a); cb=cbytes(b)
        if ca is not None and cb is not None: return TRUE if ca==cb else FALSE
        la=slen(a); lb=slen(b)
        d=sub(la,lb)
        if isint(d) and d.args[0]!=0: return FALSE
        if a.op=='empty': return eq(lb,I(0))
        if b.op=='empty': return eq(la,I(0))
        if a.op=='unit' and b.op=='unit': return eq(a.args[0],b.args[0])
    # ite with constant branches
    if a.op=='ite' and isconst(b) and isconst(a.args[1]) and isconst(a.args[2]):
        return ite(a.args[0],eq(a.args[1],b),eq(a.args[2],b))
    if b.op=='ite' and isconst(a) and isconst(b.args[1]) and isconst(b.args[2]):
        return ite(b.args[0],eq(b.args[1],a),eq(b.args[2],a))
    for x,k in((a,b),(b,a)):
        if x.op=='ite' and isint(k) and (isint(x.args[1]) or isint(x.args[2])):
            c,y,z=x.args
            if isint(z): c,y,z=Not(c),z,y
            return Or(c,eq(z,k)) if y is k else And(Not(c),eq(z,k))
    if isinstance(a.sort,tuple) and a.sort[0]=='BV':
        # zext(x)=c
        if isbv(a): a,b=b,a
        if isbv(b) and a.op=='zext':
            x=a.args[0]; n=x.sort[1]
            if b.args[0]>=(1<<n): return FALSE
            return eq(x,bv(b.args[0],n))
        if isbv(b) and a.op=='sext':
            x=a.args[0]; n=x.sort[1]; m=a.sort[1]
            lo=b.args[0]%(1<<n); s=lo-(1<<n) if lo>>(n-1) else lo
            if s%(1<<m)!=b.args[0]: return FALSE
            return eq(x,bv(lo,n))
        if a.op==b.op and a.op in('zext','sext') and a.args[0].sort==b.args[0].sort: return eq(a.args[0],b.args[0])
    if a.id>b.id: a,b=b,a
    return mk('=',(a,b),Bool)
def ne(a,b): return Not(eq(a,b))
def distinct(*xs): return And(*[ne(a,b) for a,b in itertools.combinations(xs,2)])

# ---------- Int (canonical linear sums)
def _lin(t):
    if t.op=='int': return t.args[0],{}
    if t.op=='lin': return t.args[0],dict(t.args[1])
    return 0,{t:1}
def _mklin(c,d):
    d={k:v for k,v in d.items() if v!=0}
    if not d: return I(c)
    if c==0 and len(d)==1:
        (k,v),=d.items()
        if v==1: return k
    return mk('lin',(c,tuple(sorted(d.items(),key=lambda kv:kv[0].id))),Int)
def add(*xs):
    c=0; d={}
    for x in xs:
        x=lift(x); assert x.sort==Int,(x.sort,x)
        c1,d1=_lin(x); c+=c1
        for k,v in d1.items(): d[k]=d.get(k,0)+v
    return _mklin(c,d)
def mul(a,b):
    a=lift(a); b=lift(b)
    if isint(b): a,b=b,a
    if isint(a):
        k=a.args[0]; c,d=_lin(b)
        return _mklin(c*k,{t:v*k for t,v in d.items()})
    if a.id>b.id: a,b=b,a
    return mk('*',(a,b),Int)
def sub(a,b): return add(a,mul(b,-1))
MAXLEN=1<<48
def _prog(s):
    """a sequence held by the program (assumed shorter than 2^48), not a specification-level value"""
    while True:
        if s.op=='var': return True
        if s.op in('ext','upd','nth','select'): s=s.args[0]
        elif s.op=='dsel': s=s.args[2]
        elif s.op=='app' and FUN[s.args[0]].shrinks: s=s.args[1]
        else: return False
def _rng(t,depth=6):
    """interval of an Int term (lo,hi), None=unbounded"""
    if t.op=='int': return t.args[0],t.args[0]
    if t.op=='len': return 0,(MAXLEN-1 if _prog(t.args[0]) else None)
    if t.op=='bv2nat': return 0,(1<<t.args[0].sort[1])-1
    if t.op=='mod' and isint(t.args[1]) and t.args[1].args[0]>0: return 0,t.args[1].args[0]-1
    if t.op=='app' and FUN[t.args[0]].index: return -1,(MAXLEN-1 if _prog(t.args[1]) else None)
    if depth==0: return None,None
    if t.op=='div' and isint(t.args[1]) and t.args[1].args[0]>0:
        l,h=_rng(t.args[0],depth-1); k=t.args[1].args[0]
        return (None if l is None else l//k),(None if h is None else h//k)
    if t.op=='ite':
        l1,h1=_rng(t.args[1],depth-1); l2,h2=_rng(t.args[2],depth-1)
        return (None if l1 is None or l2 is None else min(l1,l2)),(None if h1 is None or h2 is None else max(h1,h2))
    if t.op=='lin':
        for k,v in t.args[1]:
            # c*(y - m*(y div m)) lies in c*[0,m-1]
            if k.op=='div' and isint(k.args[1]) and k.args[1].args[0]>1 and v%k.args[1].args[0]==0:
                m=k.args[1].args[0]; c=-v//m; d=dict(t.args[1]); yc,yd=_lin(k.args[0])
                if yd and all(d.get(a)==c*b for a,b in yd.items()):
                    l,h=_rng(sub(t,mul(c,sub(k.args[0],mul(m,k)))),depth-1)
                    a,b=(0,c*(m-1)) if c>0 else (c*(m-1),0)
                    return (None if l is None else l+a),(None if h is None else h+b)
        lo=hi=t.args[0]
        for k,v in t.args[1]:
            l,h=_rng(k,depth-1)
            if v<0: l,h=h,l
            lo=None if lo is None or l is None else lo+v*l
            hi=None if hi is None or h is None else hi+v*h
        return lo,hi
    return None,None
def le(a,b):
    a=lift(a); b=lift(b)
    d=sub(a,b)
    lo,hi=_rng(d)
    if hi is not None and hi<=0: return TRUE
    if lo is not None and lo>0: return FALSE
    return mk('le',(a,b),Bool)
def lt(a,b):
    a=lift(a); b=lift(b)
    d=sub(a,b)
    lo,hi=_rng(d)
    if hi is not None and hi<0: return TRUE
    if lo is not None and lo>=0: return FALSE
    return mk('lt',(a,b),Bool)
def div(a,k):
    a=lift(a); k=lift(k)
    if isint(a) and isint(k) and k.args[0]>0: return I(a.args[0]//k.args[0])
    if isint(k) and k.args[0]==1: return a
    if isint(k) and k.args[0]>0:
        q,r=_splitk(a,k.args[0])
        if q is not None: return add(q,div(r,k))
        l,h=_rng(a)
        if l is not None and h is not None and l>=0 and h<k.args[0]: return I(0)
    return mk('div',(a,k),Int)
def _splitk(a,k):
    """a = k*q + r with the syntactically divisible part in q; (None,a) when there is none"""
    if k==1 or a.op!='lin': return None,a
    c,d=_lin(a)
    q={t:v//k for t,v in d.items() if v%k==0}
    r={t:v for t,v in d.items() if v%k}
    if not q and 0<=c<k: return None,a
    return _mklin(c//k,q),_mklin(c%k,r)
def mod(a,k):
    a=lift(a); k=lift(k)
    if isint(a) and isint(k) and k.args[0]>0: return I(a.args[0]%k.args[0])
    if isint(k) and k.args[0]>0:
        q,r=_splitk(a,k.args[0])
        if q is not None: return mod(r,k)
        l,h=_rng(a)
        if l is not None and h is not None and l>=0 and h<k.args[0]: return a
    return mk('mod',(a,k),Int)
def imin(a,b): return ite(le(a,b),a,b)
def imax(a,b): return ite(le(a,b),b,a)
def absolute(a): return ite(le(0,a),a,-a)

# ---------- BV
def _sg(v,n): return v-(1<<n) if v>>(n-1) else v
def bvop(op,a,b):
    assert a.sort==b.sort,(op,a.sort,b.sort)
    n=a.sort[1]; m=(1<<n)-1
    if isbv(a) and isbv(b):
        x,y=a.args[0],b.args[0]
        f={'bvadd':lambda:x+y,'bvsub':lambda:x-y,'bvmul':lambda:x*y,'bvand':lambda:x&y,'bvor':lambda:x|y,'bvxor':lambda:x^y,
           'bvshl':lambda:(x<<y) if y<n else 0,'bvlshr':lambda:(x>>y) if y<n else 0,'bvashr':lambda:_sg(x,n)>>min(y,n-1)}.get(op)
        if f: return bv(f()&m,n)
        if op in('bvudiv','bvurem') and y!=0: return bv(x//y if op=='bvudiv' else x%y,n)
        if op in('bvsdiv','bvsrem') and y!=0:
            sx,sy=_sg(x,n),_sg(y,n); q=abs(sx)//abs(sy)*(1 if (sx<0)==(sy<0) else -1)
            return bv(q if op=='bvsdiv' else sx-q*sy,n)
    zero=lambda t:isbv(t) and t.args[0]==0
    if op in('bvadd','bvor','bvxor'):
        if zero(a): return b
        if zero(b): return a
    if op in('bvsub','bvshl','bvlshr','bvashr') and zero(b): return a
    if op=='bvand':
        if zero(a) or zero(b): return bv(0,n)
        if isbv(a) and a.args[0]==m: return b
        if isbv(b) and b.args[0]==m: return a
    if op in('bvmul',):
        if zero(a) or zero(b): return bv(0,n)
        if isbv(a) and a.args[0]==1: return b
        if isbv(b) and b.args[0]==1: return a
    if op in('bvshl','bvlshr') and zero(a): return a
    if op in('bvadd','bvand','bvor','bvxor','bvmul') and a.id>b.id: a,b=b,a
    return mk(op,(a,b),a.sort)
def bvnot(a):
    if isbv(a): return bv(~a.args[0],a.sort[1])
    return mk('bvnot',(a,),a.sort)
def bvneg(a):
    if isbv(a): return bv(-a.args[0],a.sort[1])
    return mk('bvneg',(a,),a.sort)
def _bvrng(t,signed):
    n=t.sort[1]
    if isbv(t): v=_sg(t.args[0],n) if signed else t.args[0]; return v,v
    if t.op=='zext': return 0,(1<<t.args[0].sort[1])-1
    if t.op=='sext' and signed: k=t.args[0].sort[1]; return -(1<<(k-1)),(1<<(k-1))-1
    if t.op=='ite':
        a=_bvrng(t.args[1],signed); b=_bvrng(t.args[2],signed); return min(a[0],b[0]),max(a[1],b[1])
    if t.op=='bvand':
        for x in t.args:
            if isbv(x) and _sg(x.args[0],n)>=0: return 0,x.args[0]
    if t.op=='bvlshr' and isbv(t.args[1]) and 0<t.args[1].args[0]<n:
        h=_bvrng(t.args[0],False)[1]; return 0,h>>t.args[1].args[0]
    if t.op in('bvurem','bvudiv') and isbv(t.args[1]) and t.args[1].args[0]>0:
        k=t.args[1].args[0]; h=k-1 if t.op=='bvurem' else _bvrng(t.args[0],False)[1]//k
        if not signed or h<(1<<(n-1)): return 0,h
    if t.op=='bvmul' and isbv(t.args[1]):
        h=_bvrng(t.args[0],False)[1]*t.args[1].args[0]
        if h<(1<<(n-1 if signed else n)): return 0,h
    if t.op in('bvadd','bvsub') :
        a=_bvrng(t.args[0],True); b=_bvrng(t.args[1],True)
        r=(a[0]+b[0],a[1]+b[1]) if t.op=='bvadd' else (a[0]-b[1],a[1]-b[0])
        if signed and r[0]>=-(1<<(n-1)) and r[1]<(1<<(n-1)): return r
        if not signed and r[0]>=0 and r[1]<(1<<(n-1)) and a[0]>=0 and b[0]>=0: return r
    return (-(1<<(n-1)),(1<<(n-1))-1) if signed else (0,(1<<n)-1)
def bvcmp(op,a,b):
    assert a.sort==b.sort,(op,a,b)
    n=a.sort[1]; s=op[2]=='s'
    if op in('bvugt','bvsgt','bvuge','bvsge'):
        a,b=b,a; op=op[:3]+('lt' if op.endswith('gt') else 'le')
    ra=_bvrng(a,s); rb=_bvrng(b,s)
    if op.endswith('lt'):
        if ra[1]<rb[0]: return TRUE
        if ra[0]>=rb[1]: return FALSE
    else:
        if ra[1]<=rb[0]: return TRUE
        if ra[0]>rb[1]: return FALSE
    # narrow
    for k in('sext','zext'):
        if a.op==k and b.op==k and a.args[0].sort==b.args[0].sort:
            o=op if k=='sext' and s else ('bvu'+op[3:])
            if k=='zext' or s: return bvcmp(o,a.args[0],b.args[0])
    return mk(op,(a,b),Bool)
def zext(a,n):
    k=a.sort[1]
    if n==k: return a
    if isbv(a): return bv(a.args[0],n)
    if a.op=='zext': return zext(a.args[0],n)
    if a.op=='ite' and (isbv(a.args[1]) or isbv(a.args[2])): return ite(a.args[0],zext(a.args[1],n),zext(a.args[2],n))
    return mk('zext',(a,),BV(n))
def sext(a,n):
    k=a.sort[1]
    if n==k: return a
    if isbv(a): return bv(_sg(a.args[0],k),n)
    if a.op=='zext': return zext(a.args[0],n)
    if a.op=='sext': return sext(a.args[0],n)
    if a.op=='ite' and (isbv(a.args[1]) or isbv(a.args[2])): return ite(a.args[0],sext(a.args[1],n),sext(a.args[2],n))
    return mk('sext',(a,),BV(n))
def extract(a,hi,lo):
    n=a.sort[1]
    if lo==0 and hi==n-1: return a
    if isbv(a): return bv(a.args[0]>>lo,hi-lo+1)
    if lo==0 and a.op in('zext','sext'):
        k=a.args[0].sort[1]
        if hi+1==k: return a.args[0]
        if hi+1<k: return extract(a.args[0],hi,0)
        return (zext if a.op=='zext' else sext)(a.args[0],hi+1)
    if a.op=='ite' and (isbv(a.args[1]) or isbv(a.args[2])): return ite(a.args[0],extract(a.args[1],hi,lo),extract(a.args[2],hi,lo))
    if a.op=='bvconcat':
        w=a.args[1].sort[1]
        if hi<w: return extract(a.args[1],hi,lo)
        if lo>=w: return extract(a.args[0],hi-w,lo-w)
    if a.op=='extract': return extract(a.args[2],hi+a.args[1],lo+a.args[1])
    if lo==0 and a.op in('bvadd','bvsub','bvand','bvor','bvxor'):
        return bvop(a.op,extract(a.args[0],hi,0),extract(a.args[1],hi,0))
    return mk('extract',(hi,lo,a),BV(hi-lo+1))
def bvconcat(a,b):
    if isbv(a) and isbv(b): return bv((a.args[0]<<b.sort[1])|b.args[0],a.sort[1]+b.sort[1])
    if a.op=='extract' and b.op=='extract' and a.args[2] is b.args[2] and a.args[1]==b.args[0]+1: return extract(a.args[2],a.args[0],b.args[1])
    return mk('bvconcat',(a,b),BV(a.sort[1]+b.sort[1]))
def bv2nat(a):
    if isbv(a): return I(a.args[0])
    if a.op=='zext': return bv2nat(a.args[0])
    if a.op=='ite' and (isbv(a.args[1]) or isbv(a.args[2])): return ite(a.args[0],bv2nat(a.args[1]),bv2nat(a.args[2]))
    if a.op in('bvurem','bvudiv') and isbv(a.args[1]) and a.args[1].args[0]>0:
        return (div if a.op=='bvudiv' else mod)(bv2nat(a.args[0]),I(a.args[1].args[0]))
    if a.op=='bvmul':
        for x,k in(a.args,a.args[::-1]):
            if isbv(k) and _bvrng(x,False)[1]*k.args[0]<(1<<a.sort[1]): return mul(k.args[0],bv2nat(x))
    if a.op=='int2bv':
        l,h=_rng(a.args[0])
        if l is not None and h is not None and l>=0 and h<(1<<a.sort[1]): return a.args[0]
    return mk('bv2nat',(a,),Int)
def int2bv(a,n):
    if isint(a): return bv(a.args[0],n)
    if a.op=='bv2nat':
        x=a.args[0]; k=x.sort[1]
        if k==n: return x
        if k<n: return zext(x,n)
        return extract(x,n-1,0)
    if a.op=='ite': return ite(a.args[0],int2bv(a.args[1],n),int2bv(a.args[2],n))
    return mk('int2bv',(a,),BV(n))
def sbv2int(a):
    n=a.sort[1]
    if isbv(a): return I(_sg(a.args[0],n))
    if a.op=='zext': return bv2nat(a)
    if a.op=='sext': return sbv2int(a.args[0])
    l,h=_bvrng(a,True)
    if l>=0: return bv2nat(a)
    return ite(bvcmp('bvslt',a,bv(0,n)),bv2nat(a)-(1<<n),bv2nat(a))

# ---------- Seq
def empty(es): return mk('empty',(),Seq(es))
def unit(x): x=lift(x); return mk('unit',(x,),Seq(x.sort))
def sconst(b): 
    if len(b)==0: return empty(BV8)
    return concat(*[unit(bv(c,8)) for c in b])
def slist(xs,es=None):
    if not xs: return empty(es)
    return concat(*[unit(x) for x in xs])
def cbytes(t):
    """bytes value of a constant Seq(BV8), else None"""
    if t.sort!=Bytes: return None
    if t.op=='empty': return b''
    if t.op=='unit' and isbv(t.args[0]): return bytes([t.args[0].args[0]])
    if t.op=='concat':
        if all(x.op=='unit' and isbv(x.args[0]) for x in t.args): return bytes(x.args[0].args[0] for x in t.args)
    return None
def concat(*xs):
    out=[]
    srt=None
    for x in xs:
        x=lift(x); srt=x.sort
        if x.op=='empty': continue
        if x.op=='concat': out.extend(x.args)
        else: out.append(x)
    if not out: return mk('empty',(),srt)
    # merge adjacent slices of the same sequence
    m=[out[0]]
    for x in out[1:]:
        p=m[-1]
        m.append(x)
    if len(m)==1: return m[0]
    return mk('concat',tuple(m),srt)
def slen(s):
    s=lift(s)
    if s.op=='empty': return I(0)
    if s.op=='unit': return I(1)
    if s.op=='concat': return add(*[slen(x) for x in s.args])
    if s.op=='upd': return slen(s.args[0])
    if s.op=='ite': 
        return ite(s.args[0],slen(s.args[1]),slen(s.args[2]))
    if s.op=='rep': return imax(s.args[1],I(0)) 
    if s.op=='ext':
        q,i,n=s.args
        if isint(i) and isint(n) and isint(slen(q)):
            L=slen(q).args[0]; a=i.args[0]; k=n.args[0]
            return I(0 if a<0 or a>=L or k<=0 else min(k,L-a))
        if i is I(0) and n is slen(q): return n
    return mk('len',(s,),Int)
def nth(s,i):
    s=lift(s); i=lift(i)
    es=s.sort[1]
    if s.op=='unit' and i is I(0): return s.args[0]
    if s.op=='concat':
        off=I(0)
        for x in s.args:
            d=sub(i,off)
            L=slen(x)
            dl,dh=_rng(d)
            if dl is not None and dl>=0 and le(I(1),L-d) is TRUE: return nth(x,d)
            if le(L,d) is TRUE: off=add(off,L); continue
            break
        else: pass
        if off is not I(0):
            rest=[];o=I(0);st=False
            for x in s.args:
                if o is off: st=True
                if st: rest.append(x)
                o=add(o,slen(x))
            if rest: return nth(concat(*rest),sub(i,off))
    if s.op=='upd':
        q,j,v=s.args
        if i is j: return v if False else mk('nth',(s,i),es)
        d=sub(i,j)
        if isint(d) and d.args[0]!=0: return nth(q,i)
    if s.op=='ite' : return ite(s.args[0],nth(s.args[1],i),nth(s.args[2],i))
    return mk('nth',(s,i),es)
def ext(s,i,n):
    s=lift(s); i=lift(i); n=lift(n)
    if isint(n) and n.args[0]<=0: return mk('empty',(),s.sort)
    if s.op=='empty': return s
    L=slen(s)
    if i is I(0) and n is L: return s
    c=cbytes(s)
    if c is not None and isint(i) and isint(n):
        if i.args[0]<0: return empty(BV8)
        return sconst(c[i.args[0]:i.args[0]+n.args[0]])
    if s.op=='concat':
        # cut at known piece boundaries
        off=I(0)
        for k,x in enumerate(s.args):
            if i is off:
                acc=I(0)
                for m in range(k,len(s.args)):
                    acc=add(acc,slen(s.args[m]))
                    if acc is n: return concat(*s.args[k:m+1])
                if k>0: return ext(concat(*s.args[k:]),I(0),n)
                break
            off=add(off,slen(x))
    return mk('ext',(s,i,n),s.sort)
def upd(s,i,v):
    s=lift(s); i=lift(i)
    c=s
    if isint(i) and s.op in('concat','unit'):
        # constant position inside units
        parts=list(s.args) if s.op=='concat' else [s]
        pos=0
        for k,x in enumerate(parts):
            L=slen(x)
            if not isint(L): break
            if x.op=='unit' and pos==i.args[0]:
                parts[k]=unit(v); return concat(*parts)
            pos+=L.args[0]
            if pos>i.args[0]: break
    if s.op=='concat':
        off=I(0)
        for k,x in enumerate(s.args):
            if off is i and x.op=='unit':
                parts=list(s.args); parts[k]=unit(v); return concat(*parts)
            off=add(off,slen(x))
    return mk('upd',(s,i,v),s.sort)
def rep(v,n):
    """sequence of n copies of v"""
    n=lift(n)
    if isint(n) and n.args[0]<=24: return slist([v]*max(0,n.args[0]),v.sort)
    return mk('rep',(v,n),Seq(v.sort))
def take(s,n): return ext(s,I(0),n)
def drop(s,n): return ext(s,n,sub(slen(s),n))
# ---------- arrays
def select(a,k):
    k=lift(k)
    if a.op=='store':
        if a.args[1] is k: return a.args[2]
        if isconst(k) and isconst(a.args[1]): return select(a.args[0],k)
    if a.op=='constarr': return a.args[0]
    return mk('select',(a,k),a.sort[2])
def store(a,k,v): return mk('store',(a,lift(k),lift(v)),a.sort)
def constarr(k,v): v=lift(v); return mk('constarr',(v,),Arr(k,v.sort))
# ---------- datatypes
def dcons(dt,vals): 
    vals=tuple(lift(v) for v in vals)
    for v,(f,s) in zip(vals,DTS[dt]): assert v.sort==s,(dt,f,v.sort,s)
    return mk('dcons',(dt,)+vals,DT(dt))
def dsel(x,f):
    dt=x.sort[1]
    for i,(n,s) in enumerate(DTS[dt]):
        if n==f:
            if x.op=='dcons': return x.args[1+i]
            if x.op=='ite': return ite(x.args[0],dsel(x.args[1],f),dsel(x.args[2],f))
            return mk('dsel',(dt,f,x),s)
    raise KeyError((dt,f))
# ---------- uninterpreted / defined functions
FUN={}   # name -> (argsorts, ret, facts)
class Fun:
    index=False     # result is -1 or an index into the first argument
    shrinks=False   # result is shorter than 2^48 whenever the first argument is
    def __init__(self,name,argsorts,ret,facts=None,defn=None,simp=None):
        self.name=name; self.argsorts=tuple(argsorts); self.ret=ret; self.facts=facts; self.defn=defn; self.simp=simp
        o=FUN.get(name); assert o is None or (o.defn is None and defn is None), 'two definitions of '+name
        FUN[name]=self
    def __call__(self,*a):
        a=tuple(lift(x) for x in a)
        assert tuple(x.sort for x in a)==self.argsorts,(self.name,[x.sort for x in a],self.argsorts)
        if self.simp:
            r=self.simp(*a)
            if r is not None: return r
        return mk('app',(self.name,)+a,self.ret)
def specfn(argsorts,ret,name=None,facts=None,simp=None):
    """a recursive specification function: its body is its definition, unfolded
    at ground applications"""
    def deco(f):
        return Fun(name or f.__name__,argsorts,ret,facts=facts,defn=f,simp=simp)
    return deco
def rule(argsorts,ret,name=None,simp=None):
    """an uninterpreted function with characteristic facts: f(result,*args)->[facts]"""
    def deco(f):
        return Fun(name or f.__name__,argsorts,ret,facts=f,simp=simp)
    return deco
class Tbl:
    """constant table: printed as define-fun with an ite chain on the index"""
    pass
TABLES={}
def table(name,vals,idxsort,es):
    TABLES[name]=(tuple(vals),idxsort,es)
def tbl(name,i):
    vals,isort,es=TABLES[name]
    assert i.sort==isort,(i.sort,isort)
    if isconst(i):
        k=i.args[0]
        if 0<=k<len(vals): return vals[k]
    return mk('tbl',(name,i),es)
# ---------- quantifiers
_bv=itertools.count(1)
def forall(sorts,f,pats=None):
    """forall([Int],lambda k: body, pats=lambda k:[[term,..],..])"""
    vs=[mk('bvar',('q%d'%next(_bv),),s) for s in sorts]
    body=lift(f(*vs))
    if body is TRUE: return TRUE
    if body is FALSE: return FALSE
    pt=tuple(tuple(p) for p in pats(*vs)) if pats else ()
    return mk('forall',(tuple(vs),body,pt),Bool)
def exists(sorts,f): return Not(forall(sorts,lambda *v:Not(f(*v))))
def allk(lo,hi,f,pat=None):
    """forall k: lo<=k<hi => f(k)"""
    return forall([Int],lambda k:Implies(And(le(lo,k),lt(k,hi)),f(k)),pats=(lambda k:[[x] for x in ([pat(k)] if not isinstance(pat(k),list) else pat(k))]) if pat else None)

def subst(t,m,cache=None):
    if cache is None: cache={}
    if t in m: return m[t]
    r=cache.get(t)
    if r is not None: return r
    if not t.args or t.op in('int','bv','var','bvar'): return t
    r=rebuild(t,lambda x:subst(x,m,cache))
    cache[t]=r
    return r
def children(t):
    o=t.op
    if o in('int','bv','var','bvar','true','false','empty'): return ()
    if o=='lin': return tuple(k for k,_ in t.args[1])
    if o in('app','dcons','tbl'): return t.args[1:]
    if o=='dsel': return (t.args[2],)
    if o=='extract': return (t.args[2],)
    if o=='forall': return (t.args[1],)
    return t.args
_B={'not':Not,'and':And,'or':Or,'=>':Implies,'ite':ite,'=':eq,'le':le,'lt':lt,'div':div,'mod':mod,'*':mul,
    'bvnot':bvnot,'bvneg':bvneg,'bvconcat':bvconcat,'bv2nat':bv2nat,'unit':unit,'concat':concat,'len':slen,'nth':nth,'ext':ext,'upd':upd,'rep':rep,
    'select':select,'store':store}
def rebuild(t,f):
    o=t.op; a=t.args
    if o=='lin':
        return add(I(a[0]),*[mul(f(k),v) for k,v in a[1]])
    if o=='app': 
        return FUN[a[0]](*[f(x) for x in a[1:]])
    if o=='dcons': return dcons(a[0],[f(x) for x in a[1:]])
    if o=='dsel': return dsel(f(a[2]),a[1])
    if o=='tbl': return tbl(a[0],f(a[1]))
    if o=='extract': return extract(f(a[2]),a[0],a[1])
    if o=='zext': return zext(f(a[0]),t.sort[1])
    if o=='sext': return sext(f(a[0]),t.sort[1])
    if o=='int2bv': return int2bv(f(a[0]),t.sort[1])
    if o=='constarr': return constarr(t.sort[1],f(a[0]))
    if o=='forall': return mk('forall',(a[0],f(a[1]),tuple(tuple(f(x) for x in p) for p in a[2])),Bool)
    if o in('int','bv','var','bvar','true','false','empty'): return t
    if o in _B: return _B[o](*[f(x) for x in a])
    if o in('bvult','bvule','bvslt','bvsle'): return bvcmp(o,f(a[0]),f(a[1]))
    if o.startswith('bv'): return bvop(o,f(a[0]),f(a[1]))
    raise KeyError(o)
def show(t,d=6):
    o=t.op
    if o in('int','bv','var','bvar'): return str(t.args[0])
    if o in('true','false'): return o
    if d==0: return '..'
    if o=='lin': return '('+' + '.join(([str(t.args[0])] if t.args[0] else [])+[('%d*'%v if v!=1 else '')+show(k,d-1) for k,v in t.args[1]])+')'
    c=cbytes(t) if isinstance(t.sort,tuple) and t.sort[0]=='Seq' else None
    if c is not None: return repr(c)
    if o=='forall': return '(forall %s. %s)'%(' '.join(map(str,[v.args[0] for v in t.args[0]])),show(t.args[1],d-1))
    return '('+o+' '+' '.join(show(x,d-1) if isinstance(x,T) else str(x) for x in t.args)+')'
_fv={}
def freevars(t):
    r=_fv.get(t)
    if r is not None: return r
    if t.op=='var': r=frozenset((t,))
    else:
        r=frozenset()
        for c in children(t):
            if isinstance(c,T): r=r|freevars(c)
        if t.op=='forall':
            for p in t.args[2]:
                for c in p: r=r|freevars(c)
    _fv[t]=r
    return r
