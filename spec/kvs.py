"""Local storage: a map and the file that replays to it."""
from lvc.spec import *
from lvc.std import *
from lvc.ex import keysfun,OptS,declare_dt,MapS
G='C21'
prop(G,files=['extra/kvstorage/driver.cpp','extra/kvstorage/interface.cpp'])
guarded('Lambda::Storage::KVStorage::StorageInterface','mtlock','data','driver')
K='Storage::KVStorage::'; SI=K+'StorageInterface::'; DR=K+'Driver::'
KS=MapS(Bytes,Bytes); DISK=Arr(Bytes,Bytes)
gghost('$disk',DISK)       # what the files hold
gghost('$iofault',Bool)    # some file operation failed
owned('Lambda::'+K+'StorageInterface','driver')
def lebytes(n,k): return slist([extract(int2bv(n,8*k),8*j+7,8*j) for j in range(k)],BV8)
def rec(t,k,v): return concat(sconst(bytes([t,0])),lebytes(slen(k),2),lebytes(slen(v),4),k,v)
DISKOPT={'disk':True}
def data(c): return c.ex.to_term(c.field(c.this,'data'))
def datap(c): return c.ex.to_term(c.field(c.this_post,'data'))
def drv(t,c,*n): return c.field(t,'driver',*n)
def stream(t,c,n): return drv(t,c,'m_stream',n)
contract(SI+'getItem(const string &)',G,ensures=lambda c:[('the value last set',eq(c.ret,ite(mhas(data(c),c.arg(0)),mget(data(c),c.arg(0)),empty(BV8))))])
contract(SI+'hasItem(const string &)const',G,ensures=lambda c:[('whether it is set',Iff(c.ret,mhas(data(c),c.arg(0))))])
contract(SI+'size()const',G,ensures=lambda c:[('the number of items',eq(c.ret,dsel(data(c),'n')))])

def le(s,i,k):
    """the number in the k bytes at i"""
    v=nth(s,i)
    for j in range(1,k): v=bvconcat(nth(s,i+j),v)
    return bv2nat(v)
from lvc.term import le as le_
def typ(s,i): return le(s,i,2)
def ks(s,i): return le(s,i+2,2)
def vs(s,i): return le(s,i+4,4)
def nxt(s,i): return i+8+ks(s,i)+vs(s,i)
def key(s,i): return ext(s,i+8,ks(s,i))
def val(s,i): return ext(s,i+8+ks(s,i),vs(s,i))
def good(s,i): return And(le_(i+8,slen(s)),Or(eq(typ(s,i),0),And(eq(typ(s,i),1),eq(vs(s,i),0)),And(eq(typ(s,i),2),eq(vs(s,i),0),eq(ks(s,i),0))),le_(nxt(s,i),slen(s)))
@specfn([Bytes,Int],Bool)
def whole(s,i):
    """from position i, s consists of whole valid records"""
    return Or(eq(i,slen(s)),And(good(s,i),whole(s,nxt(s,i))))
def once(s,i,m): return ite(eq(typ(s,i),0),mput(m,key(s,i),val(s,i)),ite(eq(typ(s,i),1),ite(mhas(m,key(s,i)),mdel(m,key(s,i)),m),mempty(Bytes,Bytes)))
@specfn([Bytes,Int,KS],KS)
def play(s,i,m):
    """the items after the records of s from position i, beginning with the items m"""
    return ite(And(lt(i,slen(s)),good(s,i)),play(s,nxt(s,i),once(s,i,m)),m)
HEAD=sconst(b'mlkvdb\x03\x00')
def storage(s): return And(eq(ext(s,I(0),I(8)),HEAD),whole(s,I(8)))
def items(s): return play(s,I(8),mempty(Bytes,Bytes))
def state(c,t,d): return And(drv(t,c,'has'),drv(t,c,'live'))
MOD=('this','g:$disk','g:$iofault')
def op(name,r,m,when=lambda c:TRUE,limit=lambda c:TRUE):
    def st(c,n): return c.field(c.this,'driver','val','m_stream',n)
    def stp(c,n): return c.field(c.this_post,'driver','val','m_stream',n)
    F=lambda c:st(c,'file')
    contract(SI+name,G,modifies=MOD,raises=lambda c:'any',requires=lambda c:[('the storage is open',And(c.field(c.this,'driver','has'),c.field(c.this,'driver','live'),st(c,'open'),Not(st(c,'fail')),eq(select(c.g('$disk'),F(c)),st(c,'out'))))],
        ensures=lambda c:[('the items',eq(datap(c),m(c))),('the file tells it',eq(select(c.g_post('$disk'),F(c)),ite(when(c),concat(st(c,'out'),r(c)),st(c,'out')))),('can be stored',limit(c)),
            ('the storage stays open',And(c.field(c.this_post,'driver','has'),c.field(c.this_post,'driver','live'),stp(c,'open'),Not(stp(c,'fail')),eq(stp(c,'file'),F(c)),eq(select(c.g_post('$disk'),F(c)),stp(c,'out'))))],
        opts={**DISKOPT,'onthrow':lambda c:[('nothing is changed',eq(datap(c),data(c))),('only what cannot be written',Or(c.g_post('$iofault'),Not(limit(c))))]})
op('setItem(const string &,const string &)',lambda c:rec(0,c.arg(0),c.arg(1)),lambda c:mput(data(c),c.arg(0),c.arg(1)),limit=lambda c:And(le_(slen(c.arg(0)),65535),lt(slen(c.arg(1)),1<<32)))
op('removeItem(const string &)',lambda c:rec(1,c.arg(0),empty(BV8)),lambda c:ite(mhas(data(c),c.arg(0)),mdel(data(c),c.arg(0)),data(c)),when=lambda c:mhas(data(c),c.arg(0)),limit=lambda c:Implies(mhas(data(c),c.arg(0)),le_(slen(c.arg(0)),65535)))
op('clear()',lambda c:rec(2,empty(BV8),empty(BV8)),lambda c:mempty(Bytes,Bytes))
# the reading side
DF=lambda v,n:v.f(v.this,'m_stream',n)
def minit(v): return v.ex.to_term(v.f(v.this,'m_init_data','val'))
def small(m): return forall([Bytes],lambda k:Implies(mhas(m,k),And(le_(slen(k),65535),lt(slen(mget(m,k)),1<<32))),pats=lambda k:[[select(dsel(m,'dom'),k)]])
def rinv(v):
    D=DF(v,'data'); i=DF(v,'pos'); e=mempty(Bytes,Bytes)
    return [('stream',And(DF(v,'open'),Not(DF(v,'fail')),Not(DF(v,'eof')),eq(DF(v,'file'),v.f(v.this,'m_filename')))),
        ('position',And(le_(8,i),le_(i,slen(D)))),('items so far',And(v.f(v.this,'m_init_data','has'),eq(play(D,i,minit(v)),play(D,I(8),e)))),('whole so far',eq(whole(D,i),whole(D,I(8)))),('sizes',small(minit(v)))]
def rsteps(v):
    w=v.prev; D=DF(v,'data'); i=DF(w,'pos'); m=minit(w)
    return [('same file',eq(DF(w,'data'),D)),('a valid record',good(D,i)),('the next position',eq(nxt(D,i),DF(v,'pos'))),('its effect',eq(minit(v),once(D,i,m))),
        ('whole',By(eq(whole(D,i),whole(D,DF(v,'pos'))),[good(D,i),eq(nxt(D,i),DF(v,'pos')),le_(8,i)],fuel=1)),('items',By(eq(play(D,i,m),play(D,DF(v,'pos'),minit(v))),[good(D,i),eq(nxt(D,i),DF(v,'pos')),le_(8,i),eq(minit(v),once(D,i,m))],fuel=1))]
@specfn([KS,SeqS,Int],Bytes)
def puts(m,q,n): return ite(le_(n,0),empty(BV8),concat(puts(m,q,n-1),rec(0,nth(q,n-1),mget(m,nth(q,n-1)))))
def winv(v):
    m=minit(v); return [('range',And(le_(0,v.idx),le_(v.idx,slen(v.range)),eq(v.range,keysof(m)))),('stream',And(DF(v,'open'),eq(DF(v,'file'),concat(v.f(v.this,'m_filename'),sconst(b'.tmp'))))),('the file is not touched',eq(select(v.g('$disk'),v.f(v.this,'m_filename')),select(v.old_g('$disk'),v.f(v.this,'m_filename')))),('failures',Implies(DF(v,'fail'),v.g('$iofault'))),('written',Implies(Not(DF(v,'fail')),eq(DF(v,'out'),concat(HEAD,puts(m,keysof(m),v.idx)))))]
def wsteps(v):
    w=v.prev; m=minit(v); x=nth(keysof(m),w.idx); ok=Not(DF(v,'fail'))
    return [('same items',eq(minit(w),m)),('one record',Implies(ok,And(Not(DF(w,'fail')),eq(DF(v,'out'),concat(DF(w,'out'),rec(0,x,mget(m,x))))))),
        ('one more',By(eq(puts(m,keysof(m),w.idx+1),concat(puts(m,keysof(m),w.idx),rec(0,x,mget(m,x)))),[le_(0,w.idx)],fuel=1))]
def compact(m): return concat(HEAD,puts(m,keysof(m),slen(keysof(m))))
def isopen(c,s,f,d,has=None): return And(c.field(s,'m_stream','open'),Not(c.field(s,'m_stream','fail')),eq(c.field(s,'m_stream','file'),f),eq(c.field(s,'m_stream','out'),select(d,f)))
def content(f,old): return ite(pexists(f),compact(items(old)),HEAD)
def cens(c):
    f=c.arg(0); s=c.this_post; old=select(c.g('$disk'),f)
    return [('what was read is whole',Implies(pexists(f),storage(old))),('it is read',And(Iff(c.field(s,'m_init_data','has'),pexists(f)),Implies(pexists(f),eq(c.ex.to_term(c.field(s,'m_init_data','val')),items(old))))),
        ('the file holds the items',eq(select(c.g_post('$disk'),f),content(f,old))),('the file is open',isopen(c,s,f,c.g_post('$disk')))]
def cthrow(c):
    f=c.arg(0); old=select(c.g('$disk'),f); new=select(c.g_post('$disk'),f)
    return [('the file is as before or has the same items',Or(eq(new,old),eq(new,content(f,old)))),('only what cannot be read or written',Or(c.g_post('$iofault'),And(pexists(f),Or(Not(fopens(f)),Not(storage(old))))))]
def cthrowsteps(c):
    f=c.arg(0); w=c.snap('recordHeader'); old=select(c.g('$disk'),f)
    if w is None: return [('',Implies(And(fopens(f),Not(c.g_post('$iofault'))),Not(storage(old))))]
    i=c.field(w,'m_stream','pos'); ok=Or(c.g_post('$iofault'),eq(i,slen(old)))
    return [('the record is not valid',Or(ok,Not(good(old,i)))),('not whole',By(Or(ok,Not(whole(old,i))),[Or(ok,Not(good(old,i)))],fuel=1))]
contract(DR+'#ctor(const string &)',G,modifies=MOD,raises=lambda c:'any',loops=[LoopSpec(rinv,dec=lambda v:slen(DF(v,'data'))-DF(v,'pos'),steps=rsteps),LoopSpec(winv,dec=lambda v:slen(v.range)-v.idx,steps=wsteps)],
    ensures=cens,opts={**DISKOPT,'onthrow':cthrow,'throwsteps':cthrowsteps,'snap':('recordHeader',)})
contract(DR+'sync()',G,modifies=('this',),ensures=lambda c:[('gives the items read',And(Iff(c.field(c.ret,'has'),c.field(c.this,'m_init_data','has')),Implies(c.field(c.ret,'has'),eq(c.ex.to_term(c.field(c.ret,'val')),c.ex.to_term(c.field(c.this,'m_init_data','val')))))),
    ('the file stays as it is',And(*[eq(c.field(c.this_post,'m_stream',n),c.field(c.this,'m_stream',n)) for n in('open','fail','file','out')]))])
def istate(c):
    s=c.this_post; f=lambda *n:c.field(s,'driver',*n); return And(f('has'),f('live'),isopen(c,f('val'),f('val','m_stream','file'),c.g_post('$disk')))
def iens(file):
    def g(c):
        f=file(c); old=select(c.g('$disk'),f)
        return [('the items are those the file tells',And(Implies(pexists(f),storage(old)),eq(datap(c),ite(pexists(f),items(old),mempty(Bytes,Bytes))))),('the file holds the items',eq(select(c.g_post('$disk'),f),content(f,old))),('the storage is open',And(istate(c),eq(c.field(c.this_post,'driver','val','m_stream','file'),f)))]
    return g
def ithrow(file):
    def g(c):
        f=file(c); old=select(c.g('$disk'),f); new=select(c.g_post('$disk'),f)
        return [('the file is as before or has the same items',Or(eq(new,old),eq(new,content(f,old)))),('only what cannot be read or written',Or(c.g_post('$iofault'),And(pexists(f),Or(Not(fopens(f)),Not(storage(old))))))]
    return g
for sig,fl in(('()',lambda c:sconst(b'StorageInterface.ldb')),('(const string &)',lambda c:c.arg(0))):
    contract(SI+'#ctor'+sig,G,modifies=MOD,raises=lambda c:'any',ensures=iens(fl),opts={**DISKOPT,'onthrow':ithrow(fl)})
# what is appended to a file continues its history
def same8(S,s,i,r): return [eq(nth(S,i+j),nth(s,i+j)) for j in range(8)]
def loc_steps(s,r,i):
    S=concat(s,r)
    return [eq(nth(S,i+j),nth(s,i+j)) for j in range(8)]+[And(eq(typ(S,i),typ(s,i)),eq(ks(S,i),ks(s,i)),eq(vs(S,i),vs(s,i)))]
loc=lemma(G,'a record does not depend on what follows',[Bytes,Bytes,Int],lambda s,r,i:(lambda S:Implies(And(le_(0,i),good(s,i)),And(good(S,i),eq(nxt(S,i),nxt(s,i)),eq(typ(S,i),typ(s,i)),eq(key(S,i),key(s,i)),eq(val(S,i),val(s,i)))))(concat(s,r)),steps=loc_steps)
def app_steps(s,r,i,m):
    S=concat(s,r); p=slen(s); more=lt(i,p); n=nxt(s,i); e=once(s,i,m)
    return [Implies(more,good(s,i)),Implies(more,And(le_(0,n),le_(n,p),lt(i,n),whole(s,n))),Implies(more,eq(once(S,i,m),e)),Implies(more,eq(whole(S,n),whole(S,p))),Implies(more,eq(play(S,n,e),play(S,p,play(s,n,e)))),
        By(Implies(more,eq(whole(S,i),whole(S,n))),[Implies(more,And(good(S,i),eq(nxt(S,i),n))),le_(0,i)],fuel=1),
        Implies(more,eq(play(s,i,m),play(s,n,e))),Implies(more,eq(play(S,i,m),play(S,n,e))),Implies(Not(more),eq(i,p)),Implies(Not(more),eq(play(s,i,m),m))]
app=lemma(G,'what is appended continues the history',[Bytes,Bytes,Int,KS],lambda s,r,i,m:(lambda S:Implies(And(le_(0,i),le_(i,slen(s)),whole(s,i)),And(eq(whole(S,i),whole(S,slen(s))),eq(play(S,i,m),play(S,slen(s),play(s,i,m))))))(concat(s,r)),
    measure=lambda s,r,i,m:slen(s)-i,ih=lambda s,r,i,m:[(s,r,nxt(s,i),once(s,i,m))],hints=lambda s,r,i,m:[loc(s,r,i)],steps=app_steps,fuel=1)
dec={}
for t_,nm in enumerate(('put','remove','clear')):
    def stmt(s,k,v,t=t_):
        S=concat(s,rec(t,k,v)); p=slen(s); return Implies(And(le_(slen(k),65535 if t<2 else 0),lt(slen(v),1<<32 if t==0 else 1)),And(good(S,p),eq(nxt(S,p),slen(S)),eq(typ(S,p),t),eq(key(S,p),k),eq(val(S,p),v)))
    def steps(s,k,v,t=t_):
        R=rec(t,k,v); S=concat(s,R); p=slen(s); hd=concat(sconst(bytes([t,0])),lebytes(slen(k),2),lebytes(slen(v),4))
        return [eq(slen(S),p+8+slen(k)+slen(v))]+[eq(nth(S,p+j),nth(hd,I(j))) for j in range(8)]+[eq(typ(S,p),t),eq(ks(S,p),slen(k)),eq(vs(S,p),slen(v)),eq(key(S,p),k),eq(val(S,p),v)]
    dec[t_]=lemma(G,'a %s record is read back'%nm,[Bytes,Bytes,Bytes],stmt,steps=steps)
grow={}
for t_,nm in enumerate(('put','remove','clear')):
    def lim(k,v,t): return And(le_(slen(k),65535 if t<2 else 0),lt(slen(v),1<<32 if t==0 else 1))
    def eff(m,k,v,t): return (mput(m,k,v),ite(mhas(m,k),mdel(m,k),m),mempty(Bytes,Bytes))[t]
    def stmt(s,k,v,t=t_,lim=lim,eff=eff):
        S=concat(s,rec(t,k,v)); return Implies(And(storage(s),lim(k,v,t)),And(storage(S),eq(items(S),eff(items(s),k,v,t))))
    def steps(s,k,v,t=t_,eff=eff):
        S=concat(s,rec(t,k,v)); p=slen(s); e=once(S,p,items(s))
        return [And(le_(8,p),lt(p,slen(S)),good(S,p),eq(nxt(S,p),slen(S))),eq(e,eff(items(s),k,v,t)),eq(ext(S,I(0),I(8)),HEAD),
            By(whole(S,slen(S)),fuel=1),By(eq(play(S,slen(S),e),e),fuel=1),By(eq(whole(S,p),whole(S,slen(S))),[good(S,p),eq(nxt(S,p),slen(S)),whole(S,slen(S))],fuel=1),
            By(eq(play(S,p,items(s)),play(S,slen(S),e)),[lt(p,slen(S)),good(S,p),eq(nxt(S,p),slen(S))],fuel=1)]
    grow[t_]=lemma(G,'a %s continues the history'%nm,[Bytes,Bytes,Bytes],stmt,steps=steps,hints=lambda s,k,v,t=t_:[dec[t](s,k,v),app(s,rec(t,k,v),I(8),mempty(Bytes,Bytes))],fuel=0)
def kpos(m,k): return keysfun(dsel(m,"dom").sort).kpos(dsel(m,"dom"),k)
def rtp(m,n,k):
    q=keysof(m); s=concat(HEAD,puts(m,q,n)); x=items(s)
    return Implies(And(le_(0,n),le_(n,slen(q)),small(m)),And(storage(s),Iff(mhas(x,k),And(mhas(m,k),lt(kpos(m,k),n))),Implies(mhas(x,k),eq(mget(x,k),mget(m,k)))))
def rt_steps(m,n,y):
    q=keysof(m); s=concat(HEAD,puts(m,q,n-1)); k=nth(q,n-1); v=mget(m,k); S=concat(HEAD,puts(m,q,n)); pos=lt(0,n); x=items(s)
    return [Implies(pos,And(mhas(m,k),le_(slen(k),65535),lt(slen(v),1<<32),eq(kpos(m,k),n-1))),Implies(pos,storage(s)),Implies(pos,eq(S,concat(s,rec(0,k,v)))),Implies(pos,And(storage(S),eq(items(S),mput(x,k,v)))),
        Implies(Not(pos),And(eq(S,HEAD),storage(HEAD),eq(items(HEAD),mempty(Bytes,Bytes)))),Implies(mhas(m,y),And(le_(0,kpos(m,y)),lt(kpos(m,y),slen(q)),eq(nth(q,kpos(m,y)),y))),
        Implies(And(pos,ne(y,k),mhas(m,y)),ne(kpos(m,y),n-1)),Implies(pos,Iff(mhas(items(S),y),Or(eq(y,k),mhas(x,y)))),Implies(And(pos,eq(y,k)),eq(mget(items(S),y),v)),By(Implies(And(pos,ne(y,k)),eq(mget(items(S),y),mget(x,y))),[Implies(pos,eq(items(S),mput(x,k,v)))],fuel=0)]
rt=lemma(G,'a compacted file has the same items (up to a number of them)',[KS,Int,Bytes],rtp,measure=lambda m,n,k:n,ih=lambda m,n,k:[(m,n-1,k)],hints=lambda m,n,k:[grow[0](concat(HEAD,puts(m,keysof(m),n-1)),nth(keysof(m),n-1),mget(m,nth(keysof(m),n-1)))],steps=rt_steps,fuel=1)
lemma(G,'a compacted file has the same items',[KS,Bytes],lambda m,k:Implies(small(m),And(storage(compact(m)),Iff(mhas(items(compact(m)),k),mhas(m,k)),Implies(mhas(m,k),eq(mget(items(compact(m)),k),mget(m,k))))),hints=lambda m,k:[rt(m,slen(keysof(m)),k)],fuel=0)
lemma(G,'a file that is cut off is refused unless whole operations are missing',[Bytes,Bytes],lambda s,r:(lambda S:Implies(And(storage(s),storage(S)),And(whole(S,slen(s)),eq(items(S),play(S,slen(s),items(s))))))(concat(s,r)),hints=lambda s,r:[app(s,r,I(8),mempty(Bytes,Bytes))],fuel=0)
