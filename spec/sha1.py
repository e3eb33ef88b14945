"""SHA-1 (FIPS 180-4)."""
from lvc.spec import *
from lvc.std import *
from strings import ptext,ptextl
S='C03'
prop(S,files=['core/crypto/sha1.cpp'])
W32=BV(32); Words=Seq(W32)
K1='Lambda::Crypto::SHA1'; C='Crypto::SHA1::'
owned(K1,'hashctx','SHA1_CTX')
ghost(K1,'$data',Bytes)             # everything given to update since the last reset
def w(v): return bv(v,32)
def rotl(x,n): return bvop('bvor',bvop('bvshl',x,w(n)),bvop('bvlshr',x,w(32-n)))
def xor(*a):
    r=a[0]
    for x in a[1:]: r=bvop('bvxor',r,x)
    return r
def plus(*a):
    r=a[0]
    for x in a[1:]: r=bvop('bvadd',r,x)
    return r
def AND(a,b): return bvop('bvand',a,b)
def bnot(a): return bvop('bvxor',a,w(0xffffffff))
def be32(d,i): return bvcat(nth(d,i),nth(d,i+1),nth(d,i+2),nth(d,i+3))
def bvcat(*a):
    r=zext(a[0],32)
    for x in a[1:]: r=bvop('bvor',bvop('bvshl',r,w(8)),zext(x,32))
    return r
@specfn([Bytes,Int],Words)
def sched(d,n):
    """the first n words of the message schedule of block d"""
    p=sched(d,n-1); k=n-1
    return ite(le(n,0),empty(W32),concat(p,unit(ite(lt(k,16),be32(d,mul(4,k)),rotl(xor(nth(p,k-3),nth(p,k-8),nth(p,k-14),nth(p,k-16)),1)))))
def f_(t,x,y,z): return ite(lt(t,20),xor(AND(x,y),AND(bnot(x),z)),ite(lt(t,40),xor(x,y,z),ite(lt(t,60),xor(AND(x,y),AND(x,z),AND(y,z)),xor(x,y,z))))
def k_(t): return ite(lt(t,20),w(0x5a827999),ite(lt(t,40),w(0x6ed9eba1),ite(lt(t,60),w(0x8f1bbcdc),w(0xca62c1d6))))
@specfn([Int,W32,W32,W32,W32,W32,W32],W32)
def temp(t,a,b,c,d,e,wt): return plus(rotl(a,5),f_(t,b,c,d),e,k_(t),wt)
@specfn([W32],W32)
def rot30(x): return rotl(x,30)
@specfn([Bytes,Words,Int],Words)
def rounds(d,H,n):
    """the working variables after n rounds"""
    p=rounds(d,H,n-1); t=n-1; a=[nth(p,i) for i in range(5)]
    return ite(le(n,0),slist([nth(H,i) for i in range(5)]),slist([temp(t,*a,nth(sched(d,80),t)),a[0],rot30(a[1]),a[2],a[3]]))
@specfn([Bytes,Words],Words)
def compress(d,H):
    r=rounds(d,H,I(80)); return slist([plus(nth(H,i),nth(r,i)) for i in range(5)])
IV=[0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0]
@specfn([Bytes,Int],Words)
def hblocks(x,n):
    """hash value after the first n blocks of x"""
    return ite(le(n,0),slist([w(v) for v in IV]),compress(ext(x,mul(64,n-1),I(64)),hblocks(x,n-1)))
def pad(x):
    n=slen(x); z=mod(sub(I(55),n),64)
    return concat(x,unit(bv(0x80,8)),rep(bv(0,8),z),slist([int2bv(div(mul(8,n),1<<(8*(7-k))),8) for k in range(8)]))
def wbytes(h): return concat(*[slist([extract(nth(h,i),31-8*k,24-8*k) for k in range(4)]) for i in range(5)])
@specfn([Bytes],Bytes)
def sha1(x): return wbytes(hblocks(pad(x),div(slen(x)+72,64)))
# ---- the object
def ctx(c,v): return c.field(v,'hashctx','val')
def has(c,v): return And(c.field(v,'hashctx','has'),c.field(v,'hashctx','live'))
def st5(c,x): return c.ex.to_term(c.field(x,'state'))
def data(c,x): return c.ex.to_term(c.field(x,'data'))
def consts(c,x):
    k=c.ex.to_term(c.field(x,'k')); return And(*[eq(nth(k,i),w(v)) for i,v in enumerate([0x5a827999,0x6ed9eba1,0x8f1bbcdc,0xca62c1d6])])
def repr_(c,v,x):
    h=ctx(c,v); n=slen(x); q=div(n,64)
    return [('constants',consts(c,h)),('hash of the full blocks',eq(st5(c,h),hblocks(x,q))),('count of the rest',eq(bv2nat(c.field(h,'datalen')),mod(n,64))),('rest of the data',eq(ext(data(c,h),I(0),mod(n,64)),drop(x,mul(64,q)))),
        ('counted bits',eq(c.field(h,'bitlen'),mul(512,q)))]
def x_(c,v): return c.field(v,'$data')
def isrep(c,v): return [('owns a context',has(c,v))]+repr_(c,v,x_(c,v))
ALL=(('this','hashctx','val'),)
def wf(v):
    return [('size',eq(slen(v.block),80))]
def l1(v):
    i=bv2nat(v.i); d=v.ex.to_term(v.f(v.f(v.f(v.this,'hashctx'),'val'),'data'))
    return [('within',le(i,80)),('words so far',eq(ext(v.block,I(0),i),sched(d,i))),('next byte',eq(bv2nat(v.j),mul(4,ite(lt(i,16),i,I(16))))),('size',eq(slen(v.block),80))]
def s1(v):
    p=v.prev; i=bv2nat(p.i); d=v.ex.to_term(v.f(v.f(v.f(v.this,'hashctx'),'val'),'data')); b=p.block; e=nth(v.block,i); W=sched(d,i)
    a=eq(ext(v.block,I(0),i+1),concat(ext(b,I(0),i),unit(e))); first=Implies(lt(i,16),eq(e,be32(d,mul(4,i)))); late=Implies(le(16,i),eq(e,rotl(xor(nth(b,i-3),nth(b,i-8),nth(b,i-14),nth(b,i-16)),1)))
    ws=[Implies(le(16,i),eq(nth(b,i-k),nth(W,i-k))) for k in(3,8,14,16)]; pw=eq(ext(b,I(0),i),W); sz=[eq(slen(b),80),lt(i,80),le(0,i)]
    x=eq(e,ite(lt(i,16),be32(d,mul(4,i)),rotl(xor(nth(W,i-3),nth(W,i-8),nth(W,i-14),nth(W,i-16)),1)))
    return [('one more',a),('first words',first),*[('earlier word',Implies(le(16,i),eq(bv2nat(bvop('bvsub',p.i,w(k))),i-k))) for k in(3,8,14,16)],('later words',late),*[('word',By(t,[pw,*sz])) for t in ws],('next word',By(x,[first,late,*ws])),('words',By(eq(ext(v.block,I(0),i+1),sched(d,i+1)),[a,x,pw,*sz],fuel=1)),('counter',eq(bv2nat(v.i),i+1))]
def s3(v):
    p=v.prev; i=bv2nat(p.i); h=v.f(v.f(v.this,'hashctx'),'val'); d=v.ex.to_term(v.f(h,'data')); H=v.ex.to_term(v.f(h,'state')); a=p.shift.e; W=sched(d,I(80)); new=v.ex.to_term(v.shift)
    r=v.shift.e; t1,t2=temp(i,*a,nth(W,i)),rot30(a[1]); g=eq(new,slist([t1,a[0],t2,a[2],a[3]])); o=eq(slist(a),rounds(d,H,i))
    bw=eq(nth(v.block,i),nth(W,i)); t0=eq(v.shift.e[0],plus(rotl(a[0],5),f_(i,a[1],a[2],a[3]),a[4],k_(i),nth(W,i)))
    return [('old variables',o),('word',bw),('round',t0),('round',By(eq(r[0],t1),[t0],fuel=1)),('round',By(eq(r[2],t2),[],fuel=1)),('variables',By(g,[eq(r[0],t1),eq(r[2],t2)])),('next',By(eq(slist([t1,a[0],t2,a[2],a[3]]),rounds(d,H,i+1)),[o,le(0,i)],fuel=1)),('next',By(eq(new,rounds(d,H,i+1)),[g,eq(slist([t1,a[0],t2,a[2],a[3]]),rounds(d,H,i+1))])),('counter',eq(bv2nat(v.i),i+1))]
def l3(v):
    i=bv2nat(v.i); h=v.f(v.f(v.this,'hashctx'),'val'); d=v.ex.to_term(v.f(h,'data')); H=v.ex.to_term(v.f(h,'state'))
    return [('within',le(i,80)),('the schedule',eq(v.block,sched(d,I(80)))),('working variables',eq(v.ex.to_term(v.shift),rounds(d,H,i)))]
contract(C+'sha1_transform()',S,requires=lambda c:[('owns a context',has(c,c.this)),('constants',consts(c,ctx(c,c.this)))],modifies=(('this','hashctx','val','state'),),
    loops=[LoopSpec(l1,dec=lambda v:80-bv2nat(v.i),steps=s1),LoopSpec(None,unroll=6),LoopSpec(l3,dec=lambda v:80-bv2nat(v.i),steps=s3),LoopSpec(None,unroll=6)],
    steps=lambda c:(lambda d,H,sh,n:[('',eq(sh,rounds(d,H,I(80)))),('',By(eq(n,compress(d,H)),[eq(sh,rounds(d,H,I(80))),*[eq(nth(n,i),plus(nth(H,i),nth(sh,i))) for i in range(5)],eq(slen(n),5)],fuel=1))])(data(c,ctx(c,c.this)),st5(c,ctx(c,c.this)),c.ex.to_term(c.local('shift')),st5(c,ctx(c,c.this_post))),
    ensures=lambda c:[('the compression function',eq(st5(c,ctx(c,c.this_post)),compress(data(c,ctx(c,c.this)),st5(c,ctx(c,c.this)))))])
prefix_blocks=lemma(S,'prefix_blocks',[Bytes,Bytes,Int],lambda x,y,n:Implies(And(le(0,n),le(mul(64,n),slen(x))),eq(hblocks(concat(x,y),n),hblocks(x,n))),measure=lambda x,y,n:n,ih=lambda x,y,n:[(x,y,n-1)],
    steps=lambda x,y,n:[Implies(And(lt(0,n),le(mul(64,n),slen(x))),eq(ext(concat(x,y),mul(64,n-1),I(64)),ext(x,mul(64,n-1),I(64))))])
class LC:
    def __init__(s,v): s.v=v; s.ex=v.ex
    def field(s,x,*p):
        for n in p: x=s.v.f(x,n)
        return x

def fed(v,i): c=LC(v); return concat(x_(c,v.old_this),ext(ptextl(v,0),I(0),i))
def u_inv(v):
    c=LC(v); i=v.i
    return [('within',le(i,v.dataSize)),('context',has(c,v.this)),('nothing else changes',eq(x_(c,v.this),x_(c,v.old_this)))]+repr_(c,v.this,fed(v,i))
def u_steps(v):
    c=LC(v); i=v.prev.i; X=fed(v,i); b=nth(ptextl(v,0),i); Y=concat(X,unit(b)); n=slen(X); q,m=div(n,64),mod(n,64); h0,h=ctx(c,v.prev.this),ctx(c,v.this); d0,d=data(c,h0),data(c,h); n1=slen(Y); q1,m1=div(n1,64),mod(n1,64); H0,H=st5(c,h0),st5(c,h)
    y=eq(fed(v,i+1),Y); last=eq(m,63); lt63=lt(m,63); pb=prefix_blocks(X,unit(b),q)
    L=[eq(n1,n+1),Implies(last,And(eq(q1,q+1),eq(m1,0))),Implies(lt63,And(eq(q1,q),eq(m1,m+1)))]
    bl=Implies(last,eq(d,ext(Y,mul(64,q),I(64)))); part=Implies(lt63,eq(ext(d,I(0),m+1),concat(ext(d0,I(0),m),unit(b))))
    tr=Implies(last,eq(H,compress(d,H0))); keep=Implies(lt63,eq(H,H0)); hb=eq(hblocks(Y,q),H0); ht=eq(H0,hblocks(X,q)); rest=eq(ext(d0,I(0),m),drop(X,mul(64,q)))
    return [('y',y),('n',le(0,n)),('n1',L[0]),*[('block count',By(t,[L[0],le(0,n)])) for t in L[1:]],('ht',ht),('rest0',rest),('',Hint(pb)),('same blocks',By(hb,[pb,ht,eq(m,sub(n,mul(64,q))),le(0,m),le(0,q)])),('part',part),('block',bl),('transform',tr),('kept',keep),
        ('state',By(Implies(last,eq(H,hblocks(Y,q1))),[*L,tr,bl,hb,le(0,q)],fuel=1)),('state',By(Implies(lt63,eq(H,hblocks(Y,q1))),[*L,keep,hb])),('rest',Implies(lt63,eq(ext(d,I(0),m+1),drop(Y,mul(64,q))))),('m',lt(m,64))]
contract(C+'update(const unsigned char *,unsigned long)',S,requires=lambda c:isrep(c,c.this)+[('inside of the buffer',le(c.arg(1),slen(ptext(c,0))))],modifies=ALL+(('this','$data'),),loops=[LoopSpec(u_inv,dec=lambda v:v.dataSize-v.i,steps=u_steps)],
    opts={'ghostset':{'$data':lambda c:concat(x_(c,c.this),ext(ptext(c,0),I(0),c.arg(1)))}},ensures=lambda c:isrep(c,c.this_post)+[('takes every byte',eq(x_(c,c.this_post),concat(x_(c,c.this),ext(ptext(c,0),I(0),c.arg(1)))))])
for t in('const vector<unsigned char> &','const string &'):
    contract(C+'update(%s)'%t,S,requires=lambda c:isrep(c,c.this),modifies=ALL+(('this','$data'),),opts={'noret':True,'ret':lambda c:c.args['this']},ensures=lambda c:isrep(c,c.this_post)+[('takes every byte',eq(x_(c,c.this_post),concat(x_(c,c.this),c.arg(0))))])
contract(C+'reset()',S,requires=lambda c:[('owns a context',has(c,c.this))],modifies=ALL+(('this','$data'),),opts={'ret':lambda c:c.args['this'],'ghostset':{'$data':lambda c:empty(BV8)}},ensures=lambda c:isrep(c,c.this_post)+[('starts over',eq(slen(x_(c,c.this_post)),0))])
contract(C+'#ctor()',S,modifies=('this',),ensures=lambda c:isrep(c,c.this_post)+[('starts with nothing',eq(slen(x_(c,c.this_post)),0))])
contract(C+'#dtor()',S,requires=lambda c:[('owns a context',has(c,c.this))],modifies=('this',),ensures=lambda c:[('releases its context',Not(c.field(c.this_post,'hashctx','live')))])
def d_parts(c,t):
    x=x_(c,t); n=slen(x); return x,n,div(n,64),mod(n,64),pad(x)
ext_snoc=lemma(S,'ext_snoc',[Bytes,Int,Int],lambda s,o,i:Implies(And(le(0,o),le(0,i),le(o+i+1,slen(s))),eq(ext(s,o,i+1),concat(ext(s,o,i),unit(nth(s,o+i))))))
def arith(n,q,m): return [eq(n,mul(64,q)+m),le(0,m),lt(m,64),le(0,q),eq(mod(sub(I(55),n),64),ite(lt(m,56),sub(I(55),m),sub(I(119),m)))]
def arith_steps(n,q,m): return [('n',le(0,n)),*[('arithmetic',By(t,[le(0,n)])) for t in arith(n,q,m)]]
def d_loop(end):
    def inv(v):
        c=LC(v); x,n,q,m,P=d_parts(c,v.old_this); h=ctx(c,v.this); D=data(c,h); i=bv2nat(v.i)
        return [('within',And(lt(m,i),le(i,end))),('size',eq(slen(D),64)),('block so far',eq(ext(D,I(0),i),ext(P,mul(64,q),i)))]
    return inv
def d_step(v):
    c=LC(v); x,n,q,m,P=d_parts(c,v.old_this); D0,D=data(c,ctx(c,v.prev.this)),data(c,ctx(c,v.this)); i=bv2nat(v.prev.i); b=bv(0,8)
    o=mul(64,q); A=arith(n,q,m); zero=eq(nth(P,o+i),b); inp=And(le(0,o),le(o+i+1,slen(P)),le(0,i)); rng=And(lt(m,i),lt(i,64),Implies(lt(m,56),lt(i,56)))
    return arith_steps(n,q,m)+[('where',rng),('zero',By(zero,[*A,rng])),('inside',By(inp,[*A,rng])),('one more',eq(ext(D,I(0),i+1),concat(ext(D0,I(0),i),unit(b)))),('',Hint(ext_snoc(P,o,i))),('one more',By(eq(ext(P,o,i+1),concat(ext(P,o,i),unit(b))),[zero,inp,ext_snoc(P,o,i)])),('counter',eq(bv2nat(v.i),i+1))]
def d_steps(c):
    x,n,q,m,P=d_parts(c,c.this); h0,h=ctx(c,c.this),ctx(c,c.this_post); F=data(c,h); H=st5(c,h); one=lt(m,56); dl=c.field(h0,'datalen'); L=slen(P)
    Q=ite(one,q,q+1); o=mul(64,Q); bl=mul(8,n); y=drop(P,n); pb=prefix_blocks(x,y,q); r=c.ret
    A=arith(n,q,m); bits8=eq(c.field(h,'bitlen'),bl)
    return [*arith_steps(n,q,m),('padded size',By(eq(L,o+64),A)),('bits of the rest',eq(bv2nat(bvop('bvmul',dl,w(8))),mul(8,m))),('bit count',bits8),
        ('padded',eq(P,concat(x,y))),('',Hint(pb)),('blocks of the data',eq(hblocks(P,q),hblocks(x,q))),
        *[('length byte %d'%k,By(eq(nth(P,o+56+k),int2bv(div(bl,1<<(8*(7-k))),8)),[*A])) for k in range(8)],*[('length byte %d'%k,eq(nth(F,56+k),nth(P,o+56+k))) for k in range(8)],('last block',By(Implies(Not(one),eq(ext(P,o,I(56)),rep(bv(0,8),I(56)))),A)),('last block',Implies(Not(one),eq(ext(F,I(0),I(56)),rep(bv(0,8),I(56))))),('last block',Implies(one,eq(ext(F,I(0),I(56)),ext(P,o,I(56))))),('last block',eq(ext(F,I(0),I(56)),ext(P,o,I(56)))),
        ('last block',By(eq(F,ext(P,o,I(64))),[eq(slen(F),64),eq(L,o+64),le(0,o),eq(ext(F,I(0),I(56)),ext(P,o,I(56))),*[eq(nth(F,56+k),nth(P,o+56+k)) for k in range(8)]])),
        ('previous block',By(eq(hblocks(P,q+1),compress(ext(P,mul(64,q),I(64)),hblocks(P,q))),[le(0,q)],fuel=1)),('blocks',Implies(one,eq(H,compress(F,hblocks(x,q))))),('blocks',Implies(Not(one),eq(H,compress(F,compress(ext(P,mul(64,q),I(64)),hblocks(x,q)))))),
        ('hash',By(Implies(one,eq(H,hblocks(P,q+1))),[eq(hblocks(P,q),hblocks(x,q)),eq(F,ext(P,o,I(64))),eq(hblocks(P,q+1),compress(ext(P,mul(64,q),I(64)),hblocks(P,q))),Implies(one,eq(H,compress(F,hblocks(x,q))))])),
        ('next block',By(eq(hblocks(P,q+2),compress(ext(P,mul(64,q+1),I(64)),hblocks(P,q+1))),[le(0,q)],fuel=1)),
        ('hash',By(Implies(Not(one),eq(H,hblocks(P,q+2))),[eq(hblocks(P,q),hblocks(x,q)),eq(F,ext(P,o,I(64))),eq(hblocks(P,q+1),compress(ext(P,mul(64,q),I(64)),hblocks(P,q))),eq(hblocks(P,q+2),compress(ext(P,mul(64,q+1),I(64)),hblocks(P,q+1))),Implies(Not(one),eq(H,compress(F,compress(ext(P,mul(64,q),I(64)),hblocks(x,q)))))])),
        ('hash',By(eq(H,hblocks(P,Q+1)),[Implies(one,eq(H,hblocks(P,q+1))),Implies(Not(one),eq(H,hblocks(P,q+2)))])),('block count',By(eq(div(n+72,64),Q+1),[*A[:4]])),*[('byte',eq(nth(r,k),nth(wbytes(H),k))) for k in range(20)],('size',eq(slen(r),20)),('bytes',By(eq(r,wbytes(H)),[eq(slen(r),20),*[eq(nth(r,k),nth(wbytes(H),k)) for k in range(20)]])),('hash',By(eq(r,sha1(x)),[eq(r,wbytes(H)),eq(H,hblocks(P,Q+1)),eq(div(n+72,64),Q+1)],fuel=1))]
contract(C+'digest()',S,requires=lambda c:isrep(c,c.this),modifies=ALL+(('this','$data'),),loops=[LoopSpec(d_loop(56),dec=lambda v:64-bv2nat(v.i),steps=d_step),LoopSpec(d_loop(64),dec=lambda v:64-bv2nat(v.i),steps=d_step),LoopSpec(None,unroll=5)],steps=d_steps,
    ensures=lambda c:[('owns a context',has(c,c.this_post)),('the SHA-1 hash of everything given',eq(c.ret,sha1(x_(c,c.this))))])
def copied(c):
    o,t=c.arg(0),c.this_post; return isrep(c,t)+[('same data so far',eq(x_(c,t),x_(c,o)))]
contract(C+'#ctor(const Crypto::SHA1 &)',S,requires=lambda c:isrep(c,c.arg(0)),modifies=('this',),opts={'ghostset':{'$data':lambda c:x_(c,c.arg(0))}},ensures=copied)
contract(C+'operator=(const Crypto::SHA1 &)',S,requires=lambda c:isrep(c,c.arg(0))+[('owns a context',has(c,c.this))],modifies=ALL+(('this','$data'),),opts={'noret':True,'ret':lambda c:c.args['this'],'ghostset':{'$data':lambda c:x_(c,c.arg(0))}},ensures=copied)
