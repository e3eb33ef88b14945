"""HTML template rendering."""
from lvc.spec import *
from lvc.std import *
from strings import finds_shift,shifted
T='C25'
prop(T,files=['core/html/renderer.cpp'])
def isblank(c): return inset(c,b' \t')
def isvar(c): return inset(c,b'_0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz')
@rule([Bytes,Int,Int],Int)
def nfirst(r,s,b,e): return [Implies(le(b,e),And(le(b,r),le(r,e),Or(eq(r,e),Not(isblank(nth(s,r)))))),allk(b,r,lambda k:isblank(nth(s,k)),pat=lambda k:nth(s,k))]
@rule([Bytes,Int,Int],Int)
def nend(r,s,b,e): return [Implies(le(b,e),And(le(nfirst(s,b,e),r),le(r,e),Or(eq(nfirst(s,b,e),r),Not(isblank(nth(s,r-1)))))),allk(r,e,lambda k:isblank(nth(s,k)),pat=lambda k:nth(s,k))]
def isname(s,b,e):
    f=nfirst(s,b,e); n=nend(s,b,e)
    return And(lt(f,n),allk(f,n,lambda k:isvar(nth(s,k)),pat=lambda k:nth(s,k)))
@specfn([Bytes,Int,Int],Bool)
def hasname(s,b,e): return isname(s,b,e)
def nameof(s,b,e): return ext(s,nfirst(s,b,e),nend(s,b,e)-nfirst(s,b,e))
def slice_post(c):
    s,b,e=c.arg(0),c.arg(1),c.arg(2); r=c.ret
    return [('a name exactly if there is nothing else between the blanks',Iff(c.field(r,'has'),hasname(s,b,e))),('that name',Implies(c.field(r,'has'),eq(c.field(r,'val'),nameof(s,b,e))))]
NP=I(NPOS)
def slice_inv(v):
    s,b,e,i=v.arg(0),v.arg(1),v.arg(2),v.i; E=v.ex.P.enums; vs,ve=v.varnameStart,v.varnameEnd
    blank=lambda a,z:allk(a,z,lambda k:isblank(nth(s,k)),pat=lambda k:nth(s,k)); var=lambda a,z:allk(a,z,lambda k:isvar(nth(s,k)),pat=lambda k:nth(s,k))
    st=lambda n:eq(v.state,bv(n,32))
    return [And(le(b,i),le(i,e)),Or(st(0),st(1),st(2)),
        Implies(st(0),And(eq(vs,NP),eq(ve,NP),blank(b,i))),
        Implies(st(1),And(le(b,vs),lt(vs,i),eq(ve,NP),blank(b,vs),var(vs,i),isvar(nth(s,vs)),isvar(nth(s,i-1)))),
        Implies(st(2),And(le(b,vs),lt(vs,ve),lt(ve,i),blank(b,vs),var(vs,ve),blank(ve,i),isvar(nth(s,vs)),isvar(nth(s,ve-1)),isblank(nth(s,ve))))]
contract('getTemplateVariableFromSlice(const string &,unsigned long,unsigned long)',T,requires=lambda c:[And(le(c.arg(1),c.arg(2)),le(c.arg(2),slen(c.arg(0))))],ensures=slice_post,
    loops=[LoopSpec(slice_inv,dec=lambda v:v.arg(2)-v.i)])

PM=MapS(Bytes,Bytes)
O,C_=sconst(b'{{'),sconst(b'}}')
def value(m,k): return ite(mhas(m,k),mget(m,k),empty(BV8))
@specfn([Bytes,PM],Bytes)
def render(s,m):
    o=finds(s,O,I(0)); c=finds(s,C_,o); x=render(drop(s,c+2),m)
    return ite(Or(eq(o,-1),eq(c,-1)),s,ite(hasname(s,o+2,c),concat(ext(s,I(0),o),value(m,nameof(s,o+2,c)),x),concat(ext(s,I(0),c+2),x)))
def shiftnf(s,i,b,e): return And(le(0,i),le(0,b),le(b,e),le(i+e,slen(s)))
nfirst_shift=lemma(T,'nfirst_shift',[Bytes,Int,Int,Int],lambda s,i,b,e:Implies(shiftnf(s,i,b,e),eq(nfirst(s,i+b,i+e),nfirst(drop(s,i),b,e)+i)),
    hints=lambda s,i,b,e:[touch(nth(drop(s,i),nfirst(s,i+b,i+e)-i)),touch(nth(s,nfirst(drop(s,i),b,e)+i))])
nend_shift=lemma(T,'nend_shift',[Bytes,Int,Int,Int],lambda s,i,b,e:Implies(shiftnf(s,i,b,e),eq(nend(s,i+b,i+e),nend(drop(s,i),b,e)+i)),
    hints=lambda s,i,b,e:[nfirst_shift(s,i,b,e),touch(nth(drop(s,i),nend(s,i+b,i+e)-i-1)),touch(nth(s,nend(drop(s,i),b,e)+i-1))])
hasname_shift=lemma(T,'hasname_shift',[Bytes,Int,Int,Int],lambda s,i,b,e:Implies(shiftnf(s,i,b,e),And(Iff(hasname(s,i+b,i+e),hasname(drop(s,i),b,e)),Implies(hasname(s,i+b,i+e),eq(nameof(s,i+b,i+e),nameof(drop(s,i),b,e))))),
    hints=lambda s,i,b,e:[nfirst_shift(s,i,b,e),nend_shift(s,i,b,e)])
def _gap(d):
    o=finds(d,O,I(0)); c=finds(d,C_,o)
    return o,c
gap=lemma(T,'placeholder_gap',[Bytes],lambda d:(lambda o,c:Implies(And(ne(o,-1),ne(c,-1)),And(le(0,o),le(o+2,c),le(c+2,slen(d)))))(*_gap(d)),
    hints=lambda d:(lambda o,c:[touch(nth(ext(d,o,I(2)),0)),touch(nth(ext(d,o,I(2)),1)),touch(nth(ext(d,c,I(2)),0)),touch(nth(d,o)),touch(nth(d,o+1)),touch(nth(d,c))])(*_gap(d)))
def r_inv(v):
    s=v.searchStart; m=v.ex.to_term(v.arg(1))
    return [And(le(0,s),le(s,slen(v.result))),eq(concat(ext(v.result,I(0),s),render(drop(v.result,s),m)),render(v.arg(0),m))]
def r_hints(v):
    if not v.prev: return []
    p=v.prev; r=p.result; i=p.searchStart; d=drop(r,i); o=finds(d,O,I(0)); c=finds(d,C_,o)
    return [gap(d),finds_shift(r,O,i),finds_shift(r,C_,finds(r,O,i)),finds_shift(d,C_,o),hasname_shift(r,i,o+2,c)]
def r_steps(v):
    if not v.prev: return []
    p=v.prev; r=p.result; i=p.searchStart; m=v.ex.to_term(v.arg(1)); d=drop(r,i); o=finds(d,O,I(0)); c=finds(d,C_,o); n=hasname(d,o+2,c)
    cnt=value(m,nameof(d,o+2,c)); j=v.searchStart; b=v.result; tail=drop(d,c+2)
    R=[le(0,i),le(i,slen(r)),le(0,o),le(0,c),le(o,c),le(c+2,slen(d))]
    oa=finds(r,O,i); ca=finds(r,C_,oa)
    na=hasname(r,oa+2,ca); x=render(tail,m)
    F=[eq(render(d,m),ite(n,concat(ext(d,I(0),o),cnt,x),concat(ext(d,I(0),c+2),x))),Iff(n,na),Implies(n,eq(nameof(d,o+2,c),nameof(r,oa+2,ca))),
       eq(drop(b,j),drop(r,ca+2)),eq(ext(b,I(0),j),ite(na,concat(ext(r,I(0),oa),value(m,nameof(r,oa+2,ca))),ext(r,I(0),ca+2))),
       eq(drop(r,ca+2),tail),eq(ext(r,I(0),oa),concat(ext(r,I(0),i),ext(d,I(0),o))),eq(ext(r,I(0),ca+2),concat(ext(r,I(0),i),ext(d,I(0),c+2)))]
    sh=finds_shift(r,O,i); s1=finds_shift(r,C_,oa); s2=finds_shift(d,C_,o); oc=finds(drop(r,oa),C_,I(0))
    base=[le(0,i),le(i,slen(r)),ne(oa,-1)]
    def new(g,c): return eq(concat(ext(b,I(0),j),render(drop(b,j),m)),g)
    pre=ext(r,I(0),i)
    return [By(And(le(0,o),eq(oa,i+o)),base+[sh]),By(eq(drop(d,o),drop(r,oa)),[le(0,i),le(i,slen(r)),eq(oa,i+o),le(0,o)]),
        By(eq(oc,ca-oa),[s1,ne(ca,-1),le(0,i),le(0,o),eq(oa,i+o)]),By(eq(c,oc+o),[s2,eq(drop(d,o),drop(r,oa)),eq(oc,ca-oa),le(0,i),le(i,slen(r)),le(0,o),eq(oa,i+o),ne(ca,-1)]),
        By(And(le(0,o),le(o+2,c),le(c+2,slen(d))),[gap(d),le(0,o),eq(oa,i+o),eq(c,oc+o),eq(oc,ca-oa),ne(ca,-1)]),By(eq(ca,i+c),[eq(oa,i+o),eq(c,oc+o),eq(oc,ca-oa)]),
        F[0],By(And(*F[1:3]),[hasname_shift(r,i,o+2,c),eq(oa,i+o),eq(ca,i+c)]+R+[le(o+2,c)]),*F[1:5],By(F[5],R+[eq(ca,i+c)]),By(F[6],R+[eq(oa,i+o)]),By(F[7],R+[eq(ca,i+c)]),
        By(Implies(na,eq(ext(b,I(0),j),concat(pre,ext(d,I(0),o),cnt))),F[1:3]+[F[4],F[6]]),By(Implies(Not(na),eq(ext(b,I(0),j),concat(pre,ext(d,I(0),c+2)))),[F[4],F[7]]),
        By(eq(drop(b,j),tail),[F[3],F[5]]),
        By(Implies(na,eq(render(d,m),concat(ext(d,I(0),o),cnt,x))),F[:2]),By(Implies(Not(na),eq(render(d,m),concat(ext(d,I(0),c+2),x))),F[:2]),
        By(Implies(na,eq(concat(ext(b,I(0),j),x),concat(pre,render(d,m)))),[Implies(na,eq(render(d,m),concat(ext(d,I(0),o),cnt,x))),Implies(na,eq(ext(b,I(0),j),concat(pre,ext(d,I(0),o),cnt)))]),
        By(Implies(Not(na),eq(concat(ext(b,I(0),j),x),concat(pre,render(d,m)))),[Implies(Not(na),eq(render(d,m),concat(ext(d,I(0),c+2),x))),Implies(Not(na),eq(ext(b,I(0),j),concat(pre,ext(d,I(0),c+2))))])]
contract('HTML::renderTemplate(const string &,const std::map<string,string,std::less<string>,std::allocator<std::pair<const string,string>>> &)',T,
    ensures=lambda c:[('every placeholder replaced by its value, everything else kept',eq(c.ret,render(c.arg(0),c.ex.to_term(c.arg(1)))))],
    loops=[LoopSpec(r_inv,dec=lambda v:slen(v.result)-v.searchStart,hints=r_hints,steps=r_steps)])
