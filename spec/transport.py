"""HTTP/1.1 transport: framing of requests, keep-alive, accepted encodings, serialization of responses."""
from lvc.spec import *
from lvc.std import *
from strings import lowerS,trimmed,splitc,splitr,split_spec
from kv import KV,appended,first,qparse,auth_spec
from http1 import mknown,mparse,canon
from net import rx,tx,isopen,h,closes
T='C11'
prop(T,files=['core/http/transport_v1.cpp']); prop('C12',files=['core/http/transport_v1.cpp']); prop('C13',files=['core/http/transport_v1.cpp'])
TV='HTTP::Transport::TransportContextV1'
owned('Lambda::'+TV,'m_next')
CRLF=sconst(b'\r\n'); CRLF2=sconst(b'\r\n\r\n')
def rb(v,c): return c.field(v,'m_readbuff')
def conn(v,c): return c.field(v,'m_conn')
def avail(c): return concat(rb(c.this,c),drop(rx(c,conn(c.this_post,c)),slen(rx(c,conn(c.this,c)))))
# ---------------------------------------------------------------- reference parser of a request head
def he(S): return finds(S,CRLF2,I(0))
def head(S): return ext(S,I(0),he(S))
def hname(l): return trimmed(ext(l,I(0),findc(l,B8(':'),I(0))))
def hvalue(l): return trimmed(drop(l,findc(l,B8(':'),I(0))+1))
def goodline(l): return And(ne(findc(l,B8(':'),I(0)),-1),lt(0,slen(hname(l))))
@specfn([SeqS,Int],Bool)
def goodlines(ls,i): return Or(le(i,1),And(goodlines(ls,i-1),goodline(nth(ls,i-1))))
@specfn([SeqS,Int],KV)
def headersof(ls,i):
    l=nth(ls,i-1); m=headersof(ls,i-1)
    return ite(le(i,1),mempty(Bytes,SeqS),ite(eq(slen(hvalue(l)),0),m,appended(m,lowerS(hname(l)),hvalue(l))))
def isdig(b): return And(bvcmp('bvule',bv(48,8),b),bvcmp('bvule',b,bv(57,8)))
@specfn([Bytes,Int],Bool)
def alldigits(s,i): return Or(le(i,0),And(alldigits(s,i-1),isdig(nth(s,i-1))))
@specfn([Bytes,Int],Int)
def number(s,i): return ite(le(i,0),I(0),number(s,i-1)*10+bv2nat(nth(s,i-1))-48)
def hget(m,k): return ite(mhas(m,sconst(k)),first(mget(m,sconst(k))),empty(BV8))
def parts(S):
    ls=split_spec(head(S),CRLF); st=splitc(nth(ls,0),B8(' '),I(0)); m=headersof(ls,slen(ls)); t=nth(st,1)
    return ls,st,m,t
def hv(P,m,k):
    x=P[4].get(k) if P and len(P)>4 else None
    return hget(m,k) if x is None else x
def malformed(S,P=None):
    ls,st,m,t=(P or parts(S))[:4]; cl=hv(P,m,b'content-length')
    return Or(eq(slen(ls),0),eq(slen(nth(ls,0)),0),lt(slen(st),2),Not(mknown(canon(nth(st,0)))),Not(goodlines(ls,slen(ls))),Not(alldigits(cl,slen(cl))))
def bodysize(S,P=None):
    ls,st,m,t=(P or parts(S))[:4]; cl=hv(P,m,b'content-length'); return number(cl,slen(cl))
def target(t):
    q=findc(t,B8('?'),I(0)); g=findc(t,B8('#'),ite(eq(q,-1),I(0),q)); e=ite(eq(q,-1),g,q)
    path=ite(eq(e,-1),t,ite(eq(e,0),sconst(b'/'),ext(t,I(0),e)))
    sp=ite(eq(q,-1),mempty(Bytes,SeqS),qparse(ite(eq(g,-1),drop(t,q),ext(t,q,g-q))))
    return path,sp
def maxsize(c): return c.field(c.this,'m_topts','maxRequestSize')
E_=lambda c,t,n:bv(c.ex.P.enums['Lambda::HTTP::Transport::'+t][n],32)
def ka(v,c): return c.field(v,'m_keepalive')
def has(v,c): return c.field(v,'m_next','has')
def inv(v,c): return Iff(has(v,c),c.field(v,'m_next','live'))
def stays(c): return Or(eq(ka(c.this,c),E_(c,'KeepAliveStatus','Close')),has(c.this,c))
def nreq(c): return c.field(c.this_post,'m_next','val','request')
def req_parts(c,S,P=None):
    """what the pending request must be, for the received bytes S"""
    ls,st,m,t=(P or parts(S))[:4]; r=nreq(c); U=lambda n:c.field(r,'url',n); path,sp=target(t)
    host=hv(P,m,b'host'); hs=findc(host,B8(':'),I(0)); port=decimal(bv2nat(c.field(c.this,'m_conn','m_info','hostPort')))
    auth=hv(P,m,b'authorization'); ok,u,p=auth_spec(auth); ok=And(lt(0,slen(auth)),ok)
    return [('method of the request line',eq(c.field(r,'method','value'),mparse(c,canon(nth(st,0))))),
        ('headers of the header lines',eq(c.ex.to_term(c.field(r,'headers','m_data')),m)),
        ('body of exactly content-length bytes after the blank line',eq(c.field(r,'body','m_data'),ext(S,he(S)+4,bodysize(S,P)))),
        ('path of the request target',eq(U('pathname'),path)),('query of the request target',eq(c.ex.to_term(c.field(r,'url','searchParams','m_data')),sp)),
        ('host',eq(U('host'),ite(eq(slen(host),0),concat(sconst(b'lambdahost:'),port),host))),('host name',eq(U('hostname'),ite(eq(slen(host),0),sconst(b'lambdahost'),ite(eq(hs,-1),host,ext(host,I(0),hs))))),
        ('port',eq(U('port'),ite(eq(slen(host),0),port,ite(eq(hs,-1),empty(BV8),drop(host,hs+1))))),
        ('user name',eq(U('username'),ite(ok,u,empty(BV8)))),('password',eq(U('password'),ite(ok,p,empty(BV8))))]
def await_post(c):
    A=avail(c); go=Not(stays(c)); t,u=c.this,c.this_post
    return [('pending request kept, nothing read',Implies(stays(c),And(Iff(c.ret,has(t,c)),Iff(has(u,c),has(t,c)),eq(rb(u,c),rb(t,c)),eq(rx(c,conn(u,c)),rx(c,conn(t,c)))))),
        ('true exactly when a request is pending',Iff(c.ret,has(u,c))),
        ('no request without a complete head; nothing is dropped',Implies(And(go,Not(c.ret)),And(eq(he(A),-1),eq(rb(u,c),A)))),
        ('the request is complete and well-formed',Implies(And(go,c.ret),And(ne(he(A),-1),Not(malformed(A)),le(he(A)+4+bodysize(A),slen(A)),le(he(A)+4+bodysize(A),maxsize(c))))),
        ('everything after the request is kept for the next one',Implies(And(go,c.ret),eq(rb(u,c),drop(A,he(A)+4+bodysize(A))))),
        ('bookkeeping of the pending request',inv(u,c))]+[(n,Implies(And(go,c.ret),x)) for n,x in req_parts(c,A)+after_request(c,A)]+[('[C12] an answer to an unreadable request has a body',Implies(go,Not(c.field(u,'m_headOnly'))))]
def after_request(c,S,P=None):
    ls,st,m,tt=(P or parts(S))[:4]; K=lambda n:E_(c,'KeepAliveStatus',n); pre,post=ka(c.this,c),ka(c.this_post,c)
    cv=lowerS(hv(P,m,b'connection')); has_=lambda w:ne(finds(cv,sconst(w),I(0)),-1)
    ae=hv(P,m,b'accept-encoding'); q=split_spec(ae,sconst(b', ')); acc=lambda n:select(setof(q,slen(q)),sconst(n)); EN=lambda n:E_(c,'ContentEncodings',n)
    enc=ite(And(c.field(c.this,'m_topts','useCompression'),lt(0,slen(ae))),ite(acc(b'br'),EN('Brotli'),ite(acc(b'gzip'),EN('Gzip'),ite(acc(b'deflate'),EN('Deflate'),EN('None')))),EN('None'))
    return [('[C13] connection reuse is off: closed after the response',Implies(Not(c.field(c.this,'m_topts','reuseConnections')),eq(post,K('Close')))),
        ('[C13] first request: kept alive unless the client asks for something else',Implies(And(c.field(c.this,'m_topts','reuseConnections'),eq(pre,K('Unknown'))),eq(post,ite(Or(eq(slen(cv),0),has_(b'keep-alive')),K('KeepAlive'),K('Close'))))),
        ('[C13] later request: kept alive until the client asks to close',Implies(And(c.field(c.this,'m_topts','reuseConnections'),eq(pre,K('KeepAlive'))),eq(post,ite(has_(b'close'),K('Close'),K('KeepAlive'))))),
        ('[C12] the encoding is one this request accepts, none otherwise',eq(c.field(c.this_post,'m_compress'),enc))]
def await_throw(c):
    A=avail(c)
    return [('a request is refused only if it is incomplete, malformed or too large',Or(eq(he(A),-1),malformed(A),lt(slen(A),he(A)+4+bodysize(A)),lt(maxsize(c),he(A)+4+bodysize(A)))),('no half-read request is left pending',Iff(has(c.this_post,c),has(c.this,c))),('bookkeeping of the pending request',inv(c.this_post,c))]
def finds_prefix_s(a,b,p): return Implies(And(lt(0,slen(p)),ne(finds(a,p,I(0)),-1)),eq(finds(concat(a,b),p,I(0)),finds(a,p,I(0))))
def finds_prefix_steps(a,b,p):
    k=finds(a,p,I(0)); c=concat(a,b); r=finds(c,p,I(0)); n=slen(p)
    return [eq(ext(c,k,n),ext(a,k,n)),And(le(0,r),le(r,k)),eq(ext(c,r,n),ext(a,r,n))]
finds_prefix=lemma(T,'finds_prefix',[Bytes,Bytes,Bytes],finds_prefix_s,steps=finds_prefix_steps)
def named(c):
    """the parts of the head under the names the function gives them; the equalities are proved as steps"""
    hF=c.local('headerFields'); st=c.local('headerStartLine'); out=[]
    if hF is None: return None,out
    A=avail(c); P=parts(A); h=c.local('requestHeaderSize')-4
    th=c.snap('requestHeaderSize'); x=rx(c,conn(th,c)); A1=concat(rb(c.this,c),drop(x,slen(rx(c,conn(c.this,c))))); X=drop(rx(c,conn(c.this_post,c)),slen(x))
    y=rx(c,conn(c.this_post,c)); n0=slen(rx(c,conn(c.this,c))); f=And(le(n0,slen(x)),le(slen(x),slen(y)),eq(ext(y,I(0),slen(x)),x))
    out.append(('bytes read later',f))
    out+=[('',Hint(drop_more(x,y,n0))),('',Hint(finds_prefix(A1,X,CRLF2)))]
    out.append(('bytes read so far',By(eq(A,concat(A1,X)),[f,drop_more(x,y,n0),eq(A,concat(rb(c.this,c),drop(y,n0)))])))
    out.append(('found there',ne(he(A1),-1)))
    out.append(('found at',eq(he(A1),h)))
    out.append(('end of the head',By(eq(he(A),h),[eq(A,concat(A1,X)),ne(he(A1),-1),eq(he(A1),h),finds_prefix(A1,X,CRLF2)],fuel=0)))
    R=rb(th,c)
    out.append(('buffer',eq(R,A1)))
    out.append(('head',By(eq(head(A),ext(R,I(0),h)),[eq(A,concat(A1,X)),eq(R,A1),eq(he(A),h),ne(he(A1),-1),eq(he(A1),h)],fuel=1)))
    out.append(('lines',eq(hF,split_spec(ext(R,I(0),h),CRLF))))
    out.append(('header lines',By(eq(hF,P[0]),[eq(hF,split_spec(ext(R,I(0),h),CRLF)),eq(head(A),ext(R,I(0),h))])))
    if st is None: st=splitc(nth(hF,0),B8(' '),I(0))
    else: out.append(('start line',eq(st,splitc(nth(hF,0),B8(' '),I(0)))))
    m=headersof(hF,slen(hF)); d={}
    for n,k in (('hostHeader',b'host'),('authHeader',b'authorization'),('acceptEncodingHeader',b'accept-encoding'),('bodySizeHeader',b'content-length')):
        x=c.local(n)
        if x is not None and x.sort==Bytes: out.append(('value of '+k.decode(),eq(x,hget(m,k)))); d[k]=x
    return (hF,st,m,nth(st,1),d),out
EQS=('head','header lines','start line','value of host','value of authorization','value of accept-encoding','value of content-length')
def await_throwsteps(c):
    A=avail(c); N,out=named(c)
    cl=hv(N,(N or parts(A))[2],b'content-length'); out.append(('',Hint(number_grows(cl,I(0),slen(cl)))))
    if N is None:
        h=c.local('requestHeaderSize')
        if h is None:
            b=c.local('newBytes'); x=rx(c,conn(c.this_post,c))
            if b is not None: p=ext(x,I(0),slen(x)-slen(b)); out+=[('bytes before the last read',And(eq(drop(x,slen(p)),b),le(slen(b),slen(x)),eq(slen(p),slen(x)-slen(b)))),('',Hint(drop_more(p,x,slen(rx(c,conn(c.this,c))))))]
            out+=[('buffer',eq(A,rb(c.this_post,c))),('no complete head yet',eq(he(rb(c.this_post,c)),-1))]
        else: out+=[('end of the head',eq(he(A),h-4)),('size',Or(malformed(A),le(0,bodysize(A))))]
        return out
    i=c.local('i')
    if i is not None: out.append(('',Hint(goodlines_mono(N[0],i+1,slen(N[0])))))
    X=Or(malformed(A,N),lt(slen(A),he(A)+4+bodysize(A,N)),lt(maxsize(c),he(A)+4+bodysize(A,N)))
    eqs=[t.goal if isinstance(t,By) else t for n,t in out if n in EQS]
    return out+[('refused for a reason',X),('refused',By(await_throw(c)[0][1],[X]+eqs))]
ext_drop=lemma(T,'ext_drop',[Bytes,Int,Int],lambda a,k,n:Implies(And(le(0,k),le(0,n),le(k+n,slen(a))),And(eq(ext(drop(a,k),I(0),n),ext(a,k,n)),eq(drop(drop(a,k),n),drop(a,k+n)))))
def await_steps(c):
    A=avail(c); N,out=named(c); go=Not(stays(c))
    if N is None: return out
    out+=[(n,Implies(And(go,c.ret),x)) for n,x in req_parts(c,A,N) if n in('user name','password')]
    bs=c.local('bodySize')
    if bs is not None and c.local('requestHeaderSize') is not None:
        h=c.local('requestHeaderSize')-4; R=rb(c.snap('requestHeaderSize'),c); X=drop(rx(c,conn(c.this_post,c)),slen(rx(c,conn(c.snap('requestHeaderSize'),c)))); D=drop(A,h+4); fs=[eq(bs,bodysize(A,N)),eq(he(A),h)]
        A1=concat(rb(c.this,c),drop(rx(c,conn(c.snap('requestHeaderSize'),c)),slen(rx(c,conn(c.this,c)))))
        g1=eq(A,concat(R,X)); g2=eq(D,concat(drop(R,h+4),X)); g3=And(eq(c.field(nreq(c),'body','m_data'),ext(D,I(0),bs)),eq(rb(c.this_post,c),drop(D,bs)),le(bs,slen(D))); w=And(le(0,h),le(h+4,slen(R))); al=And(le(0,bs),le(h+4+bs,slen(A)))
        out+=[('body size',fs[0]),('head in the buffer',w),('buffer and what was read later',By(g1,[eq(A,concat(A1,X)),eq(R,A1)])),('',Hint(drop_mid(R,X,h+4))),('after the head',By(g2,[g1,w,drop_mid(R,X,h+4)])),('body and rest',g3),('size of it all',By(al,[g2,g3,w,g1,le(0,bs)])),('',Hint(ext_drop(A,h+4,bs)))]
        bd=[t for n,t in req_parts(c,A,N) if n.startswith('body of')][0]
        out+=[('body taken from the bytes received',By(bd,[fs[0],fs[1],g3,al,ext_drop(A,h+4,bs)])),('rest of the bytes received',By(eq(rb(c.this_post,c),drop(A,he(A)+4+bs)),[fs[1],g3,al,ext_drop(A,h+4,bs)]))]
    eqs=[t.goal if isinstance(t,By) else t for n,t in out if n in EQS]
    if bs is not None:
        b2=lambda P:And(ne(he(A),-1),Not(malformed(A,P)),le(he(A)+4+bodysize(A,P),slen(A)),le(he(A)+4+bodysize(A,P),maxsize(c)))
        wf=Not(malformed(A,N)); lim=le(h+4+bs,maxsize(c))
        out+=[('well-formed',wf),('within the limit',lim),('complete and well-formed',By(b2(N),[ne(he(A),-1),fs[0],fs[1],wf,lim,al])),('body size as received',By(eq(bodysize(A),bs),[fs[0]]+eqs)),('rest as received',By(eq(rb(c.this_post,c),drop(A,he(A)+4+bodysize(A))),[eq(bodysize(A),bs),eq(rb(c.this_post,c),drop(A,he(A)+4+bs))])),('complete and well-formed as received',By(b2(None),[b2(N)]+eqs))]
    for (n,x),(_,y) in zip(req_parts(c,A,N)+after_request(c,A,N),req_parts(c,A)+after_request(c,A)): out+=[(n,Implies(And(go,c.ret),x)),(n,By(Implies(And(go,c.ret),y),[Implies(And(go,c.ret),x)]+eqs))]
    return out
number_grows=lemma(T,'number_grows',[Bytes,Int,Int],lambda s,i,n:Implies(And(le(0,i),le(i,n),alldigits(s,n)),And(alldigits(s,i),le(number(s,i),number(s,n)),le(0,number(s,i)))),measure=lambda s,i,n:n,ih=lambda s,i,n:[(s,i,n-1),(s,I(0),n-1)])
goodlines_mono=lemma(T,'goodlines_mono',[SeqS,Int,Int],lambda s,i,n:Implies(And(le(0,i),le(i,n),goodlines(s,n)),goodlines(s,i)),measure=lambda s,i,n:n-i,ih=lambda s,i,n:[(s,i,n-1)])
AW=(('this','m_readbuff'),('this','m_keepalive'),('this','m_compress'),('this','m_next'),('this','m_headOnly'),('this','m_conn','hSocket'),('this','m_conn','$rx'),'g:closed')
def vrx(v): return v.f(v.this,'m_conn','$rx')
def vrb(v): return v.f(v.this,'m_readbuff')
def vout(v): return v.f(v.old_this,'m_conn','$rx')
def pcl(c): s=c.arg(0); return s,slen(s)
contract('parseContentLength(const string &)',T,raises=lambda c:(lambda s,n:Or(Not(alldigits(s,n)),lt((1<<64)-1,number(s,n))))(*pcl(c)),ensures=lambda c:[('the decimal number',eq(c.ret,number(*pcl(c))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),alldigits(v.range,v.idx),eq(v.result,number(v.range,v.idx)),le(0,v.result),le(v.result,(1<<64)-1)],dec=lambda v:slen(v.range)-v.idx,hints=lambda v:[number_grows(v.range,v.idx+1,slen(v.range))])])
def found(v): return ne(finds(vrb(v),CRLF2,I(0)),-1)
def inv0(v):
    m=v.f(v.this,'m_topts','maxRequestSize')
    return [le(slen(vout(v)),slen(vrx(v))),eq(vrb(v),concat(v.f(v.old_this,'m_readbuff'),drop(vrx(v),slen(vout(v))))),eq(v.headerEnded.off,ite(found(v),finds(vrb(v),CRLF2,I(0)),slen(vrb(v)))),Iff(v.f(v.this,'m_next','has'),FALSE),Iff(v.f(v.this,'m_next','live'),FALSE),eq(v.f(v.this,'m_keepalive'),v.f(v.old_this,'m_keepalive'))]
def inv1(v):
    ls=v.headerFields; n=slen(ls)
    return [And(le(1,v.i),le(v.i,n)),goodlines(ls,v.i),eq(v.ex.to_term(v.f(v.get('next'),'headers','m_data')),headersof(ls,v.i))]
def inv3(v):
    x=v.f(v.entry_this,'m_conn','$rx')
    return [le(slen(x),slen(vrx(v))),eq(ext(vrx(v),I(0),slen(x)),x),eq(vrb(v),concat(v.f(v.entry_this,'m_readbuff'),drop(vrx(v),slen(x))))]
drop_mid=lemma(T,'drop_mid',[Bytes,Bytes,Int],lambda p,b,n:Implies(And(le(0,n),le(n,slen(p))),eq(drop(concat(p,b),n),concat(drop(p,n),b))))
drop_more=lemma(T,'drop_more',[Bytes,Bytes,Int],lambda p,q,n:Implies(And(le(0,n),le(n,slen(p)),le(slen(p),slen(q)),eq(ext(q,I(0),slen(p)),p)),eq(drop(q,n),concat(drop(p,n),drop(q,slen(p))))),
    steps=lambda p,q,n:[eq(concat(p,drop(q,slen(p))),q),drop_mid(p,drop(q,slen(p)),n)])
def hread(v,x):
    if not v.prev: return []
    p=vrx(v.prev); q=vrx(v); return [drop_more(p,q,slen(x))]
contract(TV+'::awaitNext()',(T,'C12','C13'),requires=lambda c:[('bookkeeping of the pending request',inv(c.this,c))],modifies=AW,raises=lambda c:'any',ensures=await_post,steps=await_steps,opts={'snap':('requestHeaderSize',),'onthrow':await_throw,'throwsteps':await_throwsteps,'merge':True,'name':('hostHeader','authHeader','acceptEncodingHeader','bodySizeHeader','headerFields','headerStartLine','requestUrlString','headerKey','headerValue','headerline')},
  loops=[LoopSpec(inv0,hints=lambda v:hread(v,vout(v)),dec=lambda v:ite(found(v),I(0),1+imax(I(0),v.f(v.this,'m_topts','maxRequestSize')+1-slen(vrb(v))))),
         LoopSpec(inv1,dec=lambda v:slen(v.headerFields)-v.i),None,
         LoopSpec(lambda v:inv3(v),hints=lambda v:hread(v,v.f(v.entry_this,'m_conn','$rx')),dec=lambda v:v.bodySize-slen(vrb(v)))])

# ---------------------------------------------------------------- handing out requests
def nreqs(c):
    o=c.this; r=c.ret; n=c.field(o,'m_next','val')
    return [('the pending request',c.ex.same(c.field(r,'request'),c.field(n,'request'),(),[])),('its identifier',c.ex.same(c.field(r,'id'),c.field(n,'id'),(),[])),('each request is handed out once',And(Not(has(c.this_post,c)),inv(c.this_post,c))),
        ('[C12] remembers whether the response may have a body',Iff(c.field(c.this_post,'m_headOnly'),eq(c.field(n,'request','method','value'),bv(c.ex.P.enums['Lambda::HTTP::Methods']['HEAD'],32))))]
contract(TV+'::nextRequest()',(T,'C12','C13'),requires=lambda c:[('bookkeeping of the pending request',inv(c.this,c))],modifies=(('this','m_next'),('this','m_headOnly')),raises=lambda c:Not(has(c.this,c)),ensures=nreqs)
# ---------------------------------------------------------------- responses
R='C12'
def clean(ch): return ite(Or(eq(ch,B8(13)),eq(ch,B8(10))),B8(32),ch)
from strings import mapfun
cleanS=mapfun('cleanS',clean); cleanS.shrinks=True
def vb(v): return v.arg(0)
def cl_inv(v):
    d0=v.old_arg(0); d=v.arg(0); i=v.idx; n=slen(d0)
    return [And(le(0,i),le(i,slen(v.range))),eq(slen(d),n+i),eq(ext(d,I(0),n),d0),allk(I(0),i,lambda k:eq(nth(d,n+k),clean(nth(v.range,k))),pat=lambda k:nth(v.range,k))]
contract('appendHeaderText(vector<unsigned char> &, const string &)',R,modifies=(0,),ensures=lambda c:[('the text without line breaks',eq(c.post(0),concat(c.arg(0),cleanS(c.arg(1)))))],
    loops=[LoopSpec(cl_inv,dec=lambda v:slen(v.range)-v.idx)])
from kv import Pairs,entriesof
@specfn([Pairs,Int],Bytes)
def linesof(ps,i):
    p=nth(ps,i-1); return ite(le(i,0),empty(BV8),concat(linesof(ps,i-1),cleanS(dsel(p,'first')),sconst(b': '),cleanS(dsel(p,'second')),CRLF))
def isopen_(v,c): return isopen(c,conn(v,c))
from comp import decoded      # what a body in a content encoding decodes to (proved of the compressors in C20)
def CE(c,n): return E_(c,'ContentEncodings',n)
TEXTY=[b'text',b'html',b'json',b'xml',b'javascript']
def put(m,k,v,cond=TRUE): return ite(cond,mput(m,sconst(k),unit(v)),m)
def rparts(c):
    """stages of the response headers; P gives the program's own value of each stage, which the steps prove equal"""
    r=c.arg(0); t=c.this; H0=c.ex.to_term(c.field(r,'response','headers','m_data')); ct=hget(H0,b'content-type'); auto=c.field(t,'flags','autocompress'); lct=lowerS(ct)
    texty=Or(*[ne(finds(lct,sconst(w),I(0)),-1) for w in TEXTY])
    enc=ite(And(auto,Or(eq(slen(ct),0),texty)),c.field(t,'m_compress'),CE(c,'None'))
    HF=c.ex.to_term(c.field(c.local('responseHeaders'),'m_data')); date=first(mget(HF,sconst(b'date'))); body=c.local('responseBodyBuffer')
    s1=lambda: put(H0,b'content-type',sconst(b'text/html; charset=utf-8'),And(auto,eq(slen(ct),0)))
    s2=lambda m,e: put(m,b'content-encoding',ite(eq(e,CE(c,'Brotli')),sconst(b'br'),ite(eq(e,CE(c,'Gzip')),sconst(b'gzip'),sconst(b'deflate'))),ne(e,CE(c,'None')))
    s3=lambda m: put(m,b'content-length',decimal(slen(body)),c.field(t,'flags','forceContentLength'))
    s4=lambda m: put(put(put(m,b'date',date),b'server',sconst(b'maddsua/lambda')),b'x-request-id',concat(c.field(t,'m_id','m_str'),sconst(b'-'),c.field(r,'id','m_str')))
    K=lambda n:E_(c,'KeepAliveStatus',n); pre=ka(t,c)
    def s5(m):
        cv=lowerS(hget(m,b'connection')); ka1=ite(lt(0,slen(cv)),ite(ne(finds(cv,sconst(b'close'),I(0)),-1),K('Close'),K('KeepAlive')),pre)
        return put(m,b'connection',ite(eq(pre,K('KeepAlive')),sconst(b'keep-alive'),sconst(b'close')),eq(slen(cv),0)),ka1
    return enc,s1,s2,s3,s4,s5,HF,body,K
def respond_steps(c):
    enc,s1,s2,s3,s4,s5,HF,body,K=rparts(c)
    sm=lambda p:c.ex.to_term(c.field(c.snap(p,'responseHeaders'),'m_data')); e1=c.snap('responseBodyBuffer','applyEncoding')
    T1=sm('responseBodyBuffer'); T4=sm('responseConnectionHeader'); F=s5(s4(s3(s2(s1(),enc))))
    f=[eq(e1,enc),eq(T1,s1()),eq(T4,s4(s3(s2(T1,e1)))),eq(HF,s5(T4)[0]),eq(ka(c.this_post,c),s5(T4)[1])]
    n=['encoding','headers before the body','fixed headers','connection header','kept alive']
    return list(zip(n,f))+[('headers',By(And(eq(HF,F[0]),eq(ka(c.this_post,c),F[1])),f))]
def respond_post(c):
    r=c.arg(0); t,u=c.this,c.this_post; B0=c.field(r,'response','body','m_data'); enc,s1,s2,s3,s4,s5,HF,body,K=rparts(c); H,ka1=s5(s4(s3(s2(s1(),enc))))
    es=lambda m:entriesof(m,keysof(m),slen(keysof(m))); code=c.field(r,'response','status','m_code')
    headb=concat(sconst(b'HTTP/1.1 '),decimal(bv2nat(code)),sconst(b' '),cleanS(c.field(r,'response','status','m_text')),CRLF,linesof(es(HF),slen(es(HF))),CRLF)
    sent=tx(c,conn(u,c)); before=tx(c,conn(t,c))
    return [('[C12] headers of the response',eq(HF,H)),
        ('[C12] the body is the response body, in the encoding that is announced',And(Implies(eq(enc,CE(c,'None')),eq(body,B0)),Implies(ne(enc,CE(c,'None')),And(eq(decoded(c,enc,body),B0))))),
        ('[C12] status line, headers without line breaks, empty line, body unless it answers HEAD',eq(sent,concat(before,headb,ite(c.field(t,'m_headOnly'),empty(BV8),body)))),
        ('[C13] kept alive or not as the response says',eq(ka(u,c),ka1)),
        ('[C13] closed exactly when it is not kept alive any more',And(Implies(eq(ka(u,c),K('Close')),Not(isopen_(u,c))),Implies(ne(ka(u,c),K('Close')),Iff(isopen_(u,c),isopen_(t,c)))))]
contract(TV+'::respond(const HTTP::Transport::ResponseContext &)',(R,'C13'),steps=respond_steps,opts={'merge':True,'name':('bodyBufferSize',),'snap':('responseBodyBuffer','responseConnectionHeader'),'snapvars':('responseHeaders','applyEncoding')},
    requires=lambda c:[('the accepted encoding is one of the known ones',bvcmp('bvule',c.field(c.this,'m_compress'),CE(c,'Deflate')))],
    modifies=(('this','m_keepalive'),('this','m_conn','hSocket'),('this','m_conn','$tx'),'g:closed','g:zfault'),raises=lambda c:'any',ensures=respond_post,
    loops=[None,LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.headerBuff,concat(v.at_entry('headerBuff'),linesof(v.range,v.idx)))],dec=lambda v:slen(v.range)-v.idx)])
# ---------------------------------------------------------------- raw access (protocol upgrades)
def raw(n):
    def ens(c):
        A0=concat(rb(c.this,c),drop(rx(c,conn(c.this_post,c)),slen(rx(c,conn(c.this,c)))))
        return [('every byte received and not yet handed out, once and in order',And(eq(c.ret,A0),eq(slen(rb(c.this_post,c)),0))),('no read when enough is buffered',Implies(le(n(c),slen(rb(c.this,c))),eq(rx(c,conn(c.this_post,c)),rx(c,conn(c.this,c)))))]
    return ens
RW=(('this','m_readbuff'),('this','m_conn','hSocket'),('this','m_conn','$rx'),'g:closed')
contract(TV+'::readRaw(unsigned long)',T,modifies=RW,raises=lambda c:'any',ensures=raw(lambda c:c.arg(0)))
contract(TV+'::readRaw()',T,modifies=RW,raises=lambda c:'any',ensures=raw(lambda c:I(2048)))
contract(TV+'::writeRaw(const vector<unsigned char> &)',R,modifies=(('this','m_conn','$tx'),),raises=lambda c:'any',ensures=lambda c:[('exactly these bytes',eq(tx(c,conn(c.this_post,c)),concat(tx(c,conn(c.this,c)),c.arg(0))))])
contract(TV+'::reset()',T,modifies=(('this','m_readbuff'),('this','m_next')),requires=lambda c:[('bookkeeping of the pending request',inv(c.this,c))],ensures=lambda c:[('nothing is buffered or pending',And(eq(slen(rb(c.this_post,c)),0),Not(has(c.this_post,c)),inv(c.this_post,c)))])
contract(TV+'::close()','C13',modifies=(('this','m_conn','hSocket'),'g:closed'),ensures=lambda c:[('closed afterwards',Not(isopen_(c.this_post,c))),('closes its handle once',closes(c,h(c,conn(c.this,c))))])
contract(TV+'::hasPartialData()const',T,ensures=lambda c:[('bytes are buffered',Iff(c.ret,lt(0,slen(rb(c.this,c)))))])
contract(TV+'::isConnected()const','C13',ensures=lambda c:[('the connection is open',Iff(c.ret,isopen_(c.this,c)))])
contract(TV+'::getEnconding()const',R,ensures=lambda c:[('the accepted encoding',eq(c.ret,c.field(c.this,'m_compress')))])
contract(TV+'::contextID()const',T,ensures=lambda c:[('its identifier',eq(c.ret,c.field(c.this,'m_id','m_str')))])
contract(TV+'::#ctor(Network::TCP::Connection &, const HTTP::Transport::TransportOptions &)',(T,'C12','C13'),modifies=('this',),ensures=lambda c:[('nothing read, nothing pending',And(eq(slen(rb(c.this_post,c)),0),Not(has(c.this_post,c)),inv(c.this_post,c))),
    ('[C13] first request decides about keep-alive',eq(ka(c.this_post,c),E_(c,'KeepAliveStatus','Unknown'))),('[C12] no encoding yet',And(eq(c.field(c.this_post,'m_compress'),E_(c,'ContentEncodings','None')),Not(c.field(c.this_post,'m_headOnly'))))])
