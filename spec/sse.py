"""Server-sent events: what is written to the client."""
from lvc.spec import *
from lvc.std import *
from strings import lowerS
from kv import Pair,Pairs,first
from net import isopen as c_open,tx as c_tx,h as c_h
S='C17'
prop(S,files=['core/sse/writer.cpp'])
TC='Lambda::HTTP::Transport::TransportContext'
# the interface a writer works on: a connection and the response given last (with the flags in force then)
for n,so in(('$log',Seq(Bytes)),('$c','@Lambda::Network::TCP::Connection'),('$resp','@Lambda::HTTP::Response'),('$rflags','@Lambda::HTTP::Transport::TransportFlags'),('$nresp','#int')): ghost(TC,n,so)
T=TC[8:]
abstract(T+'::isConnected()const',opts={'ret':lambda c:c_open(c,c.field(c.this,'$c'))})
abstract(T+'::tcpconn()const',opts={'ret':lambda c:c.args['this'].sub(('f','$c'))})
def rest(a,b): return ext(b,slen(a),slen(b)-slen(a))
def part_sent(c,a,b,m): k=slen(b)-slen(a); return And(le(slen(a),slen(b)),le(k,slen(m)),eq(b,concat(a,ext(m,I(0),k))))
def wtx(c,v): return c_tx(c,c.field(v,'$c'))
abstract(T+'::writeRaw(const vector<unsigned char> &)',modifies=(('this','$c','$tx'),('this','$log')),raises=lambda c:'any',opts={'onthrow':lambda c:[('part of it',part_sent(c,wtx(c,c.this),wtx(c,c.this_post),c.arg(0))),('not logged',eq(c.field(c.this_post,'$log'),c.field(c.this,'$log')))]},
    ensures=lambda c:[('all of it',eq(wtx(c,c.this_post),concat(wtx(c,c.this),c.arg(0)))),('logged',eq(c.field(c.this_post,'$log'),concat(c.field(c.this,'$log'),unit(c.arg(0)))))])
abstract(T+'::respond(const HTTP::Transport::ResponseContext &)',modifies=(('this','$resp'),('this','$rflags'),('this','$nresp'),('this','$c','$tx'),('this','$c','hSocket'),'g:closed'),raises=lambda c:'any',
    ensures=lambda c:[('this response',c.ex.same(c.field(c.this_post,'$resp'),c.field(c.arg(0),'response'),(),[])),('with these flags',c.ex.same(c.field(c.this_post,'$rflags'),c.field(c.this,'flags'),(),[])),('once',eq(c.field(c.this_post,'$nresp'),c.field(c.this,'$nresp')+1))])
def brk(b): return Or(eq(b,bv(13,8)),eq(b,bv(10,8)))
def skipped(s,i): return And(eq(nth(s,i),bv(10,8)),lt(0,i),eq(nth(s,i-1),bv(13,8)))
CRLF=sconst(b'\r\n')
def line(n,v): return concat(sconst(n) if isinstance(n,bytes) else n,sconst(b': '),v,CRLF)
@specfn([Bytes,Int],Bytes)
def cur(s,i):
    """the line of the data that is open at position i"""
    return ite(le(i,0),empty(BV8),ite(skipped(s,i-1),cur(s,i-1),ite(brk(nth(s,i-1)),empty(BV8),concat(cur(s,i-1),unit(nth(s,i-1))))))
@specfn([Bytes,Int],Bytes)
def dbytes(s,i):
    """the data lines closed before position i, as written"""
    return ite(le(i,0),empty(BV8),ite(And(brk(nth(s,i-1)),Not(skipped(s,i-1))),concat(dbytes(s,i-1),line(b'data',cur(s,i-1))),dbytes(s,i-1)))
@specfn([Bytes,Int],Bytes)
def heard(s,i):
    """the client's data buffer after these lines: every value with a line feed"""
    return ite(le(i,0),empty(BV8),ite(And(brk(nth(s,i-1)),Not(skipped(s,i-1))),concat(heard(s,i-1),cur(s,i-1),sconst(b'\n')),heard(s,i-1)))
@specfn([Bytes,Int],Bytes)
def normal(s,i):
    """text with every line break turned into a line feed"""
    return ite(le(i,0),empty(BV8),ite(skipped(s,i-1),normal(s,i-1),concat(normal(s,i-1),ite(brk(nth(s,i-1)),sconst(b'\n'),unit(nth(s,i-1))))))
lemma(S,'sse_lines_clean',[Bytes,Int,Int],lambda s,i,k:Implies(And(le(0,i),le(i,slen(s)),le(0,k),lt(k,slen(cur(s,i)))),Not(brk(nth(cur(s,i),k)))),measure=lambda s,i,k:i,ih=lambda s,i,k:[(s,i-1,k)])
lemma(S,'sse_data_arrives',[Bytes,Int],lambda s,i:Implies(And(le(0,i),le(i,slen(s))),eq(concat(heard(s,i),cur(s,i)),normal(s,i))),measure=lambda s,i:i,ih=lambda s,i:[(s,i-1)])
lemma(S,'sse_plain_data',[Bytes,Int],lambda s,i:Implies(And(le(0,i),le(i,slen(s)),nobreak(s,i)),And(eq(normal(s,i),ext(s,I(0),i)),eq(dbytes(s,i),empty(BV8)))),measure=lambda s,i:i,ih=lambda s,i:[(s,i-1)])
@specfn([Bytes,Int],Bool)
def nobreak(s,i): return Or(le(i,0),And(Not(brk(nth(s,i-1))),nobreak(s,i-1)))
@specfn([Pairs,Int],Bytes)
def ser(ps,n): p=nth(ps,n-1); return ite(le(n,0),empty(BV8),concat(ser(ps,n-1),line(dsel(p,'first'),dsel(p,'second'))))
ser_prefix=lemma(S,'ser_prefix',[Pairs,Pairs,Int],lambda a,b,n:Implies(And(le(0,n),le(n,slen(a))),eq(ser(concat(a,b),n),ser(a,n))),measure=lambda a,b,n:n,ih=lambda a,b,n:[(a,b,n-1)])
def has(v): return v
def opt(c,f): o=c.field(c.arg(0),f); return c.field(o,'has'),c.field(o,'val')
def hasbrk(s): return Or(ne(findc(s,B8('\r'),I(0)),-1),ne(findc(s,B8('\n'),I(0)),-1))
contract('hasLineBreak(const string &)',S,ensures=lambda c:[('line break inside',Iff(c.ret,hasbrk(c.arg(0))))],opts={'ret':lambda c:hasbrk(c.arg(0))})
def message(ev,i,data,rt):
    """ev, i, rt: (given, value)"""
    return concat(ite(ev[0],line(b'event',ev[1]),empty(BV8)),ite(i[0],line(b'id',i[1]),empty(BV8)),dbytes(data,slen(data)),line(b'data',cur(data,slen(data))),ite(rt[0],line(b'retry',decimal(bv2nat(rt[1]))),empty(BV8)),CRLF)
def msg(c): return message(opt(c,'event'),opt(c,'id'),c.field(c.arg(0),'data'),opt(c,'retry'))
W='SSE::Writer::'
def tp(c,v): return c.field(v,'m_transport')
def cn(c,v): return c.field(tp(c,v),'$c')
def refused(c): e,i=opt(c,'event'),opt(c,'id'); return Or(Not(c_open(c,cn(c,c.this))),And(e[0],hasbrk(e[1])),And(i[0],hasbrk(i[1])))
def pushed(c):
    a,b=c_tx(c,cn(c,c.this)),c_tx(c,cn(c,c.this_post)); m=msg(c)
    return [('the whole message, or a part of it and the connection is closed',Or(And(eq(b,concat(a,m)),c_open(c,cn(c,c.this_post))),And(part_sent(c,a,b,m),Not(c_open(c,cn(c,c.this_post))))))]
TXC=(('this','m_transport','$log'),('this','m_transport','$c','$tx'),('this','m_transport','$c','hSocket'),'g:closed')
def mf(v): return v.messageFields
def hser(v):
    x=v.messageFields; y=v.prev.messageFields if v.prev else None
    return []
def opening(ev,i): return concat(ite(ev[0],line(b'event',ev[1]),empty(BV8)),ite(i[0],line(b'id',i[1]),empty(BV8)))
def vopt(v,n): o=v.f(v.event,n); return v.f(o,'has'),v.f(o,'val')
def push_steps(c):
    m=c.local('messageFields'); z=c.local('serializedMessage')
    if m is None or z is None: return []
    M=c.snap('dataLine','messageFields')
    if M is None: return []
    out=[]; ev,i=opt(c,'event'),opt(c,'id')
    f=lambda x,a,b:And(eq(dsel(x,'first'),sconst(a)),eq(dsel(x,'second'),b))
    for x in(TRUE,FALSE):
        for y in(TRUE,FALSE):
            h=And(Iff(ev[0],x),Iff(i[0],y)); nn=(x is TRUE)+(y is TRUE); fs=[Implies(h,eq(slen(M),nn))]
            if x is TRUE: fs.append(Implies(h,f(nth(M,0),b'event',ev[1])))
            if y is TRUE: fs.append(Implies(h,f(nth(M,nn-1),b'id',i[1])))
            out+=[('field',g) for g in fs]+[('fields before the data',By(Implies(h,eq(ser(M,slen(M)),opening((x,ev[1]),(y,i[1])))),fs,fuel=3))]
    out.append(('fields before the data',By(eq(ser(M,slen(M)),opening(ev,i)),[t.goal for n,t in out if isinstance(t,By)])))
    n=slen(m); rt=opt(c,'retry'); k=ite(rt[0],I(2),I(1)); M0=ext(m,I(0),n-k); d=c.field(c.arg(0),'data'); E=opening(opt(c,'event'),opt(c,'id')); G=concat(E,dbytes(d,slen(d)))
    p=nth(m,n-k); q=nth(m,n-1); f=lambda x,a,b:And(eq(dsel(x,'first'),sconst(a)),eq(dsel(x,'second'),b))
    b1=line(b'data',cur(d,slen(d))); b2=line(b'retry',decimal(bv2nat(rt[1])))
    w=le(k,n); s1=eq(m,concat(M0,drop(m,n-k))); s2=eq(ser(M0,n-k),G); s3=f(p,b'data',cur(d,slen(d))); s4=Implies(rt[0],f(q,b'retry',decimal(bv2nat(rt[1])))); s5=eq(ser(m,n-k),G); L=ser_prefix(M0,drop(m,n-k),n-k); s6=eq(z,concat(ser(m,n),CRLF))
    body=concat(G,line(b'data',cur(d,slen(d))),ite(rt[0],line(b'retry',decimal(bv2nat(rt[1]))),empty(BV8)))
    r0=Implies(Not(rt[0]),eq(ser(m,n),concat(G,b1))); r1=Implies(rt[0],eq(ser(m,n-1),concat(G,b1))); r2=Implies(rt[0],eq(ser(m,n),concat(G,b1,b2)))
    return out+[('number of fields',w),('fields',s1),('first fields',eq(ser(M0,n-k),concat(ser(M,slen(M)),dbytes(d,slen(d))))),('first fields',By(s2,[eq(ser(M0,n-k),concat(ser(M,slen(M)),dbytes(d,slen(d)))),eq(ser(M,slen(M)),opening(ev,i))])),('data field',s3),('retry field',s4),('',Hint(L)),('first fields written',By(s5,[w,s1,s2,L])),('all fields written',s6),('no retry',By(r0,[w,s3,s5],fuel=1)),('data before retry',By(r1,[w,s3,s5],fuel=1)),('with retry',By(r2,[w,s4,r1],fuel=1)),('last fields',By(eq(ser(m,n),body),[r0,r2])),('what the fields say',By(eq(z,msg(c)),[s6,eq(ser(m,n),body)]))]
contract(W+'push(const SSE::EventMessage &)',S,steps=push_steps,modifies=TXC,raises=refused,ensures=pushed,
    opts={'snap':('dataLine',),'snapvars':('messageFields',),'onthrow':lambda c:[('nothing is sent',eq(c_tx(c,cn(c,c.this_post)),c_tx(c,cn(c,c.this)))),('the connection stays as it was',Iff(c_open(c,cn(c,c.this_post)),c_open(c,cn(c,c.this))))]},
    loops=[LoopSpec(lambda v:[le(v.i,slen(v.f(v.event,'data'))),eq(v.dataLine,cur(v.f(v.event,'data'),v.i)),eq(ser(mf(v),slen(mf(v))),concat(ser(v.at_entry('messageFields'),slen(v.at_entry('messageFields'))),dbytes(v.f(v.event,'data'),v.i)))],dec=lambda v:slen(v.f(v.event,'data'))-v.i,
            hints=lambda v:[ser_prefix(v.prev.messageFields,drop(mf(v),slen(v.prev.messageFields)),slen(v.prev.messageFields))] if v.prev else []),
        LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.serializedMessage,ser(v.range,v.idx))],dec=lambda v:slen(v.range)-v.idx)])
contract(W+'connected()const',S,ensures=lambda c:[('connected and not shutting down',Iff(c.ret,And(c_open(c,cn(c,c.this)),Not(c.field(c.field(c.this,'m_worker'),'shutdownFlag')))))])
def closing(c):
    a,b=c_tx(c,cn(c,c.this)),c_tx(c,cn(c,c.this_post)); none=(FALSE,empty(BV8)); m=message((TRUE,sconst(b'close')),none,empty(BV8),(FALSE,bv(0,32)))
    return [('closed afterwards',Not(c_open(c,cn(c,c.this_post)))),('says goodbye with a close event first',Implies(c_open(c,cn(c,c.this)),part_sent(c,a,b,m))),('nothing is sent when already closed',Implies(Not(c_open(c,cn(c,c.this))),eq(a,b)))]
contract(W+'close()',S,modifies=TXC,ensures=closing)
def started(c):
    t=tp(c,c.this_post); r=c.field(t,'$resp'); m=c.ex.to_term(c.field(r,'headers','m_data')); o=c.field(c.arg(0),'transport'); q=c.ex.to_term(c.field(c.field(c.arg(0),'requestEvent'),'request','headers','m_data'))
    org=ite(mhas(q,sconst(b'origin')),first(mget(q,sconst(b'origin'))),empty(BV8)); one=lambda k,v:And(mhas(m,sconst(k)),eq(mget(m,sconst(k)),unit(sconst(v) if isinstance(v,bytes) else v)))
    ac=b'access-control-allow-origin'; fl=c.field(t,'$rflags')
    return [('answers the request once',eq(c.field(t,'$nresp'),c.field(o,'$nresp')+1)),('status 200',eq(c.field(r,'status','m_code'),bv(200,32))),('an event stream',one(b'content-type',b'text/event-stream; charset=UTF-8')),('kept alive',one(b'connection',b'keep-alive')),('not cached',one(b'cache-control',b'no-cache')),
        ('the origin of the request is allowed, no other',ite(eq(slen(org),0),Not(mhas(m,sconst(ac))),one(ac,org))),('no body yet, no length, no encoding',And(eq(slen(c.field(r,'body','m_data')),0),Not(c.field(fl,'forceContentLength')),Not(c.field(fl,'autocompress'))))]
contract(W+'#ctor(SSE::WriterInit)',S,modifies=('this',(0,'transport')),raises=lambda c:'any',ensures=started)
