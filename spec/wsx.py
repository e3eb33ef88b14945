"""WebSocket sessions: handshake, what is received, what is answered, how a session ends."""
from lvc.spec import *
from lvc.std import *
from lvc.ex import mangle
from strings import lowerS
from kv import first
import sse
from ws import *
from sse import T,TC,c_open,c_tx,CRLF
X='C16'
prop(X,files=['core/websocket/transport.cpp','core/websocket/websocket.cpp'])
guarded('Lambda::Websocket::WebsocketContext','m_read_mtx','m_queue')
ghost(TC,'$rest',Bytes)             # what the peer is going to send
Msg=declare_dt(mangle('Lambda::Websocket::Message'),[('data',Bytes),('binary',Bool),('partial',Bool),('timestamp',Int)])
Q=Seq(Msg)
M3=declare_dt('WsMsg',[('d',Bytes),('b',Bool),('p',Bool)])
def m3(d,b,p): return dcons(M3[1],[d,b,p])
def butlast(q): return ext(q,I(0),slen(q)-1)
@specfn([Q],Seq(M3))
def view(q):
    """the queued messages without their time stamps"""
    m=nth(q,slen(q)-1); return ite(eq(slen(q),0),empty(M3),concat(view(butlast(q)),unit(m3(dsel(m,'data'),dsel(m,'binary'),dsel(m,'partial')))))
@specfn([Bytes,Bytes,Int],Bytes)
def unmask(p,m,n): return ite(le(n,0),empty(BV8),concat(unmask(p,m,n-1),unit(bvop('bvxor',nth(p,n-1),nth(m,mod(n-1,4))))))
# ---- the first frame of S
@specfn([Bytes],Bool)
def Hc(S): return hcomplete(S)
@specfn([Bytes],Int)
def Hs(S): return hsize(S)
@specfn([Bytes],Int)
def Hp(S): return hpayload(S)
@specfn([Bytes],BV8)
def Op(S): return bits(nth(S,0),15)
@specfn([Bytes],Bool)
def Fi(S): return eq(bits(nth(S,0),128),bv(128,8))
@specfn([Bytes],Bool)
def Mk(S): return masked(S)
@specfn([Bytes],Bytes)
def Pl(S): return unmask(ext(S,hsize(S),hpayload(S)),ext(S,hbase(S),I(4)),hpayload(S))
def hd(S): return [Hc(S),Hs(S),Hp(S),Op(S),Fi(S),Mk(S)]
def fsize(S): return Hs(S)+Hp(S)
def isop(S,*k): return Or(*[eq(Op(S),bv(x,8)) for x in k])
PING=b'ping/lambda/ws'
def protoerr(S,o):
    """what the header alone gives away"""
    return Or(Not(isop(S,0,1,2,8,9,10)),Not(Mk(S)),ite(isop(S,1,2),o,ite(isop(S,0),Not(o),Not(Fi(S)))))
def toobig(S,L): return lt(L,fsize(S))
def full(S): return And(Hc(S),le(fsize(S),slen(S)))
def badpong(S): return And(isop(S,10),ne(Pl(S),sconst(PING)))
def good(S,L,o): return And(full(S),Not(protoerr(S,o)),Not(toobig(S,L)),Not(badpong(S)))
def after(S): return drop(S,fsize(S))
def o2(S,o): return ite(isop(S,0,1,2),Not(Fi(S)),o)
def b2(S,b): return ite(isop(S,1,2),isop(S,2),b)
def nb(S,o,b): return And(o2(S,o),b2(S,b))
unmask_len=lemma(X,'unmask_len',[Bytes,Bytes,Int],lambda p,m,n:Implies(le(0,n),eq(slen(unmask(p,m,n)),n)),measure=lambda p,m,n:n,ih=lambda p,m,n:[(p,m,n-1)])
head_sizes=lemma(X,'head_sizes',[Bytes],lambda S:And(le(2,Hs(S)),le(0,Hp(S))))
head_prefix=lemma(X,'head_prefix',[Bytes,Bytes],lambda D,R:Implies(Hc(D),(lambda S:And(*[eq(x,y) for x,y in zip(hd(S),hd(D))]))(concat(D,R))),steps=lambda D,R:[And(*[Implies(lt(k,slen(D)),eq(nth(concat(D,R),k),nth(D,k))) for k in range(14)])])
def full_steps(D,R):
    S=concat(D,R); n,p,m=hsize(D),hpayload(D),hbase(D)
    return [masked(D),eq(hsize(S),n),eq(hpayload(S),p),eq(nth(S,1),nth(D,1)),eq(hbase(S),m),eq(Hs(D),n),eq(Hp(D),p),eq(ext(S,n,p),ext(D,n,p)),le(m+4,slen(D)),eq(ext(S,m,I(4)),ext(D,m,I(4)))]
full_prefix=lemma(X,'full_prefix',[Bytes,Bytes],lambda D,R:Implies(And(full(D),Mk(D)),(lambda S:And(eq(Pl(S),Pl(D)),eq(drop(S,fsize(D)),concat(drop(D,fsize(D)),R))))(concat(D,R))),hints=lambda D,R:[head_prefix(D,R),head_sizes(D)],steps=full_steps)
RS=[Bytes,Int,Bool,Bool]
@specfn(RS,Seq(M3))
def msgs(S,L,o,b):
    """messages spelled out by S, o: a message is open, b: which is binary"""
    return ite(good(S,L,o),concat(ite(isop(S,0,1,2),unit(m3(Pl(S),b2(S,b),Not(Fi(S)))),empty(M3)),ite(isop(S,8),empty(M3),msgs(after(S),L,o2(S,o),nb(S,o,b)))),empty(M3))
@specfn(RS,Seq(Bytes))
def pongs(S,L,o,b):
    return ite(good(S,L,o),concat(ite(isop(S,9),unit(concat(header(bv(128,8),bv(10,8),Hp(S)),Pl(S))),empty(Bytes)),ite(isop(S,8),empty(Bytes),pongs(after(S),L,o2(S,o),nb(S,o,b)))),empty(Bytes))
@specfn(RS,Int)
def ending(S,L,o,b):
    """0: goes on, else the reason the session is closed for"""
    return ite(good(S,L,o),ite(isop(S,8),I(1000),ending(after(S),L,o2(S,o),nb(S,o,b))),ite(Not(Hc(S)),I(0),ite(protoerr(S,o),I(1002),ite(toobig(S,L),I(1009),ite(full(S),I(1002),I(0))))))
@specfn([Seq(Bytes)],Seq(Bytes))
def answers(w):
    """what was written, without our pings"""
    x=nth(w,slen(w)-1); return ite(eq(slen(w),0),empty(Bytes),concat(answers(butlast(w)),ite(eq(x,concat(header(bv(128,8),bv(9,8),I(len(PING))),sconst(PING))),empty(Bytes),unit(x))))
# ---- interface
abstract(T+'::readRaw(unsigned long)',modifies=(('this','$rest'),('this','$c','hSocket'),'g:closed'),raises=lambda c:'any',opts={'onthrow':lambda c:[('nothing lost',eq(c.field(c.this_post,'$rest'),c.field(c.this,'$rest')))]},
    ensures=lambda c:[('the next bytes',eq(c.field(c.this,'$rest'),concat(c.ret,c.field(c.this_post,'$rest')))),('closing',Or(c_open(c,c.field(c.this_post,'$c')),eq(slen(c.ret),0)))])
abstract(T+'::close()',modifies=(('this','$c','hSocket'),'g:closed'),ensures=lambda c:[('closed',Not(c_open(c,c.field(c.this_post,'$c'))))])
abstract(T+'::options()const',opts={'ret':lambda c:c.args['this'].sub(('f','$opts'))})
ghost(TC,'$opts','@Lambda::HTTP::Transport::TransportOptions')
ghost(TC,'$partial','#bool')
abstract(T+'::hasPartialData()const',opts={'ret':lambda c:c.field(c.this,'$partial')})
abstract(T+'::reset()',modifies=(('this','$partial'),),ensures=lambda c:[('nothing is left',Not(c.field(c.this_post,'$partial')))])
WC='Websocket::WebsocketContext::'
def tp(c,v): return c.field(v,'m_transport')
def cn(c,v): return c.field(tp(c,v),'$c')
def log(c,v): return c.field(tp(c,v),'$log')
TX=(('this','m_transport','$c','$tx'),('this','m_transport','$log'))
CL=TX+(('this','m_transport','$c','hSocket'),('this','m_stopped'),'g:closed')
def closeframe(r): return concat(header(bv(128,8),bv(8,8),I(2)),slist([extract(r,15,8),extract(r,7,0)]))
contract(WC+'close(Websocket::CloseReason)',X,modifies=CL,raises=lambda c:'any',
    opts={'onthrow':lambda c:[('nothing can be sent any more',c.field(c.this_post,'m_stopped')),('nothing else is sent',And(eq(log(c,c.this_post),log(c,c.this)),sse.part_sent(c,c_tx(c,cn(c,c.this)),c_tx(c,cn(c,c.this_post)),closeframe(c.arg(0)))))]},
    ensures=lambda c:[('a close frame with the reason',eq(log(c,c.this_post),concat(log(c,c.this),unit(closeframe(c.arg(0)))))),('closed afterwards',Not(c_open(c,cn(c,c.this_post)))),('nothing can be sent any more',c.field(c.this_post,'m_stopped'))])
contract(WC+'sendMessage(const Websocket::Message &)',X,modifies=TX,raises=lambda c:'any',
    opts={'onthrow':lambda c:[('at most a part of it is sent',sse.part_sent(c,c_tx(c,cn(c,c.this)),c_tx(c,cn(c,c.this_post)),m_ser(F(c,c.arg(0),'data'),F(c,c.arg(0),'binary'),F(c,c.arg(0),'partial')))),('nothing is sent once stopped',Implies(c.field(c.this,'m_stopped'),eq(c_tx(c,cn(c,c.this)),c_tx(c,cn(c,c.this_post)))))]},
    ensures=lambda c:[('not stopped',Not(c.field(c.this,'m_stopped'))),('exactly its frame',eq(log(c,c.this_post),concat(log(c,c.this),unit(m_ser(F(c,c.arg(0),'data'),F(c,c.arg(0),'binary'),F(c,c.arg(0),'partial'))))))])
def q(c,v): return c.ex.to_term(c.field(v,'m_queue'))
contract(WC+'hasMessage()const',X,ensures=lambda c:[('a message is waiting',Iff(c.ret,lt(0,slen(q(c,c.this)))))])
contract(WC+'nextMessage()',X,modifies=(('this','m_queue'),),raises=lambda c:eq(slen(q(c,c.this)),0),ensures=lambda c:[('the oldest message',eq(c.ex.to_term(c.ret),nth(q(c,c.this),0))),('taken out once',eq(q(c,c.this_post),drop(q(c,c.this),1)))])
contract('hasFrameHeader(const vector<unsigned char> &)',X,ensures=lambda c:[('the whole header is there',Iff(c.ret,hcomplete(c.arg(0))))],opts={'ret':lambda c:hcomplete(c.arg(0))})

# ---- the receiving loop
D1=lambda c:c.local('downloadBuff')
def stream(c,v,D): return concat(D,c.field(tp(c,v),'$rest'))
def limit(c,v): return c.field(v,'m_topts','maxRequestSize')
def vq(c,v): x=c.ex.to_term(c.field(v,'m_queue')); return view(x)
def va(c,v): x=log(c,v); return answers(x)
class LC:
    """the loop environment as seen by the accessors above"""
    def __init__(s,v): s.v=v; s.ex=v.ex
    def field(s,x,*p):
        for n in p: x=s.v.f(x,n)
        return x
def oc(v): m=v.multipartCtx; h=v.f(m,'has'); return h,And(h,v.f(v.f(m,'val'),'binary'))
def parts(v):
    c=LC(v); t,t0=v.this,v.old_this; D=v.downloadBuff; o,b=oc(v); S=stream(c,t,D); S0=stream(c,t0,empty(BV8)); L=limit(c,t); return c,t,t0,D,o,b,S,S0,L
def progress(v):
    c,t,t0,D,o,b,S,S0,L=parts(v); stop=c.field(t,'m_stopped'); lg=log(c,t)
    return [('messages',Implies(Not(stop),eq(concat(vq(c,t),msgs(S,L,o,b)),concat(vq(c,t0),msgs(S0,L,FALSE,FALSE))))),('answers',Implies(Not(stop),eq(concat(va(c,t),pongs(S,L,o,b)),concat(va(c,t0),pongs(S0,L,FALSE,FALSE))))),('ending',Implies(Not(stop),eq(ending(S,L,o,b),ending(S0,L,FALSE,FALSE)))),
        ('all messages before the end',Implies(stop,eq(vq(c,t),concat(vq(c,t0),msgs(S0,L,FALSE,FALSE))))),('asked to close',Implies(stop,eq(ending(S0,L,FALSE,FALSE),1000))),('closed',Implies(stop,Not(c_open(c,cn(c,t))))),
        ('all answers before the end',Implies(stop,And(lt(0,slen(lg)),eq(answers(butlast(lg)),concat(va(c,t0),pongs(S0,L,FALSE,FALSE)))))),('close frame last',Implies(stop,eq(nth(lg,slen(lg)-1),closeframe(bv(1000,16)))))]
def pay(v,D):
    m=v.ex.to_term(v.frameMask); x=eq(m,ext(D,hbase(D),I(4))); y=eq(v.payloadBuff,unmask(ext(D,Hs(D),Hp(D)),m,Hp(D)))
    return [('mask size',eq(slen(m),4)),*[('mask byte',eq(nth(m,k),nth(D,hbase(D)+k))) for k in range(4)],('mask in the header',And(le(hbase(D)+4,slen(D)),le(0,hbase(D)))),('mask',By(x,[eq(slen(m),4),*[eq(nth(m,k),nth(D,hbase(D)+k)) for k in range(4)],And(le(hbase(D)+4,slen(D)),le(0,hbase(D)))])),('unmasked',y),('payload',By(eq(v.payloadBuff,Pl(D)),[x,y],fuel=1))]
def inner_steps(v):
    p=v.prev; c,t,t0,D,o,b,S,S0,L=parts(p); R=c.field(tp(c,t),'$rest'); q0,q1=q(c,t),q(c,v.this); l0,l1=log(c,t),log(c,v.this)
    f=full(D); pe=Not(protoerr(D,o)); tb=Not(toobig(D,L)); bp=Not(badpong(D)); g=good(S,L,o); hp=head_prefix(D,R); fp=full_prefix(D,R); hs=head_sizes(D)
    same=[eq(x,y) for x,y in zip(hd(S),hd(D))]
    return [('',Hint(head_sizes(D))),('header',Hc(D)),('frame complete',f),('allowed',pe),('size',tb),*pay(v,D),('pong',bp),
        ('',Hint(hp)),('',Hint(fp)),*[('same header',By(x,[hp,Hc(D)])) for x in same],('masked',Mk(D)),('payload of the stream',By(eq(Pl(S),Pl(D)),[fp,f,Mk(D)])),('rest of the stream',By(eq(after(S),concat(v.downloadBuff,R)),[fp,f,Mk(D),*same[1:3],eq(v.downloadBuff,drop(D,fsize(D)))])),
        ('accepted',By(g,[f,pe,tb,bp,*same,eq(Pl(S),Pl(D)),hs])),*advance(v,c,S,L,o,b,D,R,same,g)]
def advance(v,c,S,L,o,b,D,R,same,g):
    stop=c.field(v.this,'m_stopped'); n=Not(stop); S1=concat(v.downloadBuff,R); o1,b1=oc(v); q0,q1=q(c,v.prev.this),q(c,v.this); l0,l1=log(c,v.prev.this),log(c,v.this); pl=eq(Pl(S),Pl(D)); rs=eq(after(S),S1)
    M=ite(isop(D,0,1,2),unit(m3(Pl(D),b2(D,b),Not(Fi(D)))),empty(M3)); A=ite(isop(D,9),unit(concat(header(bv(128,8),bv(10,8),Hp(D)),Pl(D))),empty(Bytes))
    x1,x2,x3=Implies(n,Not(isop(D,8))),Implies(n,Iff(o1,o2(D,o))),Implies(n,Iff(b1,nb(D,o,b)))
    y1=Implies(n,eq(msgs(S,L,o,b),concat(M,msgs(S1,L,o1,b1)))); y2=Implies(n,eq(pongs(S,L,o,b),concat(A,pongs(S1,L,o1,b1)))); z1=Implies(n,eq(view(q1),concat(view(q0),M))); z2=Implies(n,eq(answers(l1),concat(answers(l0),A))); F0=[g,pl,rs,x1,x2,x3,*same]
    S0=stream(c,v.old_this,empty(BV8)); tot=concat(vq(c,v.old_this),msgs(S0,L,FALSE,FALSE)); pt=concat(va(c,v.old_this),pongs(S0,L,FALSE,FALSE)); h1=eq(concat(view(q0),msgs(S,L,o,b)),tot); h2=eq(concat(answers(l0),pongs(S,L,o,b)),pt)
    return [('not a close frame',x1),('message open',x2),('kind of the open message',x3),('message read',By(y1,F0,fuel=1)),('answer due',By(y2,F0,fuel=1)),('message queued',z1),('answer sent',z2),('messages',By(Implies(n,eq(concat(view(q1),msgs(S1,L,o1,b1)),tot)),[y1,z1,h1])),('answers',By(Implies(n,eq(concat(answers(l1),pongs(S1,L,o1,b1)),pt)),[y2,z2,h2]))]
def unmask_steps(v):
    P,m=v.at_entry('payloadBuff'),v.ex.to_term(v.frameMask); x=v.prev.payloadBuff; i=v.prev.i; U=unmask(P,m,i); h=[eq(x,concat(U,drop(P,i))),eq(slen(U),i),lt(i,slen(P)),le(0,i)]
    y=[eq(ext(x,I(0),i),U),eq(nth(x,i),nth(P,i)),eq(drop(x,i+1),drop(P,i+1))]; z=eq(v.payloadBuff,concat(ext(x,I(0),i),unit(bvop('bvxor',nth(x,i),nth(m,mod(i,4)))),drop(x,i+1)))
    return [('',Hint(unmask_len(P,m,i))),*[('',By(g,h)) for g in y],('',z),('',By(eq(v.payloadBuff,concat(unmask(P,m,i+1),drop(P,i+1))),[z,*y,le(0,i)],fuel=1))]
def idle(v): return progress(v)+[('nothing complete is left',Implies(Not(v.f(v.this,'m_stopped')),Not(full(v.downloadBuff))))]
def totals(c):
    t0=c.this; S0=stream(c,t0,empty(BV8)); L=limit(c,t0); return concat(vq(c,t0),msgs(S0,L,FALSE,FALSE)),concat(va(c,t0),pongs(S0,L,FALSE,FALSE)),ending(S0,L,FALSE,FALSE)
def isprefix(a,b): return And(le(slen(a),slen(b)),eq(a,ext(b,I(0),slen(a))))
def w_ens(c):
    tot,pt,end=totals(c); t=c.this_post; st=c.field(t,'m_stopped'); D=c.local('downloadBuff'); lg=log(c,t)
    return [('messages in order, none made up',isprefix(vq(c,t),tot)),('every message before the close frame',Implies(st,And(eq(end,1000),eq(vq(c,t),tot)))),('a close frame is answered with one',Implies(st,And(eq(nth(lg,slen(lg)-1),closeframe(bv(1000,16))),eq(answers(butlast(lg)),pt)))),
        ('answers in order, none made up',Implies(Not(st),isprefix(va(c,t),pt))),('no complete frame is left behind',Implies(Not(st),Not(full(D))) if D is not None else TRUE),('closed, unless the server shuts down',Or(Not(c_open(c,cn(c,t))),c.field(c.field(t,'m_worker'),'shutdownFlag')))]
def w_throw(c):
    tot,pt,end=totals(c); t=c.this_post; lg=log(c,t)
    return [('messages in order, none made up',isprefix(vq(c,t),tot))]
contract(WC+'asyncWorker()',X,requires=lambda c:[('running',Not(c.field(c.this,'m_stopped')))],modifies=CL+(('this','m_queue'),('this','m_transport','$rest')),raises=lambda c:'any',opts={'merge':True,'onthrow':w_throw},
    loops=[LoopSpec(idle),LoopSpec(progress,steps=inner_steps),
        LoopSpec(None,unroll=7),
        LoopSpec(lambda v:[le(v.i,slen(v.payloadBuff)),eq(slen(v.payloadBuff),slen(v.at_entry('payloadBuff'))),eq(v.payloadBuff,concat(unmask(v.at_entry('payloadBuff'),v.ex.to_term(v.frameMask),v.i),drop(v.at_entry('payloadBuff'),v.i)))],dec=lambda v:slen(v.payloadBuff)-v.i,hints=lambda v:[unmask_len(v.at_entry('payloadBuff'),v.ex.to_term(v.frameMask),v.i)],steps=unmask_steps)],
    ensures=w_ens)
