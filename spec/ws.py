"""WebSocket frames (RFC 6455 section 5.2) and messages."""
from lvc.spec import *
from lvc.std import *
W='C15'
prop(W,files=['core/websocket/transport.cpp','core/websocket/websocket.cpp'])
def iv(b): return bv2nat(b)
def be(s,i,n):
    r=iv(nth(s,i))
    for k in range(1,n): r=mul(256,r)+iv(nth(s,i+k))
    return r
def byte(x,k): return int2bv(mod(div(x,1<<(8*k)),256),8)    # k-th byte of a number
def bits(b,m): return bvop('bvand',b,bv(m,8))
# ---- header taken apart
def h7(s): return iv(bits(nth(s,1),127))
def masked(s): return ne(bits(nth(s,1),128),bv(0,8))
def hbase(s): return ite(eq(h7(s),126),I(4),ite(eq(h7(s),127),I(10),I(2)))
def hsize(s): return hbase(s)+ite(masked(s),I(4),I(0))
def hpayload(s): return ite(eq(h7(s),126),be(s,2,2),ite(eq(h7(s),127),be(s,2,8),h7(s)))
def hcomplete(s): return And(le(2,slen(s)),le(hsize(s),slen(s)))
def F(c,r,f): return c.field(r,f)
# ---- header put together (servers never mask)
def lenbytes(n): 
    return ite(lt(n,126),slist([int2bv(n,8)]),ite(lt(n,65536),slist([bv(126,8),byte(n,1),byte(n,0)]),slist([bv(127,8)]+[byte(n,7-k) for k in range(8)])))
@specfn([BV8,BV8,Int],Bytes)
def header(fin,op,n): return concat(slist([bvop('bvor',fin,op)]),lenbytes(n))
def maskv(c,r,k): return nth(F(c,F(c,r,'mask'),'val'),k)
def p_ens(c):
    s,r=c.arg(0),c.ret
    return [('final bit',eq(F(c,r,'finbit'),bits(nth(s,0),128))),('opcode',eq(F(c,r,'opcode'),bits(nth(s,0),15))),('header size',eq(F(c,r,'size'),hsize(s))),
        ('payload size',eq(F(c,r,'payloadSize'),hpayload(s))),('mask present',Iff(F(c,F(c,r,'mask'),'has'),masked(s))),
        *[('mask byte %d'%k,Implies(masked(s),eq(maskv(c,r,k),nth(s,hbase(s)+k)))) for k in range(4)]]
contract('Websocket::Transport::parseFrameHeader(const vector<unsigned char> &)',W,raises=lambda c:Not(hcomplete(c.arg(0))),ensures=p_ens)
def isfin(x): return Or(eq(x,bv(0,8)),eq(x,bv(128,8)))
contract('Websocket::Transport::serializeFrameHeader(const Websocket::Transport::FrameHeader &)',W,
    ensures=lambda c:[('the shortest header for the payload size',eq(c.ret,header(F(c,c.arg(0),'finbit'),F(c,c.arg(0),'opcode'),F(c,c.arg(0),'payloadSize'))))])
def msg(c,m): return F(c,m,'data')
def m_ser(data,binary,partial): return concat(header(ite(partial,bv(0,8),bv(128,8)),ite(binary,bv(2,8),bv(1,8)),slen(data)),data)
contract('Websocket::Transport::serializeMessage(const Websocket::Message &)',W,
    ensures=lambda c:[('header then data',eq(c.ret,m_ser(F(c,c.arg(0),'data'),F(c,c.arg(0),'binary'),F(c,c.arg(0),'partial'))))])
for sig,kind,bi,pa in(('const string &','t',None,None),('const string &,bool','t',None,1),('const vector<unsigned char> &','b',None,None),('const vector<unsigned char> &,bool','b',None,1),('const vector<unsigned char> &,bool,bool','b',1,2)):
    contract('Websocket::Message::#ctor(%s)'%sig,W,modifies=('this',),
        ensures=lambda c,kind=kind,bi=bi,pa=pa:[('keeps the bytes',eq(F(c,c.this_post,'data'),c.arg(0))),('binary',Iff(F(c,c.this_post,'binary'),c.arg(bi) if bi else lift(kind=='b'))),('partial',Iff(F(c,c.this_post,'partial'),c.arg(pa) if pa else FALSE))])
contract('Websocket::Message::size()const',W,ensures=lambda c:[('size of the data',eq(c.ret,slen(F(c,c.this,'data'))))])
contract('Websocket::Message::text()const',W,ensures=lambda c:[('the data',eq(c.ret,F(c,c.this,'data')))])
# ---- round trip
def valid(fin,op,n): return And(isfin(fin),bvcmp('bvult',op,bv(16,8)),le(0,n),lt(n,1<<63))
def q(n,k): return div(n,1<<(8*k))
digits=lemma(W,'a 64-bit number is the sum of its bytes',[Int],lambda n:Implies(And(le(0,n),lt(n,1<<63)),eq(n,add(*[mul(1<<(8*k),mod(q(n,k),256)) for k in range(8)]))),
    steps=lambda n:[By(eq(q(n,k),mul(256,q(n,k+1))+mod(q(n,k),256)),[le(0,n)]) for k in range(7)]+[By(And(le(0,q(n,7)),lt(q(n,7),256)),[le(0,n),lt(n,1<<63)])])
digits2=lemma(W,'a 16-bit number is the sum of its bytes',[Int],lambda n:Implies(And(le(0,n),lt(n,65536)),eq(n,add(*[mul(1<<(8*k),mod(q(n,k),256)) for k in range(2)]))))
def rb(f,o,n,t): return concat(header(f,o,n),t)
def rb_steps(f,o,n,t):
    s=rb(f,o,n,t)
    b=[le(0,n),lt(n,1<<63)]
    S=concat(slist([bvop('bvor',f,o),bv(127,8)]+[byte(n,7-k) for k in range(8)]),t)
    small,mid,big=lt(n,126),And(le(126,n),lt(n,65536)),le(65536,n)
    return [By(Implies(small,eq(h7(s),n)),b,fuel=1),By(Implies(mid,eq(h7(s),126)),b,fuel=1),By(Implies(big,eq(h7(s),127)),b,fuel=1),
        By(Implies(mid,And(*[eq(iv(nth(s,2+k)),mod(q(n,1-k),256)) for k in range(2)])),b,fuel=1),By(Implies(mid,eq(be(s,2,2),n)),b+[Implies(mid,And(*[eq(iv(nth(s,2+k)),mod(q(n,1-k),256)) for k in range(2)])),digits2(n)]),
        By(Implies(big,eq(s,S)),b,fuel=1),*[By(Implies(big,eq(nth(s,2+k),nth(S,2+k))),[Implies(big,eq(s,S))]) for k in range(8)],*[By(Implies(big,eq(iv(nth(s,2+k)),mod(q(n,7-k),256))),[Implies(big,eq(nth(s,2+k),nth(S,2+k)))]) for k in range(8)],By(Implies(big,And(*[eq(iv(nth(s,2+k)),mod(q(n,7-k),256)) for k in range(8)])),[Implies(big,eq(iv(nth(s,2+k)),mod(q(n,7-k),256))) for k in range(8)]),By(Implies(big,eq(be(s,2,8),n)),b+[Implies(big,And(*[eq(iv(nth(s,2+k)),mod(q(n,7-k),256)) for k in range(8)])),digits(n)]),
        By(eq(hpayload(s),n),b+[Implies(small,eq(h7(s),n)),Implies(mid,eq(h7(s),126)),Implies(big,eq(h7(s),127)),Implies(mid,eq(be(s,2,2),n)),Implies(big,eq(be(s,2,8),n))])]
lemma(W,'a serialized header is read back',[BV8,BV8,Int,Bytes],lambda f,o,n,t:(lambda s:Implies(valid(f,o,n),And(hcomplete(s),eq(hsize(s),slen(header(f,o,n))),eq(bits(nth(s,0),128),f),eq(bits(nth(s,0),15),o),Not(masked(s)),eq(hpayload(s),n))))(rb(f,o,n,t)),hints=lambda f,o,n,t:[digits(n),digits2(n)],steps=rb_steps)
