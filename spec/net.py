"""TCP connections: what is read and written, when handles are closed."""
from lvc.spec import *
from lvc.std import *
N='C26'
prop(N,files=['core/network/tcp/connection.cpp'])
guardedcall('Lambda::Network::TCP::Connection','m_write_mtx','send'); guardedcall('Lambda::Network::TCP::Connection','m_read_mtx','recv')
CONN='Lambda::Network::TCP::Connection'
# specification-only state of a connection: everything received from / handed to the socket so far, socket timeouts in ms
for n,so in(('$rx',Bytes),('$tx',Bytes),('$rcvtimeo','#int'),('$sndtimeo','#int')): ghost(CONN,n,so)
gghost('closed',Seq(BV(32)))        # handles closed so far
NOSOCK=bv(-1,32)
def h(c,v): return c.field(v,'hSocket')
def isopen(c,v): return ne(h(c,v),NOSOCK)
def rx(c,v): return c.field(v,'$rx')
def tx(c,v): return c.field(v,'$tx')
def closes(c,before,cond=TRUE):
    return eq(c.g_post('closed'),ite(And(cond,ne(before,NOSOCK)),concat(c.g('closed'),unit(before)),c.g('closed')))
HS=('this','hSocket')
contract(CONN[8:]+'::#ctor(int,const Network::ConnectionInfo &)',N,modifies=('this',),ensures=lambda c:[('holds the handle',eq(h(c,c.this_post),c.arg(0))),('holds the description',c.ex.same(c.field(c.this_post,'m_info'),c.arg(1),(),[])),
    ('default flags',And(c.field(c.this_post,'flags','closeOnTimeout'),c.field(c.this_post,'flags','throwOnDisconnect')))])
def took(c):
    o=c.arg(0); t=c.this_post; fl=lambda v:c.field(v,'flags')
    return [('takes the handle',eq(h(c,t),h(c,o))),('takes the description',c.ex.same(c.field(t,'m_info'),c.field(o,'m_info'),(),[])),('takes the flags',c.ex.same(fl(t),fl(o),(),[])),('the source gives its handle up',Not(isopen(c,c.post(0))))]
contract(CONN[8:]+'::#ctor(Network::TCP::Connection &&)',N,modifies=('this',0),ensures=lambda c:took(c)+[('closes nothing',eq(c.g_post('closed'),c.g('closed')))])
contract(CONN[8:]+'::operator=(Network::TCP::Connection &&)',N,modifies=('this',0,'g:closed'),opts={'noret':True},ensures=lambda c:took(c)+[('closes the replaced handle',closes(c,h(c,c.this)))])
contract(CONN[8:]+'::#dtor()',N,modifies=('this','g:closed'),ensures=lambda c:[('closes its handle once',closes(c,h(c,c.this)))])
contract(CONN[8:]+'::end()',N,modifies=(HS,'g:closed'),ensures=lambda c:[('closed afterwards',Not(isopen(c,c.this_post))),('closes its handle once',closes(c,h(c,c.this)))])
contract(CONN[8:]+'::isOpen()const',N,ensures=lambda c:[('open or not',Iff(c.ret,isopen(c,c.this)))],opts={'ret':lambda c:isopen(c,c.this)})
contract(CONN[8:]+'::info()const',N,opts={'ret':lambda c:c.field(c.this,'m_info')},ensures=lambda c:[('the description',c.ex.same(c.ret,c.field(c.this,'m_info'),(),[]))])
RD=(HS,('this','$rx'),'g:closed')
def rd(n):
    return dict(modifies=RD,raises=lambda c:'any',ensures=lambda c:[('what was received, once and in order',eq(rx(c,c.this_post),concat(rx(c,c.this),c.ret))),('at most what was asked for',le(slen(c.ret),n(c))),
        ('was open',isopen(c,c.this)),('keeps or closes its handle',Or(And(eq(h(c,c.this_post),h(c,c.this)),eq(c.g_post('closed'),c.g('closed'))),And(Not(isopen(c,c.this_post)),closes(c,h(c,c.this))))),
        ('stays open when something arrived',Implies(lt(0,slen(c.ret)),eq(h(c,c.this_post),h(c,c.this)))),
        ('stays open after a timeout only if the flags say so',Implies(And(isopen(c,c.this_post),eq(slen(c.ret),0)),Not(c.field(c.this,'flags','closeOnTimeout'))))],
        opts={'onthrow':lambda c:[('nothing received is lost',eq(rx(c,c.this_post),rx(c,c.this))),('keeps or closes its handle',Or(And(eq(h(c,c.this_post),h(c,c.this)),eq(c.g_post('closed'),c.g('closed'))),And(Not(isopen(c,c.this_post)),closes(c,h(c,c.this)))))]})
contract(CONN[8:]+'::read(unsigned long)',N,**rd(lambda c:c.arg(0)))
contract(CONN[8:]+'::read()',N,**rd(lambda c:I(2048)))
def isprefixof(c):
    a,b=tx(c,c.this),tx(c,c.this_post); k=slen(b)-slen(a)
    return [('sends nothing else',And(le(slen(a),slen(b)),le(k,slen(c.arg(0))),eq(b,concat(a,ext(c.arg(0),I(0),k)))))]
contract(CONN[8:]+'::write(const vector<unsigned char> &)',N,modifies=(('this','$tx'),),raises=lambda c:'any',opts={'onthrow':isprefixof},
    ensures=lambda c:[('all of it is sent, in order',eq(tx(c,c.this_post),concat(tx(c,c.this),c.arg(0)))),('was open',isopen(c,c.this))])
def tmo(recv,send):
    ms=lambda c:bv2nat(c.arg(0))
    def ens(c):
        t,u=c.this,c.this_post; R,S=recv(c),send(c)
        return [('receive timeout of the socket',eq(c.field(u,'$rcvtimeo'),ite(R,ms(c),c.field(t,'$rcvtimeo')))),('send timeout of the socket',eq(c.field(u,'$sndtimeo'),ite(S,ms(c),c.field(t,'$sndtimeo')))),
            ('recorded receive timeout',eq(c.field(u,'m_info','timeouts','receive'),ite(R,c.arg(0),c.field(t,'m_info','timeouts','receive')))),('recorded send timeout',eq(c.field(u,'m_info','timeouts','send'),ite(S,c.arg(0),c.field(t,'m_info','timeouts','send'))))]
    return ens
D=lambda c,n:c.ex.P.enums['Lambda::Network::SetTimeoutsDirection'][n]
dr=lambda c:ne(c.arg(1),bv(D(c,'Send'),32)); ds=lambda c:ne(c.arg(1),bv(D(c,'Receive'),32))
TM=(('this','$rcvtimeo'),('this','$sndtimeo'),('this','m_info','timeouts'))
contract(CONN[8:]+'::setTimeouts(unsigned int,Network::SetTimeoutsDirection)',N,modifies=TM,raises=lambda c:'any',ensures=tmo(dr,ds))
contract(CONN[8:]+'::setTimeouts(unsigned int)',N,modifies=TM,raises=lambda c:'any',ensures=tmo(lambda c:TRUE,lambda c:TRUE))
