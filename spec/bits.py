from lvc.spec import *
from lvc.std import *
from encoding import hx1,hx2
from strings import lower
D='C04'
prop(D,files=[])
def bswap(x):
    n=x.sort[1]; r=None
    for i in range(0,n,8):
        b=extract(x,i+7,i); r=b if r is None else bvconcat(r,b)
    return r
for t in('short','unsigned short','int','unsigned int','long','unsigned long'):
    contract('Bits::netwnormx(%s)'%t,D,opts={'bv64':True},ensures=lambda c:[('bytes reversed',eq(c.ret,bswap(c.arg(0))))])
    contract('Bits::storenormx(%s)'%t,D,opts={'bv64':True},ensures=lambda c:[('unchanged on a little-endian host',eq(c.ret,c.arg(0)))])
lemma(D,'byte order is an involution (64 bit)',[BV(64)],lambda x:eq(bswap(bswap(x)),x))
lemma(D,'byte order is an involution (32 bit)',[BV(32)],lambda x:eq(bswap(bswap(x)),x))
def idtext(x): # x: 32-bit identifier, memory order, lower case
    out=[]
    for i in range(0,32,8):
        b=extract(x,i+7,i); out+=[lower(hx1(b)),lower(hx2(b))]
    return slist(out)
def u32(v): return v.b[0] if len(v.b)==1 else bvconcat(v.b[3],bvconcat(v.b[2],bvconcat(v.b[1],v.b[0])))
def sid(c,this): return u32(c.field(this,'m_id'))
def stxt(c,this): return c.field(this,'m_str')
M=(('this','m_str'),('this','m_id'))
contract('Crypto::ShortID::m_serialize()',D,modifies=(('this','m_str'),),ensures=lambda c:[('text of the identifier',eq(stxt(c,c.this_post),idtext(sid(c,c.this))))])
contract('Crypto::ShortID::update(unsigned int)',D,modifies=M,ensures=lambda c:[('holds the value',eq(sid(c,c.this_post),c.arg(0))),('text of the identifier',eq(stxt(c,c.this_post),idtext(c.arg(0))))])
contract('Crypto::ShortID::id()const',D,ensures=lambda c:[('the identifier',eq(c.ret,sid(c,c.this)))])
contract('Crypto::ShortID::toString()const',D,ensures=lambda c:[('the text',eq(c.ret,stxt(c,c.this)))])
contract('Crypto::ShortID::operator=(const Crypto::ShortID &)',D,modifies=M,opts={'noret':True},ensures=lambda c:[('copies the identifier',eq(sid(c,c.this_post),sid(c,c.arg(0)))),('copies the text',eq(stxt(c,c.this_post),stxt(c,c.arg(0))))])
lemma(D,'different identifiers have different texts',[BV(32),BV(32)],lambda x,y:Implies(eq(idtext(x),idtext(y)),eq(x,y)),fuel=0)
contract('Crypto::ShortID::#ctor(unsigned int)',D,modifies=('this',),ensures=lambda c:[('holds the value',eq(sid(c,c.this_post),c.arg(0))),('text of the identifier',eq(stxt(c,c.this_post),idtext(c.arg(0))))])
contract('Crypto::ShortID::#ctor(const Crypto::ShortID &)',D,modifies=('this',),ensures=lambda c:[('copies the identifier',eq(sid(c,c.this_post),sid(c,c.arg(0)))),('copies the text',eq(stxt(c,c.this_post),stxt(c,c.arg(0))))])
contract('Crypto::ShortID::#ctor(Crypto::ShortID &&)',D,modifies=('this',0),ensures=lambda c:[('moves the identifier',eq(sid(c,c.this_post),sid(c,c.arg(0)))),('moves the text',eq(stxt(c,c.this_post),stxt(c,c.arg(0))))])
contract('Crypto::ShortID::update()',D,modifies=M,ensures=lambda c:[('text of the identifier',eq(stxt(c,c.this_post),idtext(sid(c,c.this_post))))])
contract('Crypto::ShortID::#ctor()',D,modifies=('this',),ensures=lambda c:[('text of the identifier',eq(stxt(c,c.this_post),idtext(sid(c,c.this_post))))])
