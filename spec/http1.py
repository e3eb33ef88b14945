"""Small HTTP value types: request methods and response statuses."""
from lvc.spec import *
from lvc.std import *
from strings import lowerS,upperS,trimmed,ptext,cstrz
M='C10'
prop(M,files=['core/http/method.cpp','core/http/status.cpp'])
# ---------------------------------------------------------------- methods
METHODS=[('GET','GET'),('POST','POST'),('PUT','PUT'),('DEL','DELETE'),('HEAD','HEAD'),('OPTIONS','OPTIONS'),('TRACE','TRACE'),('PATCH','PATCH'),('CONNECT','CONNECT')]
def mval(c,n): return bv(c.ex.P.enums['Lambda::HTTP::Methods'][n],32)
def mname(c,v):
    r=sconst(b'GET')
    for e,n in reversed(METHODS): r=ite(eq(v,mval(c,e)),sconst(n.encode()),r)
    return r
def mknown(t): return Or(*[eq(t,sconst(n.encode())) for _,n in METHODS])
def mparse(c,t):
    r=mval(c,'GET')
    for e,n in reversed(METHODS): r=ite(eq(t,sconst(n.encode())),mval(c,e),r)
    return r
def canon(s): return upperS(trimmed(s))
def own(c): return c.field(c.this,'value')
def ownp(c): return c.field(c.this_post,'value')
contract('HTTP::Method::#ctor()',M,modifies=('this',),ensures=lambda c:[('GET by default',eq(ownp(c),mval(c,'GET')))])
contract('HTTP::Method::apply(const string &)',M,modifies=('this',),opts={'exctype':'std::invalid_argument'},raises=lambda c:Not(mknown(canon(c.arg(0)))),
    ensures=lambda c:[('the method with that name',eq(ownp(c),mparse(c,canon(c.arg(0)))))])
contract('HTTP::Method::#ctor(const string &)',M,modifies=('this',),opts={'exctype':'std::invalid_argument'},raises=lambda c:Not(mknown(canon(c.arg(0)))),
    ensures=lambda c:[('the method with that name',eq(ownp(c),mparse(c,canon(c.arg(0)))))])
contract('HTTP::Method::#ctor(const char *)',M,modifies=('this',),opts={'ptr':{0:'cstr'},'exctype':'std::invalid_argument'},raises=lambda c:Not(mknown(canon(cstrz(ptext(c,0))))),
    ensures=lambda c:[('the method with that name',eq(ownp(c),mparse(c,canon(cstrz(ptext(c,0))))))])
for k in('toString()const','operator string()const'):
    contract('HTTP::Method::'+k,M,ensures=lambda c:[('the standard name of the method',eq(c.ret,mname(c,own(c)))),*[('named %s'%n,Implies(eq(own(c),mval(c,e)),And(eq(c.ret,sconst(n.encode())),mknown(canon(c.ret)),eq(mparse(c,canon(c.ret)),own(c))))) for e,n in METHODS]])
contract('HTTP::Method::operator HTTP::Methods()const',M,ensures=lambda c:[('the stored method',eq(c.ret,own(c)))])
contract('HTTP::Method::operator==(const HTTP::Method &)const',M,ensures=lambda c:[('same method',Iff(c.ret,eq(own(c),c.field(c.arg(0),'value'))))])
contract('HTTP::Method::operator==(const string &)const',M,ensures=lambda c:[('same name, letter case ignored',Iff(c.ret,eq(upperS(c.arg(0)),mname(c,own(c)))))])
contract('HTTP::Method::operator==(const char *)const',M,opts={'ptr':{0:'cstr'}},ensures=lambda c:[('same name, letter case ignored',Iff(c.ret,eq(upperS(cstrz(ptext(c,0))),mname(c,own(c)))))])
# ---------------------------------------------------------------- statuses
STATUS={100:"Continue",101:"Switching Protocols",102:"Processing",200:"OK",201:"Created",202:"Accepted",203:"Non-Authoritative Information",204:"No Content",205:"Reset Content",206:"Partial Content",207:"Multi-Status",226:"IM Used",
 300:"Multiple Choices",301:"Moved Permanently",302:"Found",303:"See Other",304:"Not Modified",305:"Use Proxy",307:"Temporary Redirect",308:"Permanent Redirect",
 400:"Bad Request",401:"Unauthorized",402:"Payment Required",403:"Forbidden",404:"Not Found",405:"Method Not Allowed",406:"Not Acceptable",407:"Proxy Authentication Required",408:"Request Timeout",409:"Conflict",410:"Gone",411:"Length Required",412:"Precondition Failed",413:"Payload Too Large",414:"URI Too Long",415:"Unsupported Media Type",416:"Range Not Satisfiable",417:"Expectation Failed",418:"I'm a teapot",422:"Unprocessable Entity",423:"Locked",424:"Failed Dependency",426:"Upgrade Required",428:"Precondition Required",429:"Too Many Requests",431:"Request Header Fields Too Large",451:"Unavailable For Legal Reasons",
 500:"Internal Server Error",501:"Not Implemented",502:"Bad Gateway",503:"Service Unavailable",504:"Gateway Time-out",505:"HTTP Version Not Supported",506:"Variant Also Negotiates",507:"Insufficient Storage",511:"Network Authentication Required"}
def sknown(c): return Or(*[eq(c,bv(k,32)) for k in STATUS])
def stext(c):
    r=sconst(b'')
    for k,v in reversed(sorted(STATUS.items())): r=ite(eq(c,bv(k,32)),sconst(v.encode()),r)
    return r
contract('HTTP::Status::#ctor()',M,modifies=('this',),ensures=lambda c:[('200 OK',And(eq(c.field(c.this_post,'m_code'),bv(200,32)),eq(c.field(c.this_post,'m_text'),sconst(b'OK'))))])
contract('HTTP::Status::#ctor(unsigned int)',M,modifies=('this',),opts={'exctype':'std::invalid_argument'},raises=lambda c:Not(sknown(c.arg(0))),
    ensures=lambda c:[('keeps the code',eq(c.field(c.this_post,'m_code'),c.arg(0))),('its standard reason phrase',eq(c.field(c.this_post,'m_text'),stext(c.arg(0))))])
contract('HTTP::Status::#ctor(unsigned int,const string &)',M,modifies=('this',),ensures=lambda c:[('keeps code and text',And(eq(c.field(c.this_post,'m_code'),c.arg(0)),eq(c.field(c.this_post,'m_text'),c.arg(1))))])
contract('HTTP::Status::code()const',M,ensures=lambda c:[('the stored code',eq(c.ret,c.field(c.this,'m_code')))])
contract('HTTP::Status::text()const',M,ensures=lambda c:[('the stored text',eq(c.ret,c.field(c.this,'m_text')))],opts={'ret':lambda c:c.field(c.this,'m_text')})
def _stype(c):
    k=c.field(c.this,'m_code'); E=c.ex.P.enums['Lambda::HTTP::Status::Type']; r=bv(E['ServerError'],32)
    for lim,n in((500,'ClientError'),(400,'Redirect'),(300,'Success'),(200,'Info')): r=ite(bvcmp('bvult',k,bv(lim,32)),bv(E[n],32),r)
    return r
contract('HTTP::Status::type()const',M,ensures=lambda c:[('the class given by the hundreds',eq(c.ret,_stype(c)))])
