"""The request worker and its error pages."""
from lvc.spec import *
from lvc.std import *
from kv import kvinit,mkpair
from strings import ptext,cstrz
from http1 import stext
import html,js,prop19,static
G='C14'
prop(G,files=['core/server/worker.cpp','core/server/errorpage.cpp'])
R_='HandlerResponse::#ctor'
def rs(c,*n): return c.field(c.this_post,'response','val',*n)
def hr(key,en,**k):
    contract(R_+'(%s)'%key,G,modifies=('this',),ensures=lambda c:[('there is a response',c.field(c.this_post,'response','has'))]+en(c),**k)
def status(c,k): return [('status code',eq(rs(c,'status','m_code'),bv(k,32))),('status text',eq(rs(c,'status','m_text'),stext(bv(k,32))))]
hmap=lambda c,t:c.ex.to_term(t)
hr('const HTTP::Response &',lambda c:[('its status',And(eq(rs(c,'status','m_code'),c.field(c.arg(0),'status','m_code')),eq(rs(c,'status','m_text'),c.field(c.arg(0),'status','m_text')))),('its headers',eq(hmap(c,rs(c,'headers','m_data')),hmap(c,c.field(c.arg(0),'headers','m_data')))),('its body',eq(rs(c,'body','m_data'),c.field(c.arg(0),'body','m_data')))])
hr('const string &',lambda c:status(c,200)+[('that text',eq(rs(c,'body','m_data'),c.arg(0)))])
hr('const char *',lambda c:status(c,200)+[('that text',eq(rs(c,'body','m_data'),cstrz(ptext(c,0))))],opts={'ptr':{0:'cstr'}})
hr('const vector<unsigned char> &',lambda c:status(c,200)+[('these bytes',eq(rs(c,'body','m_data'),c.arg(0))),('as bytes',eq(hmap(c,rs(c,'headers','m_data')),kvinit(unit(mkpair(sconst(b'content-type'),sconst(b'application/octet-stream'))),I(1))))])
# error pages
PG='Server::Pages::renderErrorPage'
contract('JSON::stringify(const JSON::Property &)',(),assumed=True,ensures=lambda c:[])
from lvc.ex import mangle
def pagemap(c,k,t,m):
    r=mempty(Bytes,Bytes)
    for n,x in ((b'svcpage_statuscode',k),(b'svcpage_statustext',t),(b'svcpage_message_text',m)): r=mput(r,sconst(n),x)
    return r
def htmlpage(c): return html.render(var('const_'+mangle('Lambda::HTML::Templates::servicePage'),Bytes),pagemap(c,decimal(bv2nat(c.field(c.arg(0),'m_code'))),c.field(c.arg(0),'m_text'),c.arg(1)))
def kind(c,n): return bv(c.ex.P.enums['Lambda::ErrorResponseType'][n],32)
def page(c,ty):
    f=lambda *n:c.field(c.ret,*n); code,msg=c.arg(0),c.arg(1); H,J=eq(ty,kind(c,'HTML')),eq(ty,kind(c,'JSON'))
    ct=ite(H,sconst(b'text/html'),ite(J,sconst(b'application/json'),sconst(b'text/plain')))
    return [('the status asked for',And(eq(f('status','m_code'),c.field(code,'m_code')),eq(f('status','m_text'),c.field(code,'m_text')))),
        ('the configured media type',(lambda m,k:And(mhas(m,k),eq(mget(m,k),unit(ct))))(hmap(c,f('headers','m_data')),sconst(b'content-type'))),
        ('the service page with status and message filled in',Implies(H,eq(f('body','m_data'),htmlpage(c)))),
        ('the message, as plain text',Implies(Not(Or(H,J)),eq(f('body','m_data'),concat(sconst(b'Backend error: '),msg,sconst(b'\r\nmaddsua/lambda\r\n')))))]
contract(PG+'(HTTP::Status,const string &,ErrorResponseType)',G,ensures=lambda c:page(c,c.arg(2)))
contract(PG+'(HTTP::Status,const string &)',G,ensures=lambda c:page(c,kind(c,'HTML')))
