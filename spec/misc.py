from lvc.spec import *
from lvc.std import *
from lvc.ex import OptS,declare_dt
from lvc.std import fltstr
from strings import ptext,cstrz
# ---------------------------------------------------------------- console output
Y='C28'
prop(Y,files=['core/utils/syncout.cpp'])
gghost('$stdout',SeqS); gghost('$stderr',SeqS)      # the pieces written
Item=declare_dt(mangle('Lambda::SyncOut::MgsOverload'),[('valueOpt',OptS(Bytes))])
ihas=lambda m:dsel(dsel(m,'valueOpt'),'has'); ival=lambda m:dsel(dsel(m,'valueOpt'),'val')
@specfn([Seq(Item),Int],Bytes)
def words(xs,n):
    """the first n items, those that are empty left out, separated by blanks"""
    m=nth(xs,n-1); r=words(xs,n-1)
    return ite(le(n,0),empty(BV8),ite(ihas(m),concat(ite(lt(0,slen(r)),concat(r,unit(B8(' '))),r),ival(m)),r))
def line(t): return concat(t,unit(B8('\n')))
contract('SyncOut::WrapperImpl::serializeEntries(const std::initializer_list<SyncOut::MgsOverload> &)const',Y,
    ensures=lambda c:[('nothing for nothing',Iff(c.field(c.ret,'has'),lt(0,slen(words(c.arg(0),slen(c.arg(0))))))),('the items in order and a line feed',Implies(c.field(c.ret,'has'),eq(c.field(c.ret,'val'),line(words(c.arg(0),slen(c.arg(0)))))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.temp,words(v.range,v.idx))],dec=lambda v:slen(v.range)-v.idx)])
for f,g in(('log','$stdout'),('error','$stderr')):
    out=lambda c,w,t,g=g:eq(c.g_post(g),ite(w,concat(c.g(g),unit(t)),c.g(g)))
    contract('SyncOut::WrapperImpl::%s(std::initializer_list<SyncOut::MgsOverload>)'%f,Y,modifies=('g:'+g,),
        ensures=lambda c,out=out:[('one line in one piece',out(c,lt(0,slen(words(c.arg(0),slen(c.arg(0))))),line(words(c.arg(0),slen(c.arg(0))))))])
    contract('SyncOut::WrapperImpl::%s(SyncOut::MgsOverload)'%f,Y,modifies=('g:'+g,),
        ensures=lambda c,out=out:[('one line in one piece',out(c,c.field(c.arg(0),'valueOpt','has'),line(c.field(c.arg(0),'valueOpt','val'))))])
M='SyncOut::MgsOverload::#ctor(%s)'
def is_(h,v): return lambda c:[('has a text',Iff(c.field(c.this_post,'valueOpt','has'),h(c))),('the text',Implies(h(c),eq(c.field(c.this_post,'valueOpt','val'),v(c))))]
yes=lambda c:TRUE
contract(M%'const string &',Y,modifies=('this',),ensures=is_(lambda c:lt(0,slen(c.arg(0))),lambda c:c.arg(0)))
contract(M%'const char *',Y,modifies=('this',),opts={'ptr':{0:'cstr?'}},ensures=is_(lambda c:And(Not(c.arg(0).nul),lt(0,slen(cstrz(ptext(c,0))))),lambda c:cstrz(ptext(c,0))))
contract(M%'bool',Y,modifies=('this',),ensures=is_(yes,lambda c:ite(c.arg(0),sconst(b'true'),sconst(b'false'))))
contract(M%'char',Y,modifies=('this',),ensures=is_(yes,lambda c:unit(c.arg(0))))
for t in('unsigned char','unsigned short','unsigned int'): contract(M%t,Y,modifies=('this',),ensures=is_(yes,lambda c:decimal(bv2nat(c.arg(0)))))
for t in('short','int'): contract(M%t,Y,modifies=('this',),ensures=is_(yes,lambda c:decimal(sbv2int(c.arg(0)))))
for t in('long','unsigned long','long long','unsigned long long'): contract(M%t,Y,modifies=('this',),ensures=is_(yes,lambda c:decimal(c.arg(0))))
for t in('float','double','long double'): contract(M%t,Y,modifies=('this',),ensures=is_(yes,lambda c:fltstr(c.arg(0))))
# ---------------------------------------------------------------- dates
DA='C30'; D='Date::'
prop(DA,files=['core/polyfill/date.cpp'])
def utc(c,t,e): return [('%s of the time'%n,eq(sbv2int(c.field(t,'timestruct',n)),civil[n](e))) for n in TMF]
inyears=lambda e:And(le(I(-(1<<55)),e),le(e,I(1<<55)))
def isdate(c,t): return [('holds its time',inyears(c.field(t,'epoch'))),*utc(c,t,c.field(t,'epoch')),*[('calendar',And(le(I(TMR[n][0]),civil[n](c.field(t,'epoch'))),le(civil[n](c.field(t,'epoch')),I(TMR[n][1])))) for n in TMF]]
contract(D+'#ctor(long)',DA,modifies=('this',),requires=lambda c:[inyears(c.arg(0))],ensures=lambda c:[('holds the time',eq(c.field(c.this_post,'epoch'),c.arg(0)))]+isdate(c,c.this_post))
contract(D+'#ctor()',DA,modifies=('this',),ensures=lambda c:isdate(c,c.this_post))
contract(D+'getTime()const',DA,ensures=lambda c:[('the time',eq(c.ret,c.field(c.this,'epoch')))])
for m,n in(('getSeconds','tm_sec'),('getMinutes','tm_min'),('getHours','tm_hour'),('getDay','tm_mday'),('getMonth','tm_mon'),('getYear','tm_year')):
    contract(D+m+'()const',DA,requires=lambda c:isdate(c,c.this),ensures=lambda c,n=n:[('that part of the time in UTC',eq(sbv2int(c.ret),civil[n](c.field(c.this,'epoch'))))])
for m,fm in(('toUTCString',b'%a, %d %b %Y %H:%M:%S GMT'),('toHRTString',b'%d %b %Y %H:%M:%S'),('getDate',b'%a, %d %b %Y')):
    contract(D+m+'()const',DA,requires=lambda c:isdate(c,c.this),ensures=lambda c,fm=fm:[('the time in UTC in this form',eq(c.ret,timetext(fm,lambda n:civil[n](c.field(c.this,'epoch')))))])
# ---------------------------------------------------------------- media types
MI='C27'
prop(MI,files=['core/polyfill/mimetype.cpp'])
opaque('mimetypeMap')
from lvc.ex import MapS
TABLE=var('const_mimetypeMap',MapS(Bytes,Bytes))
def ext_of(s):
    d=find_last_of(b'.')(s); return ite(eq(d,-1),s,ext(s,d+1,slen(s)-d-1))
contract('Content::getExtMimetype(const string &)',MI,ensures=lambda c:[('the registered type of the last extension',eq(c.ret,ite(mhas(TABLE,ext_of(c.arg(0))),mget(TABLE,ext_of(c.arg(0))),sconst(b'application/octet-stream'))))])
def vt(v): return v.ex.to_term(v.range) if not isinstance(v.range,T) else v.range
contract('Content::getMimetypeExt(const string &)',MI,
    ensures=lambda c:[('an extension registered for the type, or bin if there is none',Or(And(mhas(TABLE,c.ret),eq(mget(TABLE,c.ret),c.arg(0))),And(eq(c.ret,sconst(b'bin')),forall([Bytes],lambda k:Implies(mhas(TABLE,k),ne(mget(TABLE,k),c.arg(0))),pats=lambda k:[[mget(TABLE,k)],[mhas(TABLE,k)]]))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),allk(I(0),v.idx,lambda k:ne(mget(TABLE,nth(keysof(TABLE),k)),v.arg(0)),pat=lambda k:nth(keysof(TABLE),k))],dec=lambda v:slen(v.range)-v.idx)])
