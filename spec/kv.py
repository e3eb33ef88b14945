"""Header map, cookies, search params."""
from lvc.spec import *
from lvc.std import *
from strings import lowerS,trimmed,splitc,splitr,split_spec,ptext,cstrz
K='C06'
prop(K,files=['core/http/kvcontainer.cpp'])
Pair=PairS(Bytes,Bytes); Pairs=Seq(Pair); KV=MapS(Bytes,SeqS)
def mkpair(a,b): return dcons(Pair[1],[a,b])
def data(c): return c.ex.to_term(c.field(c.this,'m_data'))
def datap(c): return c.ex.to_term(c.field(c.this_post,'m_data'))
def vdata(v): return v.ex.to_term(v.f(v.this,'m_data'))
def other(c): return c.ex.to_term(c.field(c.arg(0),'m_data'))
def appended(m,k,v): return mput(m,k,ite(mhas(m,k),concat(mget(m,k),unit(v)),unit(v)))
KC='HTTP::KVContainer::'
def TH(*a): return ('this','m_data')
contract(KC+'has(const string &)const',K,ensures=lambda c:[('present under the lower-cased name',Iff(c.ret,mhas(data(c),lowerS(c.arg(0)))))])
contract(KC+'del(const string &)',K,modifies=(TH(),),ensures=lambda c:[('only that name is removed',eq(datap(c),ite(mhas(data(c),lowerS(c.arg(0))),mdel(data(c),lowerS(c.arg(0))),data(c))))])
contract(KC+'set(const string &, const string &)',K,modifies=(TH(),),ensures=lambda c:[('exactly that value under that name, all others kept',eq(datap(c),mput(data(c),lowerS(c.arg(0)),unit(c.arg(1)))))])
contract(KC+'append(const string &, const string &)',K,modifies=(TH(),),ensures=lambda c:[('value added after the earlier ones, all others kept',eq(datap(c),appended(data(c),lowerS(c.arg(0)),c.arg(1))))])
def first(vs): return ite(eq(slen(vs),0),empty(BV8),nth(vs,0))
contract(KC+'get(const string &)const',K,ensures=lambda c:[('first value or the empty string',eq(c.ret,ite(mhas(data(c),lowerS(c.arg(0))),first(mget(data(c),lowerS(c.arg(0)))),empty(BV8))))])
contract(KC+'getAll(const string &)const',K,ensures=lambda c:[('all values in order',eq(c.ret,ite(mhas(data(c),lowerS(c.arg(0))),mget(data(c),lowerS(c.arg(0))),empty(Bytes))))])
contract(KC+'size()const',K,ensures=lambda c:[('number of names',eq(c.ret,dsel(data(c),'n')))])
contract(KC+'#ctor(const HTTP::KVContainer &)',K,modifies=('this',),ensures=lambda c:[('same content',eq(datap(c),other(c)))])
contract(KC+'#ctor(HTTP::KVContainer &&)',K,modifies=('this',0),ensures=lambda c:[('same content',eq(datap(c),other(c)))])
contract(KC+'operator=(const HTTP::KVContainer &)',K,modifies=('this',),ensures=lambda c:[('same content',eq(datap(c),other(c)))],opts={'ret':lambda c:c.args['this']})
contract(KC+'operator=(HTTP::KVContainer &&)',K,modifies=('this',0),ensures=lambda c:[('same content',eq(datap(c),other(c)))],opts={'ret':lambda c:c.args['this']})
def _kvinit_c(ps,n):
    if n.op!='int' or n.args[0]>8: return None
    m=mempty(Bytes,SeqS)
    for k in range(max(n.args[0],0)):
        p=nth(ps,I(k))
        if p.op!='dcons': return None
        m=appended(m,trimmed(lowerS(dsel(p,'first'))),trimmed(dsel(p,'second')))
    return m
@specfn([Pairs,Int],KV,simp=_kvinit_c)
def kvinit(ps,i):
    p=nth(ps,i-1); return ite(le(i,0),mempty(Bytes,SeqS),appended(kvinit(ps,i-1),trimmed(lowerS(dsel(p,'first'))),trimmed(dsel(p,'second'))))
contract(KC+'#ctor(const std::initializer_list<std::pair<string,string>> &)',K,modifies=('this',),
    ensures=lambda c:[('every pair appended under its trimmed lower-case name, value trimmed',eq(datap(c),kvinit(c.arg(0),slen(c.arg(0)))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(vdata(v),kvinit(v.range,v.idx))],dec=lambda v:slen(v.range)-v.idx)])
# entries: keys in order, and for each key its values in order
@specfn([Bytes,SeqS,Int],Pairs)
def pairsof(k,vs,j): return ite(le(j,0),empty(Pair),concat(pairsof(k,vs,j-1),unit(mkpair(k,nth(vs,j-1)))))
@specfn([KV,SeqS,Int],Pairs)
def entriesof(m,ks,i): return ite(le(i,0),empty(Pair),concat(entriesof(m,ks,i-1),pairsof(nth(ks,i-1),mget(m,nth(ks,i-1)),slen(mget(m,nth(ks,i-1))))))
contract(KC+'entries()const',K,ensures=lambda c:[('every value of every name once, grouped by name',eq(c.ret,entriesof(data(c),keysof(data(c)),slen(keysof(data(c))))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.temp,entriesof(vdata(v),v.range,v.idx))],dec=lambda v:slen(v.range)-v.idx),
           LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.temp,concat(v.at_entry('temp'),pairsof(v.f(v.get("entry"),'first'),v.range,v.idx)))],dec=lambda v:slen(v.range)-v.idx)])
# ---------------------------------------------------------------- search params
Q='C08'
prop(Q,files=['core/http/urlsearchparams.cpp','core/http/url.cpp'])
EQ=B8('=')
def keypart(e): return trimmed(ext(e,I(0),findc(e,EQ,I(0))))
def valpart(e): return trimmed(drop(e,findc(e,EQ,I(0))+1))
def ispair(e):
    i=findc(e,EQ,I(0))
    return And(lt(0,i),ne(i,slen(e)-1),ne(slen(keypart(e)),0),ne(slen(valpart(e)),0))
@specfn([SeqS,Int],KV)
def qparams(es,i):
    e=nth(es,i-1); m=qparams(es,i-1)
    return ite(le(i,0),mempty(Bytes,SeqS),ite(ispair(e),appended(m,lowerS(keypart(e)),valpart(e)),m))
def querypart(s): return ite(eq(findc(s,B8('?'),I(0)),-1),s,drop(s,findc(s,B8('?'),I(0))+1))
@specfn([Bytes],KV)
def qparse(s): es=splitc(querypart(s),B8('&'),I(0)); return qparams(es,slen(es))
contract('HTTP::URLSearchParams::#ctor(const string &)',Q,modifies=('this',),ensures=lambda c:[('every name=value pair after the question mark',eq(datap(c),qparse(c.arg(0))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(vdata(v),qparams(v.range,v.idx))],dec=lambda v:slen(v.range)-v.idx)])
def joined(r,k,v): return concat(r,ite(eq(slen(r),0),empty(BV8),sconst(b'&')),k,sconst(b'='),v)
@specfn([Bytes,Bytes,SeqS,Int],Bytes)
def qvals(r,k,vs,j): return ite(le(j,0),r,joined(qvals(r,k,vs,j-1),k,nth(vs,j-1)))
@specfn([KV,SeqS,Int],Bytes)
def qstr(m,ks,i): return ite(le(i,0),empty(BV8),qvals(qstr(m,ks,i-1),nth(ks,i-1),mget(m,nth(ks,i-1)),slen(mget(m,nth(ks,i-1)))))
def qstringify(m): return qstr(m,keysof(m),slen(keysof(m)))
contract('HTTP::URLSearchParams::stringify()const',Q,ensures=lambda c:[('every value as name=value, joined by &',eq(c.ret,qstringify(data(c))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.result,qstr(vdata(v),v.range,v.idx))],dec=lambda v:slen(v.range)-v.idx),
           LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.result,qvals(v.at_entry('result'),v.f(v.get('entry'),'first'),v.range,v.idx))],dec=lambda v:slen(v.range)-v.idx)])
# ---------------------------------------------------------------- cookies
CK='C07'
prop(CK,files=['core/http/cookies.cpp'])
JAR=MapS(Bytes,Bytes)
@specfn([SeqS,Int],JAR)
def cparams(es,i):
    e=nth(es,i-1); m=cparams(es,i-1)
    return ite(le(i,0),mempty(Bytes,Bytes),ite(ispair(e),mput(m,lowerS(keypart(e)),valpart(e)),m))
CO='HTTP::Cookies::'
def queue(c): return c.ex.to_term(c.field(c.this,'m_set_queue'))
def queuep(c): return c.ex.to_term(c.field(c.this_post,'m_set_queue'))
def oqueue(c): return c.ex.to_term(c.field(c.arg(0),'m_set_queue'))
def cdata(q,v,ps): return dcons(q.sort[1] and dict(DTS[q.sort[1]])['val'][2][1],[v,ps])
def noprops(q):
    d=dict(DTS[q.sort[1]])['val'][2][1]; return empty(dict(DTS[d])['props'][1])
contract(CO+'#ctor(const string &)',CK,modifies=('this',),ensures=lambda c:[('every name=value pair of the cookie header, nothing queued',And(eq(datap(c),cparams(split_spec(c.arg(0),sconst(b'; ')),slen(split_spec(c.arg(0),sconst(b'; '))))),eq(dsel(queuep(c),'n'),0)))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(vdata(v),cparams(v.range,v.idx))],dec=lambda v:slen(v.range)-v.idx)])
both=lambda c:[('same cookies',eq(datap(c),other(c))),('same cookies to be set',eq(queuep(c),oqueue(c)))]
contract(CO+'#ctor(const HTTP::Cookies &)',CK,modifies=('this',),ensures=both)
contract(CO+'#ctor(HTTP::Cookies &&)',CK,modifies=('this',0),ensures=both)
contract(CO+'operator=(const HTTP::Cookies &)',CK,modifies=('this',),ensures=both,opts={'ret':lambda c:c.args['this']})
contract(CO+'operator=(HTTP::Cookies &&)',CK,modifies=('this',0),ensures=both,opts={'ret':lambda c:c.args['this']})
contract(CO+'get(const string &)const',CK,ensures=lambda c:[('value under the lower-cased name or the empty string',eq(c.ret,ite(mhas(data(c),lowerS(c.arg(0))),mget(data(c),lowerS(c.arg(0))),empty(BV8))))])
contract(CO+'has(const string &)const',CK,ensures=lambda c:[('present under the lower-cased name',Iff(c.ret,mhas(data(c),lowerS(c.arg(0)))))])
contract(CO+'set(const string &, const string &)',CK,modifies=('this',),ensures=lambda c:[('the value is readable',eq(datap(c),mput(data(c),lowerS(c.arg(0)),c.arg(1)))),('queued without attributes',eq(queuep(c),mput(queue(c),lowerS(c.arg(0)),cdata(queue(c),c.arg(1),noprops(queue(c))))))])
contract(CO+'set(const string &, const string &, const std::initializer_list<HTTP::Cookies::CookieParams> &)',CK,modifies=('this',),ensures=lambda c:[('the value is readable',eq(datap(c),mput(data(c),lowerS(c.arg(0)),c.arg(1)))),('queued with exactly these attributes',eq(queuep(c),mput(queue(c),lowerS(c.arg(0)),cdata(queue(c),c.arg(1),c.arg(2)))))])
def expired(q):
    d=noprops(q).sort[1]; return unit(dcons(d[1],[sconst(b'expires'),sconst(b'Thu, 01 Jan 1970 00:00:00 GMT')]))
contract(CO+'del(const string &)',CK,modifies=('this',),ensures=lambda c:(lambda h,k:[('no longer readable, others kept',eq(datap(c),ite(h,mdel(data(c),k),data(c)))),('an expired cookie is queued',eq(queuep(c),ite(h,mput(queue(c),k,cdata(queue(c),empty(BV8),expired(queue(c)))),queue(c))))])(mhas(data(c),lowerS(c.arg(0))),lowerS(c.arg(0))))
contract(CO+'size()const',CK,ensures=lambda c:[('number of cookies',eq(c.ret,dsel(data(c),'n')))])
@specfn([JAR,SeqS,Int],Pairs)
def jarentries(m,ks,i): return ite(le(i,0),empty(Pair),concat(jarentries(m,ks,i-1),unit(mkpair(nth(ks,i-1),mget(m,nth(ks,i-1))))))
contract(CO+'entries()const',CK,ensures=lambda c:[('every cookie once',eq(c.ret,jarentries(data(c),keysof(data(c)),slen(keysof(data(c))))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.temp,jarentries(vdata(v),v.range,v.idx))],dec=lambda v:slen(v.range)-v.idx)])
CPS=RecS('HTTP::Cookies::CookieParams',('key',Bytes),('value',Bytes)); CDS=RecS('HTTP::Cookies::CookieData',('value',Bytes),('props',Seq(CPS))); CQ=MapS(Bytes,CDS)
def pfield(c,n): return c.field(c.this_post,n)
contract(CO+'CookieParams::#ctor(const string &)',CK,modifies=('this',),ensures=lambda c:[('flag attribute',And(eq(pfield(c,'key'),c.arg(0)),eq(slen(pfield(c,'value')),0)))])
contract(CO+'CookieParams::#ctor(const char *)',CK,opts={'ptr':{0:'cstr'}},modifies=('this',),ensures=lambda c:[('flag attribute',And(eq(pfield(c,'key'),cstrz(ptext(c,0))),eq(slen(pfield(c,'value')),0)))])
contract(CO+'CookieParams::#ctor(std::initializer_list<string>)',CK,modifies=('this',),ensures=lambda c:[('name then value',And(eq(pfield(c,'key'),ite(eq(slen(c.arg(0)),0),empty(BV8),nth(c.arg(0),0))),eq(pfield(c,'value'),ite(le(slen(c.arg(0)),1),empty(BV8),nth(c.arg(0),1)))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.itr.off),le(v.itr.off,2),le(v.itr.off,slen(v.arg(0)))),eq(v.f(v.this,'key'),ite(eq(v.itr.off,0),empty(BV8),nth(v.arg(0),0))),eq(v.f(v.this,'value'),ite(le(v.itr.off,1),empty(BV8),nth(v.arg(0),1)))],dec=lambda v:slen(v.arg(0))-v.itr.off)])
def serprop(p,r):
    k=dsel(p,'key'); x=dsel(p,'value')
    return ite(eq(slen(k),0),r,concat(r,sconst(b'; '),ite(eq(slen(x),0),k,concat(k,sconst(b'='),x))))
@specfn([Seq(CPS),Bytes,Int],Bytes)
def serprops(ps,r,j): return ite(le(j,0),r,serprop(nth(ps,j-1),serprops(ps,r,j-1)))
def sercookie(k,d): return serprops(dsel(d,'props'),concat(k,sconst(b'='),dsel(d,'value')),slen(dsel(d,'props')))
@specfn([CQ,SeqS,Int],SeqS)
def serall(q,ks,i): return ite(le(i,0),empty(Bytes),concat(serall(q,ks,i-1),unit(sercookie(nth(ks,i-1),mget(q,nth(ks,i-1))))))
def vqueue(v): return v.ex.to_term(v.f(v.this,'m_set_queue'))
contract(CO+'serialize()const',CK,ensures=lambda c:[('every queued cookie once as name=value; attributes',eq(c.ret,serall(queue(c),keysof(queue(c)),slen(keysof(queue(c))))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.temp,serall(vqueue(v),v.range,v.idx))],dec=lambda v:slen(v.range)-v.idx),
           LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.cookie,serprops(v.range,v.at_entry('cookie'),v.idx))],dec=lambda v:slen(v.range)-v.idx)])
# Set-Cookie / Cookie headers
SETC=lowerS(sconst(b'Set-Cookie'))
def hdrs(c): return c.ex.to_term(c.field(c.this,'headers','m_data'))
def hdrsp(c): return c.ex.to_term(c.field(c.this_post,'headers','m_data'))
@specfn([KV,SeqS,Int],KV)
def addall(m,vs,i): return ite(le(i,0),m,appended(addall(m,vs,i-1),SETC,nth(vs,i-1)))
RF=('this','headers')
contract('HTTP::Response::setCookies(const HTTP::Cookies &)',CK,modifies=(RF,),ensures=lambda c:(lambda q:[('one Set-Cookie header per queued cookie',eq(hdrsp(c),addall(hdrs(c),serall(q,keysof(q),slen(keysof(q))),slen(serall(q,keysof(q),slen(keysof(q)))))))])(oqueue(c)),
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.ex.to_term(v.f(v.this,'headers','m_data')),addall(v.ex.to_term(v.f(v.old_this,'headers','m_data')),v.range,v.idx))],dec=lambda v:slen(v.range)-v.idx)])
@specfn([KV,Pairs,Int],KV)
def addpairs(m,ps,i):
    p=nth(ps,i-1); k=dsel(p,'first'); x=dsel(p,'second')
    return ite(le(i,0),m,ite(eq(slen(k),0),addpairs(m,ps,i-1),appended(addpairs(m,ps,i-1),SETC,ite(eq(slen(x),0),k,concat(k,sconst(b'='),x)))))
contract('HTTP::Response::setCookies(const std::initializer_list<std::pair<string,string>> &)',CK,modifies=(RF,),ensures=lambda c:[('one Set-Cookie header per named pair',eq(hdrsp(c),addpairs(hdrs(c),c.arg(0),slen(c.arg(0)))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.ex.to_term(v.f(v.this,'headers','m_data')),addpairs(v.ex.to_term(v.f(v.old_this,'headers','m_data')),v.range,v.idx))],dec=lambda v:slen(v.range)-v.idx)])
def cjar(s): return cparams(split_spec(s,sconst(b'; ')),slen(split_spec(s,sconst(b'; '))))
def chdr(c): return first(mget(hdrs(c),sconst(b'cookie')))
contract('HTTP::Request::getCookies()const',CK,ensures=lambda c:[('cookies of the Cookie header',eq(c.ex.to_term(c.field(c.ret,'m_data')),ite(And(mhas(hdrs(c),sconst(b'cookie')),lt(0,slen(chdr(c)))),cjar(chdr(c)),mempty(Bytes,Bytes)))),('nothing queued',eq(dsel(c.ex.to_term(c.field(c.ret,'m_set_queue')),'n'),0))])
# ---------------------------------------------------------------- URLs
URLF=['protocol','username','password','host','hostname','port','pathname','hash']
def url_spec(c,href,blank=False):
    """reference decomposition: (invalid, {field: value}, search params)"""
    old=(lambda n:empty(BV8)) if blank else (lambda n:c.field(c.this,n))
    rel=eq(ext(href,I(0),imin(I(1),slen(href))),sconst(b'/'))
    pc=finds(href,sconst(b'://'),I(0)); a0=pc+3; d=findc(href,B8('/'),a0)
    addr=ite(eq(d,-1),drop(href,a0),ext(href,a0,d-a0))
    at=findc(addr,B8('@'),I(0)); cred=ext(addr,I(0),at); cs=findc(cred,B8(':'),I(0)); hp=ite(eq(at,-1),addr,drop(addr,at+1))
    ps=findc(hp,B8(':'),I(0)); hostname=ite(eq(ps,-1),hp,ext(hp,I(0),ps))
    bad=And(Not(rel),Or(eq(pc,-1),ne(findc(addr,B8('?'),I(0)),-1),ne(findc(addr,B8('#'),I(0)),-1),eq(slen(hostname),0)))
    hasc=And(Not(rel),ne(at,-1),ne(cs,-1))
    nodoc=And(Not(rel),eq(d,-1)); doc=ite(rel,href,drop(href,d))
    hs=findc(doc,B8('#'),I(0)); doc2=ite(eq(hs,-1),doc,ext(doc,I(0),hs)); q=findc(doc2,B8('?'),I(0))
    f={'protocol':ite(rel,old('protocol'),ext(href,I(0),pc)),'username':ite(hasc,ext(cred,I(0),cs),old('username')),'password':ite(hasc,drop(cred,cs+1),old('password')),
       'host':ite(rel,old('host'),hp),'hostname':ite(rel,old('hostname'),hostname),'port':ite(And(Not(rel),ne(ps,-1)),drop(hp,ps+1),old('port')),
       'pathname':ite(nodoc,sconst(b'/'),ite(eq(q,-1),doc2,ext(doc2,I(0),q))),'hash':ite(And(Not(nodoc),ne(hs,-1)),drop(doc,hs),old('hash'))}
    om=mempty(Bytes,SeqS) if blank else c.ex.to_term(c.field(c.this,'searchParams','m_data'))
    return bad,f,ite(And(Not(nodoc),ne(q,-1)),qparse(drop(doc2,q)),om)
def fresh_url(c,href): return url_spec(c,href,True)
def url_post(c,href):
    bad,f,sp=url_spec(c,href)
    return [(n,eq(c.field(c.this_post,n),f[n])) for n in URLF]+[('search parameters',eq(c.ex.to_term(c.field(c.this_post,'searchParams','m_data')),sp))]
contract('HTTP::URL::parse(const string &)',Q,opts={'maxpaths':200},modifies=('this',),raises=lambda c:url_spec(c,c.arg(0))[0],ensures=lambda c:url_post(c,c.arg(0)))
contract('HTTP::URL::#ctor(const string &)',Q,modifies=('this',),raises=lambda c:url_spec(c,c.arg(0))[0],ensures=lambda c:url_post(c,c.arg(0)))
contract('HTTP::URL::#ctor(const char *)',Q,modifies=('this',),opts={'ptr':{0:'cstr'}},raises=lambda c:url_spec(c,cstrz(ptext(c,0)))[0],ensures=lambda c:url_post(c,cstrz(ptext(c,0))))
def opt_(cond,x): return ite(cond,x,empty(BV8))
def url_href(c):
    g=lambda n:c.field(c.this,n); m=c.ex.to_term(c.field(c.this,'searchParams','m_data')); S=sconst
    es=entriesof(m,keysof(m),slen(keysof(m)))
    return concat(ite(eq(slen(g('protocol')),0),S(b'http://'),concat(g('protocol'),S(b'://'))),opt_(And(lt(0,slen(g('username'))),lt(0,slen(g('password')))),concat(g('username'),S(b':'),g('password'),S(b'@'))),
        g('hostname'),opt_(lt(0,slen(g('port'))),concat(S(b':'),g('port'))),g('pathname'),opt_(lt(0,slen(es)),concat(S(b'?'),qstringify(m))),opt_(lt(1,slen(g('hash'))),g('hash')))
contract('HTTP::URL::href()const',Q,opts={'maxpaths':200},raises=lambda c:Or(eq(slen(c.field(c.this,'hostname')),0),eq(slen(c.field(c.this,'pathname')),0)),ensures=lambda c:[('all components in order',eq(c.ret,url_href(c)))])
# ---------------------------------------------------------------- basic authentication
from encoding import unbase64,wellformed
A_='C09'
prop(A_,files=['core/http/auth.cpp'])
def auth_spec(h):
    sp=findc(h,B8(' '),I(0)); tok=trimmed(drop(h,sp+1)); cred=unbase64(tok); cs=findc(cred,B8(':'),I(0))
    ok=And(ne(sp,-1),eq(lowerS(ext(h,I(0),sp)),sconst(b'basic')),ne(slen(tok),0),wellformed(tok),ne(cs,-1))
    return ok,ext(cred,I(0),cs),drop(cred,cs+1)
def auth_post(c):
    ok,u,p=auth_spec(c.arg(0)); r=c.ret
    return [('credentials only for a well-formed Basic header',Iff(c.field(r,'has'),ok)),('user name up to the first colon',Implies(ok,eq(c.field(r,'val','user'),u))),('password after the first colon',Implies(ok,eq(c.field(r,'val','password'),p)))]
contract('HTTP::Auth::parseBasicAuth(const string &)',A_,ensures=auth_post)
# ---------------------------------------------------------------- bodies and messages
BB='HTTP::BodyBuffer::'; V='C32'
prop(V,files=['core/http/body.cpp','core/http/request.cpp','core/http/response.cpp'])
def bdata(c): return c.field(c.this,'m_data')
def bdatap(c): return c.field(c.this_post,'m_data')
contract(BB+'#ctor(const HTTP::BodyBuffer &)',V,modifies=('this',),ensures=lambda c:[('same bytes',eq(bdatap(c),c.field(c.arg(0),'m_data')))])
for k in('#ctor(const string &)','#ctor(const vector<unsigned char> &)','operator=(const string &)','operator=(const vector<unsigned char> &)'):
    contract(BB+k,V,modifies=('this',),opts={'ret':lambda c:c.args['this']} if '=' in k else {},ensures=lambda c:[('exactly these bytes',eq(bdatap(c),c.arg(0)))])
for k in('#ctor(const char *)','operator=(const char *)'):
    contract(BB+k,V,modifies=('this',),opts={'ptr':{0:'cstr'},**({'ret':lambda c:c.args['this']} if '=' in k else {})},ensures=lambda c:[('the bytes up to the terminator',eq(bdatap(c),cstrz(ptext(c,0))))])
for k in('text()const','operator string()const'): contract(BB+k,V,ensures=lambda c:[('exactly the bytes',eq(c.ret,bdata(c)))])
contract(BB+'buffer()const',V,opts={'ret':lambda c:bdata(c)},ensures=lambda c:[('exactly the bytes',eq(c.ret,bdata(c)))])
contract(BB+'size()const',V,ensures=lambda c:[('number of bytes',eq(c.ret,slen(bdata(c))))])
def hm(c,post=True): return hdrsp(c)
def st_(c,*n): return c.field(c.this_post,'status',*n)
def part(c,i,n): return c.field(c.arg(i),n)
def resp(sig,status=None,headers=None,body=None):
    def en(c):
        o=[('status code',eq(st_(c,'m_code'),part(c,status,'m_code') if status is not None else bv(200,32))),('status text',eq(st_(c,'m_text'),part(c,status,'m_text') if status is not None else sconst(b'OK'))),
           ('body',eq(c.field(c.this_post,'body','m_data'),part(c,body,'m_data') if body is not None else empty(BV8)))]
        if headers is not None: o.append(('headers',eq(hdrsp(c),c.ex.to_term(part(c,headers,'m_data')))))
        else: o.append(('no headers',eq(dsel(hdrsp(c),'n'),0)))
        return o
    contract('HTTP::Response::#ctor(%s)'%sig,V,modifies=('this',),ensures=en)
ST='const HTTP::Status &'; HD='const HTTP::KVContainer &'; BD='const HTTP::BodyBuffer &'
resp(ST,0); resp(','.join((ST,HD)),0,1); resp(','.join((ST,BD)),0,None,1); resp(','.join((ST,HD,BD)),0,1,2); resp(BD,None,None,0)
def req(sig,method=None,headers=None,body=None):
    def en(c):
        u=c.field(c.this_post,'url')
        class U: pass
        o=[('body',eq(c.field(c.this_post,'body','m_data'),part(c,body,'m_data') if body is not None else empty(BV8))),
           ('method',eq(c.field(c.this_post,'method','value'),part(c,method,'value') if method is not None else bv(c.ex.P.enums['Lambda::HTTP::Methods']['GET'],32))),
           ('headers',eq(hdrsp(c),c.ex.to_term(part(c,headers,'m_data'))) if headers is not None else eq(dsel(hdrsp(c),'n'),0))]
        bad,f,sp=fresh_url(c,c.arg(0))
        return o+[('url '+n,eq(c.field(u,n),f[n])) for n in URLF]+[('url search parameters',eq(c.ex.to_term(c.field(u,'searchParams','m_data')),sp))]
    contract('HTTP::Request::#ctor(%s)'%sig,V,modifies=('this',),raises=lambda c:fresh_url(c,c.arg(0))[0],ensures=en)
US='const string &'; MD='const HTTP::Method &'
req(US); req(','.join((US,MD)),1); req(','.join((US,HD)),None,1); req(','.join((US,MD,BD)),1,None,2); req(','.join((US,MD,HD,'HTTP::BodyBuffer &')),1,2,3)
