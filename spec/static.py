"""Static file server: nothing outside of the root is served, what is there is served as it is."""
from lvc.spec import *
from lvc.std import *
from strings import trimmed
from kv import kvinit,mkpair,Pair,KV
from misc import TABLE,ext_of
G='C24'
prop(G,files=['extra/staticserver/staticserver.cpp'])
SL=B8('/'); DD=sconst(b'..'); lastsl=find_last_of(b'/')
def unslash(c): return ite(eq(c,B8('\\')),SL,c)
slashed=Fun('slashed',[Bytes],Bytes,facts=lambda r,s:[eq(slen(r),slen(s)),allk(I(0),slen(s),lambda k:eq(nth(r,k),unslash(nth(s,k))),pat=lambda k:[nth(r,k),nth(s,k)])])      # backslashes count as slashes
def isdot(g): return Or(eq(slen(g),0),eq(g,sconst(b'.')),eq(g,DD))
def up(o): return ext(o,I(0),ite(eq(lastsl(o),-1),I(0),lastsl(o)))
def push(o,g): return ite(eq(g,DD),up(o),ite(isdot(g),o,concat(o,concat(unit(SL),g))))
def seg(s): return ite(eq(findc(s,SL,I(0)),-1),s,ext(s,I(0),findc(s,SL,I(0))))
@specfn([Bytes,Bytes,Int],Bytes)
def flat(o,s,i):
    """the segments of s from position i entered one after the other, from directory o"""
    e=findc(s,SL,i); return ite(eq(e,-1),push(o,drop(s,i)),flat(push(o,ext(s,i,e-i)),s,e+1))
@specfn([Bytes,Int],Bool)
def asdir(s,i):
    """the last segment of s (counted from position i) is '.', '..' or empty"""
    e=findc(s,SL,i); return ite(eq(e,-1),isdot(drop(s,i)),asdir(s,e+1))
@specfn([Bytes],Bytes)
def normalpath(s):
    """the pathname with its dot segments resolved"""
    p=slashed(s); f=flat(empty(BV8),p,I(0)); return ite(asdir(p,I(0)),concat(f,unit(SL)),f)
def finv(v):
    p=slashed(v.old_arg(0)); i=v.segmentStart; return [('slashes',eq(v.arg(0),p)),('position',And(le(0,i),le(i,slen(p)+1))),
        ('entered so far',ite(le(i,slen(p)),eq(flat(v.result,p,i),flat(empty(BV8),p,I(0))),eq(v.result,flat(empty(BV8),p,I(0))))),
        ('directory',ite(le(i,slen(p)),eq(asdir(p,i),asdir(p,I(0))),Iff(v.isDirectory,asdir(p,I(0)))))]
contract('StaticServer::flattenPathName(string)const',G,loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range)),eq(slen(v.arg(0)),slen(v.old_arg(0))),allk(I(0),v.idx,lambda k:eq(nth(v.arg(0),k),unslash(nth(v.old_arg(0),k))),pat=lambda k:nth(v.arg(0),k)),allk(v.idx,slen(v.arg(0)),lambda k:eq(nth(v.arg(0),k),nth(v.old_arg(0),k)),pat=lambda k:nth(v.arg(0),k)))],dec=lambda v:slen(v.range)-v.idx),LoopSpec(finv,dec=lambda v:slen(v.arg(0))+1-v.segmentStart)],
    ensures=lambda c:[('dot segments resolved, never above the root',eq(c.ret,normalpath(c.arg(0))))])
# nothing above the root: every segment of the result is a name
@specfn([Bytes],Bool)
def names(o):
    """o is empty or '/' followed by segments that are names"""
    i=lastsl(o); g=drop(o,i+1); return Or(eq(slen(o),0),And(le(0,i),Not(isdot(g)),names(ext(o,I(0),i))))
nup=lemma(G,'names up',[Bytes],lambda o:Implies(names(o),names(up(o))))
npush=lemma(G,'names push',[Bytes,Bytes],lambda o,g:Implies(And(names(o),eq(findc(g,SL,I(0)),-1)),names(push(o,g))),hints=lambda o,g:[nup(o)],
    steps=lambda o,g:(lambda r,free:[Implies(free,And(eq(nth(r,slen(o)),SL),le(slen(o),lastsl(r)))),Implies(And(free,lt(slen(o),lastsl(r))),eq(nth(r,lastsl(r)),nth(g,lastsl(r)-slen(o)-1))),Implies(free,eq(lastsl(r),slen(o))),eq(ext(r,I(0),slen(o)),o),eq(drop(r,slen(o)+1),g)])(concat(o,concat(unit(SL),g)),eq(findc(g,SL,I(0)),-1)))
lemma(G,'nothing above the root',[Bytes,Bytes,Int],lambda o,s,i:Implies(And(names(o),le(0,i),le(i,slen(s))),names(flat(o,s,i))),measure=lambda o,s,i:slen(s)-i,
    ih=lambda o,s,i:(lambda e:[(push(o,ext(s,i,e-i)),s,e+1)])(findc(s,SL,i)),hints=lambda o,s,i:(lambda e:[npush(o,ext(s,i,e-i)),npush(o,drop(s,i))])(findc(s,SL,i)),fuel=1,
    steps=lambda o,s,i:(lambda e:[Implies(And(le(0,i),le(i,slen(s)),le(0,e)),eq(findc(ext(s,i,e-i),SL,I(0)),-1)),Implies(And(le(0,i),le(i,slen(s)),eq(e,-1)),eq(findc(drop(s,i),SL,I(0)),-1))])(findc(s,SL,i)))
# files
opaque('servicePage')
S_='StaticServer::'
DOT=find_last_of(b'.')
def root(c): return c.field(c.this,'m_root')
S1=sconst(b'/')
def based(r,p): return concat(r,ite(And(le(1,slen(p)),eq(ext(p,I(0),I(1)),S1)),p,concat(S1,p)))
def isdirpath(b): return Not(And(ne(DOT(b),-1),lt(lastsl(b),DOT(b))))          # the last segment has no dot
def slash(b): return ite(And(le(1,slen(b)),eq(ext(b,slen(b)-1,I(1)),S1)),b,concat(b,S1))
def cand(b,n): return concat(slash(b),sconst(n))
HTML_,HTM_=b'index.html',b'index.htm'
@specfn([Bytes],Bool)
def found(b): return Or(isfile(b),And(isdirpath(b),Or(isfile(cand(b,HTML_)),isfile(cand(b,HTM_)))))
@specfn([Bytes],Bytes)
def target(b): return ite(isfile(b),b,ite(isfile(cand(b,HTML_)),cand(b,HTML_),cand(b,HTM_)))
contract(S_+'resolvePath(const string &)const',G,loops=[LoopSpec(None,unroll=3)],steps=lambda c:(lambda b:[('the base contains a slash',And(eq(nth(b,slen(root(c))),SL),le(slen(root(c)),lastsl(b))))])(based(root(c),c.arg(0))),
    ensures=lambda c:(lambda b:[('found exactly if it or its index page is there',Iff(c.field(c.ret,'has'),found(b))),('the file itself, or the index page',Implies(found(b),eq(c.field(c.ret,'val'),target(b))))])(based(root(c),c.arg(0))))
contract('readBinaryFileSync(const string &)',G,ensures=lambda c:[('the bytes of the file',eq(c.ret,ite(fopens(c.arg(0)),filetext(c.arg(0)),empty(BV8))))])
@specfn([Bytes],Bytes)
def typeof(e): return ite(mhas(TABLE,e),mget(TABLE,e),sconst(b'application/octet-stream'))
def answer(c,path):
    b=based(root(c),normalpath(path)); t=target(b); r=c.ret; f=lambda *n:c.field(r,*n); e=ext_of(pathext(t))
    return [('not found outside of what is there',Implies(Not(found(b)),eq(f('status','m_code'),bv(404,32)))),('found',Implies(found(b),eq(f('status','m_code'),bv(200,32)))),
        ('its media type',Implies(found(b),eq(c.ex.to_term(f('headers','m_data')),kvinit(unit(mkpair(sconst(b'content-type'),typeof(e))),I(1))))),
        ('the bytes of the file',Implies(And(found(b),fopens(t)),eq(f('body','m_data'),filetext(t))))]
contract(S_+'serve(const string &)const',G,ensures=lambda c:answer(c,c.arg(0)))
contract(S_+'serve(const HTTP::Request &)const',G,ensures=lambda c:answer(c,c.field(c.arg(0),'url','pathname')))
def cut(r): return ite(And(lt(0,slen(r)),Or(eq(nth(r,slen(r)-1),SL),eq(nth(r,slen(r)-1),B8('\\')))),ext(r,I(0),slen(r)-1),r)
contract(S_+'#ctor(const string &)',G,modifies=('this',),opts={'exctype':'std::runtime_error'},raises=lambda c:Not(And(pexists(cut(c.arg(0))),isdir(cut(c.arg(0))))),ensures=lambda c:[('the directory without a slash behind it',eq(c.field(c.this_post,'m_root'),cut(c.arg(0))))])
