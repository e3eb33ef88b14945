from lvc.spec import *
from lvc.std import *
S='C05'
prop(S,files=['core/polyfill/strings.cpp'])
def lower(c): return ite(And(bvcmp('bvule',B8('A'),c),bvcmp('bvule',c,B8('Z'))),bvop('bvadd',c,bv(0x20,8)),c)
def upper(c): return ite(And(bvcmp('bvule',B8('a'),c),bvcmp('bvule',c,B8('z'))),bvop('bvsub',c,bv(0x20,8)),c)
def pointwise(f):
    return lambda new,old,n: And(eq(slen(new),slen(old)),allk(I(0),n,lambda k:eq(nth(new,k),f(nth(old,k))),pat=lambda k:[nth(new,k),nth(old,k)]))
def _mapc(f):
    def g(s):
        b=cbytes(s)
        if b is not None: return slist([f(bv(x,8)) for x in b],BV8)
    return g
def mapfun(n,f):
    return Fun(n,[Bytes],Bytes,facts=lambda r,s:[eq(slen(r),slen(s)),allk(I(0),slen(s),lambda k:eq(nth(r,k),f(nth(s,k))),pat=lambda k:[nth(r,k),nth(s,k)])],simp=_mapc(f))
lowerS=mapfun('lowerS',lower); upperS=mapfun('upperS',upper)
lowerS.shrinks=upperS.shrinks=True      # same length (facts above)
def mapped(key,f,whole):
    pw=pointwise(f)
    contract(key+'(string &)',S,modifies=(0,),
        ensures=lambda c:[('every byte mapped',pw(c.post(0),c.arg(0),slen(c.arg(0)))),('the mapped string',eq(c.post(0),whole(c.arg(0))))],
        loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),pw(v.arg(0),v.old_arg(0),v.idx),
             allk(v.idx,slen(v.arg(0)),lambda k:eq(nth(v.arg(0),k),nth(v.old_arg(0),k)),pat=lambda k:nth(v.arg(0),k))],
             dec=lambda v:slen(v.range)-v.idx)])
    contract(key+'(const string &)',S,ensures=lambda c:[('every byte mapped',pw(c.ret,c.arg(0),slen(c.arg(0)))),('the mapped string',eq(c.ret,whole(c.arg(0))))])
mapped('Strings::toLowerCase',lower,lowerS)
mapped('Strings::toUpperCase',upper,upperS)
def title(prev,c): return ite(prev,upper(c),lower(c))
WS=b' \t\r\n'
def isws(c): return inset(c,WS)
def sep(c): return Or(eq(c,B8(' ')),eq(c,B8('-')))
def titled(new,old,n):
    return And(eq(slen(new),slen(old)),allk(I(0),n,lambda k:eq(nth(new,k),title(Or(eq(k,0),sep(nth(old,k-1))),nth(old,k))),pat=lambda k:[nth(new,k),nth(old,k)]))
contract('Strings::toTittleCase(string &)',S,modifies=(0,),
    ensures=lambda c:[('words capitalised',titled(c.post(0),c.arg(0),slen(c.arg(0))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),titled(v.arg(0),v.old_arg(0),v.idx),
        eq(v.needsToBeCapital,Or(eq(v.idx,0),sep(nth(v.old_arg(0),v.idx-1)))),
        allk(v.idx,slen(v.arg(0)),lambda k:eq(nth(v.arg(0),k),nth(v.old_arg(0),k)),pat=lambda k:nth(v.arg(0),k))],
        dec=lambda v:slen(v.range)-v.idx)])
contract('Strings::toTittleCase(const string &)',S,ensures=lambda c:[('words capitalised',titled(c.ret,c.arg(0),slen(c.arg(0))))])
contract('Strings::includes(const string &, const string &)',S,ensures=lambda c:[('iff it occurs somewhere',Iff(c.ret,ne(finds(c.arg(0),c.arg(1),I(0)),-1)))])
contract('Strings::includes(const string &, char)',S,ensures=lambda c:[('iff it occurs somewhere',Iff(c.ret,ne(findc(c.arg(0),c.arg(1),I(0)),-1)))])
def _anyin(s,xs,i):
    if isint(i): return Or(*[ne(finds(s,nth(xs,k),I(0)),-1) for k in range(i.args[0])])
@specfn([Bytes,SeqS,Int],Bool,simp=_anyin)
def anyin(s,xs,i): return And(lt(0,i),Or(anyin(s,xs,i-1),ne(finds(s,nth(xs,i-1),I(0)),-1)))
anyin_mono=lemma(S,'anyin_mono',[Bytes,SeqS,Int,Int],lambda s,xs,i,n:Implies(And(le(0,i),le(i,n),anyin(s,xs,i)),anyin(s,xs,n)),measure=lambda s,xs,i,n:n-i,ih=lambda s,xs,i,n:[(s,xs,i,n-1)])
contract('Strings::includes(const string &, const vector<string> &)',S,
    ensures=lambda c:[('iff one of them occurs',Iff(c.ret,anyin(c.arg(0),c.arg(1),slen(c.arg(1)))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),Not(anyin(v.arg(0),v.range,v.idx))],dec=lambda v:slen(v.range)-v.idx,hints=lambda v:[anyin_mono(v.arg(0),v.range,v.idx+1,slen(v.range))])])
def isprefix(s,t): return And(le(slen(t),slen(s)),eq(ext(s,I(0),slen(t)),t))
def issuffix(s,t): return And(le(slen(t),slen(s)),eq(concat(ext(s,I(0),slen(s)-slen(t)),t),s))
contract('Strings::startsWith(const string &, const string &)',S,ensures=lambda c:[('iff it is a prefix',Iff(c.ret,isprefix(c.arg(0),c.arg(1))))])
contract('Strings::endsWith(const string &, const string &)',S,ensures=lambda c:[('iff it is a suffix',Iff(c.ret,issuffix(c.arg(0),c.arg(1))))])
# trim
def _fn_c(s):
    b=cbytes(s)
    if b is not None: return I(len(b)-len(b.lstrip(WS)))
def _en_c(s):
    b=cbytes(s)
    if b is not None: return I(max(len(b.rstrip(WS)),len(b)-len(b.lstrip(WS))))
@rule([Bytes],Int,simp=_fn_c)
def firstnot(r,s): return [le(0,r),le(r,slen(s)),Or(eq(r,slen(s)),Not(isws(nth(s,r)))),allk(I(0),r,lambda k:isws(nth(s,k)),pat=lambda k:nth(s,k))]
@rule([Bytes],Int,simp=_en_c)
def endnot(r,s): return [le(firstnot(s),r),le(r,slen(s)),Or(eq(r,firstnot(s)),Not(isws(nth(s,r-1)))),allk(r,slen(s),lambda k:isws(nth(s,k)),pat=lambda k:nth(s,k))]
def trimmed(s): return ext(s,firstnot(s),endnot(s)-firstnot(s))
contract('Strings::trim(string &)',S,modifies=(0,),ensures=lambda c:[('leading and trailing whitespace removed, nothing else',eq(c.post(0),trimmed(c.arg(0))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.pos_from),le(v.pos_from,slen(v.arg(0)))),allk(I(0),v.pos_from,lambda k:isws(nth(v.arg(0),k)),pat=lambda k:nth(v.arg(0),k))],dec=lambda v:slen(v.arg(0))-v.pos_from),
           LoopSpec(lambda v:[And(le(v.pos_from,v.pos_to),le(v.pos_to,slen(v.arg(0)))),allk(v.pos_to,slen(v.arg(0)),lambda k:isws(nth(v.arg(0),k)),pat=lambda k:nth(v.arg(0),k))],dec=lambda v:v.pos_to)])
contract('Strings::trim(const string &)',S,ensures=lambda c:[('leading and trailing whitespace removed, nothing else',eq(c.ret,trimmed(c.arg(0))))])
# split: definition of the pieces from position i on
@specfn([Bytes,Bytes,Int],SeqS)
def splitr(s,t,i):
    m=finds(s,t,i)
    return ite(eq(m,-1),ite(eq(slen(s),i),empty(Bytes),unit(ext(s,i,slen(s)-i))),concat(unit(ext(s,i,m-i)),splitr(s,t,m+slen(t))))
@specfn([Bytes,BV8,Int],SeqS)
def splitc(s,c,i):
    m=findc(s,c,i)
    return ite(eq(m,-1),ite(eq(slen(s),i),empty(Bytes),unit(ext(s,i,slen(s)-i))),concat(unit(ext(s,i,m-i)),splitc(s,c,m+1)))
def split_spec(s,t): return ite(eq(slen(s),0),empty(Bytes),ite(eq(slen(t),0),unit(s),splitr(s,t,I(0))))
contract('Strings::split(const string &, const string &)',S,ensures=lambda c:[('pieces between the separators',eq(c.ret,split_spec(c.arg(0),c.arg(1))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.startpos),le(v.startpos,slen(v.arg(0)))),
        eq(v.match,npos(finds(v.arg(0),v.arg(1),v.startpos))),
        eq(concat(v.result,splitr(v.arg(0),v.arg(1),v.startpos)),splitr(v.arg(0),v.arg(1),I(0)))],dec=lambda v:slen(v.arg(0))-v.startpos+ite(eq(v.match,I(NPOS)),I(0),I(1)))])
contract('Strings::split(const string &, char)',S,ensures=lambda c:[('pieces between the separators',eq(c.ret,splitc(c.arg(0),c.arg(1),I(0))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.startpos),le(v.startpos,slen(v.arg(0)))),
        eq(v.match,npos(findc(v.arg(0),v.arg(1),v.startpos))),
        eq(concat(v.result,splitc(v.arg(0),v.arg(1),v.startpos)),splitc(v.arg(0),v.arg(1),I(0)))],dec=lambda v:slen(v.arg(0))-v.startpos+ite(eq(v.match,I(NPOS)),I(0),I(1)))])
# join of the first n strings
@specfn([SeqS,Bytes,Int],Bytes)
def joinn(xs,t,n): return ite(le(n,0),empty(BV8),ite(eq(n,1),nth(xs,0),concat(joinn(xs,t,n-1),t,nth(xs,n-1))))
def cstrz(b): return ext(b,I(0),zpos(b))
contract('Strings::join(const vector<string> &, const char *)',S,opts={'ptr':{1:'cstr'}},
    ensures=lambda c:[('strings with the separator between them',eq(c.ret,joinn(c.arg(0),cstrz(ptext(c,1)),slen(c.arg(0)))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.first,eq(v.idx,0)),eq(v.result,joinn(v.range,cstrz(ptextl(v,1)),v.idx))],dec=lambda v:slen(v.range)-v.idx)])
def ptext(c,i): p=c.arg(i); return c.ex.to_term(c.ex.read(c.pre,p.lv))
def ptextl(v,i): p=v.arg(i); return v.ex.to_term(v.ex.read(v.st,p.lv))
# replace
def replaced(b,s,r):
    m=finds(b,s,I(0))
    return ite(eq(m,-1),b,concat(ext(b,I(0),m),r,ext(b,m+slen(s),slen(b)-m-slen(s))))
contract('Strings::replace(string &, const string &, const string &)',S,modifies=(0,),ensures=lambda c:[('first occurrence replaced',eq(c.post(0),replaced(c.arg(0),c.arg(1),c.arg(2))))])
contract('Strings::replace(const string &, const string &, const string &)',S,ensures=lambda c:[('first occurrence replaced',eq(c.ret,replaced(c.arg(0),c.arg(1),c.arg(2))))])
@specfn([Bytes,Bytes,Bytes],Bytes)
def repall(b,s,r):
    m=finds(b,s,I(0))
    return ite(eq(m,-1),b,concat(ext(b,I(0),m),r,repall(ext(b,m+slen(s),slen(b)-m-slen(s)),s,r)))
def repall_spec(b,s,r): return ite(eq(slen(s),0),b,repall(b,s,r))
def shifted(m,i): return ite(eq(m,-1),I(-1),m+i)
finds_shift=lemma(S,'finds_shift',[Bytes,Bytes,Int],lambda s,t,i:Implies(And(le(0,i),le(i,slen(s)),lt(0,slen(t))),eq(finds(s,t,i),shifted(finds(ext(s,i,slen(s)-i),t,I(0)),i))),
    hints=lambda s,t,i:[touch(ext(drop(s,i),finds(s,t,i)-i,slen(t))),touch(ext(s,finds(drop(s,i),t,I(0))+i,slen(t)))])
def _ra_steps(v):
    if not v.prev: return []
    i=v.prev.index; b0=v.prev.arg(0); b=v.arg(0); s=v.arg(1); r=v.arg(2); p=i+slen(r)
    T=drop(b0,i+slen(s)); m=finds(T,s,I(0))
    return [eq(drop(b,p),T),eq(finds(b,s,p),shifted(m,p)),
            Implies(ne(m,-1),And(eq(drop(b,p+m+slen(s)),drop(T,m+slen(s))),eq(ext(b,I(0),p+m),concat(ext(b0,I(0),i),r,ext(T,I(0),m)))))]
contract('Strings::replaceAll(string &, const string &, const string &)',S,modifies=(0,),ensures=lambda c:[('every occurrence replaced, left to right',eq(c.post(0),repall_spec(c.arg(0),c.arg(1),c.arg(2))))],opts={'fuel':1},
    loops=[LoopSpec(lambda v:[Or(eq(v.index,I(NPOS)),And(le(0,v.index),le(v.index+slen(v.arg(1)),slen(v.arg(0))))),
       eq(repall(v.old_arg(0),v.arg(1),v.arg(2)),ite(eq(v.index,I(NPOS)),v.arg(0),concat(ext(v.arg(0),I(0),v.index),v.arg(2),repall(drop(v.arg(0),v.index+slen(v.arg(1))),v.arg(1),v.arg(2))))),
       ],dec=lambda v:ite(eq(v.index,I(NPOS)),I(0),slen(v.arg(0))-v.index),
       hints=lambda v:[finds_shift(v.arg(0),v.arg(1),v.prev.index+slen(v.arg(2)))] if v.prev else [],steps=_ra_steps)])
contract('Strings::replaceAll(const string &, const string &, const string &)',S,ensures=lambda c:[('every occurrence replaced, left to right',eq(c.ret,repall_spec(c.arg(0),c.arg(1),c.arg(2))))])
