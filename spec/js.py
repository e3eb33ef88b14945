from lvc.spec import *
from lvc.std import *
from encoding import inr,isxd,hexv
J='C18'
prop(J,files=['core/json/stringify.cpp','core/json/parse.cpp'])
# ---------------------------------------------------------------- what is written for one character of a string
SHORT={10:'\\n',13:'\\r',9:'\\t',34:'\\"',92:'\\\\'}
lc=lambda n:ite(bvcmp('bvult',n,bv(10,8)),bvop('bvadd',n,B8('0')),bvop('bvadd',n,bv(ord('a')-10,8)))
shr=lambda a,k:bvop('bvlshr',a,bv(k,8)); band=lambda a,k:bvop('bvand',a,bv(k,8))
def uesc(c): return slist([B8(x) for x in '\\u00']+[lc(shr(c,4)),lc(band(c,15))])
def esc1(c):
    r=ite(bvcmp('bvult',c,bv(32,8)),uesc(c),unit(c))
    for k,t in SHORT.items(): r=ite(eq(c,bv(k,8)),slist([B8(x) for x in t]),r)
    return r
@specfn([Bytes,Int],Bytes)
def jesc(s,k): return ite(le(k,0),empty(BV8),concat(jesc(s,k-1),esc1(nth(s,k-1))))
contract('escapeString(const string &)',J,ensures=lambda c:[('every character written as RFC 8259 asks',eq(c.ret,jesc(c.arg(0),slen(c.arg(0)))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.temp,jesc(v.range,v.idx)),le(slen(v.temp),mul(6,v.idx))],dec=lambda v:slen(v.range)-v.idx)])
# ---------------------------------------------------------------- what a written string denotes
B32=lambda k:bv(k,32)
Z32=lambda c:zext(c,32)
def xd4(s,p): return And(le(0,p),le(p+4,slen(s)),*[isxd(nth(s,p+k)) for k in range(4)])
def cu(s,p):
    r=Z32(hexv(nth(s,p)))
    for k in range(1,4): r=bvop('bvor',bvop('bvshl',r,B32(4)),Z32(hexv(nth(s,p+k))))
    return r
contract('readCodeUnit(const string &, unsigned long)',J,requires=lambda c:[le(0,c.arg(1)),le(c.arg(1),2**50)],ensures=lambda c:[('the value of four hexadecimal digits',eq(c.ret,ite(xd4(c.arg(0),c.arg(1)),cu(c.arg(0),c.arg(1)),B32(0xffffffff))))],
    loops=[LoopSpec(None,unroll=5)])
sh=lambda c,k:bvop('bvlshr',c,B32(k)); six=lambda c:bvop('bvor',bv(128,8),extract(bvop('bvand',c,B32(63)),7,0)); lead=lambda m,c:bvop('bvor',bv(m,8),extract(c,7,0))
def utf8(c):
    u=lambda k:bvcmp('bvult',c,B32(k))
    return ite(u(0x80),unit(extract(c,7,0)),ite(u(0x800),slist([lead(0xC0,sh(c,6)),six(c)]),ite(u(0x10000),slist([lead(0xE0,sh(c,12)),six(sh(c,6)),six(c)]),slist([lead(0xF0,sh(c,18)),six(sh(c,12)),six(sh(c,6)),six(c)]))))
contract('appendCodePoint(string &, int)',J,requires=lambda c:[bvcmp('bvule',c.arg(1),B32(0x10ffff))],modifies=(0,),ensures=lambda c:[('appends the UTF-8 form of a code point',eq(c.post(0),concat(c.arg(0),utf8(c.arg(1)))))])

def ch(s,k): return nth(s,k)
def short(c):
    r=c
    for k,t in ((10,'n'),(13,'r'),(9,'t'),(8,'b'),(12,'f')): r=ite(eq(c,B8(t)),bv(k,8),r)
    return r
def isesc(s,i): return And(eq(nth(s,i),B8('\\')),lt(i+1,slen(s)))
def isu(s,i): return And(isesc(s,i),eq(nth(s,i+1),B8('u')))
def rng(c,a,b): return And(bvcmp('bvule',B32(a),c),bvcmp('bvult',c,B32(b)))
def pair(s,i): return And(rng(cu(s,i+2),0xD800,0xDC00),lt(i+11,slen(s)),eq(nth(s,i+6),B8('\\')),eq(nth(s,i+7),B8('u')),xd4(s,i+8),rng(cu(s,i+8),0xDC00,0xE000))
def join(a,b): return bvop('bvadd',B32(0x10000),bvop('bvadd',bvop('bvshl',bvop('bvsub',a,B32(0xD800)),B32(10)),bvop('bvsub',b,B32(0xDC00))))
def step(s,i): return ite(isu(s,i),ite(pair(s,i),I(12),I(6)),ite(isesc(s,i),I(2),I(1)))
def piece(s,i): return ite(isu(s,i),utf8(ite(pair(s,i),join(cu(s,i+2),cu(s,i+8)),cu(s,i+2))),ite(isesc(s,i),unit(short(nth(s,i+1))),unit(nth(s,i))))
@specfn([Bytes,Int],Bytes)
def unesc(s,i): return ite(le(slen(s),i),empty(BV8),concat(piece(s,i),unesc(s,i+step(s,i))))
@specfn([Bytes,Int],Bool)
def escok(s,i): return ite(le(slen(s),i),TRUE,And(Implies(isu(s,i),xd4(s,i+2)),escok(s,i+step(s,i))))
contract('unescapeString(const string &)',J,raises=lambda c:Not(escok(c.arg(0),I(0))),ensures=lambda c:[('every escape replaced by what it stands for',eq(c.ret,unesc(c.arg(0),I(0))))],opts={'fuel':1},
    loops=[LoopSpec(lambda v:[And(le(0,v.i),le(v.i,slen(v.arg(0)))),eq(concat(v.result,unesc(v.arg(0),v.i)),unesc(v.arg(0),I(0))),Iff(escok(v.arg(0),v.i),escok(v.arg(0),I(0))),le(slen(v.result),v.i)],dec=lambda v:slen(v.arg(0))-v.i)])
# ---------------------------------------------------------------- reading back what was written
hx=lemma(J,'escape_of_a_control_character',[BV8],lambda x:Implies(bvcmp('bvult',x,bv(32,8)),And(isxd(lc(shr(x,4))),isxd(lc(band(x,15))),eq(bvop('bvor',bvop('bvshl',Z32(hexv(lc(shr(x,4)))),B32(4)),Z32(hexv(lc(band(x,15))))),Z32(x)))))
def one(y,x,z):
    t=concat(y,concat(esc1(x),z)); p=slen(y)
    return And(Implies(isu(t,p),And(xd4(t,p+2),eq(cu(t,p+2),Z32(x)),bvcmp('bvult',x,bv(32,8)))),eq(piece(t,p),unit(x)),eq(step(t,p),slen(esc1(x))))
one_rt=lemma(J,'strings_roundtrip_one_character',[Bytes,BV8,Bytes],one,hints=lambda y,x,z:[hx(x)])
s_rt=lemma(J,'strings_roundtrip_prefix',[Bytes,Int,Bytes],lambda x,k,z:Implies(And(le(0,k),le(k,slen(x))),And(eq(unesc(concat(jesc(x,k),z),I(0)),concat(ext(x,I(0),k),unesc(concat(jesc(x,k),z),slen(jesc(x,k))))),
     Iff(escok(concat(jesc(x,k),z),I(0)),escok(concat(jesc(x,k),z),slen(jesc(x,k)))))),
    measure=lambda x,k,z:k,ih=lambda x,k,z:[(x,k-1,concat(esc1(nth(x,k-1)),z))],hints=lambda x,k,z:[one_rt(jesc(x,k-1),nth(x,k-1),z)],fuel=1,
    steps=lambda x,k,z:[By(Implies(And(lt(0,k),le(k,slen(x))),eq(ext(x,I(0),k),concat(ext(x,I(0),k-1),unit(nth(x,k-1)))))),
       Implies(lt(0,k),eq(concat(jesc(x,k),z),concat(jesc(x,k-1),concat(esc1(nth(x,k-1)),z))))])
lemma(J,'strings_roundtrip',[Bytes],lambda x:And(escok(jesc(x,slen(x)),I(0)),eq(unesc(jesc(x,slen(x)),I(0)),x)),hints=lambda x:[s_rt(x,slen(x),empty(BV8))],fuel=1)
# what is written between the quotes is well formed: no bare quote or control character, every backslash starts an escape
@specfn([Bytes,Int],Bool)
def plain(s,i): return ite(le(slen(s),i),TRUE,ite(eq(nth(s,i),B8('\\')),And(lt(i+1,slen(s)),inset(nth(s,i+1),b'"\\/bfnrtu'),plain(s,i+2)),And(ne(nth(s,i),B8('"')),bvcmp('bvule',bv(32,8),nth(s,i)),plain(s,i+1))))
p_pre=lemma(J,'written_strings_are_well_formed_prefix',[Bytes,Int,Bytes],lambda x,k,z:Implies(And(le(0,k),le(k,slen(x))),Iff(plain(concat(jesc(x,k),z),I(0)),plain(concat(jesc(x,k),z),slen(jesc(x,k))))),
    measure=lambda x,k,z:k,ih=lambda x,k,z:[(x,k-1,concat(esc1(nth(x,k-1)),z))],fuel=6,hints=lambda x,k,z:[hx(nth(x,k-1))],
    steps=lambda x,k,z:[Implies(lt(0,k),eq(concat(jesc(x,k),z),concat(jesc(x,k-1),concat(esc1(nth(x,k-1)),z))))])
lemma(J,'written_strings_are_well_formed',[Bytes],lambda x:plain(jesc(x,slen(x)),I(0)),hints=lambda x:[p_pre(x,slen(x),empty(BV8))],fuel=1)
