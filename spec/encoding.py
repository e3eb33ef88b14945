from lvc.spec import *
from lvc.std import *
B='C01'; H='C02'
prop(B,files=['core/encoding/base64.cpp'])
prop(H,files=['core/encoding/hex.cpp','core/encoding/url.cpp'])
# ---------------------------------------------------------------- base64 (RFC 4648 section 4)
ALPH=b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
table('spec_b64e',[bv(ALPH[i%64],8) for i in range(256)],BV8,BV8)
table('spec_b64d',[bv(ALPH.index(i) if i in ALPH else 0,8) for i in range(256)],BV8,BV8)
def E6(x): return tbl('spec_b64e',x)      # x in 0..63
def D6(c): return tbl('spec_b64d',c)      # 6-bit value of an alphabet character
def inr(c,a,b): return And(bvcmp('bvule',B8(a),c),bvcmp('bvule',c,B8(b)))
def b64char(c): return Or(inr(c,'0','9'),inr(c,'A','Z'),inr(c,'a','z'),eq(c,B8('+')),eq(c,B8('/')))
shl=lambda a,k:bvop('bvshl',a,bv(k,8)); shr=lambda a,k:bvop('bvlshr',a,bv(k,8)); bor=lambda a,b:bvop('bvor',a,b); band=lambda a,k:bvop('bvand',a,bv(k,8))
def q1(a): return E6(shr(a,2))
def q2(a,b): return E6(bor(shl(band(a,3),4),shr(b,4)))
def q3(b,c): return E6(bor(shl(band(b,15),2),shr(c,6)))
def q4(c): return E6(band(c,63))
Z=bv(0,8)
def block(s,i): 
    a,b,c=nth(s,i),nth(s,i+1),nth(s,i+2)
    return slist([q1(a),q2(a,b),q3(b,c),q4(c)])
@specfn([Bytes,Int],Bytes)
def encp(s,d):  # encoding of the first d bytes, d a multiple of 3
    return ite(le(d,0),empty(BV8),concat(encp(s,d-3),block(s,d-3)))
def enctail(s):
    n=slen(s); d=mul(3,div(n,3)); r=n-d
    a,b=nth(s,d),nth(s,d+1)
    return ite(eq(r,0),empty(BV8),ite(eq(r,1),slist([q1(a),q2(a,Z),B8('='),B8('=')]),slist([q1(a),q2(a,b),q3(b,Z),B8('=')])))
def base64(s): return concat(encp(s,mul(3,div(slen(s),3))),enctail(s))
def _e_final(c):
    s=c.arg(0); n=slen(s); q=mul(4,div(n,3)); d=mul(3,div(n,3)); R=c.ret
    return [eq(ext(R,I(0),q),encp(s,d)),Implies(ne(n,d),And(eq(slen(R),q+4),*[eq(nth(R,q+k),nth(enctail(s),I(k))) for k in range(4)])),
        Implies(ne(n,d),eq(ext(R,q,I(4)),enctail(s))),Implies(ne(n,d),eq(R,concat(ext(R,I(0),q),ext(R,q,I(4)))))]
def _e_steps(v):
    if not v.prev: return []
    d=v.prev.dataIdx; i=v.prev.encIdx; s=v.arg(0); r=v.result; a,b,c=[nth(s,d+k) for k in range(3)]
    return [And(eq(nth(r,i),q1(a)),eq(nth(r,i+1),q2(a,b)),eq(nth(r,i+2),q3(b,c)),eq(nth(r,i+3),q4(c))),eq(ext(r,I(0),i),ext(v.prev.result,I(0),i)),
        eq(ext(r,i,I(4)),block(s,d)),eq(ext(r,I(0),i+4),concat(ext(r,I(0),i),ext(r,i,I(4)))),eq(encp(s,d+3),concat(encp(s,d),block(s,d)))]
contract('Encoding::toBase64(const vector<unsigned char> &)',B,opts={'fuel':1},steps=_e_final,
    ensures=lambda c:[('the RFC 4648 encoding',eq(c.ret,base64(c.arg(0))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.dataIdx),le(v.dataIdx,mul(3,div(slen(v.arg(0)),3))),eq(mod(v.dataIdx,3),0)),eq(mul(3,v.encIdx),mul(4,v.dataIdx)),
        eq(slen(v.result),mul(4,div(slen(v.arg(0)),3))),
        eq(ext(v.result,I(0),v.encIdx),encp(v.arg(0),v.dataIdx))],dec=lambda v:slen(v.arg(0))-v.dataIdx,steps=_e_steps)])
# decoding
def o1(a,b): return bor(shl(D6(a),2),shr(D6(b),4))
def o2(b,c): return bor(shl(D6(b),4),shr(D6(c),2))
def o3(c,d): return bor(shl(D6(c),6),D6(d))
def dblock(s,i):
    a,b,c,d=[nth(s,i+k) for k in range(4)]
    return slist([o1(a,b),o2(b,c),o3(c,d)])
@specfn([Bytes,Int],Bytes)
def decp(s,e): # decoding of the first e characters, e a multiple of 4
    return ite(le(e,0),empty(BV8),concat(decp(s,e-4),dblock(s,e-4)))
def ispad(s,k): return And(eq(nth(s,k),B8('=')),eq(mod(slen(s),4),0),le(slen(s),k+2))
def padlen(s):
    n=slen(s)
    return ite(And(lt(0,n),eq(mod(n,4),0),eq(nth(s,n-1),B8('='))),ite(eq(nth(s,n-2),B8('=')),I(2),I(1)),I(0))
@specfn([Bytes],Bool)
def wellformed(s):
    n=slen(s)
    return And(ne(mod(n,4),1),allk(I(0),n-padlen(s),lambda k:b64char(nth(s,k)),pat=lambda k:nth(s,k)))
@specfn([Bytes],Bytes)
def unbase64(s):
    n=slen(s); e=mul(4,div(n,4)); r=n-e
    return ite(eq(r,0),ext(decp(s,e),I(0),mul(3,div(n,4))-padlen(s)),
           concat(decp(s,e),ite(eq(r,2),slist([o1(nth(s,e),nth(s,e+1))]),slist([o1(nth(s,e),nth(s,e+1)),o2(nth(s,e+1),nth(s,e+2))]))))
def _d_inv1(v):
    s=v.arg(0); n=slen(s); p=zext_int(v.paddLength)
    return [And(le(0,v.i),le(v.i,n)),allk(I(0),v.i-p,lambda k:b64char(nth(s,k)),pat=lambda k:nth(s,k)),
            And(le(0,p),le(p,2),le(p,v.i)),allk(v.i-p,v.i,lambda k:ispad(s,k),pat=lambda k:nth(s,k)),
            Implies(lt(0,p),eq(nth(s,v.i-1),B8('='))),Implies(eq(p,2),eq(nth(s,v.i-2),B8('='))),
            Implies(lt(0,p),And(eq(mod(n,4),0),le(n,v.i-p+2)))]
def zext_int(b): return bv2nat(b)
def _d_steps(v):
    if not v.prev: return []
    e=v.prev.encIdx; i=v.prev.dataIdx; s=v.arg(0); r=v.result; a,b,c,d=[nth(s,e+k) for k in range(4)]
    return [eq(nth(r,i),o1(a,b)),eq(nth(r,i+1),o2(b,c)),eq(nth(r,i+2),o3(c,d)),eq(slen(r),slen(v.prev.result)),eq(ext(r,I(0),i),ext(v.prev.result,I(0),i)),
            eq(ext(r,i,I(3)),dblock(s,e)),eq(ext(r,I(0),i+3),concat(ext(r,I(0),i),ext(r,i,I(3)))),eq(v.encIdx,e+4),eq(v.dataIdx,i+3),
            eq(decp(s,e+4),concat(decp(s,e),dblock(s,e)))]
def _d_final(c):
    s=c.arg(0); n=slen(s); q=mul(3,div(n,4)); e=mul(4,div(n,4)); r=n-e; R=c.ret; a,b,d=[nth(s,e+k) for k in range(3)]
    full=ne(r,0)
    return [Implies(full,eq(ext(R,I(0),q),decp(s,e))),Implies(full,eq(nth(R,q),o1(a,b))),Implies(eq(r,3),eq(nth(R,q+1),o2(b,d))),
        Implies(eq(r,2),eq(slen(R),q+1)),Implies(eq(r,3),eq(slen(R),q+2)),
        Implies(full,eq(R,concat(ext(R,I(0),q),ext(R,q,slen(R)-q))))]
contract('Encoding::fromBase64(const string &)',B,opts={'fuel':1},
    raises=lambda c:Not(wellformed(c.arg(0))),
    steps=_d_final,
    ensures=lambda c:[('the RFC 4648 decoding',eq(c.ret,unbase64(c.arg(0))))],
    loops=[LoopSpec(_d_inv1,dec=lambda v:slen(v.arg(0))-v.i),
           LoopSpec(lambda v:[And(le(0,v.encIdx),le(v.encIdx,mul(4,div(slen(v.arg(0)),4))),eq(mod(v.encIdx,4),0)),eq(mul(3,v.encIdx),mul(4,v.dataIdx)),
              eq(slen(v.result),mul(3,div(slen(v.arg(0)),4))),
              eq(ext(v.result,I(0),v.dataIdx),decp(v.arg(0),v.encIdx))],dec=lambda v:slen(v.arg(0))-v.encIdx,steps=_d_steps)])

# round trip: every byte string encodes to a well-formed string that decodes to itself
def d_shape(x,d): return Implies(And(le(0,d),le(d,slen(x)),eq(mod(d,3),0)),eq(mul(3,slen(encp(x,d))),mul(4,d)))
enc_len=lemma(B,'base64_enc_len',[Bytes,Int],d_shape,measure=lambda x,d:d,ih=lambda x,d:[(x,d-3)],fuel=1)
def e_wf(x,d): return Implies(And(le(0,d),le(d,slen(x)),eq(mod(d,3),0)),allk(I(0),mul(4,div(d,3)),lambda k:b64char(nth(encp(x,d),k)),pat=lambda k:nth(encp(x,d),k)))
b64_table=lemma(B,'base64_alphabet',[BV8],lambda a:Implies(bvcmp('bvult',a,bv(64,8)),And(b64char(E6(a)),eq(D6(E6(a)),a))))
enc_wf=lemma(B,'base64_enc_alphabet',[Bytes,Int],e_wf,measure=lambda x,d:d,ih=lambda x,d:[(x,d-3)],fuel=1,hints=lambda x,d:[enc_len(x,d),enc_len(x,d-3)]+[b64_table(t) for t in blkix(x,d-3)])
def blkix(s,i):
    a,b,c=nth(s,i),nth(s,i+1),nth(s,i+2)
    return [shr(a,2),bor(shl(band(a,3),4),shr(b,4)),bor(shl(band(b,15),2),shr(c,6)),band(c,63)]
blk_rt=lemma(B,'base64_block_roundtrip',[BV8,BV8,BV8],lambda a,b,c:And(eq(o1(q1(a),q2(a,b)),a),eq(o2(q2(a,b),q3(b,c)),b),eq(o3(q3(b,c),q4(c)),c)))
dec_pre=lemma(B,'base64_dec_prefix',[Bytes,Bytes,Int],lambda y,z,e:Implies(And(le(0,e),le(e,slen(y)),eq(mod(e,4),0)),And(eq(decp(concat(y,z),e),decp(y,e)),eq(mul(4,slen(decp(y,e))),mul(3,e)))),
    measure=lambda y,z,e:e,ih=lambda y,z,e:[(y,z,e-4)],fuel=1)
unb_len=lemma(B,'base64_dec_len',[Bytes],lambda s:le(slen(unbase64(s)),imax(I(2),slen(s))),hints=lambda s:[dec_pre(s,empty(BV8),mul(4,div(slen(s),4)))])
unbase64.shrinks=True       # by base64_dec_len
def _de_steps(x,d):
    P=encp(x,d-3); bl=block(x,d-3); E=mul(4,div(d,3)); tri=slist([nth(x,d-3),nth(x,d-2),nth(x,d-1)]); pos=lt(0,d)
    s=encp(x,d)
    return [Implies(pos,And(le(3,d),eq(slen(P),E-4),eq(mul(4,div(d-3,3)),E-4))),Implies(pos,eq(s,concat(P,bl))),
       Implies(pos,eq(decp(P,E-4),ext(x,I(0),d-3))),Implies(pos,eq(decp(s,E-4),decp(P,E-4))),
       Implies(pos,And(eq(nth(s,E-4),nth(bl,I(0))),eq(nth(s,E-3),nth(bl,I(1))),eq(nth(s,E-2),nth(bl,I(2))),eq(nth(s,E-1),nth(bl,I(3))))),
       Implies(pos,eq(dblock(s,E-4),tri)),Implies(pos,eq(decp(s,E),concat(decp(s,E-4),dblock(s,E-4)))),
       By(Implies(And(le(3,d),le(d,slen(x))),eq(ext(x,I(0),d),concat(ext(x,I(0),d-3),tri))))]
dec_enc=lemma(B,'base64_dec_enc',[Bytes,Int],lambda x,d:Implies(And(le(0,d),le(d,slen(x)),eq(mod(d,3),0)),eq(decp(encp(x,d),mul(4,div(d,3))),ext(x,I(0),d))),
    measure=lambda x,d:d,ih=lambda x,d:[(x,d-3)],fuel=1,steps=_de_steps,
    hints=lambda x,d:[enc_len(x,d),enc_len(x,d-3),blk_rt(nth(x,d-3),nth(x,d-2),nth(x,d-1)),dec_pre(encp(x,d-3),block(x,d-3),mul(4,div(d,3))-4)])
def _rt(x):
    n=slen(x); d=mul(3,div(n,3)); E=mul(4,div(n,3)); y=base64(x); t=enctail(x); P=encp(x,d); r=n-d
    a,b=nth(x,d),nth(x,d+1)
    p=padlen(y)
    F=[allk(I(0),E,lambda k:b64char(nth(y,k)),pat=lambda k:nth(y,k)),Implies(eq(r,1),And(b64char(nth(y,E)),b64char(nth(y,E+1)))),Implies(eq(r,2),And(b64char(nth(y,E)),b64char(nth(y,E+1)),b64char(nth(y,E+2)))),
       eq(slen(y),E+ite(eq(r,0),I(0),I(4))),eq(p,ite(eq(r,0),I(0),ite(eq(r,1),I(2),I(1)))),And(le(0,r),le(r,2))]
    return [eq(slen(P),E),eq(decp(P,E),ext(x,I(0),d)),eq(slen(t),ite(eq(r,0),I(0),I(4))),eq(decp(y,E),decp(P,E)),
      Implies(ne(r,0),And(*[eq(nth(y,E+k),nth(t,I(k))) for k in range(4)])),
      Implies(eq(r,0),eq(padlen(y),0)),Implies(eq(r,1),eq(padlen(y),2)),Implies(eq(r,2),eq(padlen(y),1)),
      allk(I(0),E,lambda k:b64char(nth(y,k)),pat=lambda k:nth(y,k)),Implies(eq(r,1),And(b64char(nth(y,E)),b64char(nth(y,E+1)))),Implies(eq(r,2),And(b64char(nth(y,E)),b64char(nth(y,E+1)),b64char(nth(y,E+2)))),
      By(allk(I(0),slen(y)-p,lambda k:b64char(nth(y,k)),pat=lambda k:nth(y,k)),F),
      eq(slen(decp(y,E)),d),
      Implies(ne(r,0),eq(decp(y,E+4),concat(decp(y,E),dblock(y,E)))),
      Implies(eq(r,1),eq(ext(decp(y,E+4),I(0),d+1),concat(ext(x,I(0),d),unit(a)))),
      Implies(eq(r,2),eq(ext(decp(y,E+4),I(0),d+2),concat(ext(x,I(0),d),slist([a,b])))),
      By(Implies(eq(slen(x),d+1),eq(x,concat(ext(x,I(0),d),unit(a)))),[le(0,d)]),By(Implies(eq(slen(x),d+2),eq(x,concat(ext(x,I(0),d),slist([a,b])))),[le(0,d)]),
      Implies(eq(r,0),eq(unbase64(y),ext(decp(y,E),I(0),d))),Implies(ne(r,0),eq(unbase64(y),ext(decp(y,E+4),I(0),d+r)))]
def _rt_h(x):
    n=slen(x); d=mul(3,div(n,3)); E=mul(4,div(n,3)); a,b=nth(x,d),nth(x,d+1)
    return [enc_len(x,d),dec_enc(x,d),enc_wf(x,d),dec_pre(encp(x,d),enctail(x),E),dec_pre(base64(x),empty(BV8),E),dec_pre(base64(x),empty(BV8),E+4),blk_rt(a,b,Z),blk_rt(a,Z,Z)]+[b64_table(t) for u in ([a,b,Z],[a,Z,Z]) for t in [shr(u[0],2),bor(shl(band(u[0],3),4),shr(u[1],4)),bor(shl(band(u[1],15),2),shr(u[2],6))]]
lemma(B,'base64_roundtrip',[Bytes],lambda x:And(wellformed(base64(x)),eq(unbase64(base64(x)),x)),steps=_rt,hints=_rt_h,fuel=1)
# ---------------------------------------------------------------- hex (two digits per byte, upper case)
def hexU(n): return ite(bvcmp('bvult',n,bv(10,8)),bvop('bvadd',n,B8('0')),bvop('bvadd',n,bv(ord('A')-10,8)))
def isxd(c): return Or(inr(c,'0','9'),inr(c,'A','F'),inr(c,'a','f'))
def hexv(c): return ite(inr(c,'0','9'),bvop('bvsub',c,B8('0')),ite(inr(c,'A','F'),bvop('bvsub',c,bv(ord('A')-10,8)),bvop('bvsub',c,bv(ord('a')-10,8))))
def hx1(x): return hexU(shr(x,4))
def hx2(x): return hexU(band(x,15))
def unhex(a,b): return bor(shl(hexv(a),4),hexv(b))
contract('Encoding::byteToHex(unsigned char)',H,ensures=lambda c:[('two upper-case digits and a terminator',And(eq(c.ret.b[0],hx1(c.arg(0))),eq(c.ret.b[1],hx2(c.arg(0))),eq(c.ret.b[2],bv(0,8))))])
contract('Encoding::hexToByte(Encoding::HexByte)',H,raises=lambda c:Not(And(isxd(c.arg(0).b[0]),isxd(c.arg(0).b[1]))),
    ensures=lambda c:[('value of the two digits',eq(c.ret,unhex(c.arg(0).b[0],c.arg(0).b[1])))])
@specfn([Bytes,Int],Bytes)
def hexenc(s,k): return ite(le(k,0),empty(BV8),concat(hexenc(s,k-1),slist([hx1(nth(s,k-1)),hx2(nth(s,k-1))])))
@specfn([Bytes,Int],Bytes)
def hexdec(s,k): return ite(le(k,0),empty(BV8),concat(hexdec(s,k-1),unit(unhex(nth(s,mul(2,k)-2),nth(s,mul(2,k)-1)))))
contract('Encoding::toHex(const vector<unsigned char> &)',H,ensures=lambda c:[('two digits per byte',eq(c.ret,hexenc(c.arg(0),slen(c.arg(0)))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.result,hexenc(v.range,v.idx)),eq(slen(v.result),mul(2,v.idx))],dec=lambda v:slen(v.range)-v.idx)])
def allxd(s,n): return allk(I(0),n,lambda k:isxd(nth(s,k)),pat=lambda k:nth(s,k))
contract('Encoding::fromHex(const string &)',H,raises=lambda c:Or(eq(mod(slen(c.arg(0)),2),1),Not(allxd(c.arg(0),slen(c.arg(0))))),
    ensures=lambda c:[('one byte per two digits',eq(c.ret,hexdec(c.arg(0),div(slen(c.arg(0)),2))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.i),le(v.i,slen(v.arg(0))),eq(mod(v.i,2),0)),allxd(v.arg(0),v.i),eq(v.result,hexdec(v.arg(0),div(v.i,2))),eq(slen(v.result),div(v.i,2))],dec=lambda v:slen(v.arg(0))-v.i)])
hex_byte=lemma(H,'hex_byte_roundtrip',[BV8],lambda x:And(isxd(hx1(x)),isxd(hx2(x)),eq(unhex(hx1(x),hx2(x)),x)))
hex_len=lemma(H,'hex_length',[Bytes,Int],lambda x,k:Implies(And(le(0,k),le(k,slen(x))),eq(slen(hexenc(x,k)),mul(2,k))),measure=lambda x,k:k,ih=lambda x,k:[(x,k-1)],fuel=1)
def _hxs(x,k,z):
    Y=concat(hexenc(x,k),z); pr=slist([hx1(nth(x,k-1)),hx2(nth(x,k-1))]); Y2=concat(hexenc(x,k-1),pr,z); p=lt(0,k)
    return [By(Implies(And(lt(0,k),le(k,slen(x))),eq(ext(x,I(0),k),concat(ext(x,I(0),k-1),unit(nth(x,k-1)))))),
       Implies(p,eq(Y,Y2)),Implies(p,And(eq(nth(Y2,mul(2,k)-2),hx1(nth(x,k-1))),eq(nth(Y2,mul(2,k)-1),hx2(nth(x,k-1))))),
       Implies(p,eq(hexdec(Y2,k-1),ext(x,I(0),k-1)))]
hex_rt=lemma(H,'hex_roundtrip_prefix',[Bytes,Int,Bytes],lambda x,k,z:Implies(And(le(0,k),le(k,slen(x))),And(eq(hexdec(concat(hexenc(x,k),z),k),ext(x,I(0),k)),allxd(hexenc(x,k),mul(2,k)))),
    measure=lambda x,k,z:k,ih=lambda x,k,z:[(x,k-1,concat(slist([hx1(nth(x,k-1)),hx2(nth(x,k-1))]),z))],hints=lambda x,k,z:[hex_len(x,k),hex_len(x,k-1),hex_byte(nth(x,k-1))],fuel=1,
    steps=_hxs)
lemma(H,'hex_roundtrip',[Bytes],lambda x:And(eq(mod(slen(hexenc(x,slen(x))),2),0),allxd(hexenc(x,slen(x)),slen(hexenc(x,slen(x)))),eq(hexdec(hexenc(x,slen(x)),div(slen(hexenc(x,slen(x))),2)),x)),
    hints=lambda x:[hex_rt(x,slen(x),empty(BV8)),hex_len(x,slen(x))],fuel=0)
# ---------------------------------------------------------------- percent-encoding
ESC=b'"\'\\/><  %{}|^`:?#[]@!$&()*+,;='
def mustescape(c): return inset(c,ESC)
def pct(c): return slist([B8('%'),hx1(c),hx2(c)])
def enc1(c): return ite(mustescape(c),pct(c),unit(c))
@specfn([Bytes,Int],Bytes)
def uenc(s,k): return ite(le(k,0),empty(BV8),concat(uenc(s,k-1),enc1(nth(s,k-1))))
@specfn([Bytes,Int],Bytes)
def udec(s,i):
    return ite(le(slen(s),i),empty(BV8),ite(eq(nth(s,i),B8('%')),concat(unit(unhex(nth(s,i+1),nth(s,i+2))),udec(s,i+3)),concat(unit(nth(s,i)),udec(s,i+1))))
@specfn([Bytes,Int],Bool)
def uok(s,i):
    return ite(le(slen(s),i),TRUE,ite(eq(nth(s,i),B8('%')),And(le(i+3,slen(s)),isxd(nth(s,i+1)),isxd(nth(s,i+2)),uok(s,i+3)),uok(s,i+1)))
contract('Encoding::encodeURIComponent(const string &)',H,ensures=lambda c:[('delimiters escaped, everything else kept',eq(c.ret,uenc(c.arg(0),slen(c.arg(0)))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.result,uenc(v.range,v.idx)),le(slen(v.result),mul(3,v.idx))],dec=lambda v:slen(v.range)-v.idx)])
contract('Encoding::decodeURIComponent(const string &)',H,raises=lambda c:Not(uok(c.arg(0),I(0))),ensures=lambda c:[('escapes replaced by their byte',eq(c.ret,udec(c.arg(0),I(0))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.i),le(v.i,slen(v.arg(0)))),eq(concat(v.result,udec(v.arg(0),v.i)),udec(v.arg(0),I(0))),Iff(uok(v.arg(0),v.i),uok(v.arg(0),I(0))),le(slen(v.result),v.i)],dec=lambda v:slen(v.arg(0))-v.i)],opts={'fuel':1})
u_rt=lemma(H,'url_roundtrip_prefix',[Bytes,Int,Bytes],lambda x,k,z:Implies(And(le(0,k),le(k,slen(x))),And(eq(udec(concat(uenc(x,k),z),I(0)),concat(ext(x,I(0),k),udec(concat(uenc(x,k),z),slen(uenc(x,k))))),
     Iff(uok(concat(uenc(x,k),z),I(0)),uok(concat(uenc(x,k),z),slen(uenc(x,k)))))),
    measure=lambda x,k,z:k,ih=lambda x,k,z:[(x,k-1,concat(enc1(nth(x,k-1)),z))],hints=lambda x,k,z:[hex_byte(nth(x,k-1))],fuel=1,
    steps=lambda x,k,z:[By(Implies(And(lt(0,k),le(k,slen(x))),eq(ext(x,I(0),k),concat(ext(x,I(0),k-1),unit(nth(x,k-1)))))),
       Implies(lt(0,k),eq(concat(uenc(x,k),z),concat(uenc(x,k-1),concat(enc1(nth(x,k-1)),z))))])
lemma(H,'url_roundtrip',[Bytes],lambda x:And(uok(uenc(x,slen(x)),I(0)),eq(udec(uenc(x,slen(x)),I(0)),x)),hints=lambda x:[u_rt(x,slen(x),empty(BV8))],fuel=1)
def noraw(s): return allk(I(0),slen(s),lambda k:Or(eq(nth(s,k),B8('%')),Not(mustescape(nth(s,k)))),pat=lambda k:nth(s,k))
lemma(H,'url_no_raw_delimiter',[Bytes,Int],lambda x,k:Implies(And(le(0,k),le(k,slen(x))),noraw(uenc(x,k))),measure=lambda x,k:k,ih=lambda x,k:[(x,k-1)],fuel=1,
    hints=lambda x,k:[Implies(TRUE,TRUE)])
