"""Compression: the loops around zlib and brotli hand over every byte, once and in order (the codecs themselves are assumed models)."""
from lvc.spec import *
from lvc.std import *
W='C20'
prop(W,files=['core/compression/*.cpp'])
modelrec('z_stream_s',next_in='unsigned char *',avail_in='unsigned int',next_out='unsigned char *',avail_out='unsigned int')
Z='z_stream_s'
for n,so in(('$fed',Bytes),('$out',Bytes),('$seen',Bytes),('$end','#bool'),('$live','#bool'),('$kind','#int')): ghost(Z,n,so)
for r in('ZlibCompressStream','ZlibDecompressStream'): releases(r,'stream','$live')
gghost('zfault',Bool)      # some zlib call reported an error that is not about the data (memory)
prop(W).assume.append('zlib: a stream consumes a prefix of what it is given and hands out what it produces; deflate ends with a complete stream of its kind that decodes to everything consumed; inflate ends exactly where the stream at the start of the input ends, with what it decodes to, and reports an error only if no stream starts with the bytes given')
CH=131072
def zin(k,s): return zlen(k,s)
def decoded(c,enc,s):
    E=lambda n:bv(c.ex.P.enums['Lambda::HTTP::Transport::ContentEncodings'][n]&0xffffffff,32)
    return ite(eq(slen(s),0),s,ite(eq(enc,E('Gzip')),zplain(I(1),s),ite(eq(enc,E('Deflate')),zplain(I(2),s),bplain(s))))
def kindof(c,w): return ite(eq(w,bv(26,32)),I(1),ite(eq(w,bv(8,32)),I(2),I(3)))
def st(v,n): return v.f(v.zlib,'stream',n)
def outer(buf):
    def inv(v):      # behind each piece of input
        x=v.arg(0); ci,co=v.cursor_in,v.cursor_out; b=getattr(v,buf)
        return [('cursors',And(le(0,ci),le(0,co),le(ci,slen(x)),le(co,slen(b)))),('stream',st(v,'$live')),('kind',eq(st(v,'$kind'),KIND[buf](v))),('last piece',Iff(v.eob,eq(ci,slen(x)))),('written so far',eq(st(v,'$out'),ext(b,I(0),co)))]
    return inv
def inner(buf):
    def inv(v):      # behind each call of zlib
        x=v.arg(0); ci,co=v.cursor_in,v.cursor_out; b=getattr(v,buf); ai=bv2nat(st(v,'avail_in')); p=st(v,'next_in')
        return [('cursors',And(le(0,ci),le(0,co),le(ci,slen(x)),le(co,slen(b)))),('stream',st(v,'$live')),('kind',eq(st(v,'$kind'),KIND[buf](v))),('last piece',Iff(v.eob,eq(ci,slen(x)))),('where the input is',And(eq(p.off,ci-ai),le(0,p.off))),
            ('consumed so far',eq(st(v,'$fed'),ext(x,I(0),ci-ai))),('written so far',eq(st(v,'$out'),ext(b,I(0),co)))]
    return inv
def KC(v): return kindof(v,v.arg(2))
KIND={'compressed':KC,'decompressed':lambda v:I(0)}
def ended(v): return eq(v.opres,bv(1,32))
def room(v): return ne(st(v,'avail_out'),bv(0,32))
def cinner(v):
    o=st(v,'$out'); z=eq(st(v,'avail_in'),bv(0,32)); k=KC(v)
    return inner('compressed')(v)+[('ended only with everything consumed',Implies(st(v,'$end'),And(v.eob,z,eq(zlen(k,o),slen(o)),eq(zplain(k,o),v.arg(0))))),('end noticed',Implies(ended(v),st(v,'$end'))),('with room left everything is consumed',Implies(room(v),And(z,Implies(v.eob,ended(v)))))]
def couter(v):
    o=st(v,'$out'); k=KC(v)
    return outer('compressed')(v)+[('consumed so far',eq(st(v,'$fed'),ext(v.arg(0),I(0),v.cursor_in))),('ended with the last piece only',And(Iff(v.eob,ended(v)),Iff(v.eob,st(v,'$end')))),('a complete stream',Implies(v.eob,And(eq(zlen(k,o),slen(o)),eq(zplain(k,o),v.arg(0)))))]
VB='const vector<unsigned char> &'
contract('Compress::zlibCompressBuffer(%s,Compress::Quality,Compress::ZlibSetHeader)'%VB,W,modifies=('g:zfault',),raises=lambda c:'any',
    requires=lambda c:[('a known header',Or(*[eq(c.arg(2),bv(w,32)) for w in(26,8,-15)]))],
    loops=[LoopSpec(couter),LoopSpec(cinner)],opts={'onthrow':lambda c:[('only for a level out of range',Or(c.g_post('zfault'),bvcmp('bvslt',c.arg(1),bv(0,32)),bvcmp('bvslt',bv(9,32),c.arg(1))))]},
    ensures=lambda c:[('nothing from nothing',Implies(eq(slen(c.arg(0)),0),eq(slen(c.ret),0))),('a complete stream of that kind',Implies(lt(0,slen(c.arg(0))),eq(zlen(kindof(c,c.arg(2)),c.ret),slen(c.ret)))),
        ('decodes to the input',Implies(lt(0,slen(c.arg(0))),eq(zplain(kindof(c,c.arg(2)),c.ret),c.arg(0))))])
def dinner(v):
    x=v.arg(0); o=st(v,'$out'); f=st(v,'$fed'); z=eq(st(v,'avail_in'),bv(0,32))
    return inner('decompressed')(v)+[('given so far',eq(st(v,'$seen'),ext(x,I(0),v.cursor_in))),('the stream ends here',Iff(ended(v),st(v,'$end'))),('what it decodes to',Implies(ended(v),And(eq(zlen(I(0),f),slen(f)),eq(zplain(I(0),f),o)))),('with room left everything is consumed',Implies(And(room(v),Not(ended(v))),And(z,eq(zlen(I(0),f),-1)))),('a result',Or(ended(v),eq(v.opres,bv(0,32)),eq(v.opres,bv(-5,32))))]
def douter(v):
    x=v.arg(0); o=st(v,'$out'); f=st(v,'$fed'); ai=bv2nat(st(v,'avail_in'))
    return outer('decompressed')(v)+[('given so far',eq(st(v,'$seen'),ext(x,I(0),v.cursor_in))),('consumed so far',And(le(ai,v.cursor_in),eq(f,ext(x,I(0),v.cursor_in-ai)))),('the stream ends here',Iff(ended(v),st(v,'$end'))),('what it decodes to',Implies(ended(v),And(eq(zlen(I(0),f),slen(f)),eq(zplain(I(0),f),o)))),('all of it consumed before',Implies(Not(ended(v)),And(eq(ai,0),eq(zlen(I(0),f),-1))))]
def stable(k,q,x): return Hint(Implies(And(le(slen(q),slen(x)),eq(q,ext(x,I(0),slen(q))),le(0,zlen(k,q))),eq(zlen(k,x),zlen(k,q))))       # assumed: where a stream ends does not depend on what follows
def hopeless(k,q,x): return Hint(Implies(And(zbad(k,q),eq(q,ext(x,I(0),slen(q)))),eq(zlen(k,x),-1)))
def zf(c,n='$fed'):
    z=c.local('zlib'); return None if z is None else c.field(z,'stream',n)
def dthrow(c): return [('only for what is not a stream',Or(c.g_post('zfault'),eq(zlen(I(0),c.arg(0)),-1)))]
contract('Compress::zlibDecompressBuffer(%s)'%VB,W,modifies=('g:zfault',),raises=lambda c:'any',loops=[LoopSpec(douter),LoopSpec(dinner)],
    steps=lambda c:[('',stable(I(0),zf(c),c.arg(0)))] if zf(c) is not None else [],
    ensures=lambda c:[('nothing from nothing',Implies(eq(slen(c.arg(0)),0),eq(slen(c.ret),0))),('accepts only complete streams',Implies(lt(0,slen(c.arg(0))),lt(0,zlen(I(0),c.arg(0))))),
        ('what the stream at the start decodes to',Implies(lt(0,slen(c.arg(0))),eq(c.ret,zplain(I(0),ext(c.arg(0),I(0),zlen(I(0),c.arg(0)))))))],opts={'onthrow':dthrow,'throwsteps':lambda c:[('',stable(I(0),zf(c),c.arg(0))),('given so far',Implies(zbad(I(0),zf(c,'$seen')),eq(zf(c,'$seen'),ext(c.arg(0),I(0),c.local('cursor_in'))))),('',hopeless(I(0),zf(c,'$seen'),c.arg(0)))] if c.local('cursor_in') is not None else []})
# ---------------------------------------------------------------- brotli
for r,f in(('BrotliCompressStream','BrotliEncoderStateStruct'),('BrotliDecompressStream','BrotliDecoderStateStruct')):
    modelrec(f); owned(r,'stream',f)
    for n,so in(('$fed',Bytes),('$out',Bytes),('$seen',Bytes),('$end','#bool')): ghost(f,n,so)
prop(W).assume.append('brotli: the same as for zlib, with its own stream format; trailing data is not part of a stream')
def bst(v,n): return v.f(v.br,'stream','val',n)
def bcommon(v,buf):
    x=v.arg(0); ci,co,ai,ao=v.cursor_in,v.cursor_out,v.available_in,v.available_out; b=getattr(v,buf)
    return [('cursors',And(le(0,ci),le(ci,slen(x)),le(0,ao),le(ao,co),le(co,slen(b)))),('stream',And(v.f(v.br,'stream','has'),v.f(v.br,'stream','live'))),('last piece',Iff(v.eob,eq(ci,slen(x)))),
        ('written so far',And(eq(v.next_out.off,co-ao),eq(bst(v,'$out'),ext(b,I(0),co-ao))))]
def bcinv(v):
    x=v.arg(0); ci,ai=v.cursor_in,v.available_in; o=bst(v,'$out')
    return bcommon(v,'compressed')+[('consumed so far',And(le(0,ai),le(ai,ci),eq(v.next_in.off,ci-ai),eq(bst(v,'$fed'),ext(x,I(0),ci-ai)))),('ended with everything consumed',Implies(bst(v,'$end'),And(v.eob,eq(ai,0),eq(blen(o),slen(o)),eq(bplain(o),x))))]
contract('Compress::brotliCompressBuffer(%s,Compress::Quality)'%VB,W,modifies=('g:zfault',),raises=lambda c:'any',loops=[LoopSpec(bcinv)],
    ensures=lambda c:[('nothing from nothing',Implies(eq(slen(c.arg(0)),0),eq(slen(c.ret),0))),('a complete stream',Implies(lt(0,slen(c.arg(0))),eq(blen(c.ret),slen(c.ret)))),('decodes to the input',Implies(lt(0,slen(c.arg(0))),eq(bplain(c.ret),c.arg(0))))])
def RS(v,n): return eq(v.streamStatus,bv(n,32))
def bdinv(v):
    x=v.arg(0); ci,ai,ao=v.cursor_in,v.available_in,v.available_out; f,o=bst(v,'$fed'),bst(v,'$out')
    return bcommon(v,'decompressed')+[('a result',Or(*[RS(v,n) for n in range(4)])),('given so far',eq(bst(v,'$seen'),ext(x,I(0),ci))),('consumed so far',ite(RS(v,2),eq(f,ext(x,I(0),ci)),And(le(0,ai),le(ai,ci),eq(v.next_in.off,ci-ai),eq(f,ext(x,I(0),ci-ai))))),
        ('the stream ends here',Iff(RS(v,1),bst(v,'$end'))),('what it decodes to',Implies(RS(v,1),And(eq(blen(f),slen(f)),eq(bplain(f),o)))),('no room left',Implies(RS(v,3),eq(ao,0))),('more to come',Implies(RS(v,2),eq(blen(f),-1))),('no stream',Implies(RS(v,0),Or(v.g('zfault'),bbad(bst(v,'$seen')))))]
def bf(c,n):
    z=c.local('br'); return None if z is None else c.field(z,'stream','val',n)
def bsteps(c):
    if bf(c,'$fed') is None: return []
    q,s,x=bf(c,'$fed'),bf(c,'$seen'),c.arg(0)
    return [('',Hint(Implies(And(le(slen(q),slen(x)),eq(q,ext(x,I(0),slen(q))),le(0,blen(q))),eq(blen(x),blen(q))))),('',Hint(Implies(And(bbad(s),eq(s,ext(x,I(0),slen(s)))),eq(blen(x),-1))))]
contract('Compress::brotliDecompressBuffer(%s)'%VB,W,modifies=('g:zfault',),raises=lambda c:'any',loops=[LoopSpec(bdinv)],steps=bsteps,
    opts={'throwsteps':bsteps,'onthrow':lambda c:[('only for what is not one complete stream',Or(c.g_post('zfault'),ne(blen(c.arg(0)),slen(c.arg(0)))))]},
    ensures=lambda c:[('nothing from nothing',Implies(eq(slen(c.arg(0)),0),eq(slen(c.ret),0))),('accepts only complete streams',Implies(lt(0,slen(c.arg(0))),eq(blen(c.arg(0)),slen(c.arg(0))))),('what the stream decodes to',Implies(lt(0,slen(c.arg(0))),eq(c.ret,bplain(c.arg(0)))))])
# ---------------------------------------------------------------- gzip streams
GC,GD='Compress::GzipStreamCompressor','Compress::GzipStreamDecompressor'
for r in(GC,GD): owned('Lambda::'+r,'m_stream',Z)
def own(c,v,n): return c.field(v,'m_stream',n)
def zst(c,v,n): return c.field(v,'m_stream','val',n)
def holds(c,v): return And(own(c,v,'has'),own(c,v,'live'),zst(c,v,'$live'))
def stage(c,v,cls,n): return eq(c.field(v,'m_stage'),bv(c.ex.P.enums['Lambda::%s::Stage'%cls][n],32))
def cwf(c,v):
    o=zst(c,v,'$out'); return [('a stage',Or(*[stage(c,v,GC,n) for n in('Ready','Progress','Ended')])),('has a stream',holds(c,v)),('gzip',eq(zst(c,v,'$kind'),1)),('ready before anything is given',Implies(stage(c,v,GC,'Ready'),And(Not(zst(c,v,'$end')),eq(slen(zst(c,v,'$fed')),0),eq(slen(o),0)))),
        ('ended exactly when the stream is complete',And(Iff(stage(c,v,GC,'Ended'),zst(c,v,'$end')),Implies(stage(c,v,GC,'Ended'),And(eq(zlen(I(1),o),slen(o)),eq(zplain(I(1),o),zst(c,v,'$fed'))))))]
STR=(('this','m_stream','val'),('this','m_stage'),'g:zfault')
contract(GC+'::#ctor(Compress::Quality)',W,modifies=('this','g:zfault'),raises=lambda c:'any',ensures=lambda c:cwf(c,c.this_post)+[('ready',stage(c,c.this_post,GC,'Ready'))],
    opts={'onthrow':lambda c:[('only for a level out of range',Or(c.g_post('zfault'),bvcmp('bvslt',c.arg(0),bv(-1,32)),bvcmp('bvslt',bv(9,32),c.arg(0))))]})
def gone(c,v): return [('releases its stream',Implies(own(c,c.this,'has'),And(Not(own(c,c.this_post,'live')),Not(zst(c,c.this_post,'$live')))))]
for r,wf in((GC,cwf),(GD,lambda c,v:dwf(c,v))):
    contract(r+'::#dtor()',W,modifies=('this',),requires=lambda c:[('has a stream or none',Or(Not(own(c,c.this,'has')),holds(c,c.this)))],ensures=lambda c:gone(c,c.this))
class LV_:
    def __init__(s,v): s.ex=v.ex
    def field(s,x,*p):
        for n in p: x=s.ex.field(x,n)
        return x
def cloop(fin):
    def inv(v):
        c=LV_(v); t,t0=v.this,v.old_this; z=lambda n:zst(c,t,n); x=v.arg(0) if fin is None else empty(BV8); ai=bv2nat(z('avail_in')); n=slen(x)-ai; p=z('next_in'); o=z('$out'); F=eq(v.arg(1),bv(1,32)) if fin is None else TRUE; room=ne(z('avail_out'),bv(0,32)); zero=eq(z('avail_in'),bv(0,32))
        en=stage(c,t,GC,'Ended')
        return [('stream',holds(c,t)),('gzip',eq(z('$kind'),1)),('consumed so far',And(le(0,n),eq(z('$fed'),concat(zst(c,t0,'$fed'),ext(x,I(0),n))))),*([('where the input is',eq(p.off,n))] if fin is None else []),
            ('handed out so far',eq(o,concat(zst(c,t0,'$out'),v.resultBuff))),('complete stream',Implies(z('$end'),And(F,zero,eq(zlen(I(1),o),slen(o)),eq(zplain(I(1),o),z('$fed'))))),
            ('stage',And(Iff(en,z('$end')) if fin is None else en,Or(en,stage(c,t,GC,'Progress')))),('with room left everything is consumed',Implies(room,And(zero,Implies(F,z('$end')))))]
    return inv
def handed(c,x,n=GC): return [('takes all of it',eq(zst(c,c.this_post,'$fed'),concat(zst(c,c.this,'$fed'),x))),('hands out what is produced',eq(zst(c,c.this_post,'$out'),concat(zst(c,c.this,'$out'),c.ret)))]
def running(c): return Not(stage(c,c.this,GC,'Ended'))
def onlyfault(c,ok): return [('only behind the end',Or(c.g_post('zfault'),Not(ok)))]
FIN=lambda c:eq(c.arg(1),bv(1,32))
sz=lambda c:('a chunk below 4 GiB',lt(slen(c.arg(0)),1<<32))
contract(GC+'::nextChunk(vector<unsigned char> &,Compress::GzipStreamCompressor::StreamFlush)',W,modifies=STR,requires=lambda c:cwf(c,c.this)+[sz(c),('a known mode',Or(FIN(c),eq(c.arg(1),bv(0,32))))],raises=lambda c:'any',loops=[LoopSpec(cloop(None))],
    ensures=lambda c:cwf(c,c.this_post)+handed(c,c.arg(0))+[('not behind the end',running(c)),('ended if asked to, and only then',Iff(stage(c,c.this_post,GC,'Ended'),FIN(c))),('not ready any more',Not(stage(c,c.this_post,GC,'Ready')))],opts={'onthrow':lambda c:onlyfault(c,running(c))})
contract(GC+'::nextChunk(vector<unsigned char> &)',W,modifies=STR,requires=lambda c:cwf(c,c.this)+[sz(c)],raises=lambda c:'any',
    ensures=lambda c:cwf(c,c.this_post)+handed(c,c.arg(0))+[('not behind the end',running(c)),('goes on',stage(c,c.this_post,GC,'Progress'))],opts={'onthrow':lambda c:onlyfault(c,running(c))})
contract(GC+'::end()',W,modifies=STR,requires=lambda c:cwf(c,c.this),raises=lambda c:'any',loops=[LoopSpec(cloop(True))],
    ensures=lambda c:cwf(c,c.this_post)+handed(c,empty(BV8))+[('something was given before',stage(c,c.this,GC,'Progress')),('ended',stage(c,c.this_post,GC,'Ended'))],opts={'onthrow':lambda c:onlyfault(c,stage(c,c.this,GC,'Progress'))})
contract(GC+'::reset()',W,modifies=STR[:2],requires=lambda c:cwf(c,c.this),ensures=lambda c:cwf(c,c.this_post)+[('ready again',stage(c,c.this_post,GC,'Ready'))])
# the decompressor
def dwf(c,v):
    f,o=zst(c,v,'$fed'),zst(c,v,'$out'); d=stage(c,v,GD,'Done'); return [('a stage',Or(*[stage(c,v,GD,n) for n in('Ready','Progress','Done')])),('has a stream',holds(c,v)),('gzip or zlib',eq(zst(c,v,'$kind'),0)),('ready before anything is given',Implies(stage(c,v,GD,'Ready'),And(eq(slen(f),0),eq(slen(o),0)))),
        ('done exactly when a stream is complete',And(Iff(d,zst(c,v,'$end')),Implies(d,And(eq(zlen(I(0),f),slen(f)),eq(zplain(I(0),f),o))),Implies(Not(d),eq(zlen(I(0),f),-1))))]
contract(GD+'::#ctor()',W,modifies=('this','g:zfault'),raises=lambda c:'any',ensures=lambda c:dwf(c,c.this_post)+[('ready',stage(c,c.this_post,GD,'Ready'))],opts={'onthrow':lambda c:[('only for memory',c.g_post('zfault'))]})
def dloop(v):
    c=LV_(v); t,t0=v.this,v.old_this; z=lambda n:zst(c,t,n); x=v.arg(0); ai=bv2nat(z('avail_in')); n=slen(x)-ai; p=z('next_in'); f,o=z('$fed'),z('$out'); room=ne(z('avail_out'),bv(0,32)); zero=eq(z('avail_in'),bv(0,32)); d=stage(c,t,GD,'Done')
    return [('stream',holds(c,t)),('kind',eq(z('$kind'),0)),('where the input is',And(le(0,n),eq(p.off,n))),('consumed so far',eq(f,concat(zst(c,t0,'$fed'),ext(x,I(0),n)))),('handed out so far',eq(o,concat(zst(c,t0,'$out'),v.resultBuff))),
        ('stage',And(Iff(d,z('$end')),Or(d,stage(c,t,GD,'Progress')))),('what it decodes to',Implies(d,And(eq(zlen(I(0),f),slen(f)),eq(zplain(I(0),f),o)))),('with room left everything is consumed',Implies(And(room,Not(d)),And(zero,eq(zlen(I(0),f),-1)))),('given so far',eq(z('$seen'),concat(zst(c,t0,'$fed'),x)))]
def whole(c): return concat(zst(c,c.this,'$fed'),c.arg(0))
def dd(c): return Not(stage(c,c.this,GD,'Done'))
contract(GD+'::nextChunk(vector<unsigned char> &)',W,modifies=STR,requires=lambda c:dwf(c,c.this)+[sz(c)],raises=lambda c:'any',loops=[LoopSpec(dloop)],
    steps=lambda c:[('',stable(I(0),zst(c,c.this_post,'$fed'),whole(c)))],
    ensures=lambda c:dwf(c,c.this_post)+[('not behind the end',dd(c)),('hands out what is produced',eq(zst(c,c.this_post,'$out'),concat(zst(c,c.this,'$out'),c.ret))),('done exactly when the bytes given hold a complete stream',Iff(stage(c,c.this_post,GD,'Done'),le(0,zlen(I(0),whole(c))))),
        ('takes the bytes up to its end',eq(zst(c,c.this_post,'$fed'),ite(stage(c,c.this_post,GD,'Done'),ext(whole(c),I(0),zlen(I(0),whole(c))),whole(c)))),('not ready any more',Not(stage(c,c.this_post,GD,'Ready')))],
    opts={'onthrow':lambda c:[('only behind the end or for what is not a stream',Or(c.g_post('zfault'),Not(dd(c)),zbad(I(0),whole(c))))]})
contract(GD+'::isDone()const',W,ensures=lambda c:[('done',Iff(c.ret,stage(c,c.this,GD,'Done')))])
contract(GD+'::reset()',W,modifies=STR[:2],requires=lambda c:dwf(c,c.this),ensures=lambda c:dwf(c,c.this_post)+[('ready again',stage(c,c.this_post,GD,'Ready'))])
# moving hands the stream over
def samestream(c,a,b): return [('the same stream',And(Iff(own(c,a,'has'),own(c,b,'has')),Implies(own(c,b,'has'),And(Iff(own(c,a,'live'),own(c,b,'live')),Iff(zst(c,a,'$live'),zst(c,b,'$live')),eq(zst(c,a,'$fed'),zst(c,b,'$fed')),eq(zst(c,a,'$out'),zst(c,b,'$out')),Iff(zst(c,a,'$end'),zst(c,b,'$end')),eq(zst(c,a,'$kind'),zst(c,b,'$kind')))))),('the same stage',eq(c.field(a,'m_stage'),c.field(b,'m_stage')))]
for r in(GC,GD):
    contract(r+'::#ctor(%s &&)'%r,W,modifies=('this',0),requires=lambda c:[('has a stream or none',Or(Not(own(c,c.arg(0),'has')),holds(c,c.arg(0))))],ensures=lambda c:samestream(c,c.this_post,c.arg(0))+[('the other has none',Not(own(c,c.post(0),'has')))])
    contract(r+'::operator=(%s &&)'%r,W,modifies=('this',0),requires=lambda c:[('has a stream or none',And(Or(Not(own(c,c.arg(0),'has')),holds(c,c.arg(0))),Or(Not(own(c,c.this,'has')),holds(c,c.this))))],ensures=lambda c:samestream(c,c.this_post,c.arg(0))+[('the former stream has an owner',a) for _,a in samestream(c,c.post(0),c.this)])
def auto_(k,z): return Implies(And(Or(eq(k,1),eq(k,2)),eq(zlen(k,z),slen(z))),And(eq(zlen(I(0),z),slen(z)),eq(zplain(I(0),z),zplain(k,z))))
prop(W).assume.append('zlib: with automatic detection inflate reads gzip and zlib streams alike')
lemma(W,'what the compressor hands out is read back by the decompressor',[Int,Bytes,Bytes],lambda k,x,z:Implies(And(Or(eq(k,1),eq(k,2)),lt(0,slen(z)),eq(zlen(k,z),slen(z)),eq(zplain(k,z),x)),And(lt(0,zlen(I(0),z)),eq(zplain(I(0),ext(z,I(0),zlen(I(0),z))),x))),hints=lambda k,x,z:[auto_(k,z)])
