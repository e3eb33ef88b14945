"""Virtual filesystem: the table of files, its statistics, the snapshot queue and the tar format."""
from lvc.spec import *
from lvc.std import *
from lvc.ex import OptS,declare_dt,MapS
from strings import lowerS
V='C22'; I_='VFS::Interface::'
prop(V,files=['extra/vfs/interface.cpp'])
guarded('Lambda::VFS::Interface','m_mtx','m_data','m_info'); guarded('Lambda::VFS::Formats::SyncQueue','m_queue_mtx','m_queue'); guarded('Lambda::VFS::Formats::SyncQueue','m_future_mtx','m_watch_future')
SV=declare_dt(mangle('Lambda::VFS::StoredValue'),[('buffer',Bytes),('created',Int),('modified',Int)])
FS=MapS(Bytes,SV)
def sv(b,c,m): return dcons(SV[1],[b,c,m])
def data(c): return c.ex.to_term(c.field(c.this,'m_data'))
def datap(c): return c.ex.to_term(c.field(c.this_post,'m_data'))
buf=lambda x:dsel(x,'buffer'); cre=lambda x:dsel(x,'created'); mtm=lambda x:dsel(x,'modified')
# the total size of a table is the sum over its entries: how a sum changes with one entry
total=Fun('vfs_total',[FS],Int)
def old(m,k): return ite(mhas(m,k),slen(k)+slen(buf(mget(m,k))),I(0))
def sum0(m,k): return And(le(I(0),total(m)),le(old(m,k),total(m)))
def sumput(m,k,v): return eq(total(mput(m,k,v)),total(m)-old(m,k)+slen(k)+slen(buf(v)))
def sumdel(m,k): return eq(total(mdel(m,k)),total(m)-old(m,k))
prop(V).assume.append('the sum of sizes over a table changes by the size of the entry that is put or removed (vfs_total, spec/vfs.py)')
def put(m,*kvs):
    hs=[]
    for k,v in kvs: hs+=[Hint(Implies(mhas(m,k),le(1,dsel(m,'n')))),Hint(sum0(m,k)),Hint(sumput(m,k,v) if v is not None else sumdel(m,k))]; m=mput(m,k,v) if v is not None else mdel(m,k)
    return hs
def info(c,t): return (c.field(t,'m_info','totalFiles'),c.field(t,'m_info','totalSize'))
def inv(c,t,m): a,b=info(c,t); return [('counts the files',eq(a,dsel(m,'n'))),('adds up the sizes',eq(b,total(m))),('sizes are those of a memory',And(le(0,dsel(m,'n')),lt(dsel(m,'n'),I(1<<62)),lt(total(m),I(1<<62))))]
def pre(c): return inv(c,c.this,data(c))
def post(c): return inv(c,c.this_post,datap(c))[:2]
low=lambda c,i:lowerS(c.arg(i))

DT=('this','m_data'); IN=('this','m_info')
K=lambda c,i=0:lowerS(c.arg(i))
RD=I_+'read(const string &)'
def isfile(c,r,m,k): return [('found exactly if it is there',Iff(c.field(r,'has'),mhas(m,k)))]+[(n,Implies(mhas(m,k),eq(c.field(r,'val',f),x))) for n,f,x in(('its content','buffer',buf(mget(m,k))),('its creation time','created',cre(mget(m,k))),('its modification time','modified',mtm(mget(m,k))),('its name','name',k))]
contract(RD,V,ensures=lambda c:isfile(c,c.ret,data(c),K(c)))
def isinfo(c,x,m,k): return [(n,eq(c.field(x,f),v)) for n,f,v in(('its name','name',k),('its size','size',slen(buf(mget(m,k)))),('its creation time','created',cre(mget(m,k))),('its modification time','modified',mtm(mget(m,k))))]
contract(I_+'fileInfo(const string &)',V,ensures=lambda c:[('found exactly if it is there',Iff(c.field(c.ret,'has'),mhas(data(c),K(c))))]+[(n,Implies(mhas(data(c),K(c)),g)) for n,g in isinfo(c,c.field(c.ret,'val'),data(c),K(c))])
def written(c,b):
    m=data(c); k=K(c); v=mget(datap(c),k)
    return [('only that file changes',eq(datap(c),mput(m,k,v))),('it has the content written',eq(buf(v),b)),('an existing file keeps its creation time',Implies(mhas(m,k),eq(cre(v),cre(mget(m,k)))))]
wsteps=lambda c:[('sum',h) for h in put(data(c),(K(c),mget(datap(c),K(c))))]
for t in('const vector<unsigned char> &','const string &'):
    contract(I_+'write(const string &,%s)'%t,V,modifies=(DT,IN),requires=pre,ensures=lambda c:written(c,c.arg(1))+post(c),steps=wsteps)
contract(I_+'remove(const string &)',V,modifies=(DT,IN),requires=pre,ensures=lambda c:[('only that file is removed',eq(datap(c),ite(mhas(data(c),K(c)),mdel(data(c),K(c)),data(c))))]+post(c),
    steps=lambda c:[('sum',h) for h in put(data(c),(K(c),None))])
def moved(c):
    m=data(c); a=K(c,0); b=K(c,1); return ite(eq(a,b),m,mput(mdel(m,a),b,mget(m,a)))
contract(I_+'move(const string &,const string &)',V,modifies=(DT,IN),requires=pre,raises=lambda c:Not(mhas(data(c),K(c,0))),
    ensures=lambda c:[('the file has its new name, a file of that name is replaced, others are kept',eq(datap(c),moved(c)))]+post(c),
    steps=lambda c:[('sum',h) for h in put(data(c),(K(c,0),None),(K(c,1),mget(data(c),K(c,0))))]+[('sum',Hint(sum0(data(c),K(c,1))))])
contract(I_+'stats()const',V,ensures=lambda c:[('the statistics',And(*[eq(a,b) for a,b in zip((c.field(c.ret,'totalFiles'),c.field(c.ret,'totalSize')),info(c,c.this))]))])
VI=declare_dt(mangle('Lambda::VFS::VirtualFileInfo'),[('name',Bytes),('modified',Int),('created',Int),('size',Int)])
@specfn([FS,SeqS,Int],Seq(VI))
def infos(m,ks,i): k=nth(ks,i-1); f=mget(m,k); return ite(le(i,0),empty(VI),concat(infos(m,ks,i-1),unit(dcons(VI[1],[k,mtm(f),cre(f),slen(buf(f))]))))
contract(I_+'listAll()',V,ensures=lambda c:[('every file once with its name, times and size',eq(c.ret,infos(data(c),keysof(data(c)),slen(keysof(data(c))))))],
    loops=[LoopSpec(lambda v:[And(le(0,v.idx),le(v.idx,slen(v.range))),eq(v.result,infos(v.ex.to_term(v.f(v.this,'m_data')),v.range,v.idx))],dec=lambda v:slen(v.range)-v.idx)])
contract('VFS::VirtualFile::text()const',V,ensures=lambda c:[('the content',eq(c.ret,c.field(c.this,'buffer')))])
contract('VFS::VirtualFile::size()const',V,ensures=lambda c:[('the size of the content',eq(c.ret,slen(c.field(c.this,'buffer'))))])
# ---------------------------------------------------------------- tar archives
W='C23'
prop(W,files=['extra/vfs/format_tar.cpp','extra/vfs/syncqueue.cpp']).level='exploration'
def pad(n): return ite(eq(mod(n,512),0),I(0),I(512)-mod(n,512))
contract('getPaddingSize(unsigned long)',W,ensures=lambda c:[('fills the last block of 512 bytes',eq(c.ret,pad(c.arg(0)))),('whole blocks',eq(mod(c.arg(0)+c.ret,512),0)),('less than a block',And(le(0,c.ret),lt(c.ret,512)))])
VF=declare_dt(mangle('Lambda::VFS::VirtualFile'),[('buffer',Bytes),('created',Int),('modified',Int),('name',Bytes)])
Q='VFS::Formats::SyncQueue::'
def q(c): return c.ex.to_term(c.field(c.this,'m_queue'))
def qp(c): return c.ex.to_term(c.field(c.this_post,'m_queue'))
QF=('this','m_queue')
contract(Q+'push(VFS::VirtualFile &&)',W,modifies=(QF,),ensures=lambda c:[('the file is queued behind the others',eq(qp(c),concat(q(c),unit(c.ex.to_term(c.arg(0))))))])
contract(Q+'next()',W,modifies=(QF,),raises=lambda c:eq(slen(q(c)),0),ensures=lambda c:[('the first file is handed out',eq(c.ex.to_term(c.ret),nth(q(c),0))),('and removed from the queue',eq(qp(c),drop(q(c),I(1))))])
contract(Q+'empty()const',W,ensures=lambda c:[('nothing queued',Iff(c.ret,eq(slen(q(c)),0)))])
contract(Q+'close()',W,modifies=(('this','m_done'),),ensures=lambda c:[('closed',c.field(c.this_post,'m_done','v'))])
contract(Q+'done()const',W,ensures=lambda c:[('closed',Iff(c.ret,c.field(c.this,'m_done','v')))])
contract(Q+'operator=(VFS::Formats::SyncQueue &&)',W,modifies=('this',0),ensures=lambda c:[('takes over the files',eq(qp(c),c.ex.to_term(c.field(c.arg(0),'m_queue'))))],opts={'ret':lambda c:c.args['this']})
