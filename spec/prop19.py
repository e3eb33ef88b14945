"""JSON values: the Property class."""
from lvc.spec import *
from lvc.std import *
from js import B32
from strings import ptext,cstrz
Q='C19'; R='Lambda::JSON::Property'; C='JSON::Property::'
prop(Q,files=['core/json/property.cpp'])
UNDEF,NUL,STR,BOO,INT,FLT,ARR,MAP=range(-1,7)
FIELD={FLT:'internalDataFloat',INT:'internalDataInt',BOO:'internalDataBool',STR:'internalDataStr',ARR:'internalDataArray',MAP:'internalDataMap'}
for f in FIELD.values(): owned(R,f)
atomic('std::vector','JSON::Property'); atomic('std::unordered_map','string','JSON::Property')
def ty(c,p): return c.field(p,'internalType')
def K(k): return bv(k&0xffffffff,32)
def has(c,p,k): return c.field(p,FIELD[k],'has')
def live(c,p,k): return c.field(p,FIELD[k],'live')
def val(c,p,k): return c.field(p,FIELD[k],'val')
def isrep(c,p): return [('a known type',Or(*[eq(ty(c,p),K(k)) for k in range(-1,7)])),*[('%s is there exactly for its type'%f,And(Iff(has(c,p,k),eq(ty(c,p),K(k))),Iff(live(c,p,k),has(c,p,k)))) for k,f in FIELD.items()]]
def same(c,p,q): return [('same type',eq(ty(c,p),ty(c,q))),*[('same %s'%f,Implies(eq(ty(c,q),K(k)),eq(val(c,p,k),val(c,q,k)))) for k,f in FIELD.items()]]
def holds(k,v): return lambda c:isrep(c,c.this_post)+[('the type',eq(ty(c,c.this_post),K(k)))]+([('the value',eq(val(c,c.this_post,k),v(c)))] if v else [])
contract(C+'#ctor()',Q,modifies=('this',),ensures=holds(UNDEF,None))
contract(C+'#ctor(std::nullptr_t)',Q,modifies=('this',),ensures=holds(NUL,None))
for t in('long double','double','float'): contract(C+'#ctor(%s)'%t,Q,modifies=('this',),ensures=holds(FLT,lambda c:c.arg(0)))
contract(C+'#ctor(int)',Q,modifies=('this',),ensures=holds(INT,lambda c:c.arg(0)))
contract(C+'#ctor(short)',Q,modifies=('this',),ensures=holds(INT,lambda c:sext(c.arg(0),32)))
contract(C+'#ctor(unsigned short)',Q,modifies=('this',),ensures=holds(INT,lambda c:zext(c.arg(0),32)))
def u32(c):
    p=c.this_post; v=c.arg(0); small=bvcmp('bvult',v,B32(1<<31))
    return isrep(c,p)+[('an integer or a float',eq(ty(c,p),ite(small,K(INT),K(FLT)))),('the value as an integer',Implies(small,eq(val(c,p,INT),v))),('the value as a float',Implies(Not(small),eq(val(c,p,FLT),bv2nat(v))))]
contract(C+'#ctor(unsigned int)',Q,modifies=('this',),ensures=u32)
contract(C+'#ctor(bool)',Q,modifies=('this',),ensures=holds(BOO,lambda c:c.arg(0)))
contract(C+'#ctor(const string &)',Q,modifies=('this',),ensures=holds(STR,lambda c:c.arg(0)))
contract(C+'#ctor(const char *)',Q,modifies=('this',),opts={'ptr':{0:'cstr'}},ensures=holds(STR,lambda c:cstrz(ptext(c,0))))
contract(C+'#ctor(const vector<JSON::Property> &)',Q,modifies=('this',),ensures=holds(ARR,lambda c:c.arg(0)))
contract(C+'#ctor(const std::unordered_map<string,JSON::Property,std::hash<string>,std::equal_to<string>,std::allocator<std::pair<const string,JSON::Property>>> &)',Q,modifies=('this',),ensures=holds(MAP,lambda c:c.arg(0)))
for t in('const JSON::Property &','JSON::Property &&'):
    contract(C+'#ctor(%s)'%t,Q,modifies=('this',),requires=lambda c:isrep(c,c.arg(0)),ensures=lambda c:isrep(c,c.this_post)+same(c,c.this_post,c.arg(0))+same(c,c.post(0),c.arg(0))+isrep(c,c.post(0)))
contract(C+'operator=(const JSON::Property &)',Q,modifies=('this',),requires=lambda c:isrep(c,c.this)+isrep(c,c.arg(0)),opts={'noret':True},ensures=lambda c:isrep(c,c.this_post)+same(c,c.this_post,c.arg(0)))
contract(C+'#dtor()',Q,modifies=('this',),requires=lambda c:isrep(c,c.this),ensures=lambda c:[('releases %s'%f,Not(live(c,c.this_post,k))) for k,f in FIELD.items()])
contract(C+'type()const',Q,ensures=lambda c:[('the type',eq(c.ret,ty(c,c.this)))])
contract(C+'isUndefined()const',Q,ensures=lambda c:[('exactly for undefined values',Iff(c.ret,eq(ty(c,c.this),K(UNDEF))))])
contract(C+'isNull()const',Q,ensures=lambda c:[('exactly for null',Iff(c.ret,eq(ty(c,c.this),K(NUL))))])
contract(C+'isNil()const',Q,ensures=lambda c:[('exactly for null and undefined values',Iff(c.ret,Or(eq(ty(c,c.this),K(NUL)),eq(ty(c,c.this),K(UNDEF)))))])
for k,f in((FLT,'asFloat'),(INT,'asInt'),(BOO,'asBool'),(STR,'asString'),(ARR,'asArray'),(MAP,'asMap')):
    contract(C+f+'()const',Q,requires=lambda c:isrep(c,c.this),raises=lambda c,k=k:ne(ty(c,c.this),K(k)),ensures=lambda c,k=k:[('the value it holds',eq(c.ret,val(c,c.this,k)))])
