"""Development helper: confirm planted changes (seeded/<id>) and see which checks catch them.
plant.py ID...            confirm: applies, builds, stable tests pass, demo passes without / fails with the change
plant.py -c ID...         only run the property's check against the change
new(ID, prop, [(file, old, new)], demo_cpp, srcs, needs, breaks) writes a folder."""
import sys,os,subprocess,json,re,tempfile,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R=os.environ.get('LVC_REPO','/repo')
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
DEMO='''#!/bin/bash
# exit 0: the behaviour holds; run in /repo
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -w -include cstdint -I"$PWD" %(san)s "$here/demo.cpp" %(srcs)s -o "$tmp/demo" -pthread %(libs)s || exit 3
cd "$tmp" && timeout 120 ./demo
'''
def new(id,prop,edits,demo,srcs,needs,breaks,san='',libs=''):
    d=os.path.join(V,'seeded',id); os.makedirs(d,exist_ok=True)
    assert sh('git -C '+R+' status --porcelain').stdout.strip()=='','repo dirty'
    try:
        for f,a,b in edits:
            p=os.path.join(R,f); s=open(p).read(); assert s.count(a)==1,(f,a,s.count(a)); open(p,'w').write(s.replace(a,b))
        open(os.path.join(d,'patch.diff'),'w').write(subprocess.run(['git','-C',R,'diff'],stdout=subprocess.PIPE,text=True).stdout)
    finally: sh('git -C '+R+' checkout -- .')
    open(os.path.join(d,'demo.cpp'),'w').write(demo)
    p=os.path.join(d,'demo.sh'); open(p,'w').write(DEMO%dict(srcs=srcs,san=san,libs=libs)); os.chmod(p,0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(os.path.join(d,'meta.json'),'w'),indent=1)
def demo(id): return sh('bash %s/seeded/%s/demo.sh'%(V,id),cwd=R)
def confirm(id,checkonly=False,tests=True):
    prop=json.load(open('%s/seeded/%s/meta.json'%(V,id)))['property']
    assert sh('git -C '+R+' status --porcelain').stdout.strip()=='','repo dirty'
    ok=True; msg=[]
    if not checkonly:
        r=demo(id)
        if r.returncode!=0: msg.append('DEMO FAILS ON CLEAN: '+r.stdout[-500:]); ok=False
    try:
        r=sh('git -C %s apply %s/seeded/%s/patch.diff'%(R,V,id))
        if r.returncode: return print(id,'DOES NOT APPLY',r.stdout)
        if not checkonly:
            if tests and R=='/repo':
                r=sh('bash /opt/vp/build.sh')
                if r.returncode: msg.append('BUILD FAILS '+r.stdout[-800:]); ok=False
                o=tempfile.mktemp(); sh('bash /opt/vp/test.sh '+o); t=json.load(open(o)); st=json.load(open('/opt/vp/BASELINE.json'))['stable']; miss=[x for x in st if x not in t['passed']]
                if miss: msg.append('TESTS FAIL %s'%miss); ok=False
            r=demo(id)
            if r.returncode in(0,3): msg.append('DEMO DOES NOT FAIL WITH CHANGE (%d) %s'%(r.returncode,r.stdout[-800:])); ok=False
        r=sh('./check.sh %s quick'%prop,cwd=V)
        caught=r.returncode==1
        msg.append(('CAUGHT ' if caught else 'MISSED rc=%d '%r.returncode)+' / '.join(l for l in r.stdout.strip().split('\n')[-4:])[:600])
    finally: sh('git -C '+R+' checkout -- .')
    print(id,prop,'CONFIRMED' if ok and not checkonly else ('BAD' if not ok else ''),' | '.join(msg)); sys.stdout.flush()
if __name__=='__main__':
    a=sys.argv[1:]; c='-c' in a; n='-n' in a; a=[x for x in a if x[0]!='-'] or sorted(os.listdir(V+'/seeded'))
    for i in a: confirm(i,c,not n)
