#!/usr/bin/env python3
"""plant.py SPEC.py...: each spec defines id, prop, edits=[(file,old,new)], pkg, body, needs, breaks.
Writes /verif/seeded/<id> after confirming patch, tests and demonstration."""
import sys,os,subprocess,json,shutil,re
lib=os.path.join(os.path.dirname(os.path.abspath(__file__)),'lib')
REPO=os.environ.get('PREPO','/tmp/plant.repo')
if not os.path.exists(REPO): subprocess.run(['cp','-a','/repo',REPO],check=True)
def sh(cmd,cwd=REPO,timeout=600):
    p=subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
    return p.returncode,p.stdout
def clean(): sh('git checkout -- .')
def stable():
    b=json.load(open('/opt/vp/BASELINE.json'))
    return b
def tests_ok():
    out=REPO+'.json'
    if sh("sed 's|cd /repo|cd %s|' /opt/vp/build.sh | bash"%REPO)[0]: return False,'build'
    sh("sed 's|cd /repo|cd %s|' /opt/vp/test.sh | bash -s %s"%(REPO,out))
    o=json.load(open(out)); b=stable()
    st=b.get('stable') or b.get('passed') or b
    st=st if isinstance(st,list) else st.get('passed',[])
    miss=[t for t in st if t not in set(o.get('passed',[]))]
    return not miss,str(miss)
DEMO='''#!/bin/bash
# cwd is the repository; the test is laid over package %(pkg)s.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TZ=UTC
d=$(mktemp -d)
trap 'find "$d" -depth -delete' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go","%%s/%(pkg)s/zz_lib_test.go":"%%s/lib_test.go"}}' "$(pwd)" "$here" "$(pwd)" "$here" >"$d/o.json"
export TMPDIR=$d
go test -vet=off -count=1 -timeout 120s -overlay "$d/o.json" -run 'TestDemo$' ./%(pkg)s >"$d/log" 2>&1
rc=$?
grep -v level= "$d/log" | tail -30
exit $rc
'''
def plant(sp):
    id=sp['id']; d='/verif/seeded/'+id
    sp.setdefault('imports',[])
    clean()
    for f,old,new in sp['edits']:
        s=open(REPO+'/'+f).read()
        n=s.count(old)
        if n!=1: print(id,'EDIT matches',n,'times in',f,repr(old[:60])); clean(); return False
        open(REPO+'/'+f,'w').write(s.replace(old,new))
    rc,diff=sh('git diff')
    clean()
    for f,old,new in sp['edits']:
        rc,base=sh('git show 0277d43:'+f)
        gone=[l for l in old.split('\n') if l.strip() and l not in new.split('\n')]
        for l in gone:
            if l not in base.split('\n'): print(id,'NOTE line not of the original:',l)
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    pkgname=sp['pkg'].split('/')[-1]+'_test'
    imp=list(sp.get('imports',[]))
    M='github.com/patrickhuang888/goorc/'
    for n,path in dict(api=M+'orc/api',pb=M+'pb/pb',config=M+'orc/config',orc=M+'orc',column=M+'orc/column',encoding=M+'orc/encoding',orcio=M+'orc/io',stream=M+'orc/stream',common=M+'orc/common',bytes='bytes',os='os',fmt='fmt',ioutil='io/ioutil',filepath='path/filepath',strings='strings',errors='errors',io='io',reflect='reflect',time='time',sync='sync',binary='encoding/binary',proto='github.com/golang/protobuf/proto',math='math',runtime='runtime',flate='compress/flate').items():
        if re.search(r'(?<![\w.])'+n+r'\.[A-Z]',sp['body']) and path not in imp: imp.append(path)
    imports=''.join('\torcio "%s"\n'%i if i.endswith('orc/io') else '\t"%s"\n'%i for i in imp)
    open(d+'/lib_test.go','w').write(open(lib+'/'+sp['pkg'].split('/')[-1]+'.go').read())
    open(d+'/demo_test.go','w').write('package %s\n\nimport (\n\t"testing"\n%s)\n\n%s\n'%(pkgname,imports,sp['body'].strip()+'\n'))
    sh('gofmt -w '+d+'/demo_test.go')
    open(d+'/demo.sh','w').write(DEMO%{'pkg':sp['pkg']}); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":sp['prop'],"needs":sp['needs'],"what_it_breaks":sp['breaks']},open(d+'/meta.json','w'),indent=1)
    ok=True
    rc,out=sh('bash '+d+'/demo.sh')
    if rc: print(id,'demo FAILS on unchanged tree:\n',out); ok=False
    sh('git apply '+d+'/patch.diff')
    t,m=tests_ok()
    if not t: print(id,'tests break:',m); ok=False
    rc,out=sh('bash '+d+'/demo.sh')
    if rc==0: print(id,'demo does NOT fail with the patch'); ok=False
    if 'build failed' in out or 'setup failed' in out: print(id,'demo does not build',out); ok=False
    if ok:
        r=[l for l in out.split('\n') if 'demo_test' in l or 'lib_test' in l or 'panic' in l]
        print(id,'ok:',r[:2])
    caught=''
    if os.path.exists('/tmp/gv'):
        rc,o=sh('GOORCVET_REPO='+REPO+' GOORCVET_VERIF=/tmp/ev GOFLAGS=-mod=mod /tmp/gv all')
        v=sorted(set(re.findall(r'VIOLATION property=(\S+)',o)))
        print('   caught by',v,'OWN' if sp['prop'] in v else 'MISSED')
        if sp['prop'] not in v or '-v' in sys.argv: pass
        for l in o.split('\n'):
            if l.startswith('orc/') and '-q' not in sys.argv: print('     ',l[:260]); break
    clean()
    if not ok: shutil.rmtree(d)
    return ok
if __name__=='__main__':
    for f in sys.argv[1:]:
        if f.startswith('-') or f.startswith('id='): continue
        src=open(f).read()
        common={}
        only=[a[3:] for a in sys.argv if a.startswith('id=')]
        for part in re.split(r'(?m)^#=====.*$',src):
            if part.strip():
                g=dict(common)
                exec(part,g)
                if 'id' not in g: common=g; continue
                if only and g['id'] not in only: continue
                plant(g)
