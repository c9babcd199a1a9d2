#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: (re)create /verif/seeded/<id> from a spec and confirm it in scratch copies under /tmp/plant.
SPEC defines B=[dict(id,prop,edits=[(file,old,new)...],main,needs,breaks)]"""
import os,subprocess,sys,shutil,json,threading,queue,tempfile
HERE=os.path.dirname(os.path.abspath(__file__)); OUT='/verif/seeded'; W='/tmp/plant'; SL=4
DEMO='''#!/bin/bash
# Run in /repo after the build: exit 0 if the property holds, 1 if it is broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never TZ=UTC
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/main.rs" "$here/common.rs" "$tmp/src/" && cp "$repo/Cargo.lock" "$tmp/" || exit 3
cat >"$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
ruplicity = { path = "$repo" }
tar = "0.4"
flate2 = "1.0"
time = "0.1"
[profile.dev]
overflow-checks = true
EOF
cd "$tmp" || exit 3
if ! CARGO_TARGET_DIR="$tmp/target" cargo build --offline >"$tmp/log" 2>&1; then
    tail -20 "$tmp/log"
    exit 3
fi
timeout 120 "$tmp/target/debug/demo"
'''
def sh(cmd,cwd=None,env=None,to=900):
    e=dict(os.environ); e.update(env or {})
    try:
        p=subprocess.run(cmd,shell=True,cwd=cwd,env=e,capture_output=True,text=True,timeout=to,errors='replace')
        return p.returncode,p.stdout+p.stderr
    except subprocess.TimeoutExpired: return 124,'timeout'
BASE=dict(PATH='/root/.cargo/bin:'+os.environ['PATH'],CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never')
TENV=dict(BASE,RUSTUP_TOOLCHAIN='stable',RUSTC_WRAPPER='',TZ='UTC',CARGO_PROFILE_DEV_DEBUG='line-tables-only',CARGO_INCREMENTAL='1')
st=json.load(open('/opt/vp/BASELINE.json')); st=st.get('stable') or st.get('passed') or st.get('stable_tests')
def slot(n):
    d='%s/s%d'%(W,n)
    if not os.path.exists(d+'/repo'):
        os.makedirs(d,exist_ok=True); sh('cp -a /repo %s/repo'%d)
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq',d+'/repo')
    sh('mkdir -p %s/harness; rm -rf %s/harness/src; cp -a /verif/harness/src /verif/harness/literals.txt /verif/harness/Cargo.* %s/harness/; cp -a /verif/harness/.cargo %s/harness/ 2>/dev/null'%(d,d,d,d))
    if not os.path.exists(d+'/harness/target'): sh('cp -a /verif/harness/target %s/harness/target'%d)
    sh("sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' %s/harness/Cargo.toml"%(d,d))
    return d
def original(d,patch):
    """are all the lines the patch removes, or the neighbours of what it inserts, lines of the original repository?"""
    bad=[]; f=None; n=0; ins=False
    for l in patch.splitlines():
        if l.startswith('--- a/'): f=l[6:]
        elif l.startswith('@@'): n=int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-') and f:
            rc,o=sh('git blame -s -L%d,%d %s'%(n,n,f),'/repo')
            if 'c87b80c' not in o.split()[0]: bad.append('%s:%d'%(f,n))
            n+=1
        elif l.startswith('+') and not l.startswith('+++') and f and not ins:
            rc,o=sh('git blame -s -L%d,%d %s'%(n-1,n-1,f),'/repo')
            if 'c87b80c' not in o.split()[0]: bad.append('after %s:%d'%(f,n-1))
        elif l.startswith(' '): n+=1
        ins=l[:1] in '+-' and not l.startswith('---')
    return bad
def one(d,b):
    o=OUT+'/'+b['id']
    R=d+'/repo'
    sh('git checkout -q -f HEAD -- . && git clean -fdq',R)
    for ff,a,c in b['edits']:
        p=R+'/src/'+ff; t=open(p).read()
        k=t.find('#[cfg(test)]\nmod test'); head,tail=(t,'') if k<0 else (t[:k],t[k:])
        if head.count(a)!=1: return 'BADSUB %s: %d matches of %r'%(ff,head.count(a),a[:70])
        open(p,'w').write(head.replace(a,c)+tail)
    rc,patch=sh('git diff --no-color',R)
    os.makedirs(o,exist_ok=True)
    for f in os.listdir(o): os.remove(o+'/'+f)
    open(o+'/patch.diff','w').write(patch)
    open(o+'/demo.sh','w').write(DEMO); os.chmod(o+'/demo.sh',0o755)
    open(o+'/main.rs','w').write('mod common;\n#[allow(unused_imports)]\nuse common::*;\n'+b['main'].lstrip('\n'))
    shutil.copy(HERE+'/common.rs',o+'/common.rs')
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(o+'/meta.json','w'),indent=1)
    res=[]
    bad=original(d,patch)
    if bad: res.append('NOT-ORIGINAL %s'%bad)
    rc,out=sh('timeout 300 cargo test --workspace --no-fail-fast --offline -- --test-threads 1 >log.txt 2>&1; python3 /opt/vp/results.py out.json cargo:log.txt',R,TENV)
    try:
        ok=json.load(open(R+'/out.json'))['passed']; miss=[t for t in st if t not in ok]
        res.append('tests-ok' if not miss else 'TESTS-FAIL(%s)'%','.join(miss)[:200])
    except Exception as e: res.append('TESTS-ERR %s %s'%(e,open(R+'/log.txt').read()[-600:]))
    sh('rm -f out.json log.txt',R)
    rc1,o1=sh(o+'/demo.sh',R)
    rc,out=sh('cargo build',d+'/harness',BASE)
    if rc: res.append('HARNESS-NOBUILD '+out[-200:])
    props=b['prop'].split() if not ALLP else ['P%02d'%i for i in range(1,25)]
    for p in props:
        rc,out=sh('%s/harness/target/debug/rv run %s'%(d,p),d,dict(RV_ROOT=d,RV_JOBS='3',RV_NO_EVIDENCE='1',VERIF_SEED='1'))
        msg=next((l for l in out.splitlines() if l.startswith('case ')),'')[:140] if rc==1 else (out[-150:] if rc else '')
        res.append('%s=%s %s'%(p,{0:'MISSED',1:'caught'}.get(rc,'rc%d'%rc),msg))
    sh('git checkout -q -f HEAD -- . && git clean -fdq',R)
    rc0,o0=sh(o+'/demo.sh',R)
    res.insert(0,'demo %d/%d'%(rc0,rc1)+('' if rc0==0 else ' CLEAN-FAILS '+o0[-800:])+('' if rc1!=0 else ' PATCH-PASSES')+(' DEMO-NOBUILD '+o1[-600:] if rc1==3 else ''))
    if rc1 not in (0,3): res.append('['+o1.strip()[:160].replace('\n',' ')+']')
    return ' | '.join(res)
a=sys.argv[1:]; ALLP='-a' in a; a=[x for x in a if x!='-a']
g={}; exec(open(a[0]).read(),g); B=g['B']; pats=a[1:]
if pats: B=[b for b in B if any(b['id'].startswith(p) for p in pats)]
q=queue.Queue(); [q.put(b) for b in B]
def work(n):
    d=slot(n)
    while True:
        try: b=q.get_nowait()
        except queue.Empty: return
        try: r=one(d,b)
        except Exception as e: r='EXC %r'%e
        print(b['id'],b['prop'],r,flush=True)
ts=[threading.Thread(target=work,args=(n,)) for n in range(min(SL,len(B)))]
[t.start() for t in ts]; [t.join() for t in ts]
