#!/usr/bin/env python3
"""automut.py OUT.jsonl [-s SLOTS] [-f FRACTION] [file...]: small syntactic changes of every line of /repo/src, one at a time,
in scratch copies under /tmp/am: which compile, which the stable tests notice, and which check notices the others."""
import os,re,sys,json,subprocess,threading,queue,random,hashlib
SL=6; FR=0.25
a=sys.argv[1:]; out=a.pop(0)
if '-s' in a: i=a.index('-s'); SL=int(a[i+1]); del a[i:i+2]
if '-f' in a: i=a.index('-f'); FR=float(a[i+1]); del a[i:i+2]
W='/tmp/am'
BASE=dict(PATH='/root/.cargo/bin:'+os.environ['PATH'],CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never')
TENV=dict(BASE,RUSTUP_TOOLCHAIN='stable',RUSTC_WRAPPER='',TZ='UTC',CARGO_PROFILE_DEV_DEBUG='line-tables-only',CARGO_INCREMENTAL='1')
st=json.load(open('/opt/vp/BASELINE.json')); st=st.get('stable') or st.get('passed') or st.get('stable_tests')
QUICK={}
def sh(cmd,cwd=None,env=None,to=900):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.Popen(cmd,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',start_new_session=True)
    try: o,_=p.communicate(timeout=to); return p.returncode,o
    except subprocess.TimeoutExpired:
        import signal; os.killpg(p.pid,signal.SIGKILL); p.communicate(); return 124,'timeout'
def slot(n):
    d='%s/s%d'%(W,n)
    if not os.path.exists(d+'/repo'): os.makedirs(d,exist_ok=True); sh('cp -a /repo %s/repo'%d)
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq',d+'/repo')
    sh('mkdir -p %s/harness; rm -rf %s/harness/src; cp -a /verif/harness/src /verif/harness/literals.txt /verif/harness/Cargo.* %s/harness/; cp -a /verif/harness/.cargo %s/harness/ 2>/dev/null'%(d,d,d,d))
    if not os.path.exists(d+'/harness/target'): sh('cp -a /verif/harness/target %s/harness/target'%d)
    sh("sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' %s/harness/Cargo.toml"%(d,d))
    return d
OPS=[(r'==','!='),(r'!=','=='),(r' <= ',' < '),(r' >= ',' > '),(r' < ',' <= '),(r' > ',' >= '),(r' < ',' > '),(r' > ',' < '),
 (r'&&','||'),(r'\|\|(?= )','&&'),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r' \+ 1\b',''),(r' - 1\b',''),(r' \+ 1\b',' + 2'),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' + '),(r' / ',' * '),(r'\+= 1','+= 2'),
 (r'\.rev\(\)',''),(r'\.peekable\(\)',None),(r'Ordering::Less','Ordering::Greater'),(r'Ordering::Greater','Ordering::Less'),(r'Ordering::Equal','Ordering::Less'),
 (r'\.min\(','.max('),(r'\.max\(','.min('),(r'\bbreak\b','continue'),(r'\bcontinue\b','break'),(r'if !','if '),(r'\bif (?!let|!)','if !'),(r'(?<=[ (])!(?=[a-z(])',''),
 (r"b' '","b'\\t'"),(r"b'/'","b'.'"),(r"b'\\n'","b'\\r'"),(r'"([^"{}\\]+)"',r'"\1x"'),(r'\b0\b','1'),(r'\b1\b','0'),(r'\b1\b','2'),(r'\b2\b','3'),(r'\b(\d{2,})\b',lambda m:str(int(m.group(1))+1)),
 (r'Some\(([a-z_]+)\)$','None'),(r'\.start_time','.end_time'),(r'\.end_time','.start_time'),(r'first_','last_'),(r'last_','first_'),(r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),
 (r'\.any\(','.all('),(r'\.all\(','.any('),(r'\.filter\(\|(\w+)\| ',r'.filter(|\1| !'),(r'\.first\(\)','.last()'),(r'\.last\(\)','.first()'),(r'saturating_','wrapping_'),(r'\.starts_with\(','.ends_with('),(r'\.ends_with\(','.starts_with('),
 (r'start_','end_'),(r'end_','start_'),(r'uname','gname'),(r'gname','uname'),(r'\buid\b','gid'),(r'\bgid\b','uid'),(r'hint\.1','hint.0'),(r'_volumes','_snapshots'),(r'compressed','encrypted'),(r'encrypted','compressed'),(r'username','groupname'),(r'groupname','username'),(r'\.and_then\(','.map('),(r'into_local','into_utc'),(r'now_utc','now'),(r'time::at\b','time::at_utc'),(r'time::at_utc','time::at'),(r'\.next\(\)','.last()'),(r'\.cloned\(\)',''),(r'backup_chains','signature_chains'),(r'\?;$',';'),(r'is_full','is_incremental'),(r'unwrap_or\(0\)','unwrap_or(1)'),(r'push\(','insert(0, '),(r'sort_by','sort_unstable_by'),(r'\.insert\(','.remove(&'),(r'\.extend\(','.truncate('),(r'Full','Inc'),(r'\bInc','Full')]
def mutants():
    M=[]
    for dp,_,fs in sorted(os.walk('/repo/src')):
        for f in sorted(fs):
            p=os.path.join(dp,f); rel=p[len('/repo/'):]
            if a and not any(x in rel for x in a): continue
            t=open(p).read(); k=t.find('#[cfg(test)]\nmod test'); head=t if k<0 else t[:k]
            L=head.split('\n')
            for n,l in enumerate(L):
                s=l.strip()
                if not s or s.startswith('//') or s.startswith('use ') or s.startswith('#') or s.startswith('pub use') or s.startswith('extern'): continue
                seen=set()
                for rx,rep in OPS:
                    if rep is None: continue
                    for m in re.finditer(rx,l):
                        try: new=l[:m.start()]+(m.expand(rep) if isinstance(rep,str) else rep(m))+l[m.end():]
                        except Exception: continue
                        if new!=l and new not in seen: seen.add(new); M.append((rel,n,l,new))
                # a statement left out
                if s.endswith(';') and not s.startswith('let ') and not s.startswith('return') and '{' not in s and not s.startswith('}') and not s.startswith('pub ') and '=>' not in s:
                    M.append((rel,n,l,''))
                if re.match(r'^\.[a-z_]+\(.*\)$',s): M.append((rel,n,l,''))
    return M
ORDER=['P01','P09','P06','P08','P05','P10','P11','P16','P18','P24','P19','P22','P14','P13','P03','P07','P02','P04','P21','P17','P15','P23','P20','P12']
def order(rel):
    pri={'manifest':['P09','P10','P11'],'timefmt':['P16','P17'],'file_naming':['P08','P16','P06','P07'],'collections/mod':['P06','P08','P24','P07'],'local':['P20','P13'],'rawpath':['P18','P02','P11','P01'],'signatures':['P01','P03','P18','P22','P21'],'lib.rs':['P05','P19','P15','P14','P13']}
    for k,v in pri.items():
        if k in rel: return v+[x for x in ORDER if x not in v]
    return ORDER
def one(d,m):
    rel,n,l,new=m
    R=d+'/repo'
    sh('git checkout -q -f HEAD -- .',R)
    p=R+'/'+rel; L=open(p).read().split('\n'); assert L[n]==l; L[n]=new; open(p,'w').write('\n'.join(L))
    rc,o=sh('cargo check',R,dict(BASE,CARGO_TARGET_DIR=d+'/chk'),120)
    if rc: return 'nobuild'
    rc,o=sh('timeout 100 cargo test --workspace --no-fail-fast --offline -- --test-threads 1 >log.txt 2>&1; python3 /opt/vp/results.py out.json cargo:log.txt',R,TENV)
    try:
        ok=json.load(open(R+'/out.json'))['passed']; miss=[t for t in st if t not in ok]
    except Exception as e: miss=['?']
    sh('rm -f out.json log.txt',R)
    if miss: return 'tests'
    rc,o=sh('cargo build',d+'/harness',BASE)
    if rc: return 'harness-nobuild'
    for i in order(rel):
        env=dict(RV_ROOT=d,RV_JOBS='2',RV_NO_EVIDENCE='1',VERIF_SEED='1')
        if i!='P12' : env['RV_CASES']=str(int(QUICK[i]*FR))
        rc,o=sh('%s/harness/target/debug/rv run %s'%(d,i),d,env,400)
        if rc==1 and 'VIOLATION' in o: return i+' '+next((x for x in o.splitlines() if x.startswith('case ')),'')[:160]
        if rc==124: return i+' TIMEOUT'
        if rc not in (0,1,2): return i+' rc%d %s'%(rc,o[-200:])
    return 'SURVIVED'
rc,o=sh('/verif/harness/target/debug/rv list')
for l in o.splitlines():
    w=l.split()
    if w and w[0][0]=='P': QUICK[w[0]]=int(re.search(r'(\d+)',l[3:]).group(1))
M=mutants(); random.Random(5).shuffle(M)
done=set()
if os.path.exists(out):
    for l in open(out): x=json.loads(l); done.add((x['f'],x['n'],x['old'],x['new']))
M=[m for m in M if m not in done]
print(len(M),'mutants',QUICK,flush=True)
if __name__=='__main__' and os.environ.get('DRY')!='1':
    q=queue.Queue(); [q.put(m) for m in M]; lock=threading.Lock(); f=open(out,'a')
    def work(n):
        d=slot(n)
        while True:
            try: m=q.get_nowait()
            except queue.Empty: return
            try: r=one(d,m)
            except Exception as e: r='EXC %r'%e
            with lock:
                f.write(json.dumps(dict(f=m[0],n=m[1],old=m[2],new=m[3],r=r))+'\n'); f.flush()
    ts=[threading.Thread(target=work,args=(n,)) for n in range(SL)]
    [t.start() for t in ts]; [t.join() for t in ts]
