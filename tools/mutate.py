import re,subprocess,random,sys,os,json,time
REPO='/tmp/dev2/repo'
random.seed(int(sys.argv[1])); N=int(sys.argv[2])
MAP=[('crates/compaction/','C04 C11 C03'),('crates/context-processing/','C01 C02 C08'),('crates/expansion/','C02 C10'),('crates/core/src/flattening','C05 C06'),
('crates/core/src/rdf','C06 C15'),('crates/core/src/quad.rs','C15 C06'),('crates/core/src/loader/reqwest','C09'),('crates/core/src/loader','C09 C08'),('crates/core/src/context','C14 C01 C04'),('crates/core/src/deserialization','C15'),
('crates/core/src/document','C13 C03'),('crates/core/src/object','C13 C03 C15'),('crates/core/src/serialization.rs','C15 C13'),('crates/core/src','C13 C14 C03 C15 C04'),
('crates/serialization','C15'),('crates/syntax','C14 C13 C10'),('src/processor','C08 C11 C02 C04')]
OPS=[(r' == ',' != '),(r' != ',' == '),(r' && ',' || '),(r' \|\| ',' && '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\.is_none\(\)','.is_some()'),(r'\.is_some\(\)','.is_none()'),
(r'if !','if '),(r'if (?!let)(?=[a-z])','if !'),(r'ContainerKind::Graph\b','ContainerKind::Set'),(r'ContainerKind::Index\b','ContainerKind::Id'),(r'ContainerKind::List\b','ContainerKind::Set'),(r'Keyword::(Index|Type|Language|Direction|Graph|Included|List|Set|Reverse)\b','Keyword::Id'),
(r'\bSome\((\w+)\)(?=[,;]?$)','None'),(r' \+ 1\b',''),(r' > ',' >= '),(r' < ',' <= '),(r'\.is_empty\(\)','.is_empty() == false'),(r'\.or_else\(.*\)$',''),(r'\.unwrap_or\(true\)','.unwrap_or(false)'),(r'continue','{}'),(r'\.chain\([^()]*(\([^()]*\))?[^()]*\)',''),(r'\.rev\(\)',''),(r'\.any\(','.all('),(r'\.all\(','.any(')]
def orig(f):
    out=subprocess.run(['git','-C',REPO,'blame','-s','bf52979..HEAD','--',f],capture_output=True,text=True).stdout.split('\n')
    return [l.startswith('^') for l in out]
files=subprocess.run("git -C %s ls-files 'crates/*/src/*.rs' 'src/*.rs' | grep -v 'testing\|/cli/\|/tests'"%REPO,shell=True,capture_output=True,text=True).stdout.split()
c=[]
for f in files:
    if not any(f.startswith(m[0]) for m in MAP): continue
    L=open(f'{REPO}/{f}').read().split('\n'); o=orig(f)
    for i,l in enumerate(L):
        s=l.strip()
        if s.startswith('mod tests') or '#[cfg(test)]' in s: break
        if s.startswith('//') or s.startswith('#') or i>=len(o) or not o[i] or s.startswith('use ') : continue
        for p,r in OPS:
            for m in re.finditer(p,l):
                c.append((f,i,l,l[:m.start()]+m.expand(r) .replace('\\','') +l[m.end():]))
        if s.endswith(';') and re.match(r'(self\.|result\.|[a-z_\.]+\.(insert|push|extend|set_|append|remove|sort)|\w+ = |\*\w+ = )',s) and not s.startswith('let'):
            c.append((f,i,l,''))
by={}
for x in c: by.setdefault(x[0],[]).append(x)
# weight files by sqrt size
pool=[]
for f,x in by.items():
    random.shuffle(x); pool+=x[:max(2,int(len(x)**0.6))]
random.shuffle(pool)
print(len(c),len(pool),flush=True)
def dv(cmd,t): 
    try: return subprocess.run(['/tmp/dv2',cmd],capture_output=True,text=True,timeout=t)
    except subprocess.TimeoutExpired as e:
        class R: returncode=124; stdout='timeout';stderr=''
        return R
for f,i,a,b in pool[:N]:
    p=f'{REPO}/{f}'; src=open(p).read(); L=src.split('\n'); L[i]=b; open(p,'w').write('\n'.join(L))
    t=time.time(); checks=[m[1] for m in MAP if f.startswith(m[0])][0].split(); res=None
    r=dv('cd mc && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target cargo build --release --offline --quiet 2>&1 | grep -c "^error"',600)
    if r.stdout.strip()!='0': res='nc'
    else:
        for x in checks:
            r=dv(f'MC_MAX_BAD=1 timeout 400 bash check.sh {x}',500)
            if r.returncode!=0: res=f'caught {x} rc={r.returncode}'; break
        if not res:
            r=dv('cd /repo && CARGO_TARGET_DIR=/tmp/dev2/tt timeout 800 cargo test --workspace --all-features --lib --test custom --offline --no-fail-fast 2>&1 | grep -c "FAILED\|error\|panicked"',900)
            res='GAP' if r.stdout.strip()=='0' else 'tests '+r.stdout.strip()[-20:]
    open(p,'w').write(src)
    print(f'{res} [{time.time()-t:.0f}s] {f}:{i+1}: {a.strip()}  ==>  {b.strip()}',flush=True)
