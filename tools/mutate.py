#!/usr/bin/env python3
"""Mutation analysis: makes small syntactic changes to /repo's sources in scratch copies, drops those that do not build or that the
repository's own tests notice, and runs the checks on the rest until one reports a violation. Not part of any check.
usage: mutate.py gen FILE...   -> /tmp/mut/list.json ;  mutate.py run [workers] -> /tmp/mut/result.jsonl"""
import sys,os,re,json,subprocess,shutil,random,time,threading,queue
R='/repo'; W='/tmp/mut'; V='/verif'
FULL=bool(os.environ.get('FULL'))
SAMPLE=['C22','C23','C31','C26','C25','C27','C30']
ORDER='C13 C12 C20 C21 C24 C14 C11 C10 C08 C07 C15 C09 C03 C04 C05 C01 C18'.split()
EXTRA={'src/file.c':['C02'],'src/cache.c':['C16'],'src/dir.c':['C06'],'src/readlink.c':['C06']}
FIRST={'cache':'C24 C28 C18 C13','dir':'C08 C07 C09 C14','dirent':'C10 C09','fd':'C04 C03 C13','file':'C01 C28 C03 C13 C02 C18','extract':'C15 C13','hash':'C24','stack':'C24','readlink':'C12','stat':'C11 C13','scandir':'C10','table':'C21 C28 C20','traverse':'C14','fs':'C28 C20 C18 C11 C08 C02 C32','decompress':'C28 C18 C20','enclose_io_unix':'C22 C23 C26 C25'}
def sh(c,t=600,**k):
    try: return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=t,**k)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(c,124,'timeout','')
def mutants(f):
    L=open(f'{R}/{f}').read().split('\n'); out=[]; win=[]; depth=0; cm=False; live=set(); cur=None
    for x in sh(f'cd {R} && gcc -E -Iinclude -Isample -Isrc {f}').stdout.split('\n'):
        m=re.match(r'# (\d+) "(.*?)"',x)
        if m: cur=m.group(2); ln=int(m.group(1)); continue
        if cur==f and x.strip(): live.add(ln)
        if cur==f: ln+=1
    for i,l in enumerate(L):
        s=l.strip()
        if s.startswith('#') or i+1 not in live: continue
        if '/*' in s and '*/' not in s: cm=True
        if cm:
            if '*/' in s: cm=False
            continue
        inside=depth>0; depth+=l.count('{')-l.count('}')
        if not inside or s.startswith(('//','*','/*','static const','case ','assert','goto','break','}')) or not s: continue
        code=l.split('//')[0]
        def add(n,why):
            if n!=l: out.append((f,i,l,n,why))
        for m in re.finditer(r'(?<![-<>=!])(<=|>=|==|!=|<|>)(?![<>=])',code):
            if '#include' in code or '->' in code[m.start()-1:m.end()+1]: continue
            o=m.group(1)
            for n in {'<':['<='],'<=':['<'],'>':['>='],'>=':['>'],'==':['!='],'!=':['==']}[o]: add(l[:m.start()]+n+l[m.end():],o+' -> '+n)
        for m in re.finditer(r' ([+-]) 1\b',code):
            add(l[:m.start()]+l[m.end():],'drop'+m.group()); 
        for m in re.finditer(r'&&|\|\|',code): add(l[:m.start()]+('||' if m.group()=='&&' else '&&')+l[m.end():],'swap '+m.group())
        for m in re.finditer(r'(?<![\w.])(0|1|2|3)(?![\w.x])',code):
            add(l[:m.start()]+str(int(m.group())+1)+l[m.end():],'const '+m.group()+'+1')
            if m.group()!='0': add(l[:m.start()]+str(int(m.group())-1)+l[m.end():],'const '+m.group()+'-1')
        for m in re.finditer(r' ([+*/%-]) ',code):
            n={'+':'-','-':'+','*':'/','/':'*','%':'/'}[m.group(1)]; 
            if re.search(r'\w\s*$',code[:m.start()]) or code[:m.start()].endswith(')'): add(l[:m.start()]+' '+n+' '+l[m.end():],m.group(1)+' -> '+n)
        for m in re.finditer(r'(\+=|-=)',code): add(l[:m.start()]+('-=' if m.group()=='+=' else '+=')+l[m.end():],'swap '+m.group())
        for m in re.finditer(r'(?<![=!])!(?!=)(?=[\w(])',code): add(l[:m.start()]+l[m.end():],'drop !')
        m=re.match(r'^(\s*)if \((.*)\)( \{)?$',code)
        if m: add(f'{m.group(1)}if (!({m.group(2)})){m.group(3) or ""}','negate if')
        if s.endswith(';') and '(' in s and '=' not in s and not s.startswith('return'): add('/* dropped */;','drop call')
        if re.match(r'^[\w.>*()&\[\]\s-]+ ?[-+|&]?= ?.*;$',s) and not re.match(r'^(static |const |struct |short |int |char |size_t |sqfs_\w+ |ssize_t |off_t |u?int\d+_t |long |SQUASH_\w+ |MUTEX |mode_t |va_list )\**\s*\w+',s): add('/* dropped */;','drop assignment')
        m=re.match(r'^\s*(if|while) \((.*) && (.*)\)( \{)?$',code)
    seen=set(); r=[]
    for x in out:
        if (x[1],x[3]) not in seen: seen.add((x[1],x[3])); r.append(x)
    return r
def copy(d):
    sh(f'rm -rf {d}; mkdir -p {d}; cp -a {R}/. {d}/r; cd {d}/r && git checkout -q -- . && rm -rf _build')
    for t in ('build','test'): open(f'{d}/{t}.sh','w').write(open(f'/opt/vp/{t}.sh').read().replace('/repo',f'{d}/r').replace('/opt/vp/build.sh',f'{d}/build.sh'))
def main():
    if sys.argv[1]=='gen':
        allm=[]; random.seed(5)
        for f in sys.argv[2:]: m=mutants(f); print(f,len(m)); allm+=m
        random.shuffle(allm); json.dump(allm,open(f'{W}/list.json','w')); return
    n=int(sys.argv[2]); lst=json.load(open(f'{W}/list.json')); done=set()
    if os.path.exists(f'{W}/result.jsonl'):
        for l in open(f'{W}/result.jsonl'): x=json.loads(l); done.add((x['f'],x['i'],x['n']))
    q=queue.Queue(); [q.put(x) for x in lst if (x[0],x[1],x[3]) not in done]; lock=threading.Lock(); stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    def worker(k):
        d=f'{W}/w{k}'; copy(d); e=dict(os.environ,VF_REPO=f'{d}/r',VF_BUILD=f'{d}/b',VF_STOP='1'); cnt=0
        while not os.path.exists(f'{W}/stop'):
            try: f,i,o,nl,why=q.get_nowait()
            except queue.Empty: break
            p=f'{d}/r/{f}'; T=open(f'{R}/{f}').read().split('\n'); assert T[i]==o; T[i]=nl; open(p,'w').write('\n'.join(T)); t0=time.time()
            try: os.remove(f'{d}/t.json')
            except OSError: pass
            t=sh(f'timeout 60 bash {d}/test.sh {d}/t.json',90); res='?'; by=''
            if not os.path.exists(f'{d}/t.json') or not stable<=set(json.load(open(f'{d}/t.json'))['passed']): res='tests'
            else:
                res='MISSED'
                for c in dict.fromkeys(FIRST.get(os.path.basename(f)[:-2],'').split()+['C13']+([] if not FULL else SAMPLE if f.startswith('sample') else ORDER+EXTRA.get(f,[]))):
                    if not os.path.exists(f'{V}/harness/{c.lower()}.cpp'): continue
                    r=sh(f'{V}/bin/check {c} --jobs 1',200,env=e)
                    if r.returncode==1 and 'VIOLATION' in r.stdout: res='caught'; by=c; break
                    if r.returncode!=0: by+=f'{c}:{r.returncode} '
                    if r.returncode==2 and 'error:' in r.stdout: res='nobuild'; break
            shutil.copy(f'{R}/{f}',p); cnt+=1
            with lock: open(f'{W}/result.jsonl','a').write(json.dumps(dict(f=f,i=i,o=o,n=nl,why=why,res=res,by=by,t=round(time.time()-t0,1)))+'\n')
            if cnt%10==0: sh(f'find {d}/b -mmin +30 -delete; pkill -f {d}/b/c 2>/dev/null')
    ts=[threading.Thread(target=worker,args=(k,)) for k in range(n)]; [t.start() for t in ts]; [t.join() for t in ts]
    for k in range(n): shutil.rmtree(f'{W}/w{k}',ignore_errors=True)
main()
