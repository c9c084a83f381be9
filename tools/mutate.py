#!/usr/bin/env python3
"""tools/mutate.py ID COUNT [SEED]: random small changes of the lines of stdex a check executes; prints those the check does not notice"""
import sys,os,re,random,subprocess,shutil,tempfile,json
pid,count=sys.argv[1],int(sys.argv[2]); rnd=random.Random(sys.argv[3] if len(sys.argv)>3 else 1)
W=tempfile.mkdtemp(prefix='mut-',dir='/tmp'); R=W+'/repo'; os.makedirs(R)
shutil.copytree('/repo/include',R+'/include'); shutil.copytree('/repo/UnitTests',R+'/UnitTests')
env=dict(os.environ,SXE_REPO=R,SXE_LINES=W+'/lines',SXE_JOBS=os.environ.get('SXE_JOBS','2'))
def run(lim): 
    try: return subprocess.run(['timeout',str(lim),'/verif/check',pid,'quick'],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
    except Exception as e: print(e)
r=run(800)
if r.returncode: print(pid,'baseline',r.returncode,r.stdout[-300:]); sys.exit(1)
lines=sorted({tuple(l.rsplit(':',1)) for l in open(W+'/lines').read().split('\n') if ':' in l}); env.pop('SXE_LINES')
files=json.loads([l for l in open('/verif/properties.jsonl') if '"id": "%s"'%pid in l or '"id":"%s"'%pid in l][0])['anchors']['files']
lines=[(f,int(n)) for f,n in lines if any(f.endswith(x) for x in files)]
ops=[(r'<=','<'),(r'(?<![<\-])<(?![<=\w:])','<='),(r'>=','>'),(r'(?<![>\-])>(?![>=\w:(&*])\s','>= '),(r'==','!='),(r'!=','=='),(r'&&','||'),(r'\|\|','&&'),(r'\+ 1\b','+ 2'),(r'- 1\b',''),(r'\+ 1\b',''),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\bmin\b','max'),(r'\bmax\b','min'),(r'\+=','-='),(r'-=','+='),(r'\+\+','--'),(r' \+ ',' - '),(r' - ',' + '),(r'!(?=[\w(])',''),(r'\b0\b','1'),(r'\b1\b','0'),(r'<<','>>'),(r'>>(?!\w)','<<'),(r'%','/'),(r'\b(\d{2,})\b',lambda m:str(int(m.group(1))+1)),(r'\bbreak;',';'),(r'\bcontinue;',';'),(r"'([a-zA-Y0-8])'",lambda m:"'%s'"%chr(ord(m.group(1))+1))]
done=0;k=s=o=0;seen=set()
for _ in range(count*30):
    if done>=count or not lines: break
    f,n=rnd.choice(lines); t=open(f,newline='').read().split('\n'); old=t[n-1]
    if 'static' in old and '(' not in old: continue
    cand=[]
    for a,b in ops:
        for m in re.finditer(a,old): cand.append(old[:m.start()]+(re.sub(a,b,m.group(0)) if callable(b) else b)+old[m.end():])
    if re.match(r'^\s*[\w:>.\[\]*\-]+(\s*[+\-|&]?=\s|\(|\+\+|--)[^;{]*;\s*$',old) and not re.match(r'^\s*(return|auto|const|size_t|T\b|int|bool|char|std::|throw)',old): cand+= [re.match(r'^\s*',old).group(0)+';']*2
    if not cand: continue
    new=rnd.choice(cand)
    if (f,n,new) in seen: continue
    seen.add((f,n,new)); t[n-1]=new; orig='\n'.join(t[:n-1]+[old]+t[n:]); open(f,'w',newline='').write('\n'.join(t))
    r=run(int(os.environ.get('LIMIT','120'))); open(f,'w',newline='').write(orig)
    if 'does not compile' in r.stdout: continue
    done+=1
    if r.returncode==1: k+=1
    elif r.returncode==0: s+=1; print('%s SURVIVED %s:%d\n    - %s\n    + %s'%(pid,os.path.basename(f),n,old.strip(),new.strip()),flush=True)
    else: o+=1; print('%s rc=%d %s:%d | %s -> %s | %s'%(pid,r.returncode,os.path.basename(f),n,old.strip(),new.strip(),r.stdout.strip().split('\n')[-1][:120] if r.stdout.strip() else ''),flush=True)
print('%s: %d mutants, %d killed, %d survived, %d other'%(pid,done,k,s,o),flush=True)
shutil.rmtree(W)
