#!/usr/bin/env python3
"""tools/mkseed.py [ID...]: (re)creates seeded/<ID>/ from tools/seeds/<ID>.seed against /repo's HEAD.
A .seed file: key: value lines, then sections
@@ file / <<<< old ==== new >>>>  and @demo (the rest: C++ code)."""
import fixlib,glob,os,re,shutil,subprocess,sys,json
V='/verif'
ids=sys.argv[1:] or sorted(os.path.basename(f)[:-5] for f in glob.glob(V+'/tools/seeds/*.seed'))
bad=0
for i in ids:
    t=open(V+'/tools/seeds/%s.seed'%i).read()
    head,demo=t.split('\n@demo\n',1)
    meta=dict(re.findall(r'^(property|needs|breaks): (.*)$',head,re.M))
    W='/tmp/mkseed'; shutil.rmtree(W,ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',W])
    ok=True
    for f,old,new in re.findall(r'^@@ (\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$',head,re.M|re.S):
        p=W+'/'+f; s=open(p,newline='').read()
        s=fixlib.apply(s,old,new)
        if s is None: print(i,'OLD TEXT NOT FOUND ONCE'); ok=False; break
        open(p,'w',newline='').write(s)
    d=subprocess.check_output(['git','-C',W,'diff'],text=True)
    shutil.rmtree(W)
    if not ok or not d: bad=1; print(i,'FAILED'); continue
    D=V+'/seeded/'+i; os.makedirs(D,exist_ok=True)
    open(D+'/patch.diff','w').write(d)
    json.dump({"property":meta['property'],"needs":meta['needs'],"what_it_breaks":meta['breaks']},open(D+'/meta.json','w'),indent=1)
    open(D+'/demo.cpp','w').write('#include "demo.h"\n'+demo)
    shutil.copy(V+'/tools/seeds/demo.h',D+'/demo.h'); shutil.copy(V+'/engine/linux_compat.h',D+'/linux_compat.h')
    fl=re.search(r'^// flags: (.*)$',demo,re.M); fl=fl.group(1) if fl else ''
    open(D+'/demo.sh','w').write('''#!/bin/bash
# builds demo.cpp against ./include and runs it: exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
/usr/bin/clang++-18 -std=gnu++17 -O1 -g1 -DNDEBUG -w -include "$d/linux_compat.h" -I"$d" -Iinclude "$d/demo.cpp" -o "$t/demo" -pthread FLAGS || exit 8
cd "$t" && timeout 60 ./demo
'''.replace('FLAGS',fl))
    os.chmod(D+'/demo.sh',0o755)
sys.exit(bad)
