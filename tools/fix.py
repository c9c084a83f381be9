# usage: fix.py file "msg" prop "what" < edits: blocks separated by lines <<<< ==== >>>>
import re,subprocess,sys
sys.path.insert(0,'/verif/tools')
import fixlib
f,msg=sys.argv[1],sys.argv[2]
p='/repo/include/stdex/'+f; s=open(p,newline='').read()
t=sys.stdin.read()
n=0
for old,new in re.findall(r'^<<<<\n(.*?)\n====\n(.*?)\n?>>>>$',t,re.M|re.S):
    s=fixlib.apply(s,old,new); n+=1
    if s is None: sys.exit(1)
assert n
open(p,'w',newline='').write(s)
r=subprocess.run(['/usr/bin/clang++-18','-std=gnu++17','-O1','-DNDEBUG','-fsyntax-only','-w','-include','/verif/engine/linux_compat.h',"-include","mutex",'-I/repo/include','-x','c++','-'],input='#include <stdex/%s>\n'%f,text=True)
if r.returncode: sys.exit(1)
subprocess.check_call(['git','-C','/repo','commit','-qam','fix: '+msg])
c=subprocess.check_output(['git','-C','/repo','rev-parse','--short','HEAD'],text=True).strip()
if len(sys.argv)>4: subprocess.check_call(['python3','/verif/tools/fixed.py',sys.argv[3],sys.argv[4],c])
print(c,msg)
