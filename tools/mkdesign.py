#!/usr/bin/env python3
import json,glob,re,os,sys
os.chdir('/verif'); sys.path.insert(0,'tools')
from oracles import O
from unclaimed import NA
P=[json.loads(l) for l in open('properties.jsonl')]
out=[open('tools/design_head.md').read(),"\n## 3. Properties\n\nFor each: what decides it, within which bounds, what lies outside. All by the engine of section 1.\n"]
for p in P:
    i=p['id']; hs=[h for h in sorted(glob.glob('harness/%s*.cpp'%i)) if re.match(i+r'(_\w+)?\.cpp$',os.path.basename(h))]
    t="".join(open(h,errors='replace').read() for h in hs)
    g=lambda k:"; ".join(x.strip() for x in re.findall(r'//\s*@%s\s+(.*)'%k,t))
    out.append("\n### %s — %s\n"%(i,p['title']))
    if i in NA: out.append("Not applicable: %s.\n"%NA[i]); continue
    out.append("%s\n"%p['statement'])
    out.append("- Code: %s (%s)."%(", ".join(p['anchors']['files']),"; ".join("%s: %s"%(m['name'],m['where']) for m in p['anchors']['mechanism'])))
    out.append("- Oracle: %s."%O[i])
    out.append("- Bounds: %s."%g('bounds'))
    if g('outside'): out.append("- Outside: %s."%g('outside'))
    if g('assume'): out.append("- Assumes: %s."%g('assume'))
    out.append("- Cases: %s."%", ".join(re.findall(r'^SX_CASE\((\w+)\)',t,re.M)))
    c="tools/cost.json"; C=json.load(open(c)) if os.path.exists(c) else {}
    if i in C: out.append("- Cost (8 cores): %s."%C[i])
    out.append("- Beyond the tests: every %s. %s"%(p['quantifier']['text'].replace('every ','',1),p['why_tests_cant']))
d=json.load(open('known_findings.json'))
out.append("\n## 4. Genuine defects of Amebis/stdex\n\nEach was found by the check of its property, shown on the real code by a native replay, and repaired with a `fix:` commit; recorded findings that are not repaired: %d.\n"%len(d['findings']))
for f in d['findings']: out.append("- KNOWN: "+json.dumps(f))
for f in d['fixed']: out.append("- "+re.sub(r'^fixed: property=(\S+) (\S+) ',r'\1 (`\2`): ',f))
out.append("\n## 5. Planted bugs and which checks catch them\n\nEach is in `seeded/` with its patch and demonstration; written from the property and the code. All compile, pass the repository's tests and break their demonstration.\n\n| bug | needs | caught by |\n|---|---|---|")
K=json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
for s in sorted(glob.glob('tools/seeds/*.seed')):
    n=os.path.basename(s)[:-5]; t=open(s).read(); need=re.search(r'^needs:\s*(.*)',t,re.M).group(1)
    out.append("| %s | %s | %s |"%(n,need.replace('|','/'),K.get(n,'not run yet')))
out.append("\n"+open('tools/design_tail.md').read())
open('DESIGN.md','w').write("\n".join(out))
