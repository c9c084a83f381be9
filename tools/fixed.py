#!/usr/bin/env python3
# tools/fixed.py PROP "what failed": records HEAD of /repo as the repair
import json,subprocess,sys
p='/verif/known_findings.json'; d=json.load(open(p))
c=sys.argv[3] if len(sys.argv)>3 else subprocess.check_output(['git','-C','/repo','rev-parse','--short','HEAD'],text=True).strip()
d['fixed'].append("fixed: property=%s %s %s"%(sys.argv[1],c,sys.argv[2]))
json.dump(d,open(p,'w'),indent=1); open(p,'a').write("\n")
