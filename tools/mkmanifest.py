#!/usr/bin/env python3
"""Writes MANIFEST.json from the harnesses and the table of unclaimed properties (run in /verif)."""
import json, os, glob, re, subprocess, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props=[json.loads(l) for l in open("properties.jsonl")]
sys.path.insert(0,"tools")
from unclaimed import NA
TECH="bounded symbolic execution of the clang -O1 LLVM IR of the real code, every assertion and memory obligation decided by an SMT solver (z3, bit-vectors); counterexamples replayed natively"
TECHT="bounded symbolic execution of the clang -O1 LLVM IR of the real code over all inputs and all thread schedules within a preemption bound, decided by an SMT solver (z3, bit-vectors)"
checks=[];na=[]
for p in props:
    i=p["id"]
    hs=[h for h in sorted(glob.glob("harness/%s*.cpp"%i)) if re.match(i+r"(_\w+)?\.cpp$",os.path.basename(h))]
    if hs and i not in NA:
        t="".join(open(h,errors="replace").read() for h in hs)
        def get(k): return "; ".join(x.strip() for x in re.findall(r"//\s*@%s\s+(.*)"%k,t))
        note="Within the bounds ("+get("bounds")+") the solver decided every assertion for all values; nothing is claimed outside ("+(get("outside") or "larger sizes")+")."
        if get("assume"): note+=" Assumes: "+get("assume")+"."
        if get("stub"): note+=" Stubs: "+get("stub")+"."
        note+=" Trusts: clang's lowering to IR, the engine, z3, the models of libstdc++/libc in engine/rt.cpp."
        checks.append(dict(property=i,quick_cmd="./check %s quick"%i,thorough_cmd="./check %s thorough"%i,evidence_file="evidence/%s.json"%i,
            technique=(TECHT if "@threads" in t else TECH).replace("-O1", "-O2" if "@flags -O2" in t else "-O1"),level="model_checking",level_note=note))
    else: na.append(dict(property=i,reason=NA.get(i,"check not built yet")))
m=dict(version=1,setup_cmd="make -s -j8 -C engine all",checks=checks,not_applicable=na,
    notes="Every check compiles its harness together with /repo/include to LLVM bitcode and runs engine/sxe on it. See DESIGN.md. known_findings.json lists defects of the unchanged tree that are recorded rather than repaired, and those repaired.")
json.dump(m,open("MANIFEST.json","w"),indent=1);open("MANIFEST.json","a").write("\n")
print(len(checks),"checks,",len(na),"not claimed")
