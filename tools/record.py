#!/usr/bin/env python3
"""Add fixed: lines for /repo commits: record.py 'commit subject part' PROP 'what failed' [...]"""
import subprocess,sys
k=open('/verif/known-findings.txt').read()
log=subprocess.check_output(['git','-C','/repo','log','--oneline'],text=True).splitlines()
a=sys.argv[1:]
while a:
    pat,prop,what=a[:3]; a=a[3:]
    m=[l for l in log if pat in l]
    assert len(m)==1,(pat,m)
    ln="fixed: property=%s %s %s\n"%(prop,m[0].split()[0],what)
    if ln not in k: k+=ln
open('/verif/known-findings.txt','w').write(k)
