#!/usr/bin/env python3
"""orig.py ID...: do the lines a planted bug changes come from the original repository?"""
import subprocess,sys,re
base='388fc11'
for bid in sys.argv[1:]:
    f=None;res=[];ln=0
    for l in open(f'/verif/seeded/{bid}/patch.diff'):
        m=re.match(r'--- a/(.*)',l)
        if m: f=m[1]; continue
        m=re.match(r'@@ -(\d+)',l)
        if m: ln=int(m[1]); continue
        if l.startswith('-'):
            b=subprocess.check_output(['git','-C','/repo','blame','-l','-L',f'{ln},{ln}','HEAD','--',f],text=True)
            res.append(b.startswith('^') or subprocess.check_output(['git','-C','/repo','log','--format=%h','--reverse'],text=True).split()[0] in b[:12])
        if l[0] in ' -': ln+=1
    print(bid,'original lines changed:',sum(res),'of',len(res))
