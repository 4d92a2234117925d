#!/usr/bin/env python3
"""bug.py ID PROPERTY FILE: applies the edit read from stdin to /repo's FILE and
writes meta.json and main.go for the planted bug ID.
stdin: JSON-free sections separated by lines '=== old', '=== new', '=== needs',
'=== breaks', '=== demo' (old/new may repeat; '=== file PATH' switches file)."""
import sys,os,json,re
bid,prop,fn=sys.argv[1:4]
d=f'/verif/seeded/{bid}'; os.makedirs(d,exist_ok=True)
secs=[]
for l in sys.stdin.read().split('\n'):
    m=re.match(r'=== (\w+)(?: (.*))?$',l)
    if m: secs.append([m[1],m[2],[]])
    else: secs[-1][2].append(l)
old=None;meta={'property':prop}
for k,a,b in secs:
    t='\n'.join(b).strip('\n')
    if k=='file': fn=a
    elif k=='old': old=t
    elif k=='new':
        p=os.environ.get('PLANT_REPO','/repo')+'/'+fn; s=open(p).read()
        if s.count(old)!=1: sys.exit(f'{s.count(old)} matches of {old!r}')
        open(p,'w').write(s.replace(old,t))
    elif k=='needs': meta['needs']=' '.join(t.split())
    elif k=='breaks': meta['what_it_breaks']=' '.join(t.split())
    elif k=='demo': open(d+'/main.go','w').write((open('/verif/tools/demo_head.go.txt').read()+'\n' if not t.startswith('package') else '')+t+'\n')
json.dump(meta,open(d+'/meta.json','w'),indent=1)
