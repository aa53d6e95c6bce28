#!/usr/bin/env python3
# show the newest replay files:  show.py [N] [prefix]
import json,sys,glob,os
n=int(sys.argv[1]) if len(sys.argv)>1 else 3
pre=sys.argv[2] if len(sys.argv)>2 else ''
for f in sorted(glob.glob('/verif/replays/'+pre+'*.json'),key=os.path.getmtime)[-n:]:
    j=json.load(open(f)); print(f, j['violation'][:400])
    for k,v in j['case'].items():
        if v: print('  ',k,'=',v.replace('\n',' '))
