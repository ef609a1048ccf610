#!/usr/bin/env python3
"""mut.py CHECKS file old new"""
import sys,subprocess,os
ck,f,old,new=sys.argv[1:5]
P='/tmp/sc/src/pynlo/'+f
s=open(P).read()
assert s.count(old)>=1,(f,old)
open(P,'w').write(s.replace(old,new,1))
try:
    for c in ck.split(','):
        r=subprocess.run(['python3','-B','run.py',c],cwd='/verif',env=dict(os.environ,VERIF_REPO='/tmp/sc'),capture_output=True,text=True)
        L=[l for l in r.stdout.splitlines() if l.startswith(('violation','undecided','ANALYSIS'))]
        print(c,'exit',r.returncode,'|',repr(old[:50]),'->',repr(new[:50]),'|',len(L),L[:2], r.stderr[-300:])
finally:
    open(P,'w').write(s)
