import sys, collections, importlib, threading
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
threading.stack_size(512*1024*1024)
from sa import check, core, rint, nf
stat=collections.Counter(); bad=[]
ids=sys.argv[1:]
why=collections.Counter()
def dec(self,p,o,anchors):
    if o[0]!='eq': return
    a,b=o[2]
    pc=o[3]
    if a is b: stat['same']+=1; return
    v=nf.verdict(*[a,b])
    r,c=rint.agree(a,b,pc,samples=4)
    stat[v,r]+=1
    if r is False and v=='equal':
        bad.append((self.pid,p.name,o[1]))
        print('BAD',self.pid,p.name,o[1])
    if r is None:
        try:
            e=rint.Eval('q'); e.ev(a); e.ev(b)
        except rint.Unk as x: why[str(x)]+=1
        except rint.Discard: why['discard']+=1
        except Exception as x: why[repr(x)[:80]]+=1; 
check.Check.decide=dec
import os
def go():
  for f in sorted(os.listdir('/verif/checks')):
    if f[0]=='C' and (not ids or f[:-3] in ids):
        m=importlib.import_module('checks.'+f[:-3]); c=check.Check(f[:-3])
        m.run(c)
        print(f, dict(stat)); sys.stdout.flush()
  for k,v in why.most_common(): print(k,v)
t=threading.Thread(target=go); t.start(); t.join()
