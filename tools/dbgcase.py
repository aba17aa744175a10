import sys,time; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/checks'); sys.setrecursionlimit(100000)
import importlib
m=importlib.import_module(sys.argv[1]); cs=[]; t=time.time()
v=int(sys.argv[3]) if len(sys.argv)>3 else 0
try: 
    if v:
        import vc.harness as h
        o=h.Case.__init__
        def i(self,*a,**k):
            o(self,*a,**k); self.E.verbose=v
        h.Case.__init__=i
    m.prove(sys.argv[2],cs)
except Exception as e:
    import traceback; traceback.print_exc()
from vc import prover
for c in cs: print(c.E.loopinfo, c.E.fails[:3], len(c.E.fails), 'T',time.time()-t, prover.STATS)
