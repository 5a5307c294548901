import sys, json, glob, os
sys.setrecursionlimit(20000)
from build import CACHE
from engine import *
facts={}
for fn in glob.glob(CACHE+'/facts/*.json'):
    j=json.load(open(fn)); facts[j['crate']]=j
P=Program(facts)
def ev(e,ind='   '):
    k=e[0]
    if k=='call': return f"{ind}call {e[1]}({', '.join(show(x) for x in e[2])}) = {show(e[3])}  L{e[5][1]}"
    if k=='loop':
        L=e[1]; r=[f"{ind}loop over={L.over and show(L.over)} L{L.at[1]}"]
        for loc,(i,p) in L.phis.items(): r.append(f"{ind}  {show(p)} init {show(i)} closed {show(L.closed[p]) if p in L.closed else '-'}")
        for n,(t,fin,s) in enumerate(L.iters):
            r.append(f"{ind}  iter {n}")
            for x in t:
                if x[0]!='head': r.append(ev(x,ind+'     '))
            for loc,v in fin.items(): r.append(f"{ind}     -> {show(L.phis[loc][1])} := {show(v)}")
        return '\n'.join(r)
    return ind+k+' '+' '.join((show(x) if isinstance(x,T) else '.'.join(str(show(y[1]) if isinstance(y,tuple) and isinstance(y[1],T) else y[1] if isinstance(y,tuple) and len(y)>1 else y) for y in x) if isinstance(x,tuple) else str(x)) for x in e[1:] if not (isinstance(x,tuple) and x and isinstance(x[0],str) and '::' in x[0]))
if __name__=='__main__':
    import time
    for f in list(P.fns.values()):
        if f['kind'] in('Fn','AssocFn') and all(x in f['id']+' '+f['path'] for x in sys.argv[1:]):
            E_=Engine(P); t=time.time()
            rs=E_.run(f)
            print(f['path'],len(rs),'paths',E_.steps,'steps',round(time.time()-t,2))
            for s,k,v in rs:
                print(' ==',k,show(v) if v else '')
                for e in s.events(): print(ev(e))
