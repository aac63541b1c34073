import sys; sys.path.insert(0,'/verif')
sys.setrecursionlimit(20000)
from kws import prog, check
from kws.engine import *
p=prog.Prog('/tmp/drv_P09.cc.json')
d={n:(c,s) for n,c,s in check.drivers(p)}
eng=Engine(p,check.stopper(('MatchError::NH','MatchError::NR')),unroll=5)
A=eng.run(d['curve_errors_float'][0])
n=0
for s,o in A:
    for l in s.pc:
        t=str(l)
        if '[one' in t: 
            print(len(t), t[-260:]); n+=1
            break
    if n>2: break
