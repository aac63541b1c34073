import sys; sys.path.insert(0,'/verif')
from kws import prog, compare, terms
from kws.engine import *
import functools
D=[0]
def wrap(name):
    f=getattr(compare.Cmp,name)
    def g(self,pc,*a):
        D[0]+=1
        r=f(self,pc,*a)
        D[0]-=1
        x=r[0] if name in('loop','liter') and isinstance(r,tuple) else r
        if x is not True: print('  '*D[0]+name,r,'|',' VS '.join(show(y)[:160] if not isinstance(y,list) else str(len(y)) for y in a[:2]), '' if name!='zero' else [str(l) for l in pc][:6])
        return r
    setattr(compare.Cmp,name,g)
for n in ('value','zero','seq','rec','term','loop','trans','dnf','part','maps','cases','boolean','quant'): wrap(n)
p=prog.Prog('/tmp/drv_%s.json'%sys.argv[1])
fs={f['qn']:f for f in p.funcs.values()}
SL=sys.argv[3].split(',') if len(sys.argv)>3 else []
eng=Engine(p,lambda fn,f:'pure' if any((f or fn)['qn'].endswith('::'+x) for x in SL) and fn['repo'] else None)
A=eng.run(fs[sys.argv[2]+'__code']); B=eng.run(fs[sys.argv[2]+'__spec'])
print(compare.compare_summaries(eng,A,B).verdict)
