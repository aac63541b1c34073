import sys; sys.path.insert(0,'/verif')
from kws import prog, compare, terms
from kws.engine import *
p=prog.Prog('/tmp/drv_%s.json'%sys.argv[1])
fs={f['qn']:f for f in p.funcs.values()}
SL=sys.argv[3].split(',') if len(sys.argv)>3 else []
eng=Engine(p,lambda fn,f:'pure' if any((f or fn)['qn'].endswith('::'+x) for x in SL) and fn['repo'] else None)
A=eng.run(fs[sys.argv[2]+'__code']); B=eng.run(fs[sys.argv[2]+'__spec'])
n=0
for sa,oa in A:
  for sb,ob in B:
    pc=sa.pc|sb.pc
    if not feasible(pc): continue
    print('PC',[str(x) for x in pc])
    for r in set(compare.roots_of(sa))|set(compare.roots_of(sb)):
        va,vb=eng.rootval(sa,r),eng.rootval(sb,r)
        if va!=vb: print(r,'\n  A',show(va),'\n  B',show(vb))
    if oa[1]!=ob[1]: print('OUT\n  A',show(oa[1]),'\n  B',show(ob[1]))
