import sys,time; sys.path.insert(0,'/verif')
sys.setrecursionlimit(20000)
from kws import prog, check
import os
src=sys.argv[1]; pat=sys.argv[2] if len(sys.argv)>2 else ''
N=[int(x) for x in os.environ.get('UN','1,2,3').split(',')]
SL=tuple(x for x in os.environ.get('STOP','').split(',') if x)
from kws.props import PROPS
cfg=next((c for c in PROPS.values() if src.split('/')[-1] in c.get('specs',[])),{})
if 'STOP' not in os.environ: SL=(cfg.get('stops') or [()])[int(os.environ.get('MODE','0'))]
out='/tmp/drv_%s.json'%src.split('/')[-1]
prog.export(src,[prog.REPO,'/verif/spec'],out)
p=prog.Prog(out)
for name,c,s in check.drivers(p):
    if pat not in name: continue
    for n in N:
        t=time.time()
        try:
            eng,r,an,A,B=check.decide(p,c,s,SL,unroll=n,cfg=cfg)
            print(name,n,r.verdict,'paths',len(A),len(B),r.pairs,r.obs,'cut',eng.cut,'%.1fs'%(time.time()-t))
            for d in r.diffs[:1]+r.unknown[:1]: print('    ',str(d)[:500])
        except Exception as e: print(name,n,'EXC',repr(e)[:200],'%.1fs'%(time.time()-t))
