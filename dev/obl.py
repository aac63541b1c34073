"""obl.py SPEC.. : obligations met while summarising the code side of drivers, and which follow from their path"""
import sys, os, time; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from kws import prog, check, terms as T
from kws.engine import *
from kws.props import PROPS
for src in sys.argv[1:]:
    src='/verif/spec/'+src
    out='/tmp/drv_%s.json'%src.split('/')[-1]
    prog.export(src,[prog.REPO,'/verif/spec'],out)
    p=prog.Prog(out)
    cfg=next((c for c in PROPS.values() if src.split('/')[-1] in c.get('specs',[])),{})
    for name,c,s in check.drivers(p):
        t=time.time()
        try:
            eng=Engine(p,check.stopper((cfg.get('stops') or [()])[int(os.environ.get('MODE','0'))],cfg.get('hooks')))
            R=eng.run(c)
        except Exception as e:
            print(name,'EXC',repr(e)[:100]); continue
        n=ok=0; bad={}
        for k,l,pc,ln,fn in set(eng.obl):
            n+=1
            if l is True or isinstance(l,Lit) and T.entails(pc,l): ok+=1
            else: bad.setdefault((k,ln,fn.split('::')[-1]),[]).append((l,pc))
        print(src[-6:],name,'obl',n,'ok',ok,'%.1fs'%(time.time()-t))
        for k,v in bad.items(): print('    ',k,len(v),str(v[0][0])[:200],'| pc',str(sorted(map(str,v[0][1])))[:300])
