import sys; sys.path.insert(0,'/verif')
from kws import prog, terms as T
from kws.engine import *
src,pat=sys.argv[1:3]; n=int(sys.argv[3]) if len(sys.argv)>3 else 3000
out='/tmp/fin.json'; prog.export(src,[prog.REPO,'/verif/spec'],out); p=prog.Prog(out)
import os
SL=os.environ.get('STOP','').split(',')
STOP=lambda fn,f: 'pure' if any((f or fn)['qn'].endswith('::'+x) for x in SL) and fn['repo'] else None
for q,f in sorted((f['qn'],f) for f in p.funcs.values() if f['qn'] in (pat+'__code',pat+'__spec')):
    eng=Engine(p,STOP,unroll=int(os.environ['UN']) if os.environ.get('UN') else None); 
    for s,o in eng.run(f):
        print(q,'OUT',T.show(o)[:n] if not isinstance(o,tuple) or o[0]!='ret' else T.show(o[1])[:n], 'PC',[T.show(l)[:200] for l in s.pc][:5])
        for k,v in s.mem.items():
            if k[0] in ('A','LOG'): print('  ',k,'=',T.show(v)[:n])
