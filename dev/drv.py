import sys,time; sys.path.insert(0,'/verif')
from kws import prog, compare, terms
from kws.engine import *
import os
from kws import check
from kws.props import PROPS
_c=next((c for c in PROPS.values() if sys.argv[1].split('/')[-1] in c.get('specs',[])),{})
_d=','.join((_c.get('stops') or [()])[int(os.environ.get('MODE','0'))])
from kws import cmdline
STOP=check.stopper([x for x in os.environ.get('STOP',_d).split(',') if x], _c.get('hooks'))
src=sys.argv[1]; pat=sys.argv[2] if len(sys.argv)>2 else ''
out='/tmp/drv_%s.json'%src.split('/')[-1]
prog.export(src,[prog.REPO,'/verif/spec'],out)
p=prog.Prog(out)
fs={f['qn']:f for f in p.funcs.values()}
for q in sorted(fs):
    if not q.endswith('__code') or pat not in q: continue
    g=fs[q[:-6]+'__spec']
    t=time.time()
    try:
        eng=Engine(p, STOP)
        if _c.get('observe')=='errors': eng.view=check.error_class
        if os.environ.get('OWN'): eng.own=True; eng.hooks.update(copyctor=True,copyassign=True)
        A=eng.run(fs[q]); B=eng.run(g)
        r=compare.compare_summaries(eng,A,B,set(('A','a%d'%i) for i,x in enumerate(fs[q]['params']) if (x.get('name') or '').startswith('scratch')))
        print(q[:-6], r.verdict, r.pairs, r.obs, '%.2f'%(time.time()-t), 'unk',dict(eng.unknown) if eng.unknown else '')
        if r.verdict is not True:
            for d in (r.diffs[:2]+r.unknown[:2]): print('    ',str(d)[:900])
    except Exception as ex:
        import traceback
        print(q[:-6],'EXC',repr(ex)[:300]); 
        if '-t' in sys.argv: traceback.print_exc()
