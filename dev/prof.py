import sys,cProfile,pstats,signal; sys.path.insert(0,'/verif')
sys.setrecursionlimit(20000)
from kws import prog, check
p=prog.Prog('/tmp/drv_P09.cc.json')
d={n:(c,s) for n,c,s in check.drivers(p)}
def alarm(*_): raise KeyboardInterrupt
signal.signal(signal.SIGALRM,alarm); signal.alarm(60)
pr=cProfile.Profile()
try:
    pr.enable(); check.decide(p,*d['curve_errors_float'],('MatchError::NH','MatchError::NR'),unroll=5)
except KeyboardInterrupt: pass
pr.disable()
pstats.Stats(pr).sort_stats('cumtime').print_stats(30)
