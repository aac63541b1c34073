"""mdrv.py MUTNAME SPEC [driver] with STOP env: show compare details on a mutant"""
import json,sys,os,subprocess,tempfile,shutil
sys.path.insert(0,'/verif')
mf=os.environ.get('M','/verif/dev/m1.json')
m=[m for m in json.load(open(mf)) if sys.argv[1] in m['name']][0]
d='/tmp/mutdrv'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
subprocess.check_call('cd /repo && git ls-files | grep -v Test.cc | tar cf - -T - | tar xf - -C %s'%d,shell=True)
for e in m.get('edits') or [m]:
    f=d+'/'+e['file']; s=open(f).read(); assert e['old'] in s
    open(f,'w').write(s.replace(e['old'],e['new'],1))
os.environ['KWS_REPO']=d
os.execvp('python3',['python3','/tmp/fin.py']+sys.argv[2:])
