#!/usr/bin/env python3
"""Development aid: apply textual edits to a scratch copy of /repo and run checks on it.
usage: mutate.py LIST.json [name...]; LIST: [{name, file, old, new, props:[...], expect:'caught'|'quiet'}]
'edits' may replace file/old/new by a list of {file, old, new}."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        subprocess.check_call('cd /repo && git ls-files | grep -v Test.cc | tar cf - -T - | tar xf - -C %s' % d, shell=True)
        for e in m.get('edits') or [m]:
            f = os.path.join(d, e['file'])
            s = open(f).read()
            n = e.get('nth')
            if e['old'] not in s:
                return m, None, 'PATTERN NOT FOUND in ' + e['file'] + ': ' + e['old'][:60]
            if n is not None:
                i = -1
                for _ in range(n + 1):
                    i = s.index(e['old'], i + 1)
                s = s[:i] + e['new'] + s[i + len(e['old']):]
            else:
                s = s.replace(e['old'], e['new'], 1)
            open(f, 'w').write(s)
        b = subprocess.run('g++ -std=gnu++14 -fopenmp -fsyntax-only -I. tools/SimpleKwsEval.cc && g++ -std=gnu++14 -fopenmp -fsyntax-only -I. tools/Icdar17KwsEval.cc',
                           shell=True, cwd=d, capture_output=True, text=True)
        if b.returncode:
            return m, None, 'DOES NOT COMPILE ' + b.stderr[:300]
        out = []
        for p in m['props']:
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), p, 'quick'], capture_output=True, text=True,
                               env=dict(os.environ, KWS_REPO=d, KWS_EVIDENCE=d))
            out.append((p, r.returncode, [l for l in r.stdout.split('\n') if 'UNDECIDED' in l or l.startswith('  ') or 'NOTE' in l or 'ERROR' in l] + [r.stderr[-300:]]))
        return m, out, ''
    finally:
        shutil.rmtree(d)


ms = json.load(open(sys.argv[1]))
if sys.argv[2:]:
    ms = [m for m in ms if any(a in m['name'] for a in sys.argv[2:])]
bad = 0
with ThreadPoolExecutor(3) as ex:
    for m, out, err in ex.map(one, ms):
        if out is None:
            print('??', m['name'], err)
            continue
        caught = any(rc == 1 for _, rc, _ in out)
        okay = caught == (m.get('expect', 'caught') == 'caught') and all(rc in (0, 1) for _, rc, _ in out)
        bad += not okay
        print('ok ' if okay else 'BAD', m['name'], [(p, rc) for p, rc, _ in out])
        if not okay or '-v' in os.environ.get('V', ''):
            for p, rc, ls in out:
                for l in ls[:4]:
                    if l.strip():
                        print('      ', p, l[:500])
print('bad', bad, 'of', len(ms))
