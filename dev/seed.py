#!/usr/bin/env python3
"""seed.py FILE.py [id...]: FILE defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ text or (name,text) files, sh=optional)].
Creates /verif/seeded/<id>, confirms it in a scratch clone (tests pass, demo 0 without and nonzero with the change)
and runs the property's check on the scratch copy."""
import json, os, runpy, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: behaves as stated; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 99
trap 'rm -rf -- "$d"' EXIT
g++ -std=gnu++14 -fopenmp -O0 -I"$PWD" "$here/demo.cc" -o "$d/demo" || exit 98
cd "$d" && timeout 60 ./demo
'''


def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)


seeds = runpy.run_path(sys.argv[1])['SEEDS']
want = sys.argv[2:]
base = None
for s in seeds:
    if want and s['id'] not in want:
        continue
    out = os.path.join(H, 'seeded', s['id'])
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        w = d + '/repo'
        subprocess.check_call('git clone -q /repo %s' % w, shell=True)
        for f, old, new in s['edits']:
            t = open(w + '/' + f).read()
            assert t.count(old) >= 1, (s['id'], 'pattern missing', old)
            open(w + '/' + f, 'w').write(t.replace(old, new, 1))
        diff = sh('git diff', w).stdout
        assert diff
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(s.get('sh', SH))
        os.chmod(out + '/demo.sh', 0o755)
        if s.get('demo'):
            open(out + '/demo.cc', 'w').write(s['demo'])
        for n, t in s.get('files', {}).items():
            open(out + '/' + n, 'w').write(t)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        b = sh('CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_STANDARD=14 -DCMAKE_POLICY_VERSION_MINIMUM=3.5 '
               '"-DCMAKE_CXX_STANDARD_LIBRARIES=-lgmock -lgtest" -DWITH_TESTS=ON && ninja -C _build -j8 && ctest --test-dir _build -j8', w)
        tests = 'tests pass' if b.returncode == 0 else 'BUILD/TESTS FAIL ' + (b.stdout + b.stderr)[-1500:]
        if b.returncode == 0:
            g = sh('grep -c "100% tests passed"', input=b.stdout)
        r1 = sh('bash %s/demo.sh' % out, w)
        # without the change
        sh('git stash -q', w)
        if s.get('rebuild'):
            sh('ninja -C _build -j8', w)
        r0 = sh('bash %s/demo.sh' % out, w)
        sh('git stash pop -q', w)
        k = []
        for p in [s['property']] + s.get('also', []):
            c = subprocess.run([sys.executable, H + '/check.py', p, 'quick'], capture_output=True, text=True, env=dict(os.environ, KWS_REPO=w, KWS_EVIDENCE=d))
            k.append('%s:%d' % (p, c.returncode))
            if c.returncode != 1 or os.environ.get('V'):
                k.append(c.stdout[:400])
        ok = b.returncode == 0 and r0.returncode == 0 and r1.returncode not in (0, 98, 99)
        print('OK ' if ok else 'BAD', s['id'], tests, 'demo unchanged', r0.returncode, 'patched', r1.returncode, 'check', k)
        if not ok:
            print(r0.stdout[-300:], r0.stderr[-600:], r1.stdout[-300:], r1.stderr[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
