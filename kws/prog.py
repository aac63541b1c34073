"""The exported, type-checked program: lookups over kwsx's JSON."""
import json, os, subprocess, hashlib, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KWS_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (vanished anchor, parse failure)."""


def exporter():
    exe = os.path.join(BUILD, 'kwsx')
    src = os.path.join(HERE, 'exporter', 'kwsx.cc')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    flags = [f for f in flags if not f.startswith('-std=')]
    ld = subprocess.check_output(['llvm-config-18', '--ldflags'], text=True).split()
    tmp = exe + '.%d' % os.getpid()
    subprocess.check_call(['clang++', '-std=c++17', '-fno-rtti', '-O1'] + flags +
                          [src, '-o', tmp, '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1'] + ld +
                          ['-lLLVM-18'])
    os.replace(tmp, exe)
    return exe


CXXFLAGS = ['-std=gnu++14', '-fopenmp', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


def export(src, roots, out):
    cmd = [exporter(), out, ':'.join(roots), src, '--'] + CXXFLAGS + ['-I' + REPO, '-I' + HERE, '-I' + os.path.join(HERE, 'spec')]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise AnalysisBroken('export of %s failed:\n%s' % (src, (r.stderr or '')[-3000:]))
    return out


class Prog:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d['types']
        self.records = d['records']
        self.funcs = {f['id']: f for f in d['functions']}
        self.globals = d.get('globals', [])
        self.files = d.get('files', [])
        self.byqn = {}
        for f in d['functions']:
            self.byqn.setdefault(f['qn'], []).append(f)
        self._bases = {}

    # ---- types
    def ty(self, k):
        t = self.types.get(k)
        if t is None:
            return {'k': 'other', 'key': k}
        return t

    def strip(self, k):
        """Remove references and cv: key of the referred type's description."""
        t = self.ty(k)
        while t['k'] == 'ref':
            k = t['to']
            t = self.ty(k)
        return k

    def unref(self, k):
        return self.ty(self.strip(k))

    def isref(self, k):
        return self.ty(k)['k'] == 'ref'

    def rec(self, k):
        t = self.unref(k)
        if t['k'] == 'rec':
            return self.records.get(str(t['id']))
        return None

    def recid(self, k):
        t = self.unref(k)
        return t['id'] if t['k'] == 'rec' else None

    def kind(self, k):
        """'u','i','f','s','b' or None for scalar kinds of type k."""
        t = self.unref(k)
        if t['k'] == 'int':
            return 'i' if t.get('s') else 'u'
        if t['k'] == 'enum':
            return 'i'
        if t['k'] == 'float':
            return 'f'
        if t['k'] == 'bool':
            return 'b'
        if t['k'] == 'rec' and t['qn'] in ('std::basic_string', 'std::string'):
            return 's'
        return None

    def qn(self, k):
        t = self.unref(k)
        return t.get('qn', '') if t['k'] == 'rec' else ''

    def targs(self, k):
        t = self.unref(k)
        return t.get('ta', [])

    def allbases(self, rid):
        """rid followed by all its bases (ids)."""
        if rid in self._bases:
            return self._bases[rid]
        out = [rid]
        r = self.records.get(str(rid))
        if r:
            for b in r['bases']:
                bid = self.recid(b['t']) if isinstance(b, dict) else self.recid(b)
                if bid is not None:
                    for x in self.allbases(bid):
                        if x not in out:
                            out.append(x)
        self._bases[rid] = out
        return out

    def fieldtype(self, rid, name):
        for b in self.allbases(rid):
            r = self.records.get(str(b))
            if r:
                for f in r['fields']:
                    if f['name'] == name:
                        return f['t']
        return None

    def fields(self, rid):
        out = []
        for b in reversed(self.allbases(rid)):
            r = self.records.get(str(b))
            if r:
                out.extend(r['fields'])
        return out

    def dispatch(self, fid, rid):
        """Final overrider of virtual fid for dynamic class rid."""
        for b in self.allbases(rid):
            r = self.records.get(str(b))
            if not r:
                continue
            for m in r['methods']:
                if m['id'] == fid or self.overrides(m, fid):
                    return m['id']
        return fid

    def overrides(self, m, fid, depth=0):
        for o in m.get('over', []):
            if o == fid:
                return True
            f = self.funcs.get(o)
            if f and depth < 8 and self.overrides(f, fid, depth + 1):
                return True
        return False

    def find(self, qn, pred=None):
        r = [f for f in self.byqn.get(qn, []) if f.get('hasbody') and (pred is None or pred(f))]
        return r


def where(f):
    return '%s:%d' % (os.path.relpath(f['file'], REPO) if f['file'].startswith(REPO) else f['file'], f['line'])


def moving(p):
    """Static locals that change after their initialisation."""
    if getattr(p, '_moving', None) is not None:
        return p._moving
    out, consts = set(), set()

    def walk(n, read, f):
        if isinstance(n, list):
            for x in n:
                walk(x, False, f)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'var':
            if n.get('slocal') and not read:
                out.add(n['id'])
            return
        if k == 'load' or k == 'cast' and n.get('ck') == 'NoOp' and p.unref(n['t']).get('const') or k == 'cast' and n.get('ck') == 'LValueToRValue':
            read = True
        elif k == 'return' and f.get('ret') and p.isref(f['ret']):
            read = bool(p.unref(f['ret']).get('const') or p.ty(p.ty(f['ret']).get('to')).get('const'))
        elif k not in ('mem', 'upcast', 'cast', 'paren'):
            read = False
        for key, v in n.items():
            if k == 'call' and key == 'obj' and (n.get('fn') or {}).get('const'):
                walk(v, True, f)
            elif isinstance(v, (dict, list)):
                if isinstance(v, list):
                    walk(v, False, f)
                else:
                    walk(v, read, f)
    for f in p.funcs.values():
        if f.get('hasbody') and f['file'].startswith(REPO + '/'):
            walk(f.get('body'), False, f)
    p._moving = out
    return out
