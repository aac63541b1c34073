"""Separating valuations for closed arithmetic forms.

Two normal forms built from sums, quotients and elementary functions over
input terms are different functions when one assignment of values to the input
terms, admitted by the path condition, gives them different values.  Only
forms whose meaning is fixed (sum, size, log, exp2, ...) and uninterpreted
input terms are valued; recurrences and anything opaque are refused, so that
no verdict rests on a form the theory does not define."""
from fractions import Fraction
import math
import random
import re
import zlib
from .terms import *
from . import terms as T

REFUSE = {'liter', 'lcnt', 'lex', 'loop', 'map', 'exists', 'first', 'sorted', 'upd', 'ite', 'gite', 'bite',
          'count', 'case', 'sortrange', 'reversed', 'resized', 'updmap', 'concat', 'substr', 'str', 'lv', 'pow',
          'cat', 'tostring', 'rds', 'rds+'}
STREAM = {'iss', 'ifs', 'ws', 'gl', 'glz', 'rd+', 'gc'}
POOL = ['', '-', '--', 'a', '-a', '7', '-7', '3x', '0.5', ' ', 'a b', '#', ' #', '--x', 'ab', '12']
FILES = ['', '\n', 'a', 'a\n', 'a b\n', 'a b', '#\n', 'a b\nc d\n', 'a b\n\n#\nc d', 'a\nb\nc\n', 'a b c\n', 'a 1\nb 2\n',
         'a a 1 1 1 1 0.5\n', 'a a 1 1 1 1\n', 'a 1 2\n']


class No(Exception):
    pass


class Val:
    def __init__(self, seed, asg=None, pool=POOL):
        self.seed = seed
        self.steps = 0
        self.asg = asg
        self.pool = pool
        self.touched = None
        self.structs = {}
        self.consts = ()

    def rnd(self, key, kind):
        if self.touched is not None:
            self.touched.append((key, kind))
        if self.asg is not None and key in self.asg:
            return self.asg[key]
        return self.draw(key, kind)

    def draw(self, key, kind):
        h = zlib.crc32(repr((self.seed, key)).encode())
        r = random.Random(h)
        if kind == 'b':
            return bool(h & 1)
        if kind == 's':
            return r.choice(self.pool)
        if kind == 'file':
            return r.choice(FILES)
        if self.consts and kind in 'ui' and r.random() < 0.3:
            return Fraction(r.choice(self.consts) + r.choice((-1, 0, 0, 1))) if kind == 'i' else Fraction(max(0, abs(r.choice(self.consts)) + r.choice((-1, 0, 0, 1))))
        if kind == 'u':
            return Fraction(r.choice((0, 1, 1, 2, 2, 3)))
        if kind == 'i':
            return Fraction(r.randint(-3, 4))
        return Fraction(r.choice((0, 1, 1, 2, 3, 4, 5, 6, 7, 8)), 4) * r.choice((1, 1, 1, -1) if self.seed % 2 else (1,))

    def key(self, t, env):
        if isinstance(t, Num):
            v = self.num(t, env)
            return ('n', str(v))
        if isinstance(t, Lit):
            return ('l', self.lit(t, env))
        if isinstance(t, (Seq, Rec)):
            raise No('structure')
        if isinstance(t, tuple):
            if t and isinstance(t[0], str):
                if kind_of(t) == 's' and len(t) > 1:
                    return ('s', self.string(t, env))
                if t[0] in REFUSE or t[0].startswith('opaque'):
                    raise No(t[0])
                if t[0] in VALUED or t[0] == 'bv' or (t[0] == 'app' and t[1] in ('log', 'exp2')):
                    return ('n', str(self.atom(t, env)))
                if t[0] == 'app':
                    return t[:2] + tuple(self.argument(t[1], i, x, env) for i, x in enumerate(t[2:]))
            return tuple(self.key(x, env) for x in t)
        if isinstance(t, (str, int, bool, type(None), Fraction)):
            return t
        raise No(type(t).__name__)

    def argument(self, fn, i, t, env):
        """An argument of an uninterpreted function. One with a structure stands
        for itself, as long as it is the only one given at that place."""
        try:
            return self.key(t, env)
        except No as e:
            if str(e) in RETRY or T.contains_term(t, lambda x: x[0] == 'opaque' or x[0] == 'bv' and x[1] in env):
                raise
            if self.structs.setdefault((fn, i), t) != t:
                raise No('structures')
            return ('struct', i)

    def poly(self, p, env):
        r = Fraction(0)
        for m, c in p.items():
            x = c
            for a, e in m:
                v = self.atom(a, env)
                if v == 0 and e < 0:
                    raise No('division')
                x = x * v ** e
                if x == 0:
                    break
            r = r + x
        return r

    def num(self, x, env):
        r = self.poly(x.n, env)
        if x.d is not None:
            d = self.poly(x.d, env)
            if d == 0 or (isinstance(d, float) and abs(d) < 1e-9):
                raise No('division')
            r = r / d
        return r

    def lit(self, l, env):
        if isinstance(l, bool):
            return l
        if l.op in ('b', 'nb'):
            if isinstance(l.x, tuple):
                v = self.stream_bool(l.x, env)
                if v is None:
                    v = self.rnd(('b', self.key(l.x, env)), 'b')
                return v if l.op == 'b' else not v
            raise No('bool')
        v = self.num(l.x, env)
        if isinstance(v, float) and abs(v) < 1e-9:
            v = 0
        return {'<': v < 0, '<=': v <= 0, '=': v == 0, '!=': v != 0}[l.op]

    def atom(self, a, env):
        self.steps += 1
        if self.steps > 30000:
            raise No('steps')
        t = a[0]
        if t == 'bv':
            if a[1] not in env:
                return self.rnd(('bv', a[1]), 'u')
            return env[a[1]]
        f = VALUED.get(t)
        if f:
            return f(self, a, env)
        if t == 'app' and len(a) == 3 and a[1] in ('log', 'exp2'):
            return self.log(a, env) if a[1] == 'log' else self.exp2(a, env)
        if t == 'app' and a[1] in MATH:
            raise No('math')
        k = kind_of(a)
        if k == 's':
            return T.str_code(self.string(a, env))
        if t == 'size' and kind_of(a[1]) == 's':
            return Fraction(len(self.string(a[1], env)))
        if t == 'at' and len(a) == 3 and kind_of(a[1]) == 's':
            x, i = self.string(a[1], env), self.num(N(a[2]), env)
            if i.denominator != 1 or not 0 <= i <= len(x):
                raise No('division')
            return Fraction(ord(x[int(i)]) if i < len(x) else 0)
        if t == 'peek':
            x, i = self.place(a[1], env)[:2]
            return Fraction(ord(x[i]) if i < len(x) else -1)
        if t == 'rd' and len(a) == 3:
            return self.place((t + '+',) + a[1:], env)[4]
        return self.rnd(self.key(a, env), k)

    # ---- strings and input streams with known text
    def string(self, a, env):
        if isinstance(a, Num):
            a = a.as_atom()
        if not isinstance(a, tuple) or not a:
            raise No('string')
        if a[0] == 'str':
            return a[1]
        if a[0] == 'cat':
            return ''.join(self.string(x, env) if kind_of(N(x).as_atom()) == 's' else self.bad('cat') for x in a[1])
        if a[0] == 'app' and a[1] == 'substr':
            x = self.string(a[2], env)
            i = self.num(N(a[3]), env)
            n = self.num(N(a[4]), env) if len(a) > 4 else len(x)
            if not 0 <= i <= len(x) or n < 0:
                raise No('division')
            return x[int(i):int(i + n)]
        if a[0] in ('line', 'linez'):
            x, i, _, _, _ = self.place(a[1], env)
            d = '\n' if a[0] == 'line' else chr(int(self.num(N(a[2]), env)))
            return x[i:].split(d)[0]
        if a[0] == 'rd' and len(a) == 3:
            return self.place(('rd+',) + a[1:], env)[4]
        if a[0] in REFUSE or a[0].startswith('opaque'):
            raise No(a[0])
        k = (a[0],) + tuple(self.key(x, env) for x in a[1:])
        return self.rnd(k, 's')

    def bad(self, why):
        raise No(why)

    def stream_bool(self, t, env):
        if t[0] in ('eof', 'fail', 'bad') and len(t) == 2 and isinstance(t[1], tuple) and t[1] and t[1][0] in STREAM:
            p = self.place(t[1], env)
            return {'eof': p[2], 'fail': p[3], 'bad': False}[t[0]]
        return None

    def place(self, p, env):
        """(text, position, end seen, refused, value read) after the operations p."""
        t = p[0]
        if t == 'iss':
            return (self.string(p[1], env), 0, False, False, None)
        if t == 'ifs' and len(p) > 1:
            return (self.rnd(('ifs', self.string(p[1], env)) + tuple(self.key(x, env) for x in p[2:]), 'file'), 0, False, False, None)
        if t not in STREAM or len(p) < 2:
            raise No('stream ' + str(t))
        x, i, _, _, _ = self.place(p[1], env)
        if t == 'ws':
            while i < len(x) and x[i] in ' \t\n\r\v\f':
                i += 1
            return (x, i, i == len(x), False, None)
        if t == 'gc':
            return (x, min(i + 1, len(x)), i == len(x), i == len(x), None)
        if t in ('gl', 'glz'):
            d = '\n' if t == 'gl' else chr(int(self.num(N(p[2]), env)))
            j = x.find(d, i)
            return (x, j + 1, False, False, None) if j >= 0 else (x, len(x), True, i == len(x), None)
        tk = p[2]
        if tk == 's':
            j = i
            while j < len(x) and x[j] not in ' \t\n\r\v\f':
                j += 1
            return (x, j, j == len(x), j == i, x[i:j])
        if isinstance(tk, str) and tk.endswith('c'):
            if i == len(x):
                return (x, i, True, True, Fraction(0))
            return (x, i + 1, False, False, Fraction(ord(x[i])))
        m = (re.compile(r'[+-]?\d*') if tk[0] in 'ui' else re.compile(r'[+-]?\d*(\.\d*)?')).match(x, i)
        w, j = m.group(0), m.end()
        if j < len(x) and x[j] in 'eExX' or tk[0] == 'u' and '-' in w or len(w) > 8:
            raise No('division')
        if not any(c.isdigit() for c in w):
            return (x, j, j == len(x), True, Fraction(0))
        return (x, j, j == len(x), False, Fraction(w if w[-1] != '.' else w + '0'))

    def sum(self, a, env):
        _, k, hi, gd, body = a
        h = self.num(N(hi), env)
        if h > 12:
            raise No('range')
        r = Fraction(0)
        i = 0
        while i < h:
            e = dict(env)
            e[k] = Fraction(i)
            if all(self.lit(g, e) for g in gd):
                r = r + self.num(N(body), e)
            i += 1
        return r

    def log(self, a, env):
        v = self.num(N(a[2]), env)
        if v <= 0:
            raise No('log')
        return math.log(v)

    def exp2(self, a, env):
        v = self.num(N(a[2]), env)
        if abs(v) > 60:
            raise No('exp2')
        return Fraction(2) ** int(v) if v == int(v) else 2.0 ** float(v)

    def ints(self, a, env):
        x = self.num(N(a[1]), env)
        if a[0] == 'trunc':
            return Fraction(int(x))
        y = self.num(N(a[2]), env)
        if a[0] == 'wsub':
            if x.denominator != 1 or y.denominator != 1:
                raise No('wsub')
            return Fraction(int(x - y) % 2 ** 64)
        if y == 0:
            raise No('division')
        q = int(Fraction(x) / Fraction(y))
        return Fraction(q) if a[0] == 'idiv' else x - q * y

    def pick(self, a, env):
        vs = [self.num(N(x), env) for x in a[1:]]
        return min(vs) if a[0] == 'min' else max(vs)

    def ratio(self, a, env):
        y = self.num(N(a[2]), env)
        if y == 0:
            raise No('division')
        return self.num(N(a[1]), env) / y


MATH = ('pow', 'sqrt', 'exp', 'floor', 'ceil', 'fabs', 'abs', 'round')
VALUED = {'sum': Val.sum, 'trunc': Val.ints, 'wsub': Val.ints,
          'idiv': Val.ints, 'imod': Val.ints, 'min': Val.pick, 'max': Val.pick, 'ratio': Val.ratio}


def separates(pc, d, tries=60):
    """Is there a valuation admitted by pc under which d is not zero?"""
    pc = [l for l in pc if l is not True]
    got = 0
    for s in range(tries):
        v = Val(s)
        try:
            if not all(v.lit(l, {}) for l in pc):
                continue
            x = v.num(N(d), {})
        except No as e:
            if str(e) in ('division', 'log', 'range', 'exp2', 'steps'):
                continue
            return False
        except (OverflowError, TypeError, ValueError):
            return False
        got += 1
        if abs(x) > 1e-6:
            return True
        if got > 12:
            return False
    if got:
        return False
    l = T.mklit('!=', d)
    return l is not False and admitted(pc + [l])


def literals(pc):
    out = []
    for l in pc:
        for t in T.subterms(l):
            if t[0] == 'str' and len(t) == 2 and isinstance(t[1], str) and t[1] not in out:
                out.append(t[1])
    return sorted(out)[:12]


def constants(pc):
    """Whole numbers other than the smallest that pc speaks of."""
    out = set()
    for l in pc:
        if isinstance(l, Lit) and isinstance(l.x, Num):
            for k in l.x.n.values() if isinstance(l.x.n, dict) else dict(l.x.n).values():
                if abs(k) > 3 and abs(k) < 10 ** 6 and Fraction(k).denominator == 1:
                    out.add(int(abs(k)))
    return tuple(sorted(out))[:6]


RETRY = ('division', 'log', 'range', 'exp2', 'steps')


def admitted(pc, tries=200):
    """Does some valuation satisfy every literal of pc (all of them valued)?
    Random valuations first, then a walk that changes the inputs a violated
    literal depends on."""
    pc = sorted((l for l in pc if l is not True), key=T.key)
    lits = literals(pc)
    consts = constants(pc)
    pool = POOL + [x for l in lits for x in (l, '--' + l, '-' + l, l + 'x') if x not in POOL]

    def holds(v, l):
        v.steps = 0
        try:
            return v.lit(l, {})
        except No as e:
            if str(e) in RETRY:
                return False
            raise

    structs = {}
    try:
        for s in range(tries if not lits else 5):
            v = Val(s, None, pool)
            v.consts = consts
            v.structs = structs
            if all(holds(v, l) for l in pc):
                return True
        for s in range(4):
            rng = random.Random(s)
            v = Val(s, {}, pool)
            v.consts = consts
            v.structs = structs
            bad = [l for l in pc if not holds(v, l)]
            for step in range(300):
                if not bad:
                    return True
                v.touched = []
                holds(v, bad[rng.randrange(len(bad))])
                t, v.touched = v.touched, None
                if not t:
                    break
                k, kind = t[rng.randrange(len(t))]
                old = v.asg.get(k)
                v.asg[k] = not v.rnd(k, kind) if kind == 'b' else v.draw((k, s, step), kind)
                nb = [l for l in pc if not holds(v, l)]
                if len(nb) > len(bad) and rng.random() < 0.8:
                    if old is None:
                        del v.asg[k]
                    else:
                        v.asg[k] = old
                    continue
                bad = nb
    except No:
        return False
    except (OverflowError, TypeError, ValueError):
        return False
    return False
