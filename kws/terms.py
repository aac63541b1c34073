"""Abstract values: hash-consed-style immutable terms, rational functions over
term atoms (Num), literals, and a small convex-polyhedra style feasibility test
(Fourier-Motzkin over monomials) used to discard infeasible partitions."""
from fractions import Fraction
from functools import lru_cache
import math

# ---------------------------------------------------------------- kinds
# numeric kind of an atom: 'u' unsigned integer, 'i' signed integer,
# 'f' real, 's' ordered opaque (strings: only compared, never computed with)
KIND = {}


def setkind(atom, kind):
    KIND[atom] = kind
    return atom


def kind_of(atom):
    k = KIND.get(atom)
    if k:
        return k
    if isinstance(atom, tuple):
        if atom[0] in ('cv', 'lv') and len(atom) == 4:
            return atom[3] if atom[3] in ('u', 'i', 'f', 's') else 'f'
        if atom[0] == 'liter':
            k = atom[1][3][atom[2]]
            return k if k in ('u', 'i', 'f', 's') else 'f'
        if atom[0] in ('size', 'ix', 'bv', 'wsub', 'first', 'lcnt', 'count', 'msizeof'):
            return 'u'
        if atom[0] in ('trunc', 'idiv', 'imod'):
            return 'i'
        if atom[0] == 'str':
            return 's'
        if atom[0] == 'sum':
            return _sumkind(atom)
    return 'f'


def _sumkind(atom):
    body = atom[4]
    if body.d is not None:
        return 'f'
    ks = set()
    for m, c in body.n.items():
        if c.denominator != 1:
            return 'f'
        if c < 0:
            ks.add('i')
        for a, _ in m:
            ks.add(kind_of(a))
    if ks - {'u', 'i'}:
        return 'f'
    k = 'i' if 'i' in ks else 'u'
    KIND[atom] = k
    return k


_KEYS = {}


def _key(x):
    try:
        r = _KEYS.get(x)
    except TypeError:
        return repr(x)
    if r is None:
        r = repr(x)
        if len(_KEYS) > 400000:
            _KEYS.clear()
        _KEYS[x] = r
    return r


key = _key


# ---------------------------------------------------------------- polynomials
# Poly: dict monomial -> Fraction; monomial: tuple of (atom, exp) sorted by repr
def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=_key))


def p_mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = _mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


PRIME = (1 << 61) - 1


def _point(p):
    r = 0
    for m, c in p.items():
        v = c.numerator if c.denominator == 1 else c.numerator * pow(c.denominator, -1, PRIME)
        for a, e in m:
            x = hash(a) % PRIME
            v = v * (x if e == 1 else pow(x, e, PRIME)) % PRIME
        r += v
    return r % PRIME


class Num:
    """num/den, both polynomials with Fraction coefficients."""
    __slots__ = ('n', 'd', '_h', '_r')

    def __init__(self, n, d=None):
        self.n = n
        if d is None or d == {(): Fraction(1)}:
            self.d = None
        else:
            if len(d) == 1 and () in d:
                c = d[()]
                self.n = {m: v / c for m, v in n.items()}
                self.d = None
            elif not n:
                self.d = None
            else:
                # scale so that the leading coefficient of den is 1
                lead = d[min(d, key=_key)]
                if lead != 1:
                    d = {m: v / lead for m, v in d.items()}
                    self.n = {m: v / lead for m, v in n.items()}
                if self.n == d:
                    self.n, self.d = p_const(1), None
                else:
                    self.d = d
        self._h = None
        self._r = None

    @staticmethod
    def const(c):
        return Num(p_const(c))

    @staticmethod
    def atom(t):
        return Num({((t, 1),): Fraction(1)})

    def is_const(self):
        return self.d is None and (not self.n or (len(self.n) == 1 and () in self.n))

    def cval(self):
        return self.n.get((), Fraction(0))

    def as_atom(self):
        if self.d is None and len(self.n) == 1:
            (m, c), = self.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def den(self):
        return self.d if self.d is not None else {(): Fraction(1)}

    def __add__(self, o):
        if self.d == o.d:
            return Num(p_add(self.n, o.n), self.d)
        return Num(p_add(p_mul(self.n, o.den()), p_mul(o.n, self.den())),
                   p_mul(self.den(), o.den()))

    def __sub__(self, o):
        return self + o.neg()

    def neg(self):
        return Num({m: -c for m, c in self.n.items()}, self.d)

    def __mul__(self, o):
        if self.d is None and o.d is None:
            return Num(p_mul(self.n, o.n))
        return Num(p_mul(self.n, o.n), p_mul(self.den(), o.den()))

    def div(self, o):
        return Num(p_mul(self.n, o.den()), p_mul(self.den(), o.n))

    def iszero(self):
        return not self.n

    def _repr(self):
        if self._r is None:
            self._r = 'N(%s%s)' % (p_str(self.n), '' if self.d is None else ' / ' + p_str(self.d))
        return self._r

    __repr__ = _repr

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Num) or hash(self) != hash(o):
            return False
        if self.n == o.n and self.d == o.d:
            return True
        if self.d is None and o.d is None:
            return False
        return (self - o).iszero()

    def __hash__(self):
        # equal rational functions may have different representations: the
        # value at one fixed point of a prime field depends on none of them
        if self._h is None:
            h = _point(self.n)
            if self.d is not None:
                d = _point(self.d)
                h = h * pow(d, -1, PRIME) % PRIME if d else 7
            self._h = h
        return self._h

    def atoms(self):
        s = set()
        for p in (self.n, self.d or {}):
            for m in p:
                for a, _ in m:
                    s.add(a)
        return s


ZERO = Num.const(0)
ONE = Num.const(1)


def N(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, (int, Fraction)):
        return Num.const(x)
    if isinstance(x, float):
        return Num.const(Fraction(repr(x)))
    try:
        c = _INTERN.get(x)
        if c is None:
            if len(_INTERN) > 200000:
                _INTERN.clear()
            _INTERN[x] = c = Num.atom(x)
        return c
    except TypeError:
        return Num.atom(x)


_INTERN = {}


def p_str(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=_key):
        fs = ['%s%s' % (show(a), '' if e == 1 else '^%d' % e) for a, e in m]
        if not fs:
            out.append(str(c))
        elif c == 1:
            out.append('*'.join(fs))
        else:
            out.append('%s*%s' % (c, '*'.join(fs)))
    return ' + '.join(out)


def show(t, depth=0):
    """Readable rendering of a term for diagnostics."""
    if isinstance(t, Num):
        return p_str(t.n) if t.d is None else '(%s)/(%s)' % (p_str(t.n), p_str(t.d))
    if isinstance(t, Seq):
        return '[' + ', '.join(show(x) for x in t.parts) + ']'
    if isinstance(t, Rec):
        return '%s{%s}' % (show(t.base), ', '.join('%s=%s' % (k, show(v)) for k, v in t.over))
    if isinstance(t, tuple) and t:
        if t[0] == 'fld':
            return '%s.%s' % (show(t[1]), t[2])
        if t[0] in ('arg', 'opt', 'sym'):
            return str(t[1])
        if t[0] == 'deref':
            return '*%s' % show(t[1])
        if t[0] == 'app':
            return '%s(%s)' % (t[1], ', '.join(show(x) for x in t[2:]))
        if t[0] == 'at':
            return '%s[%s]' % (show(t[1]), show(t[2]))
        if t[0] == 'size':
            return '|%s|' % show(t[1])
        if t[0] == 'ix':
            return 'k%d' % t[1]
        if t[0] == 'str':
            return repr(t[1])
        return '%s(%s)' % (t[0], ', '.join(show(x) for x in t[1:]))
    return str(t)


# ---------------------------------------------------------------- structured values
class Rec:
    """Record value: opaque base term with overridden fields."""
    __slots__ = ('ty', 'base', 'over', '_h')

    def __init__(self, ty, base, over):
        self.ty = ty
        self.base = base
        self.over = tuple(sorted(((k, v) for k, v in dict(over).items()
                                  if not (base is not None and v == ('fld', base, k))),
                                 key=lambda kv: kv[0]))
        self._h = None

    def get(self, f):
        for k, v in self.over:
            if k == f:
                return v
        return ('fld', self.base, f)

    def set(self, f, v):
        d = dict(self.over)
        d[f] = v
        return Rec(self.ty, self.base, d).norm()

    def norm(self):
        if not self.over and self.base is not None:
            return self.base
        return self

    def __eq__(self, o):
        return self is o or (isinstance(o, Rec) and hash(self) == hash(o) and self.base == o.base and self.over == o.over)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.base, self.over))
        return self._h

    def __repr__(self):
        return 'Rec<%s>(%r,%r)' % (self.ty, self.base, self.over)


class Seq:
    """Sequence value. parts: ('one', v) | ('all', term) |
    ('map', n, hi, cases) with cases=((guard, (part,...)),...): for ('bv',n) in
    0..hi-1 the parts of the case whose guard holds |
    ('case', cases)"""
    __slots__ = ('parts', '_h')

    def __init__(self, parts=()):
        self.parts = tuple(parts)
        self._h = None

    def push(self, v):
        return Seq(self.parts + (('one', v),))

    def cat(self, o):
        return Seq(self.parts + o.parts)

    def __eq__(self, o):
        return self is o or (isinstance(o, Seq) and hash(self) == hash(o) and self.parts == o.parts)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.parts)
        return self._h

    def __repr__(self):
        return 'Seq%r' % (self.parts,)


def part_len(p):
    if p[0] == 'one':
        return ONE
    if p[0] == 'all':
        return size_of(p[1])
    if p[0] == 'map':
        _, n, hi, cases = p
        r = ZERO
        for g, ps in cases:
            r = r + mksum(n, hi, g, seq_len(Seq(ps)))
        return r
    if p[0] == 'case':
        ls = set(seq_len(Seq(ps)) for g, ps in p[1])
        if len(ls) == 1:
            return next(iter(ls))
        return N(('count', p))
    raise ValueError(p)


TMPBV = 20000   # bound variables opened during comparison
BINDERS = {'sum', 'map', 'exists', 'first', 'loop'}
_MAXBV = {}


def has_bv(t, n):
    return n in bvinfo(t)[1]


def _children(t):
    if isinstance(t, tuple):
        return t
    if isinstance(t, Num):
        return t.atoms()
    if isinstance(t, Rec):
        return [t.base] + [v for _, v in t.over]
    if isinstance(t, Seq):
        return t.parts
    if isinstance(t, Lit):
        return (t.x,)
    if isinstance(t, (list, frozenset)):
        return t
    return ()


def bvinfo(t):
    """(largest binder number inside t, frozenset of free bound variables)."""
    if isinstance(t, (str, int, bool, Fraction, type(None))):
        return _NOBV
    try:
        r = _MAXBV.get(t)
    except TypeError:
        r = None
    if r is not None:
        return r
    if isinstance(t, tuple) and t and t[0] in ('bv', 'lv') and len(t) > 1 and isinstance(t[1], int):
        r = (0, frozenset((t[1],)))
    else:
        k, fr = 0, frozenset()
        for x in _children(t):
            a, b = bvinfo(x)
            if a > k:
                k = a
            if b:
                fr = fr | b
        if isinstance(t, tuple) and t and isinstance(t[0], str) and t[0] in BINDERS:
            k = max(k, t[1])
            fr = frozenset()
            for x in t[3:]:
                fr = fr | bvinfo(x)[1]
            fr = (fr - {t[1]}) | bvinfo(t[2])[1]
        r = (k, fr) if (k or fr) else _NOBV
    try:
        if len(_MAXBV) > 600000:
            _MAXBV.clear()
        _MAXBV[t] = r
    except TypeError:
        pass
    return r


_NOBV = (0, frozenset())


def max_bv(t):
    k, fr = bvinfo(t)
    return max([k] + list(fr))


def renum(n, *content):
    """Canonical number for a binder over content whose bound variable is n."""
    k, fr = 0, frozenset()
    for x in content:
        a, b = bvinfo(x)
        k = max(k, a)
        fr = fr | b
    c = k + 1
    fr = fr - {n}
    while c in fr:
        c += 1
    return c


def rename_map(n, n2, items):
    ren = {('bv', n): N(('bv', n2))}
    lvs = []
    for x in items:
        contains_term(x, lambda t: lvs.append(t) if len(t) == 4 and t[0] == 'lv' and t[1] == n else False)
    for t in lvs:
        ren[t] = ('lv', n2) + t[2:]
    return ren


def canon_binder(n, *items):
    """Rename the bound variable n of the items to its canonical number."""
    for _ in range(4):
        n2 = renum(n, *items)
        if n2 == n:
            break
        items = tuple(subst(x, rename_map(n, n2, items)) for x in items)
        n = n2
    return (n,) + tuple(items)


def _polarity(l, c, bva):
    """Should l be expressed through its complement c?"""
    for x, r in ((c, True), (l, False)):
        if x.op == '<=' and x.x.d is None and x.x.n.get(bva) == -1 and set(x.x.n) <= {bva, ()}:
            return r
    return _key(c) < _key(l)


def mksum(n, hi, guard, body):
    """Canonical sum over ('bv',n) in [0,hi) of body where guard holds."""
    body = N(body)
    hi = N(hi)
    if body.iszero() or hi.iszero() or (hi.is_const() and hi.cval() <= 0):
        return ZERO
    g = []
    bounds = {mklit('<', N(('bv', n)) - hi), mklit('<=', N(('bv', n)).neg())}
    for l in guard:
        if l is True or l in bounds:
            continue
        g.append(l)
    # drop guards outside which the body vanishes anyway
    for l in list(g):
        rest = [x for x in g if x != l]
        if body.d is None and entails(frozenset(rest) | {neg(l)} | bounds, eq(body, ZERO)):
            g = rest
    # lower bounds become shifts; complements become differences
    bva = ((('bv', n), 1),)
    for l in g:
        if l.op == '<=' and l.x.d is None and l.x.n.get(bva) == -1 and set(l.x.n) <= {bva, ()}:
            c = l.x.n.get((), 0)
            rest = [x for x in g if x != l]
            if c <= 0:
                return mksum(n, hi, rest, body)
            if c.denominator == 1:
                m = {('bv', n): N(('bv', n)) + N(c)}
                return mksum(n, hi - N(c), [subst(x, m) for x in rest], subst(body, m))
    if len(g) <= 5:
        for l in g:
            c = neg(l)
            if l.op in ('nb', '!=') or (l.op in ('<', '<=') and _polarity(l, c, bva)):
                rest = [x for x in g if x != l]
                return mksum(n, hi, rest, body) - mksum(n, hi, rest + [c], body)
    n, body, g = canon_binder(n, body, tuple(g))
    g = tuple(sorted(g, key=_key))
    if not g:
        c = hi.n.get((), 0) if hi.d is None else 0
        if c > 0 and c <= 3 and c.denominator == 1 and len(hi.n) > 1:
            rest = hi - N(c)
            if all(x > 0 and all(kind_of(a) == 'u' for a, _ in m) for m, x in rest.n.items()):
                r = mksum(n, rest, (), body)
                for i in range(int(c)):
                    r = r + subst(body, {('bv', n): rest + N(i)})
                return r
    if hi.is_const() and 0 < hi.cval() <= 4:
        r = ZERO
        ok = True
        for i in range(int(hi.cval())):
            gs = [subst(l, {('bv', n): N(i)}) for l in g]
            if all(x is True for x in gs):
                r = r + subst(body, {('bv', n): N(i)})
            elif not any(x is False for x in gs):
                ok = False
        if ok:
            return r
    r = ZERO
    den = body.d
    dbv = den is not None and has_bv(Num(den), n)
    for m, c in body.n.items():
        inner = []
        outer = Num.const(c)
        for a, e in m:
            if has_bv(a, n):
                inner.append((a, e))
            else:
                outer = outer * Num({((a, e),): Fraction(1)})
        ib = Num({tuple(sorted(inner, key=_key)): Fraction(1)}, den if dbv else None)
        if den is not None and not dbv:
            outer = outer.div(Num(den))
        if not inner and not dbv and not g:
            r = r + outer * hi
            continue
        # orientation
        cand = [(ib, g)]
        if not has_bv(hi, n):
            rev = {('bv', n): hi - ONE - N(('bv', n))}
            gg = [subst(l, rev) for l in g]
            if not any(isinstance(x, bool) for x in gg):
                cand.append((subst(ib, rev), tuple(sorted(gg, key=_key))))
        ib, gg = min(cand, key=lambda t: (len(_key(t)), _key(t)))
        r = r + outer * N(('sum', n, hi, gg, ib))
    return r


def mkexists(tag, n, hi, cases):
    """('exists'/'first', n, hi, cases): cases is a tuple of guard tuples (DNF)
    over ('bv',n) in [0,hi) (hi None: unbounded)."""
    out = []
    for g in cases:
        if any(l is False for l in g):
            continue
        out.append(tuple(sorted((l for l in g if l is not True), key=_key)))
    if tag == 'exists':
        if not out or (hi is not None and N(hi).iszero()):
            return False
    n, out = canon_binder(n, tuple(out))
    out = [tuple(sorted(g, key=_key)) for g in out]
    return (tag, n, hi, tuple(sorted(set(out), key=_key)))


def open_sum(a, at):
    _, n, hi, g, body = a
    m = {('bv', n): N(at)}
    return [subst(l, m) for l in g], subst(body, m)


def size_of(t):
    if isinstance(t, Seq):
        return seq_len(t)
    if isinstance(t, tuple) and t:
        if t[0] in ('sorted', ):
            return size_of(t[2])
        if t[0] == 'sortrange':
            return size_of(t[2])
        if t[0] == 'reversed' or t[0] == 'upd':
            return size_of(t[1])
        if t[0] == 'resized':
            return t[2]
        if t[0] == 'liter' and t not in _LSIZE:
            _LSIZE[t] = None
            _LSIZE[t] = liter_size(t)
        if t[0] == 'liter' and _LSIZE[t] is not None:
            return _LSIZE[t]
    return N(('size', t))


_LSIZE = {}


def liter_size(t):
    """Length of a list after a loop every step of which keeps its length or
    lengthens it by the same number."""
    _, (_, n, init, kinds, cs, ex), k, count = t
    lv = ('lv', n, k, kinds[k])
    step = None
    for g, row in cs:
        x = row[k]
        if not isinstance(x, (Seq, tuple)):
            return None
        d = (seq_len(x) if isinstance(x, Seq) else size_of(x)) - N(('size', lv))
        if not d.is_const() or step is not None and d != step:
            return None
        step = d
    s = init[k]
    if step is None or not isinstance(s, (Seq, tuple)) or not isinstance(count, Num) and step != ZERO:
        return None
    r = seq_len(s) if isinstance(s, Seq) else size_of(s)
    return r if step.iszero() else r + step * count


def mkresized(v, m, dv):
    """A list brought to m elements: grown by or cut to a number known."""
    v = as_seq(v) if not isinstance(v, Seq) else v
    m = m if isinstance(m, Num) else N(m)
    d = m - seq_len(v)
    if d.is_const() and d.cval() == int(d.cval()) and -8 <= d.cval() <= 8:
        k = int(d.cval())
        if k >= 0:
            return Seq(v.parts + (('one', dv),) * k)
        if all(p[0] == 'one' for p in v.parts[k:]) and len(v.parts) >= -k:
            return Seq(v.parts[:k])
    if m.iszero():
        return Seq(())
    t = v.parts[0][1] if len(v.parts) == 1 and v.parts[0][0] == 'all' else v
    return Seq((('all', ('resized', t, m, dv.as_atom() if isinstance(dv, Num) and dv.as_atom() is not None else dv)),))


def seq_len(s):
    r = ZERO
    for p in s.parts:
        r = r + part_len(p)
    return r


def as_seq(v):
    if isinstance(v, Seq):
        return v
    return Seq((('all', v),))


def seq_term(s):
    """Collapse Seq([all t]) back to t."""
    if isinstance(s, Seq) and len(s.parts) == 1 and s.parts[0][0] == 'all':
        return s.parts[0][1]
    return s


# ---------------------------------------------------------------- substitution
def subst(t, m):
    """Replace atoms/terms according to dict m (term -> term/value)."""
    if not m:
        return t
    return _subst(t, m, {})


def _subst(t, m, memo):
    try:
        if t in memo:
            return memo[t]
    except TypeError:
        pass
    r = _subst1(t, m, memo)
    try:
        memo[t] = r
    except TypeError:
        pass
    return r


def _subst1(t, m, memo):
    if isinstance(t, Num):
        return _subst_num(t, m, memo)
    if isinstance(t, Rec):
        if t.base is not None and t.base in m:
            b = m[t.base]
        else:
            b = _subst(t.base, m, memo) if t.base is not None else None
        over = {k: _subst(v, m, memo) for k, v in t.over}
        if isinstance(b, Rec):
            d = dict(b.over)
            d.update(over)
            return Rec(t.ty, b.base, d).norm()
        if isinstance(b, Num):
            b = b.as_atom() or b
        return Rec(t.ty, b, over).norm()
    if isinstance(t, Seq):
        out = []
        for p in t.parts:
            if p[0] == 'one':
                out.append(('one', _subst(p[1], m, memo)))
            elif p[0] == 'all':
                v = m[p[1]] if p[1] in m else _subst(p[1], m, memo)
                if isinstance(v, Seq):
                    out.extend(v.parts)
                else:
                    out.append(('all', v))
            else:
                out.extend(norm_part(_subst_tuple(p, m, memo)))
        return Seq(out)
    if isinstance(t, Lit):
        if t in m:
            return m[t]
        r = t.map(lambda x: _subst(x, m, memo))
        if isinstance(r, Lit) and r.op in ('b', 'nb') and r.x[:1] == ('has',) and r.x[1] in (('mempty',), ('msorted',)):
            return r.op == 'nb'
        return r
    if isinstance(t, tuple):
        if t in m:
            v = m[t]
            return v
        return _subst_tuple(t, m, memo)
    return t


def norm_part(p):
    """Normalise a 'map'/'case' part after substitution: list of parts."""
    if p[0] == 'map':
        _, n, hi, cases = p
        if hi.iszero():
            return []
        cases = norm_cases(cases)
        if not cases:
            return []
        if len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1 and cases[0][1][0][0] == 'one':
            x = cases[0][1][0][1]       # every element of a sequence, in order: the sequence
            if isinstance(x, Num):
                x = x.as_atom()
            if isinstance(x, tuple) and len(x) == 3 and x[0] == 'at' and x[2] == N(('bv', n)) \
                    and hi == N(('size', x[1])) and not contains_term(x[1], lambda t: t == ('bv', n)):
                return [('all', x[1])]
        return [('map', n, hi, cases)]
    if p[0] == 'case':
        cases = norm_cases(p[1])
        if len(cases) == 1 and not cases[0][0]:
            return list(cases[0][1])
        if not cases:
            return []
        return [('case', cases)]
    return [p]


def norm_cases(cases):
    out = []
    for g, ps in cases:
        g2 = []
        dead = False
        for l in g:
            if l is True:
                continue
            if l is False:
                dead = True
                break
            g2.append(l)
        if dead:
            continue
        out.append((tuple(sorted(g2, key=_key)), ps))
    return tuple(out)


def _unnum(x):
    if isinstance(x, Num):
        a = x.as_atom()
        if a is not None:
            return a
    return x


def _subst_tuple(t, m, memo):
    out = []
    ch = False
    if t and isinstance(t[0], str) and t[0] in BINDERS:
        n = t[1]
        bn = ('bv', n)
        m0, memo0 = m, memo
        if bn in m:
            m = {k: v for k, v in m.items() if k != bn}
            memo = {}
        if m and any(n in bvinfo(v)[1] for v in m.values()):
            fresh = max(max(max_bv(v) for v in m.values()), max_bv(t)) + 1
            ren = rename_map(n, fresh, t[3:])
            t = (t[0], fresh, t[2]) + tuple(_subst(x, ren, {}) for x in t[3:])
            ch = True
        for i, x in enumerate(t):
            y = _subst(x, m0, memo0) if i == 2 else (_subst(x, m, memo) if m else x)
            if y is not x:
                ch = True
            out.append(y)
        t0 = ()
    else:
        t0 = t
    for x in t0:
        y = _subst(x, m, memo)
        if y is not x:
            ch = True
        out.append(y)
    if not ch:
        return t
    if t[0] in ('exists', 'first'):
        return mkexists(t[0], out[1], out[2], out[3])
    if t[0] in ('map', 'loop'):
        c = canon_binder(out[1], *out[3:])
        return (t[0], c[0], out[2]) + tuple(c[1:])
    if t[0] == 'sum':
        if any(x is False for x in out[3]):
            return ZERO
        return mksum(out[1], out[2], out[3], out[4])
    if t[0] == 'wsub' and isinstance(out[1], Num) and isinstance(out[2], Num):
        d = out[1] - out[2]
        if d.is_const() and d.cval() >= 0:
            return d
    if t[0] == 'draw' and isinstance(out[1], Num) and isinstance(out[2], Num) and (out[1] - out[2]).iszero():
        return out[1]
    if t[0] == 'fld' and isinstance(out[1], Rec):
        return out[1].get(out[2])
    if t[0] == 'fld':
        out[1] = _unnum(out[1])
    if t[0] == 'at':
        v = seq_get(out[1], out[2])
        return v
    if t[0] == 'upd' and len(out) == 4:
        return mkupd(out[1], out[2], out[3])
    if t[0] == 'resized' and len(out) == 4 and isinstance(out[2], Num):
        return mkresized(out[1], out[2], out[3])
    if t[0] == 'size':
        if out[1] in (('mempty',), ('msorted',)):
            return ZERO
        if isinstance(out[1], Seq):
            return seq_len(out[1])
        if isinstance(out[1], Num):
            out[1] = _unnum(out[1])
        if isinstance(out[1], tuple) and out[1] and out[1][0] in ('sorted', 'upd', 'reversed', 'resized', 'sortrange', 'liter'):
            return size_of(out[1])
    r = tuple(out)
    k = KIND.get(t)
    if k:
        KIND[r] = k
    return r


def _subst_num(t, m, memo):
    ch = False
    for a in t.atoms():
        b = m[a] if a in m else _subst(a, m, memo)
        if b is not a:
            ch = True
            break
    if not ch:
        return t

    def ev(p):
        r = ZERO
        for mo, c in p.items():
            x = Num.const(c)
            for a, e in mo:
                b = m[a] if a in m else _subst(a, m, memo)
                bn = b if isinstance(b, Num) else Num.atom(b)
                for _ in range(e):
                    x = x * bn
            r = r + x
        return r
    n = ev(t.n)
    if t.d is not None:
        d = ev(t.d)
        if d.iszero():
            return N(('app', '/0', n))
        n = n.div(d)
    return n


def contains_term(t, pred, _memo=None, skip=None):
    """Does any sub-term satisfy pred (other than inside those to skip)?"""
    memo = {} if _memo is None else _memo

    def go(x):
        if isinstance(x, (str, int, bool, Fraction, type(None))):
            return False
        try:
            if x in memo:
                return memo[x]
        except TypeError:
            pass
        r = False
        if isinstance(x, tuple):
            if x and pred(x):
                r = True
            elif skip is None or not x or not skip(x):
                r = any(go(y) for y in x)
        elif isinstance(x, Num):
            r = any(go(a) for a in x.atoms())
        elif isinstance(x, Rec):
            r = (x.base is not None and go(x.base)) or any(go(v) for _, v in x.over)
        elif isinstance(x, Seq):
            r = any(go(p) for p in x.parts)
        elif isinstance(x, Lit):
            r = go(x.x)
        elif isinstance(x, (list, frozenset)):
            r = any(go(y) for y in x)
        try:
            memo[x] = r
        except TypeError:
            pass
        return r
    return go(t)


def subterms(t):
    seen = []
    def pred(x):
        seen.append(x)
        return False
    contains_term(t, pred)
    return seen


def mkupd(s, i, v):
    """s with element i replaced by v."""
    while isinstance(s, tuple) and s and s[0] == 'upd' and s[2] == i:
        s = s[1]
    i = N(i)
    if isinstance(s, Seq):
        r = seq_put(s, i, v)
        if r is not None:
            return seq_term(r)
    vv = v.as_atom() if isinstance(v, Num) else v.norm() if isinstance(v, Rec) else v
    if isinstance(vv, tuple) and vv and vv[0] == 'at' and vv[1] == s and N(vv[2]) == i:
        return s
    return ('upd', s, i, v)


# ---------------------------------------------------------------- sequences: element access
def expand(v):
    """Comprehensions over a known small range, written out."""
    if not any(p[0] == 'map' and N(p[2]).is_const() for p in v.parts):
        return v
    out = []
    for p in v.parts:
        if p[0] == 'map' and N(p[2]).is_const() and len(p[3]) == 1 and not p[3][0][0] and 0 <= N(p[2]).cval() <= 12:
            for i in range(int(N(p[2]).cval())):
                out.extend(subst(Seq(p[3][0][1]), {('bv', p[1]): N(i)}).parts)
        else:
            out.append(p)
    return Seq(out)


def seq_put(s, i, nv):
    """Sequence s with element i replaced, where i is known to be one of the
    explicit elements; None otherwise."""
    off = i
    ps = list(expand(s).parts)
    for n, p in enumerate(ps):
        if p[0] == 'one' and off.iszero():
            ps[n] = ('one', nv)
            return Seq(ps)
        nx = off - part_len(p)
        if nx.is_const() and nx.cval() >= 0:
            off = nx
            continue
        break
    back = seq_len(s) - i
    if back.is_const():
        c = int(back.cval())
        if c > 0 and len(ps) >= c and all(p[0] == 'one' for p in ps[-c:]):
            ps[-c] = ('one', nv)
            return Seq(ps)
    return None


def nonneg(x):
    """x is a combination of unsigned unknowns with no negative coefficient."""
    if any(c < 0 for c in x.n.values()) or x.d is not None:
        return False
    return all(kind_of(a) == 'u' for a in x.atoms())


def seq_get(s, idx):
    """Element idx (Num) of sequence value s."""
    idx = N(idx)
    if not isinstance(s, Seq):
        if isinstance(s, tuple) and s and s[0] == 'upd':
            _, base, j, v = s
            if (idx - j).iszero():
                return v
            if (idx - j).is_const():
                return seq_get(base, idx)
        return ('at', s, idx)
    off = idx
    for ip, p in enumerate(s.parts):
        last = ip == len(s.parts) - 1
        if p[0] == 'one':
            if off.iszero():
                return p[1]
        elif p[0] == 'all' and len(s.parts) == 1:
            return ('at', p[1], off)
        elif p[0] == 'map':
            _, n, hi, cases = p
            if len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1 and cases[0][1][0][0] == 'one' and last:
                return subst(cases[0][1][0][1], {('bv', n): off})
        l = part_len(p)
        nxt = off - l
        # we can only skip this part if provably off >= l: constant case
        if nxt.is_const() and nxt.cval() >= 0 or nonneg(nxt):
            off = nxt
            continue
        break
    else:
        pass
    # from the back: idx = len - c
    total = seq_len(s)
    back = total - idx
    if back.is_const() and back.cval() > 0:
        c = int(back.cval())
        ps = s.parts
        k = len(ps) - 1
        while k >= 0 and ps[k][0] == 'one':
            if c == 1:
                return ps[k][1]
            c -= 1
            k -= 1
    return ('at', seq_term(s), idx)


# ---------------------------------------------------------------- literals
class Lit:
    """op in '<','<=','=','!=' : x (Num) op 0 ; 'b','nb': opaque boolean term x"""
    __slots__ = ('op', 'x', '_h')

    def __init__(self, op, x):
        self.op = op
        self.x = x
        self._h = None

    def map(self, f):
        if self.op in ('b', 'nb'):
            y = f(self.x)
            if isinstance(y, bool):
                return y if self.op == 'b' else (not y)
            if isinstance(y, Lit):
                return y if self.op == 'b' else neg(y)
            return Lit(self.op, y)
        return mklit(self.op, f(self.x))

    def __eq__(self, o):
        return self is o or (isinstance(o, Lit) and self.op == o.op and hash(self) == hash(o) and self.x == o.x)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.x))
        return self._h

    def __repr__(self):
        if self.op == 'b':
            return show(self.x)
        if self.op == 'nb':
            return '!' + show(self.x)
        return '%s %s 0' % (show(self.x), self.op)


def mklit(op, x):
    """x op 0; returns bool or Lit (canonically scaled)."""
    x = N(x)
    if x.is_const():
        c = x.cval()
        return {'<': c < 0, '<=': c <= 0, '=': c == 0, '!=': c != 0}[op]
    if x.d is not None:
        if op in ('=', '!='):
            x = Num(x.n)     # den is nonzero where the quotient is defined
            if x.is_const():
                return mklit(op, x)
        else:
            # sign of the denominator: positive if all monomials are products
            # of unsigned atoms with positive coefficients
            if all(c > 0 and all(kind_of(a) == 'u' for a, _ in m) for m, c in x.d.items()):
                x = Num(x.n)
                if x.is_const():
                    return mklit(op, x)
            else:
                x = N(('ratio', Num(x.n), Num(x.d)))
    lead = x.n[min(x.n, key=_key)]
    s = abs(lead)
    if op in ('=', '!=') and lead < 0:
        s = -s
    if s != 1:
        x = Num({m: c / s for m, c in x.n.items()})
    if op in ('=', '!=') and x.d is None:
        for y in (x, x.neg()):
            if all(c > 0 and (m == () or all(kind_of(a) == 'u' for a, _ in m)) for m, c in y.n.items()):
                return mklit('<=' if op == '=' else '<', y if op == '=' else y.neg())
    # integer tightening into canonical '<=' form
    if op == '<' and is_intpoly(x):
        x2 = _int_scale(x)
        return mklit('<=', x2 + ONE)
    l = Lit(op, x)
    c = _LITS.get(l)
    if c is None:
        if len(_LITS) > 200000:
            _LITS.clear()
        _LITS[l] = c = l
    return c


_LITS = {}


def _int_scale(x):
    from math import lcm
    l = 1
    for c in x.n.values():
        l = lcm(l, c.denominator)
    return Num({m: c * l for m, c in x.n.items()}) if l != 1 else x


def is_intpoly(x):
    return x.d is None and all(kind_of(a) in 'ui' for m in x.n for a, _ in m)


def neg(l):
    if isinstance(l, bool):
        return not l
    if l.op == 'b':
        return Lit('nb', l.x)
    if l.op == 'nb':
        return Lit('b', l.x)
    if l.op == '=':
        return Lit('!=', l.x)
    if l.op == '!=':
        return Lit('=', l.x)
    if l.op == '<':
        return mklit('<=', l.x.neg())
    return mklit('<', l.x.neg())


def lt(a, b):
    return mklit('<', N(a) - N(b))


def le(a, b):
    return mklit('<=', N(a) - N(b))


def eq(a, b):
    return mklit('=', N(a) - N(b))


def ne(a, b):
    return mklit('!=', N(a) - N(b))


def boolatom(t):
    return Lit('b', t)


# ---------------------------------------------------------------- feasibility
def feasible(lits):
    """False only if the conjunction is provably infeasible."""
    lits = frozenset(l for l in lits if l is not True)
    if False in lits:
        return False
    return _feasible(lits)


def str_code(v):
    """Order preserving rational code of a string literal."""
    r = Fraction(0)
    b = Fraction(1)
    for ch in v.encode('utf8', 'replace')[:40]:
        b /= 257
        r += b * (ch + 1)
    return r


def _strsub(lits):
    """x = "lit" in lits: substitute and evaluate sizes and characters."""
    m = {}
    for l in lits:
        if l.op == '=' and l.x.d is None and len(l.x.n) == 2:
            at = [(mo[0][0], c) for mo, c in l.x.n.items() if len(mo) == 1 and mo[0][1] == 1]
            if len(at) == 2 and at[0][1] == -at[1][1]:
                for (a, _), (b, _) in (at, at[::-1]):
                    if isinstance(b, tuple) and b[0] == 'str' and not (isinstance(a, tuple) and a[0] == 'str'):
                        m[a] = b
    if not m:
        return None
    key = tuple(sorted(((a, b[1]) for a, b in m.items()), key=lambda x: (x[1], repr(hash(x[0])))))
    out = []
    for l in lits:
        r = _strfix(l, key)
        if r is False:
            return False
        if r is not True:
            out.append(r)
    return frozenset(out)


@lru_cache(maxsize=200000)
def _strfix(l, key):
    """Literal l with the strings of key (pairs string term, text) known."""
    m = dict(key)
    if l.op == '=' and any(a in m for a in l.x.atoms()):
        return l
    mm = {('size', a): Num.const(len(b)) for a, b in key}

    def fix(t):
        t = subst(t, mm)
        sub = {}
        for x in subterms(t):
            if x[0] == 'at' and x[1] in m:
                i = x[2] if isinstance(x[2], Num) else N(x[2])
                if i.is_const():
                    s = m[x[1]]
                    k = int(i.cval())
                    sub[x] = Num.const(ord(s[k]) if 0 <= k < len(s) else 0)
        return subst(t, sub) if sub else t
    return l.map(fix)


@lru_cache(maxsize=200000)
def _feasible(lits):
    if any(l.op == '=' and any(isinstance(a, tuple) and a[0] == 'str' for a in l.x.atoms()) for l in lits if l.op == '='):
        r = _strsub(lits)
        if r is False:
            return False
        if r is not None:
            lits = r
    pos = set()
    negs = set()
    cons = []   # list of (dict monomial->coef incl const, strict)
    nes = []
    for l in lits:
        if l.op == 'b':
            pos.add(l.x)
        elif l.op == 'nb':
            negs.add(l.x)
        elif l.op == '!=':
            nes.append(l.x)
        elif l.op == '=':
            cons.append((dict(l.x.n), '='))
        else:
            cons.append((dict(l.x.n), l.op))
    if pos & negs:
        return False
    if not cons and not nes:
        return True
    if not _fm(cons):
        return False
    for x in nes:
        if not _fm(cons + [(dict(x.n), '<')]) and not _fm(cons + [({m: -c for m, c in x.n.items()}, '<')]):
            return False
    return True


def _fm(cons):
    """cons: list of (poly, op) op in <,<=,= meaning poly op 0."""
    # collect variables; add nonnegativity of unsigned atoms
    rows = []
    vars_ = set()
    cc = []
    for p, op in cons:
        q = None
        for m in p:
            if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == 'str':
                if q is None:
                    q = dict(p)
                c = q.pop(m)
                q[()] = q.get((), 0) + c * str_code(m[0][0][1])
        cc.append((q if q is not None else p, op))
    cons = cc
    ints = set()
    ix = {}
    num = []
    for p, op in cons:
        q = {}
        for m, c in p.items():
            if m:
                i = ix.get(m)
                if i is None:
                    ix[m] = i = len(ix) + 1
                    if all(kind_of(a) in 'ui' for a, _ in m):
                        ints.add(i)
                    if all(kind_of(a) == 'u' for a, _ in m):
                        rows.append(({i: Fraction(-1)}, '<='))
                q[i] = c
            else:
                q[0] = c
        num.append((q, op))
    cons = num
    eqs = []
    for p, op in cons:
        if op == '=':
            eqs.append(dict(p))
        else:
            if op == '<' and all(m == 0 or m in ints for m in p):
                l = math.lcm(*[c.denominator for c in p.values()])
                p = {m: c * l for m, c in p.items()}
                p[0] = p.get(0, 0) + 1
                rows.append((p, '<='))
            else:
                rows.append((dict(p), op))
    # eliminate equalities
    while eqs:
        e = eqs.pop()
        v = next((m for m in e if m), None)
        if v is None:
            if e.get(0, 0) != 0:
                return False
            continue
        c = e[v]
        def el(p):
            k = p.get(v, 0)
            if not k:
                return p
            r = dict(p)
            for m, cc in e.items():
                nv = r.get(m, 0) - k * cc / c
                if nv:
                    r[m] = nv
                else:
                    r.pop(m, None)
            return r
        eqs = [el(x) for x in eqs]
        rows = [(el(p), op) for p, op in rows]
    # FM
    work = rows
    for _ in range(64):
        vs = {}
        nw = []
        for p, op in work:
            if all(not m for m in p):
                c = p.get(0, 0)
                if c > 0 or (c == 0 and op == '<'):
                    return False
                continue
            nw.append((p, op))
        work = nw
        for p, op in work:
            for m, c in p.items():
                if m:
                    a, b = vs.get(m, (0, 0))
                    vs[m] = (a + (c > 0), b + (c < 0))
        if not vs:
            return True
        v = min(vs, key=lambda m: (vs[m][0] * vs[m][1], m))
        ups = [(p, op) for p, op in work if p.get(v, 0) > 0]
        los = [(p, op) for p, op in work if p.get(v, 0) < 0]
        rest = [(p, op) for p, op in work if not p.get(v, 0)]
        seen = set()
        for p, op in ups:
            for q, oq in los:
                a, b = p[v], -q[v]
                r = {}
                for m, c in p.items():
                    r[m] = r.get(m, 0) + c / a
                for m, c in q.items():
                    r[m] = r.get(m, 0) + c / b
                r = {m: c for m, c in r.items() if c and m != v}
                key = (frozenset(r.items()), op == '<' or oq == '<')
                if key in seen:
                    continue
                seen.add(key)
                rest.append((r, '<' if (op == '<' or oq == '<') else '<='))
        work = rest
        if len(work) > 4000:
            return True
    return True


def entails(lits, l):
    if l is True:
        return True
    if l is False:
        return not feasible(lits)
    return not feasible(frozenset(lits) | {neg(l)})


def forget():
    """Start afresh: the sorts of symbols, and all verdicts that rest on them,
    belong to one analysis."""
    KIND.clear()
    _LITS.clear()
    _INTERN.clear()
    _LSIZE.clear()
    _strfix.cache_clear()
    _feasible.cache_clear()

