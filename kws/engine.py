"""Guarded value-flow summaries of functions over the exported syntax tree.

Abstract interpretation with trace partitioning: a state is a set of guard
literals plus an abstract memory of symbolic normal forms.  Loops are summarised
(induction variables, sums, comprehensions, recurrences), never unrolled; calls to
repository functions are analysed in place; library calls have models."""
import sys
from .terms import *
from .prog import moving as _moving
from . import terms as T

sys.setrecursionlimit(20000)

NULLP = ('null0',)
VOID = ('void',)


class Undecided(Exception):
    """The construct is outside what the analysis represents."""


def mkloc(root, path=(), ty=None):
    return ('loc', root, path, ty)


def isloc(v):
    return isinstance(v, tuple) and len(v) == 4 and v[0] == 'loc'


def is_tag(v, tag):
    return isinstance(v, tuple) and len(v) > 0 and isinstance(v[0], str) and v[0] == tag


def tm(v):
    """Canonical term of a value, for embedding in other terms."""
    if isinstance(v, Num):
        a = v.as_atom()
        return a if a is not None else v
    if isinstance(v, Lit):
        return v.x if v.op == 'b' else v
    if isinstance(v, Seq):
        return seq_term(v)
    if isinstance(v, Rec):
        return v.norm()
    if is_tag(v, 'ptr'):
        l = v[1]
        if l[1][0] == 'D' and l[2] == ():
            return l[1][1]
        return ('ptr', l[:3])
    return v


class State:
    __slots__ = ('mem', 'pc', 'own')

    def __init__(self, mem=None, pc=frozenset()):
        self.mem = mem if mem is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.mem), self.pc)

    def assume(self, l):
        """New state with l assumed, or None if infeasible."""
        if l is True:
            return self
        if l is False:
            return None
        if l in self.pc:
            return self
        pc = self.pc | {l}
        if not feasible(pc):
            return None
        return State(self.mem, pc)

    def set(self, root, v):
        m = dict(self.mem)
        m[root] = v
        return State(m, self.pc)


class Frame:
    n = 0

    def __init__(self, fn, this=None, depth=0):
        Frame.n += 1
        self.id = Frame.n
        self.fn = fn
        self.this = this
        self.depth = depth
        self.files = []         # file streams among the locals in scope


class Out:
    """Statement outcomes."""
    BRK = ('brk',)
    CONT = ('cont',)


# an empty map; the second one starts chains whose entries stand in the order of their keys
EMPTIES = (('mempty',), ('msorted',))


def sorted_chain(v):
    """[(key, value)] of a chain known to be in key order, else None."""
    out = []
    while is_tag(v, 'mput'):
        out.append((v[2], v[3]))
        v = v[1]
    return out[::-1] if v == ('msorted',) else None


def chain_map(kvs, base=('msorted',)):
    for k, v in kvs:
        base = ('mput', base, k, v)
    return base


def unsort(m):
    ch = sorted_chain(m)
    return m if ch is None else chain_map(ch, ('mempty',))


class Engine:
    def __init__(self, prog, stop=None, merge_fns=(), unroll=None):
        self.invariants = False
        self.moving = _moving(prog) if prog is not None else ()
        self.bseen = set()
        self.unroll = unroll
        self.max_paths = 4000
        self.kty = {}               # types of keys that are records
        self.lastround = False      # of a cut loop: the body need not be entered
        self.cut = 0
        self.own = False
        self.ownv = []
        self.ownsite = {}
        self._fixed = {}
        self.p = prog
        self.stop = stop or (lambda fn, f: None)
        self.rty = {}
        self.exc = []
        self.stack = []
        self.ldepth = 0
        self.quiet = 0
        self.obl = []
        self.loops = []
        self.nheap = 0
        self.ncalls = 0
        self.ndraw = 0
        self.analysed = set()
        self.unknown = {}
        self.steps = 0
        self.limit = 400000
        self.merge_fns = set(merge_fns)
        self.hooks = {}
        from . import models
        self.models = models

    # ------------------------------------------------------------ types & values
    def mat(self, t, ty):
        """Give the raw term t the value form of type ty."""
        if isinstance(t, (Num, Lit, bool, Seq, Rec)):
            return t
        if not isinstance(t, tuple) or ty is None:
            return t
        if is_tag(t, 'ptr') or is_tag(t, 'it') or is_tag(t, 'mit') or is_tag(t, 'box') or t == NULLP:
            return t
        k = self.p.kind(ty)
        if k == 'b':
            return Lit('b', t)
        if k in ('u', 'i', 'f', 's'):
            if t not in KIND:
                KIND[t] = k
            return Num.atom(t)
        d = self.p.unref(ty)
        if d['k'] == 'ptr':
            if is_tag(t, 'fnv') or is_tag(t, 'clo'):
                return t
            return ('ptr', mkloc(('D', t), (), d['to']))
        q = d.get('qn', '')
        if q in SEQ_TYPES:
            return Seq((('all', t),))
        return t

    def default(self, ty):
        """Value-initialised value of type ty."""
        k = self.p.kind(ty)
        if k == 'b':
            return False
        if k == 's':
            return N(('str', ''))
        if k:
            return ZERO
        d = self.p.unref(ty)
        if d['k'] == 'ptr':
            return NULLP
        q = d.get('qn', '')
        if q in SEQ_TYPES:
            return Seq(())
        if q in MAP_TYPES:
            return ('mempty',)
        if q in BOX_TYPES:
            return NULLP
        if q in OSTREAMS:
            return Seq(())
        if q == 'std::pair':
            a = self.p.targs(ty)
            return Rec('std::pair', None, {'first': self.default(a[0]), 'second': self.default(a[1])})
        return ('default', q or ty)

    # ------------------------------------------------------------ memory
    def rootval(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        ty = self.rty.get(root)
        if root[0] == 'LOG':
            return Seq(())
        if root[0] == 'FMT':
            return N(('str', 'general')) if root[3] == 'floatfield' else N(6)
        if root[0] == 'A':
            return self.mat(('arg', root[1]), ty)
        if root[0] == 'D':
            if is_tag(root[1], 'app') or is_tag(root[1], 'opaque'):
                return self.mat(root[1], ty)
            if ty is not None and self.p.unref(ty).get('ch'):
                KIND[('deref', root[1])] = 's'
                return ('deref', root[1])
            return self.mat(('deref', root[1]), ty)
        if root[0] == 'G':
            return self.mat(('glob', root[1]), ty)
        return self.mat(('undef', root[0], root[-1]), ty)

    def step_get(self, v, s, pc=None):
        k = s[0]
        if k == 'f':
            if isinstance(v, Rec):
                return v.get(s[1])
            if is_tag(v, 'ite'):
                return ('ite', v[1], self.step_get(v[2], s), self.step_get(v[3], s))
            return ('fld', tm(v), s[1])
        if k == 'i':
            if isinstance(v, Num):
                v = tm(v)
            if self.unroll is not None and isinstance(v, Seq):
                v = expand(v)
            if is_tag(v, 'mput') or is_tag(v, 'mdel'):
                if v[0] == 'mput' and v[1] in EMPTIES and N(s[1]).iszero():
                    return v[2] if v[3] is True else Rec('std::pair', None, {'first': v[2], 'second': v[3]})
                ch = sorted_chain(v)
                if ch is not None and N(s[1]).is_const() and 0 <= N(s[1]).cval() < len(ch):
                    k, x = ch[int(N(s[1]).cval())]
                    return k if x is True else Rec('std::pair', None, {'first': k, 'second': x})
                v = ('opaque', 'order', tm(v))      # the place of a key depends on the others
            return seq_get(v, s[1])
        if k == 'e':
            if self.is_set(v):
                return s[1]
            return Rec('std::pair', None, {'first': s[1], 'second': self.mget(v, s[1], pc)})
        if k == '*':
            if is_tag(v, 'box'):
                return v[1]
            return ('deref', tm(v))
        raise Undecided('path step %r' % (s,))

    def step_set(self, v, s, nv):
        k = s[0]
        if k == 'f':
            if isinstance(v, Rec):
                return v.set(s[1], nv)
            return Rec('', v, {s[1]: nv}).norm()
        if k == 'i':
            i = s[1]
            if isinstance(v, Seq):
                if self.unroll is not None:
                    v = expand(v)
                if len(v.parts) == 1 and v.parts[0][0] == 'all':
                    return Seq((('all', mkupd(v.parts[0][1], i, nv)),))
                r = seq_put(v, i, nv)
                if r is not None:
                    return r
                return Seq((('all', mkupd(seq_term(v), i, nv)),))
            ch = sorted_chain(v)
            if ch is not None and N(i).is_const() and 0 <= N(i).cval() < len(ch) and ch[0][1] is not True:
                x = nv.get('second') if isinstance(nv, Rec) else ('fld', nv, 'second')
                return chain_map([(a, x if n == N(i).cval() else b) for n, (a, b) in enumerate(ch)])
            return mkupd(tm(v), i, nv)
        if k == 'e':
            if isinstance(nv, Rec):
                return self.mput(v, s[1], nv.get('second'))
            return self.mput(v, s[1], ('fld', nv, 'second'))
        if k == '*':
            return ('box', nv)
        raise Undecided('path step %r' % (s,))

    def read(self, st, loc):
        v = self.rootval(st, loc[1])
        for s in (self.fixpath(st, loc[2]) if self.unroll is not None else loc[2]):
            v = self.step_get(v, s, st.pc)
        if is_tag(v, 'deref') and kind_of(v) == 's':
            return self.mat(('at', v, ZERO), loc[3])
        return self.mat(v, loc[3])

    def fixpath(self, st, path):
        """With loops cut, positions the path condition fixes are numbers."""
        out = []
        for s in path:
            if s[0] == 'i' and isinstance(s[1], Num) and not s[1].is_const():
                s = ('i', self.fixed(st, s[1]))
            out.append(s)
        return tuple(out)

    def fixed(self, st, x):
        m = {}
        for a in x.atoms():
            if isinstance(a, tuple) and a[0] in ('size', 'app') and kind_of(a) == 'u':
                k = self._fixed.get((st.pc, a))
                if k is None:
                    k = -1
                    for i in range(self.unroll + 2):
                        if entails(st.pc, mklit('<=', N(a) - N(i))):
                            if entails(st.pc, mklit('<=', N(i) - N(a))):
                                k = i
                            break
                    self._fixed[(st.pc, a)] = k
                if k >= 0:
                    m[a] = N(k)
        return N(subst(x, m)) if m else x

    def write(self, st, loc, v):
        root, path = loc[1], loc[2]
        if path and self.unroll is not None:
            path = self.fixpath(st, path)
        if path:
            base = self.rootval(st, root)
            chain = [base]
            for s in path[:-1]:
                chain.append(self.step_get(chain[-1], s))
            for s, b in zip(reversed(path), reversed(chain)):
                v = self.step_set(b, s, v)
        elif root not in self.rty and loc[3]:
            self.rty[root] = loc[3]
        return st.set(root, v)

    # ---- maps and sets
    def is_set(self, v):
        while is_tag(v, 'mput') or is_tag(v, 'mdel'):
            if v[0] == 'mput':
                return v[3] is True
            v = v[1]
        if (is_tag(v, 'cv') or is_tag(v, 'lv')) and len(v) == 4:
            return v[3] == 'set'
        if is_tag(v, 'liter'):
            return v[1][3][v[2]] == 'set'
        return is_tag(v, 'setof') or KIND.get(('isset', v)) == 1

    def keyparts(self, a, b):
        """Equality of two record keys as a list of conditions (one per scalar
        field: the order of the repository's records compares all of them),
        None when it cannot hold or the record is not known."""
        ty = self.kty.get(a) or self.kty.get(b)
        rid = self.p.recid(ty) if ty else None
        rec = self.p.records.get(str(rid)) if rid is not None else None
        if rec is None or a == b:
            return None
        out = []
        for f in self.p.fields(rid):
            x = self.mat(a.get(f['name']) if isinstance(a, Rec) else ('fld', a, f['name']), f['t'])
            y = self.mat(b.get(f['name']) if isinstance(b, Rec) else ('fld', b, f['name']), f['t'])
            if self.p.kind(f['t']) is None:
                if self.p.recid(f['t']) is None:
                    return None
                self.kty[x] = self.kty[y] = self.p.strip(f['t'])
                ps = self.keyparts(x, y) if x != y else []
                if ps is None:
                    return None
                out.extend(ps)
            else:
                if not isinstance(x, Num) or not isinstance(y, Num):
                    return None
                out.append(self.keycmp(x, y))
        return out

    def keyeq(self, st, a, b):
        """[(state, True/False/Lit)]"""
        ps = self.keyparts(a, b)
        if ps is None:
            return [(st, self.keycmp(a, b))]
        out, cur = [], [st]
        for c in ps:
            nxt = []
            for s in cur:
                for s2, r in self.branch(s, c):
                    (nxt.append(s2) if r else out.append((s2, False)))
            cur = nxt
        return out + [(s, True) for s in cur]

    def keypc(self, pc, a, b):
        """Equality of keys as far as the path condition tells."""
        ps = self.keyparts(a, b)
        ps = [self.keycmp(a, b)] if ps is None else ps
        r = [c if isinstance(c, bool) or not pc else True if entails(pc, c) else False if entails(pc, neg(c)) else c for c in ps]
        if False in r:
            return False
        return True if all(c is True for c in r) else r[0] if len(r) == 1 else Lit('b', ('eqv',) + tuple(sorted((tm(a), tm(b)), key=T.key)))

    def keycmp(self, a, b):
        """True / False / Lit : a == b"""
        if a == b:
            return True
        if isinstance(a, Num) or isinstance(b, Num):
            x, y = (a if isinstance(a, Num) else N(a)), (b if isinstance(b, Num) else N(b))
            if (x.as_atom() or (0,))[0] == 'str' and (y.as_atom() or (0,))[0] == 'str':
                return False
            return eq(x, y)
        return Lit('b', ('eqv',) + tuple(sorted((tm(a), tm(b)), key=T.key)))

    def mput(self, m, k, v):
        m = unsort(m)
        if is_tag(m, 'mput') and m[2] == k:
            return ('mput', m[1], k, v)
        return ('mput', m, k, v)

    def mget(self, m, k, pc=None):
        while True:
            if is_tag(m, 'mput') or is_tag(m, 'mdel'):
                c = self.keypc(pc, m[2], k)
            if is_tag(m, 'mput'):
                if c is True:
                    return m[3]
                if c is False:
                    m = m[1]
                    continue
            elif is_tag(m, 'mdel'):
                if c is False:
                    m = m[1]
                    continue
            return ('mget', tm(m), k if not isinstance(k, Num) else tm(k))

    def has(self, st, m, k):
        """list of (state, True/False/Lit): does map/set m contain key k."""
        if m in EMPTIES:
            return [(st, False)]
        if is_tag(m, 'mput') or is_tag(m, 'mdel'):
            hit = m[0] == 'mput'
            out = []
            for s1, c in self.keyeq(st, m[2], k):
                for s, b in self.branch(s1, c):
                    if b:
                        out.append((s, hit))
                    else:
                        out.extend(self.has(s, m[1], k))
            return out
        return [(st, Lit('b', ('has', tm(m), tm(k))))]

    def msize(self, st, m):
        if m in EMPTIES:
            return [(st, ZERO)]
        if is_tag(m, 'mput') or is_tag(m, 'mdel'):
            out = []
            for s, h in self.has(st, m[1], m[2]):
                for s2, b in self.branch(s, h):
                    for s3, n in self.msize(s2, m[1]):
                        d = 0
                        if m[0] == 'mput' and not b:
                            d = 1
                        if m[0] == 'mdel' and b:
                            d = -1
                        out.append((s3, n + N(d)))
            return out
        return [(st, N(('size', tm(m))))]

    def sizeterm(self, st, m):
        if is_tag(m, 'mput') or is_tag(m, 'mdel') or m in EMPTIES:
            r = self.msize(st, m)
            return r[0][1] if len(r) == 1 else N(('size', ('opaque', 'size', tm(m))))
        return N(('size', tm(m)))

    # ------------------------------------------------------------ branching
    def branch(self, st, c):
        """list of (state, bool)"""
        c = self.simp_bool(st, c)
        if isinstance(c, bool):
            return [(st, c)]
        if not isinstance(c, Lit):
            if isinstance(c, Num):
                return self.branch(st, ne(c, ZERO))
            if is_tag(c, 'ptr') or c == NULLP or is_tag(c, 'box'):
                return self.branch(st, self.nonnull(c))
            c = Lit('b', tm(c))
        if c.op in ('b', 'nb') and is_tag(c.x, 'bite'):
            out = []
            for s, b in self.branch(st, c.x[1]):
                out.extend(self.branch(s, (c.x[2] if b else c.x[3]) if c.op == 'b' else neg(c.x[2] if b else c.x[3])))
            return out
        out = []
        a = st.assume(c)
        b = st.assume(neg(c))
        if a is not None:
            out.append((a if b is not None else st, True))
        if b is not None:
            out.append((b if a is not None else st, False))
        return out

    def simp_bool(self, st, c):
        if isinstance(c, Lit) and c.op not in ('b', 'nb'):
            if contains_term(c.x, lambda t: t[0] == 'wsub'):
                return c.map(lambda x: self.simp(st.pc, x))
        return c

    def simp(self, pc, v):
        """Resolve unsigned subtractions the guards show not to wrap."""
        for _ in range(6):
            ws = []
            contains_term(v, lambda t: ws.append(t) if t[0] == 'wsub' else False)
            m = {}
            for w in ws:
                if contains_term(w, lambda t: t[0] == 'bv'):
                    continue
                if entails(pc, le(w[2], w[1])):
                    m[w] = w[1] - w[2]
            if not m:
                return v
            v = subst(v, m)
        return v

    def nonnull(self, v):
        if v == NULLP:
            return False
        if is_tag(v, 'box'):
            return True
        if is_tag(v, 'ptr'):
            if v[1][1][0] == 'D' and v[1][2] == ():
                return Lit('b', ('nonnull', v[1][1][1]))
            return True
        if is_tag(v, 'ite'):
            return v
        return Lit('b', ('nonnull', tm(v)))

    # ------------------------------------------------------------ expressions
    def line(self, e, fr):
        return '%s:%d' % (fr.fn.get('file', '?'), e.get('l', 0))

    def rv(self, e, st, fr):
        """Evaluate to a value (lvalues are read)."""
        out = []
        for s, v in self.ev(e, st, fr):
            if isloc(v):
                v = self.read(s, v)
            out.append((s, v))
        return out

    def lvs(self, e, st, fr):
        """Evaluate to a location (values are put in a temporary)."""
        out = []
        for s, v in self.ev(e, st, fr):
            if not isloc(v):
                x = e
                while x.get('k') == 'upcast' and x['e'].get('t'):
                    x = x['e']
                s, v = self.temp(s, v, x.get('t'), fr)
            out.append((s, v))
        return out

    def temp(self, st, v, ty, fr):
        self.nheap += 1
        root = ('T', fr.id, self.nheap)
        t = self.p.strip(ty) if ty else None
        self.rty[root] = t
        return st.set(root, v), mkloc(root, (), t)

    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > self.limit:
            raise Undecided('analysis budget exceeded in ' + fr.fn['qn'])
        if e is None:
            return [(st, VOID)]
        m = getattr(self, 'ev_' + e['k'], None)
        if m is None:
            raise Undecided('expression %s' % e['k'])
        return m(e, st, fr)

    def ev_int(self, e, st, fr):
        return [(st, N(int(e['v'])))]

    def ev_flt(self, e, st, fr):
        v = e['v']
        if v == 'inf':
            return [(st, N(('inf',)))]
        if v == '-inf':
            return [(st, N(('inf',)).neg())]
        if v == 'nan':
            return [(st, N(('nan',)))]
        return [(st, N(Fraction(repr(float(v)))))]

    def ev_bool(self, e, st, fr):
        return [(st, bool(e['v']))]

    def ev_str(self, e, st, fr):
        return [(st, N(('str', e['v'])))]

    def ev_null(self, e, st, fr):
        return [(st, NULLP)]

    def ev_zero(self, e, st, fr):
        return [(st, self.default(e['t']))]

    def ev_this(self, e, st, fr):
        return [(st, ('ptr', fr.this))]

    def ev_void(self, e, st, fr):
        return [(s, VOID) for s, _ in self.ev(e['e'], st, fr)]

    def ev_opaque(self, e, st, fr):
        out = [(st, ())]
        for s in e.get('sub', []):
            out = [(s2, vs + (tm(v),)) for s1, vs in out for s2, v in self.rv(s, s1, fr)]
        return [(s, self.mat(('app', 'opaque:' + str(e.get('why'))) + vs, e.get('t'))) for s, vs in out]

    def ev_var(self, e, st, fr):
        if e.get('global'):
            root = ('G', e['qn']) if not e.get('slocal') else ('G', '%s#%s' % (e['qn'], e['id']))
            if root not in self.rty:
                self.rty[root] = self.p.strip(e['vt'])
            return [(st, mkloc(root, (), self.p.strip(e['vt'])))]
        root = ('L', fr.id, e['id'], e['name'])
        v = st.mem.get(root)
        if is_tag(v, 'ref'):
            return [(st, v[1])]
        if v is None and getattr(fr, 'up', None):
            # captured structured access from an enclosing frame
            for up in fr.up:
                r2 = ('L', up, e['id'], e['name'])
                if r2 in st.mem:
                    w = st.mem[r2]
                    return [(st, w[1] if is_tag(w, 'ref') else mkloc(r2, (), self.p.strip(e['vt'])))]
        return [(st, mkloc(root, (), self.p.strip(e['vt'])))]

    def ev_mem(self, e, st, fr):
        out = []
        vt = e['vt']
        for s, b in self.ev(e['b'], st, fr):
            if e.get('arrow'):
                if isloc(b):
                    b = self.read(s, b)
                l = self.deref(b, s, e, fr)
            else:
                if not isloc(b):
                    s, b = self.temp(s, b, e['b'].get('t'), fr)
                l = b
            nl = mkloc(l[1], l[2] + (('f', e['name']),), self.p.strip(vt))
            if self.p.isref(vt):
                # reference member: the stored value is a location or an opaque target
                v = self.rootval(s, nl[1])
                for stp in nl[2]:
                    v = self.step_get(v, stp)
                if is_tag(v, 'ref'):
                    nl = v[1]
                elif not isinstance(v, (Num, Lit, Seq, Rec)):
                    nl = mkloc(('D', v), (), self.p.strip(vt))
                    self.rty.setdefault(nl[1], nl[3])
            out.append((s, nl))
        return out

    def deref(self, v, st, e, fr):
        """Location designated by pointer-like value v."""
        if is_tag(v, 'ptr'):
            l = v[1]
            if l[1][0] == 'D':
                self.rty.setdefault(l[1], l[3])
            return l
        if v == NULLP:
            raise Undecided('null dereference at ' + self.line(e, fr))
        if is_tag(v, 'it'):
            if not self.quiet:
                self.oblige('element', lt(v[2], size_of(tm(self.read(st, v[1])))), st, e, fr)
                self.oblige('element', le(ZERO, v[2]), st, e, fr)
            return mkloc(v[1][1], v[1][2] + (('i', v[2]),), self.elem(v[1][3]))
        if is_tag(v, 'rit'):
            n = size_of(tm(self.read(st, v[1])))
            self.oblige('element', lt(v[2], n), st, e, fr)
            self.oblige('element', le(ZERO, v[2]), st, e, fr)
            return mkloc(v[1][1], v[1][2] + (('i', n - ONE - v[2]),), self.elem(v[1][3]))
        if is_tag(v, 'mend'):
            self.oblige('entry', False, st, e, fr)
        if is_tag(v, 'mit'):
            self.oblige('entry', v[3], st, e, fr)
            return mkloc(v[1][1], v[1][2] + (('e', v[2]),), None)
        root = ('D', tm(v))
        return mkloc(root, (), None)

    def elem(self, ty):
        if ty is None:
            return None
        d = self.p.unref(ty)
        if d['k'] == 'array':
            return d.get('to')
        a = d.get('ta') or []
        q = d.get('qn', '')
        if q in ('std::map', 'std::unordered_map', 'std::multimap'):
            return None
        if q in ('std::basic_string', 'std::string'):
            return 'char'
        return a[0] if a else None

    def ev_load(self, e, st, fr):
        out = []
        for s, v in self.ev(e['e'], st, fr):
            if isloc(v):
                v = self.read(s, v)
            out.append((s, self.mat(v, e.get('t'))))
        return out

    def ev_upcast(self, e, st, fr):
        return self.ev(e['e'], st, fr)

    ev_downcast = ev_upcast

    def ev_cast(self, e, st, fr):
        ck = e['ck']
        out = []
        for s, v in self.ev(e['e'], st, fr):
            if ck in ('LValueBitCast', 'Dynamic') :
                out.append((s, v))
                continue
            if isloc(v):
                v = self.read(s, v)
            if ck in ('IntegralCast', 'IntegralToFloating') and isinstance(v, (bool, Lit)):
                for s2, b in self.branch(s, v):
                    out.append((s2, N(int(b))))
                continue
            if ck == 'IntegralCast':
                if isinstance(v, Num) and v.is_const() and v.cval() < 0 and self.p.kind(e['t']) == 'u':
                    w = self.p.unref(e['t']).get('w', 64)
                    v = v + N(1 << w)
                out.append((s, v))
            elif ck in ('IntegralToFloating', 'FloatingCast', 'NoOp', 'BitCast'):
                out.append((s, v))
            elif ck == 'FloatingToIntegral':
                out.append((s, self.trunc(v, self.p.kind(e['t']))))
            elif ck in ('IntegralToBoolean', 'FloatingToBoolean'):
                if isinstance(v, (bool, Lit)):
                    out.append((s, v))
                else:
                    out.append((s, ne(N(v), ZERO)))
            elif ck == 'PointerToBoolean':
                out.append((s, self.nonnull(v)))
            else:
                out.append((s, v))
        return out

    def trunc(self, v, kind):
        v = N(v)
        if v.is_const():
            c = v.cval()
            q = abs(c.numerator) // c.denominator
            return N(q if c >= 0 else -q)
        if is_intpoly(v) and all(c.denominator == 1 for c in v.n.values()):
            return v
        t = ('trunc', v)
        KIND[t] = kind if kind in ('u', 'i') else 'i'
        return N(t)

    # ---- arithmetic
    def oblige(self, kind, lit, st, e, fr):
        if self.quiet:
            return
        self.obl.append((kind, lit, st.pc, self.line(e, fr), fr.fn['qn']))

    def arith(self, op, a, b, t, st, e, fr):
        """One arithmetic result."""
        k = self.p.kind(t) if t else 'f'
        a = a if isinstance(a, Num) else N(tm(a))
        b = b if isinstance(b, Num) else N(tm(b))
        if op == '+':
            return a + b
        if op == '*':
            return a * b
        if op == '-':
            d = a - b
            if k == 'u':
                if d.is_const() and d.cval() >= 0:
                    return d
                if entails(st.pc, le(b, a)):
                    return d
                # recompose (x wsub y) - z etc. is left opaque
                t2 = ('wsub', a, b)
                KIND[t2] = 'u'
                return N(t2)
            return d
        if op == '/':
            if k in ('u', 'i'):
                self.oblige('div', ne(b, ZERO), st, e, fr)
                if a.is_const() and b.is_const() and b.cval() != 0:
                    q = a.cval() / b.cval()
                    return N(q.numerator // q.denominator if q >= 0 else -((-q.numerator) // q.denominator))
                if b == ONE:
                    return a
                t2 = ('idiv', a, b)
                KIND[t2] = k
                return N(t2)
            self.oblige('fdiv', ne(b, ZERO), st, e, fr)
            if b.iszero():
                return N(('app', '/0', tm(a)))
            return a.div(b)
        if op == '%':
            self.oblige('div', ne(b, ZERO), st, e, fr)
            if a.is_const() and b.is_const() and b.cval() != 0 and a.cval() >= 0 and b.cval() > 0:
                return N(a.cval() % b.cval())
            t2 = ('imod', a, b)
            KIND[t2] = k
            return N(t2)
        ints = [int(x.cval()) if x.is_const() and x.cval().denominator == 1 else None for x in (a, b)]
        if op == '<<' and ints[1] is not None and 0 <= ints[1] < 64:
            return a * N(1 << ints[1])
        if op == '>>' and ints[1] is not None and 0 <= ints[1] < 64 and (k == 'u' or ints[0] is not None):
            return self.arith('/', a, N(1 << ints[1]), t, st, e, fr) if ints[0] is None else N(ints[0] >> ints[1])
        if op in '&|^' and None not in ints:
            return N({'&': ints[0] & ints[1], '|': ints[0] | ints[1], '^': ints[0] ^ ints[1]}[op])
        if op == '&' and k == 'u':
            for x, y in ((a, ints[1]), (b, ints[0])):
                if y is not None and y >= 0 and y & (y + 1) == 0:
                    return self.arith('%', x, N(y + 1), t, st, e, fr)
        t2 = ('opaque', 'op' + op, tm(a), tm(b))
        if k in ('u', 'i', 'f'):
            KIND[t2] = k
        return N(t2)

    def compare(self, op, a, b):
        """Lit/bool of a op b for scalars."""
        if isinstance(a, (bool, Lit)) and isinstance(b, (bool, Lit)):
            raise Undecided('bool compare')   # handled by callers
        ptrish = lambda v: is_tag(v, 'ptr') or v == NULLP or is_tag(v, 'box')
        if ptrish(a) or ptrish(b):
            if b == NULLP:
                r = neg(self.nonnull(a))
            elif a == NULLP:
                r = neg(self.nonnull(b))
            elif a == b:
                r = True
            else:
                la, lb = a[1] if is_tag(a, 'ptr') else None, b[1] if is_tag(b, 'ptr') else None
                if la and lb and la[1] == lb[1] and la[2] == lb[2]:
                    r = True
                elif la and lb and la[1][0] in ('L', 'T', 'H', 'A') and lb[1][0] in ('L', 'T', 'H', 'A'):
                    # different objects (distinct parameters do not alias here)
                    r = False
                    if la[1] == lb[1] and len(la[2]) == len(lb[2]) and all(
                            x == y or (x[0] == 'i' and y[0] == 'i') for x, y in zip(la[2], lb[2])):
                        # elements of one sequence: the same one when the positions agree
                        ds = [N(x[1]) - N(y[1]) for x, y in zip(la[2], lb[2]) if x != y]
                        if len(ds) == 1:
                            r = eq(ds[0], ZERO)
                        elif not any(d.is_const() for d in ds):
                            raise Undecided('comparison of element addresses')
                else:
                    r = Lit('b', ('eqp',) + tuple(sorted((tm(a), tm(b)), key=T.key)))
            return r if op == '==' else neg(r)
        a = a if isinstance(a, Num) else N(tm(a))
        b = b if isinstance(b, Num) else N(tm(b))
        return {'<': lt, '<=': le, '==': eq, '!=': ne,
                '>': lambda x, y: lt(y, x), '>=': lambda x, y: le(y, x)}[op](a, b)

    def cmpvals(self, op, a, b, st):
        """Comparison that also handles booleans: list of (state, value)."""
        if isinstance(a, (bool, Lit)) or isinstance(b, (bool, Lit)):
            out = []
            la = [(st, a)] if not isinstance(a, (bool, Lit)) else [(s, N(int(x))) for s, x in self.branch(st, a)]
            for s, x in la:
                lb = [(s, b)] if not isinstance(b, (bool, Lit)) else [(s2, N(int(y))) for s2, y in self.branch(s, b)]
                for s2, y in lb:
                    out.append((s2, self.simp_bool(s2, self.compare(op, x, y))))
            return out
        return [(st, self.simp_bool(st, self.compare(op, a, b)))]

    def ev_bin(self, e, st, fr):
        op = e['op']
        out = []
        if op in ('&&', '||'):
            for s, a in self.rv(e['x'], st, fr):
                for s2, b in self.branch(s, a):
                    if (op == '&&') == b:
                        out.extend(self.boolify(self.rv(e['y'], s2, fr)))
                    else:
                        out.append((s2, b))
            return out
        if op == ',':
            for s, _ in self.ev(e['x'], st, fr):
                out.extend(self.ev(e['y'], s, fr))
            return out
        for s, a in self.rv(e['x'], st, fr):
            for s2, b in self.rv(e['y'], s, fr):
                if op in ('<', '<=', '>', '>=', '==', '!='):
                    if is_tag(a, 'it') or is_tag(b, 'it'):
                        out.append((s2, self.models.it_cmp(self, op, a, b, s2)))
                    else:
                        out.extend(self.cmpvals(op, a, b, s2))
                elif is_tag(a, 'it') and op in '+-':
                    out.append((s2, ('it', a[1], self.arith(op, a[2], b, 'long', s2, e, fr))))
                elif is_tag(a, 'ptr') and op in '+-' and not is_tag(b, 'ptr'):
                    out.append((s2, self.ptradd(a, b if op == '+' else N(b).neg())))
                else:
                    for s3, x in self.num(s2, a):
                        for s4, y in self.num(s3, b):
                            out.append((s4, self.arith(op, x, y, e['t'], s4, e, fr)))
        return out

    def boolify(self, lst):
        out = []
        for s, v in lst:
            if isinstance(v, Num):
                v = ne(v, ZERO)
            elif not isinstance(v, (bool, Lit)):
                v = self.nonnull(v) if (is_tag(v, 'ptr') or v == NULLP) else Lit('b', tm(v))
            out.append((s, v))
        return out

    def num(self, st, v):
        if isinstance(v, (bool, Lit)):
            return [(s, N(int(b))) for s, b in self.branch(st, v)]
        return [(st, v)]

    def ptradd(self, p, n):
        l = p[1]
        if l[2] and l[2][-1][0] == 'i':
            return ('ptr', mkloc(l[1], l[2][:-1] + (('i', l[2][-1][1] + N(n)),), l[3]))
        if l[1][0] == 'D' and l[2] == ():
            return ('ptr', mkloc(l[1], (('i', N(n)),), l[3]))
        raise Undecided('pointer arithmetic')

    def ev_un(self, e, st, fr):
        op = e['op']
        out = []
        if op == '&':
            return [(s, ('ptr', l)) for s, l in self.lvs(e['e'], st, fr)]
        if op == '*':
            for s, v in self.rv(e['e'], st, fr):
                l = self.deref(v, s, e, fr)
                if l[3] is None:
                    l = mkloc(l[1], l[2], self.p.strip(e['t']))
                if l[1][0] == 'D':
                    self.rty.setdefault(l[1], self.p.strip(e['t']))
                out.append((s, l))
            return out
        if op in ('++', '--', 'post++', 'post--'):
            for s, l in self.lvs(e['e'], st, fr):
                v = self.read(s, l)
                if is_tag(v, 'it') or is_tag(v, 'rit'):
                    nv = (v[0], v[1], v[2] + N(1 if '++' in op else -1))
                elif is_tag(v, 'ptr'):
                    nv = self.ptradd(v, N(1 if '++' in op else -1))
                else:
                    nv = self.arith('+' if '++' in op else '-', v, ONE, e['e'].get('t'), s, e, fr)
                s = self.write(s, l, nv)
                out.append((s, v if op.startswith('post') else (l if e.get('lv') else nv)))
            return out
        for s, v in self.rv(e['e'], st, fr):
            if op == '!':
                for s2, b in self.boolify([(s, v)]):
                    b = self.simp_bool(s2, b)
                    out.append((s2, neg(b)))
            elif op == '-':
                for s2, x in self.num(s, v):
                    x = x if isinstance(x, Num) else N(tm(x))
                    if self.p.kind(e['t']) == 'u' and not x.iszero():
                        out.append((s2, self.arith('-', ZERO, x, e['t'], s2, e, fr)))
                    else:
                        out.append((s2, x.neg()))
            elif op == '+':
                out.extend(self.num(s, v))
            else:
                d = self.p.unref(e['t'])
                if op == '~' and isinstance(v, Num) and d['k'] == 'int':
                    out.append((s, (N((1 << d.get('w', 32)) - 1) if not d.get('s') else N(-1)) - v))
                    continue
                out.append((s, self.mat(('opaque', 'un' + op, tm(v)), e['t'])))
        return out

    def ev_assign(self, e, st, fr):
        out = []
        for s, v in self.rv(e['y'], st, fr):
            for s2, l in self.lvs(e['x'], s, fr):
                s3 = self.write(s2, l, v)
                out.append((s3, l))
        return out

    def ev_cassign(self, e, st, fr):
        op = e['op'][:-1]
        out = []
        for s, v in self.rv(e['y'], st, fr):
            for s2, l in self.lvs(e['x'], s, fr):
                a = self.read(s2, l)
                if is_tag(a, 'ptr') and op in '+-':
                    out.append((self.write(s2, l, self.ptradd(a, v if op == '+' else v.neg())), l))
                    continue
                if self.p.kind(e['x'].get('t')) == 'b':
                    # boolean |= and &=
                    if op in '|&':
                        for s3, x in self.branch(s2, a):
                            if (op == '|') == x:
                                out.append((self.write(s3, l, x), l))
                            else:
                                for s4, w in self.boolify([(s3, v)]):
                                    out.append((self.write(s4, l, w), l))
                        continue
                for s3, x in self.num(s2, a):
                    for s4, y in self.num(s3, v):
                        r = self.arith(op, x, y, e.get('ct') or e['t'], s4, e, fr)
                        if self.p.kind(e['x'].get('t')) in ('u', 'i') and self.p.kind(e.get('ct')) == 'f':
                            r = self.trunc(r, self.p.kind(e['x']['t']))
                        out.append((self.write(s4, l, r), l))
        return out

    def ev_cond(self, e, st, fr):
        out = []
        for s, c in self.rv(e['c'], st, fr):
            for s2, b in self.branch(s, c):
                sub = e['x'] if b else e['y']
                if e.get('lv'):
                    out.extend(self.lvs(sub, s2, fr))
                else:
                    out.extend(self.ev(sub, s2, fr))
        return out

    def ev_sub(self, e, st, fr):
        out = []
        for s, b in self.ev(e['b'], st, fr):
            if isloc(b):
                bd = self.p.unref(e['b'].get('t', ''))
                if bd['k'] != 'array':
                    b = self.read(s, b)
            for s2, i in self.rv(e['i'], s, fr):
                if isloc(b):
                    out.append((s2, mkloc(b[1], b[2] + (('i', N(i)),), self.p.strip(e['t']))))
                elif is_tag(b, 'ptr'):
                    p = self.ptradd(b, i)
                    l = p[1]
                    self.oblige('index', ('ptr', b, i), s2, e, fr)
                    out.append((s2, mkloc(l[1], l[2], self.p.strip(e['t']))))
                else:
                    s3, l = self.temp(s2, self.mat(('at', tm(b), N(i)), e['t']), e['t'], fr)
                    out.append((s3, l))
        return out

    def ev_fn(self, e, st, fr):
        return [(st, ('fnv', e['fn']['id'], e['fn']['qn']))]

    ev_memfn = ev_fn

    def ev_lambda(self, e, st, fr):
        states = [(st, ())]
        for c in e['caps']:
            nxt = []
            for s, caps in states:
                if c.get('this'):
                    nxt.append((s, caps + ((None, ('ref', fr.this)),)))
                elif c['byref']:
                    for s2, l in self.lvs(c['init'], s, fr):
                        nxt.append((s2, caps + (((c['id'], c['name']), ('ref', l)),)))
                else:
                    for s2, v in self.rv(c['init'], s, fr):
                        nxt.append((s2, caps + (((c['id'], c['name']), v),)))
            states = nxt
        return [(s, ('clo', e['fn']['id'], caps)) for s, caps in states]

    def ev_throw(self, e, st, fr):
        ty = (e['e'] or {}).get('t') if e.get('e') else None
        for s, v in (self.rv(e['e'], st, fr) if e.get('e') else [(st, VOID)]):
            self.exc.append((s, ('throw', ty, tm(v))))
        return []

    def ev_new(self, e, st, fr):
        out = []
        self.nheap += 1
        root = ('H', self.nheap)
        self.rty[root] = e['at']
        if e.get('init') is None:
            vs = [(st, self.uninit(e['at'], 'new'))]
        else:
            vs = self.rv(e['init'], st, fr)
        for s, v in vs:
            if self.own:
                s = self.acquire(s, root, e, fr)
            out.append((s.set(root, v), ('ptr', mkloc(root, (), e['at']))))
        return out

    # ---- ownership of heap objects (typestate: unowned -> owned or freed)
    def acquire(self, st, root, e, fr):
        self.ownsite.setdefault(root, '%s line %s' % (fr.fn['qn'], (e or {}).get('l')))
        return st.set(('OWN',), st.mem.get(('OWN',), frozenset()) | {root})

    def consume(self, st, v, what, e, fr):
        """v gets an owner (or is deleted)."""
        if not self.own or not is_tag(v, 'ptr') or self.quiet:
            return st
        l = v[1]
        free = st.mem.get(('OWN',), frozenset())
        if l[1] in free and l[2] == ():
            return st.set(('OWN',), free - {l[1]})
        self.ownv.append((what, '%s:%s' % (fr.fn['qn'], (e or {}).get('l')), show(tm(v))[:100]))
        return st

    def ev_delete(self, e, st, fr):
        out = []
        for s, v in self.rv(e['e'], st, fr):
            s = self.consume(s, v, 'delete of an object that has an owner or was freed', e, fr)
            if 'delete' in self.hooks:
                s = self.hooks['delete'](self, s, v, e, fr)
            out.append((s, VOID))
        return out

    def ev_initlist(self, e, st, fr):
        states = [(st, ())]
        for x in e['a']:
            states = [(s2, vs + (v,)) for s, vs in states for s2, v in self.rv(x, s, fr)]
        t = self.p.unref(e['t'])
        if t['k'] == 'rec' and t.get('qn') not in ('std::initializer_list',):
            fl = self.p.fields(t['id'])
            return [(s, Rec(t['qn'], None, {f['name']: v for f, v in zip(fl, vs)})) for s, vs in states]
        if t['k'] in ('rec', 'array'):
            return [(s, Seq([('one', v) for v in vs])) for s, vs in states]
        return [(s, vs[0] if vs else self.default(e['t'])) for s, vs in states]

    # ------------------------------------------------------------ construction
    def uninit(self, ty, name):
        """Default-initialised (indeterminate for scalars)."""
        d = self.p.unref(ty)
        if d['k'] == 'rec':
            return self.default(ty)
        return self.mat(('uninit', name), ty)

    def ev_construct(self, e, st, fr):
        fn = e['fn']
        t = self.p.unref(e['t'])
        q = t.get('qn', '')
        a = e['a']
        if (fn.get('copy') or fn.get('move')) and len(a) == 1 and not (
                self.written(fn)):
            return self.rv(a[0], st, fr)
        if fn['repo'] or t.get('repo'):
            return self.construct_repo(e, fn, t, st, fr)
        return self.models.construct(self, e, fn, q, st, fr)

    def written(self, fn, what='copyctor'):
        """Is this copy (or move) operation written out in the repository and to be followed?
        Those of Match are taken to be faithful unless the property is about them."""
        return fn['repo'] and not fn.get('implicit') and (self.hooks.get(what) or '::Match::' not in fn['qn'])

    def evargs(self, a, pts, st, fr):
        """Evaluate call arguments: list of (state, [value or location])."""
        states = [(st, [])]
        for i, x in enumerate(a):
            pt = pts[i] if i < len(pts) else None
            byref = pt is not None and self.p.isref(pt)
            nxt = []
            for s, vs in states:
                for s2, v in (self.lvs(x, s, fr) if byref else self.rv(x, s, fr)):
                    nxt.append((s2, vs + [v]))
            states = nxt
        return states

    def construct_repo(self, e, fn, t, st, fr):
        f = self.p.funcs.get(fn['id'])
        out = []
        if e.get('inh'):
            args = [(st, getattr(fr, 'inhargs', []))]
        else:
            args = self.evargs(e['a'], fn['pt'], st, fr)
        for s, vs in args:
            if t.get('lambda') and len(vs) == 1:
                out.append((s, self.read(s, vs[0]) if isloc(vs[0]) else vs[0]))
                continue
            self.nheap += 1
            root = ('T', fr.id, self.nheap)
            self.rty[root] = e['t']
            s = s.set(root, Rec(t['qn'], None, {}))
            for s2 in self.run_ctor(f, fn, mkloc(root, (), self.p.strip(e['t'])), vs, s, fr, t['id']):
                v = s2.mem[root]
                m = dict(s2.mem)
                del m[root]
                out.append((State(m, s2.pc), v))
        return out

    def run_ctor(self, f, fn, loc, args, st, fr, rid):
        """Run constructor f on loc; list of states."""
        if f is None or not (f.get('hasbody') or f.get('inits')):
            # implicit or bodiless: default-initialise the fields
            s = st
            if f is not None and f.get('ctor') and fn.get('implicit') is False and f.get('hasbody') is False:
                raise Undecided('constructor without body ' + fn['qn'])
            for fl in self.p.fields(rid):
                if fl.get('init'):
                    for s2, v in self.rv(fl['init'], s, fr):
                        s = s2
                        break
                else:
                    v = self.uninit_field(fl, rid)
                s = self.write(s, mkloc(loc[1], loc[2] + (('f', fl['name']),), fl['t']), v)
            return [s]
        self.analysed.add(f['id'])
        if len(self.stack) > 60 or self.stack.count(f['id']) > 1:
            raise Undecided('recursion in ' + f['qn'])
        nf = Frame(f, loc, fr.depth + 1)
        nf.inhargs = args
        s = st
        for p_, v in zip(f['params'], args):
            s = self.bind(s, nf, p_, v)
        self.stack.append(f['id'])
        states = [s]
        done = set()
        try:
            for i in f.get('inits', []):
                nxt = []
                for s in states:
                    nxt.extend(self.run_init(i, loc, s, nf, rid, done))
                states = nxt
            out = []
            for s in states:
                for s2, o in self.ex(f['body'], s, nf) if f.get('body') else [(s, None)]:
                    if o is None or o[0] == 'ret':
                        out.append(self.cleanup(s2, nf))
                    else:
                        self.exc.append((s2, o))
            return out
        finally:
            self.stack.pop()

    def uninit_field(self, fl, rid):
        d = self.p.unref(fl['t'])
        if d['k'] == 'rec':
            if d.get('repo'):
                r = Rec(d['qn'], None, {})
                for g in self.p.fields(d['id']):
                    r = r.set(g['name'], self.uninit_field(g, d['id']))
                return r
            return self.default(fl['t'])
        return self.mat(('uninit', fl['name']), fl['t'])

    def run_init(self, i, loc, st, nf, rid, done):
        if i.get('f'):
            fl = mkloc(loc[1], loc[2] + (('f', i['f']),), None)
            ft = None
            for c in self.p.fields(rid):
                if c['name'] == i['f']:
                    ft = c['t']
            out = []
            if i.get('e') is None:
                v = self.uninit_field({'name': i['f'], 't': ft}, rid) if ft else ('uninit', i['f'])
                return [self.write(st, fl, v)]
            if ft and self.p.isref(ft):
                for s, l in self.lvs(i['e'], st, nf):
                    out.append(self.write(s, fl, ('ref', l)))
                return out
            for s, v in self.rv(i['e'], st, nf):
                out.append(self.write(s, fl, v))
            return out
        # base or delegating
        e = i.get('e')
        if e is None:
            return [st]
        while e.get('k') in ('upcast', 'load'):
            e = e['e']
        if e['k'] == 'construct':
            fn = e['fn']
            out = []
            bt = self.p.unref(e['t'])
            if not (fn['repo'] or bt.get('repo')):
                return [st]
            if (fn.get('copy') or fn.get('move')) and len(e['a']) == 1:
                for s, v in self.rv(e['a'][0], st, nf):
                    for fl in self.p.fields(bt['id']):
                        x = self.step_get(v, ('f', fl['name'])) if not isinstance(v, Rec) else v.get(fl['name'])
                        s = self.write(s, mkloc(loc[1], loc[2] + (('f', fl['name']),), fl['t']), self.mat(x, fl['t']))
                    out.append(s)
                return out
            args = [(st, nf.inhargs)] if e.get('inh') else self.evargs(e['a'], fn['pt'], st, nf)
            for s, vs in args:
                out.extend(self.run_ctor(self.p.funcs.get(fn['id']), fn, loc, vs, s, nf, bt['id']))
            return out
        return [s for s, _ in self.rv(e, st, nf)]

    def bind(self, st, nf, p_, v):
        root = ('L', nf.id, p_['id'], p_['name'])
        self.rty[root] = self.p.strip(p_['t'])
        if self.p.isref(p_['t']):
            if not isloc(v):
                st, v = self.temp(st, v, p_['t'], nf)
            return st.set(root, ('ref', v))
        if isloc(v):
            v = self.read(st, v)
        return st.set(root, self.mat(v, p_['t']))

    def cleanup(self, st, nf, keep=()):
        """Drop the frame's locals."""
        m = {k: v for k, v in st.mem.items() if not (k[0] in ('L', 'T') and k[1] == nf.id and k not in keep
                                                     or k[0] == 'FMT' and k[1][0] in ('L', 'T') and k[1][1] == nf.id)}
        return State(m, st.pc) if len(m) != len(st.mem) else st

    # ------------------------------------------------------------ calls
    def ev_icall(self, e, st, fr):
        out = []
        for s, f in self.rv(e['f'], st, fr):
            for s2, vs in self.evargs(e['a'], [], s, fr):
                out.extend(self.apply(f, vs, s2, fr, e))
        return out

    def apply(self, f, vs, st, fr, e=None):
        """Call a callable value with evaluated arguments (values or locations)."""
        if isloc(f):
            f = self.read(st, f)
        if is_tag(f, 'ptr') and isloc(f[1]) and f[1][1][0] != 'D':
            g = self.read(st, f[1])
            if is_tag(g, 'fnv') or is_tag(g, 'clo'):
                f = g
        if is_tag(f, 'clo'):
            fn = self.p.funcs.get(f[1])
            if fn is None:
                raise Undecided('lambda without body')
            return self.inline(fn, None, vs, st, fr, caps=f[2])
        if is_tag(f, 'fnv'):
            fn = self.p.funcs.get(f[1])
            if fn is not None and fn.get('hasbody'):
                return self.inline(fn, None, vs, st, fr)
            return self.models.call_named(self, f[2], vs, st, fr, e)
        if is_tag(f, 'stdfn'):
            return self.models.apply_stdfn(self, f, vs, st, fr, e)
        if isinstance(f, Rec):
            # functor object: find operator()
            s2, l = self.temp(st, f, None, fr)
            raise Undecided('functor')
        vals = tuple(tm(self.read(st, v)) if isloc(v) else tm(v) for v in vs)
        t = ('app', 'call', tm(f)) + vals
        return [(st, self.mat(t, e.get('t') if e else None))]

    def ev_call(self, e, st, fr):
        fn = e['fn']
        self.ncalls += 1
        out = []
        objs = [(st, None)]
        if e.get('obj') is not None and not fn.get('static'):
            objs = []
            for s, o in self.ev(e['obj'], st, fr):
                if e.get('arrow'):
                    if isloc(o):
                        o = self.read(s, o)
                    o = self.deref(o, s, e, fr)
                    if o[1][0] == 'D':
                        self.rty.setdefault(o[1], o[3])
                elif not isloc(o):
                    s, o = self.temp(s, o, e['obj'].get('t'), fr)
                objs.append((s, o))
        f = self.p.funcs.get(fn['id'])
        for s, o in objs:
            for s2, vs in self.evargs(e['a'], fn['pt'], s, fr):
                out.extend(self.call(fn, f, o, vs, s2, fr, e))
        return out

    def call(self, fn, f, o, vs, st, fr, e):
        """fn: callee description; f: exported function or None; o: object location."""
        if e.get('vcall') and fn.get('virt') and o is not None:
            ty = o[3]
            if not o[2] and o[1][0] in ('L', 'T', 'H') and o[1] in self.rty:
                ty = self.rty[o[1]]     # what the object was made as
            rid = self.p.recid(ty) if ty else None
            if rid is not None:
                tid = self.p.dispatch(fn['id'], rid)
                if tid != fn['id'] and tid in self.p.funcs:
                    f = self.p.funcs[tid]
        mode = self.stop(fn, f)
        if mode is not None:
            return self.stopped(mode, fn, f, o, vs, st, fr, e)
        if fn['repo']:
            if (fn.get('copyas') or fn.get('moveas')) and (fn.get('implicit') or not self.written(fn, 'copyassign')):
                v = vs[0]
                if isloc(v):
                    v = self.read(st, v)
                return [(self.write(st, o, v), o)]
            if f is not None and f.get('hasbody'):
                if f.get('lambda'):
                    return self.apply(self.read(st, o), vs, st, fr, e)
                if len(self.stack) > 60 or self.stack.count(f['id']) >= 1:
                    self.hooks.get('recursion', lambda *a: None)(self, f, e, fr)
                    return self.opaque_call(fn, o, vs, st, fr, e, 'recursive')
                return self.inline(f, o, vs, st, fr)
            return self.opaque_call(fn, o, vs, st, fr, e)
        return self.models.call(self, fn, o, vs, st, fr, e)

    def inline(self, f, this, vs, st, fr, caps=None):
        self.analysed.add(f['id'])
        nf = Frame(f, this, fr.depth + 1)
        if f.get('static') or not f.get('method'):
            nf.this = None
        s = st
        if caps is not None:
            for c, v in caps:
                if c is None:
                    nf.this = v[1]
                else:
                    s = s.set(('L', nf.id) + c, v)
        for p_, v in zip(f['params'], vs):
            s = self.bind(s, nf, p_, v)
        self.stack.append(f['id'])
        try:
            outs = self.ex(f['body'], s, nf)
        finally:
            self.stack.pop()
        res = []
        isref = self.p.isref(f['ret'])
        for s2, o in outs:
            if o is None:
                res.append((self.cleanup(s2, nf), VOID))
            elif o[0] == 'ret':
                v = o[1]
                if isloc(v) and not isref:
                    v = self.read(s2, v)
                keep = ()
                if isloc(v) and v[1][0] in ('L', 'T') and v[1][1] == nf.id:
                    # reference into the callee's frame (conditional temporaries): keep alive
                    keep = (v[1],)
                res.append((self.cleanup(s2, nf, keep), v))
            elif o[0] in ('throw', 'abort', 'exit'):
                self.exc.append((self.cleanup(s2, nf), o))
            else:
                raise Undecided('outcome %r' % (o,))
        return self.coalesce(res)

    def opaque_call(self, fn, o, vs, st, fr, e, why='', known=False, fresh=False):
        """Uninterpreted call: result depends on the arguments; mutable reference
        and pointer arguments get new unknown values."""
        vals = []
        if o is not None:
            vals.append(tm(self.read(st, o)))
        for v in vs:
            vals.append(self.argterm(st, v))
        if fresh:
            # what the function finds in its output arguments does not matter
            k = len(vals) - len(vs)
            vals = [('output',) if 0 <= i - k < len(fn['pt']) and self.mutable(fn['pt'][i - k]) else v for i, v in enumerate(vals)]
        tag = 'app'
        if why or (not known and not (self.p.funcs.get(fn['id']) or {}).get('pure')):
            tag = 'opaque'
            if fn['repo']:
                self.unknown[fn['qn']] = self.unknown.get(fn['qn'], 0) + 1
        t = (tag, fn['qn'] + (':' + why if why else '')) + tuple(vals)
        s = st
        for i, v in enumerate(vs):
            pt = fn['pt'][i] if i < len(fn['pt']) else None
            l = None
            if pt and isloc(v):
                d = self.p.ty(pt)
                if d['k'] == 'ref' and not self.p.ty(d['to']).get('const'):
                    l = v
            elif pt and is_tag(v, 'ptr'):
                d = self.p.unref(pt)
                if d['k'] == 'ptr' and not self.p.ty(d['to']).get('const'):
                    l = v[1]
            if l is not None:
                s = self.write(s, l, self.mat(('out', t, i), l[3]))
            elif tag == 'opaque' and is_tag(v, 'clo') and any(is_tag(c, 'ref') for _, c in v[2]) and not is_tag(self.behaviour(st, v), 'function'):
                raise Undecided('%s calls a function with effects' % fn['qn'])
            elif tag == 'opaque' and is_tag(v, 'backins') and isloc(v[1]):
                s = self.write(s, v[1], self.mat(('out', t, i), v[1][3]))
            elif (is_tag(v, 'it') or is_tag(v, 'rit')) and tag == 'opaque':
                s = self.write(s, v[1], self.mat(('out', t, i), v[1][3]))
        if tag == 'opaque' and isloc(o) and fn.get('method') and not fn.get('const') and not fn.get('static'):
            s = self.write(s, o, self.mat(('out', t, 'this'), o[3]))
        if self.p.isref(fn['ret']):
            root = ('D', t)
            self.rty.setdefault(root, self.p.strip(fn['ret']))
            return [(s, mkloc(root, (), self.p.strip(fn['ret'])))]
        return [(s, self.mat(t, fn['ret']) if fn['ret'] != 'void' else VOID)]

    def mutable(self, pt):
        d = self.p.ty(pt)
        if d['k'] not in ('ref', 'ptr'):
            d = self.p.unref(pt)
        return d['k'] in ('ref', 'ptr') and not self.p.ty(d['to']).get('const')

    def argterm(self, st, v):
        if isloc(v):
            v = self.read(st, v)
        if is_tag(v, 'ptr'):
            l = v[1]
            if l[1][0] in ('L', 'T', 'H', 'A', 'G') or l[2]:
                try:
                    return tm(self.read(st, l))
                except Undecided:
                    pass
        if is_tag(v, 'clo'):
            return self.behaviour(st, v)
        return tm(v)

    def behaviour(self, st, f):
        """A closure as the function it is, not as the expression it was written as."""
        fn = self.p.funcs.get(f[1])
        if fn is None:
            return tm(f)
        vs = []
        for i, p in enumerate(fn['params']):
            t, ty = ('argument', i), self.p.strip(p['t'])
            if self.p.isref(p['t']):
                self.rty.setdefault(('D', t), ty)
                vs.append(mkloc(('D', t), (), ty))
            else:
                vs.append(self.mat(t, p['t']))
        try:
            outs = self.apply(f, vs, st, Frame({'qn': '<closure>', 'file': '', 'ret': 'void'}))
            if len(outs) == 1 and all(outs[0][0].mem.get(k) == st.mem[k] for k in st.mem):
                s, v = outs[0]
                return ('function', tm(self.read(s, v)) if isloc(v) else tm(v))
        except Undecided:
            pass
        return tm(f)

    def stopped(self, mode, fn, f, o, vs, st, fr, e):
        if callable(mode):
            return mode(self, fn, f, o, vs, st, fr, e)
        if mode == 'pure':
            vals = tuple(self.argterm(st, v) for v in ([o] if o is not None else []) + list(vs))
            t = ('app', fn['qn'].split('::')[-1]) + vals
            if self.p.isref(fn['ret']):
                root = ('D', t)
                rt = self.p.strip(fn['ret'])
                self.rty.setdefault(root, rt)
                return [(st, mkloc(root, (), rt))]
            return [(st, self.mat(t, fn['ret']))]
        if mode == 'log':
            vals = tuple(self.argterm(st, v) for v in ([o] if o is not None else []) + list(vs))
            rec = ('call', fn['qn'], vals)
            lg = st.mem.get(('LOG',), Seq(()))
            s = st.set(('LOG',), lg.push(rec))
            return self.opaque_call(fn, o, vs, s, fr, e, known=True)
        if mode == 'opaque':
            return self.opaque_call(fn, o, vs, st, fr, e, known=True)
        if mode == 'fresh':
            return self.opaque_call(fn, o, vs, st, fr, e, known=True, fresh=True)
        raise ValueError(mode)

    # ------------------------------------------------------------ statements
    def ex(self, s, st, fr):
        """Execute statement: list of (state, outcome)."""
        if s is None:
            return [(st, None)]
        m = getattr(self, 'ex_' + s['k'], None)
        if m is None:
            raise Undecided('statement %s %s' % (s['k'], s.get('why', '')))
        saved, self.exc = self.exc, []
        try:
            outs = m(s, st, fr)
            outs = list(outs) + self.exc
        finally:
            self.exc = saved
        return outs

    def ex_block(self, s, st, fr):
        cur = [st]
        done = []
        nfiles = len(fr.files)
        for x in s['s']:
            nxt = []
            for c in cur:
                for s2, o in self.ex(x, c, fr):
                    (nxt.append(s2) if o is None else done.append((s2, o)))
            cur = self.merge(nxt, fr)
            if not cur:
                break
        res = [(c, None) for c in cur] + done
        files = fr.files[nfiles:]
        del fr.files[nfiles:]
        for l in reversed(files):
            res = [(self.models.close_file(self, c, l) if l[1] in c.mem else c, o) for c, o in res]
        return res

    def ex_expr(self, s, st, fr):
        return [(s2, None) for s2, _ in self.ev(s['e'], st, fr)]

    def ex_null(self, s, st, fr):
        return [(st, None)]

    def ex_decl(self, s, st, fr):
        cur = [st]
        for v in s['v']:
            nxt = []
            for c in cur:
                nxt.extend(self.declare(v, c, fr))
            cur = nxt
        return [(c, None) for c in cur]

    def declare(self, v, st, fr):
        root = ('L', fr.id, v['id'], v['name'])
        self.rty[root] = self.p.strip(v['t'])
        if v.get('slocal'):
            root = ('G', '%s#%s' % (v['name'], v['id']))
            self.rty[root] = self.p.strip(v['t'])
            if v['id'] in self.moving:      # any history may have left its mark
                return [st]
            if v.get('init') is None:
                return [st]
            self.hooks.get('slocal', lambda *a: None)(self, v, fr)
            return [s2.set(root, x) for s2, x in self.rv(v['init'], st, fr)]
        if self.p.isref(v['t']):
            return [s2.set(root, ('ref', l)) for s2, l in self.lvs(v['init'], st, fr)]
        if self.p.qn(v['t']).endswith('basic_ofstream'):
            l = mkloc(root, (), self.p.strip(v['t']))
            if l not in fr.files:
                fr.files.append(l)
        if v.get('init') is None:
            return [st.set(root, self.uninit(v['t'], v['name']))]
        return [s2.set(root, self.mat(x, v['t'])) for s2, x in self.rv(v['init'], st, fr)]

    def ex_if(self, s, st, fr):
        sts = [st]
        if s.get('init'):
            sts = [a for a, o in self.ex(s['init'], st, fr) if o is None]
        if s.get('cv'):
            sts = [b for a in sts for b in self.declare(s['cv'], a, fr)]
        outs = []
        for a in sts:
            for s2, c in self.rv(s['c'], a, fr):
                for s3, b in self.branch(s2, c):
                    if b:
                        outs.extend(self.ex(s['then'], s3, fr))
                    elif s.get('else'):
                        outs.extend(self.ex(s['else'], s3, fr))
                    else:
                        outs.append((s3, None))
        return self.join_outs(outs, fr)

    def ex_return(self, s, st, fr):
        if s.get('e') is None:
            return [(st, ('ret', VOID))]
        isref = self.p.isref(fr.fn['ret'])
        if isref:
            return [(s2, ('ret', l)) for s2, l in self.lvs(s['e'], st, fr)]
        return [(s2, ('ret', self.mat(v, fr.fn['ret']))) for s2, v in self.rv(s['e'], st, fr)]

    def ex_break(self, s, st, fr):
        return [(st, Out.BRK)]

    def ex_continue(self, s, st, fr):
        return [(st, Out.CONT)]

    def ex_try(self, s, st, fr):
        out = []
        for s2, o in self.ex(s['body'], st, fr):
            if o is not None and o[0] == 'throw':
                done = False
                for h in s['h']:
                    if h['t'] == '...' or self.catches(h['t'], o[1]):
                        s3 = s2
                        if h.get('v'):
                            root = ('L', fr.id, h['v']['id'], h['v']['name'])
                            s3 = s3.set(root, ('caught', o[2]))
                        out.extend(self.ex(h['body'], s3, fr))
                        done = True
                        break
                if not done:
                    out.append((s2, o))
            else:
                out.append((s2, o))
        return out

    def catches(self, ht, tt):
        if tt is None:
            return False
        h, t = self.p.qn(ht), self.p.qn(tt)
        return h == t or h in ('std::exception',) or (h == 'std::logic_error' and t in ('std::invalid_argument', 'std::out_of_range')) or (h == 'std::runtime_error' and t in ('std::range_error',))

    def ex_switch(self, s, st, fr):
        """Structured switch over constants."""
        items = []
        body = s['body']
        flat = []

        def flatten(x):
            while x is not None and x['k'] in ('case', 'default'):
                flat.append(('label', x.get('e') if x['k'] == 'case' else None))
                x = x['s']
            if x is not None:
                flat.append(('stmt', x))
        for x in (body['s'] if body['k'] == 'block' else [body]):
            flatten(x)
        outs = []
        for s2, v in self.rv(s['c'], st, fr):
            rest = [s2]
            targets = []
            for i, (k, x) in enumerate(flat):
                if k == 'label' and x is not None:
                    nr = []
                    for r in rest:
                        for s3, cv in self.rv(x, r, fr):
                            for s4, c in self.cmpvals('==', v, cv, s3):
                                for s5, b in self.branch(s4, c):
                                    (targets.append((s5, i)) if b else nr.append(s5))
                    rest = nr
            dflt = next((i for i, (k, x) in enumerate(flat) if k == 'label' and x is None), None)
            for r in rest:
                if dflt is None:
                    outs.append((r, None))
                else:
                    targets.append((r, dflt))
            for s3, i in targets:
                cur = [s3]
                for k, x in flat[i:]:
                    if k != 'stmt':
                        continue
                    nxt = []
                    for c in cur:
                        for s4, o in self.ex(x, c, fr):
                            if o is None:
                                nxt.append(s4)
                            elif o == Out.BRK:
                                outs.append((s4, None))
                            else:
                                outs.append((s4, o))
                    cur = nxt
                outs.extend((c, None) for c in cur)
        return outs

    def ex_omp(self, s, st, fr):
        self.hooks.get('omp', lambda *a: None)(self, s, fr)
        return self.ex(s['body'], st, fr)

    # ---- joining of states
    def coalesce(self, res):
        """Merge (state, value) pairs that differ only in complementary guards."""
        if len(res) < 2 or len(res) > 64:
            return res
        res = list(res)
        changed = True
        while changed:
            changed = False
            for i in range(len(res)):
                for j in range(i + 1, len(res)):
                    a, b = res[i], res[j]
                    if a[1] != b[1] or a[0].mem != b[0].mem:
                        continue
                    m = merge_pc(a[0].pc, b[0].pc)
                    if m is not None:
                        res[i] = (State(a[0].mem, m), a[1])
                        del res[j]
                        changed = True
                        break
                if changed:
                    break
        return res

    def merge(self, sts, fr):
        if len(sts) < 2:
            return sts
        if fr.fn.get('qn') in self.merge_fns:
            return self.gate(sts)
        return [s for s, _ in self.coalesce([(s, None) for s in sts])]

    def join_outs(self, outs, fr):
        norm = [s for s, o in outs if o is None]
        rest = [(s, o) for s, o in outs if o is not None]
        return [(s, None) for s in self.merge(norm, fr)] + rest

    def gate(self, sts):
        """Merge all states into one, with gated values."""
        cur = sts[0]
        for s in sts[1:]:
            cur = self.gate2(cur, s)
        return [cur]

    def gate2(self, a, b):
        common = a.pc & b.pc
        ga = tuple(sorted(a.pc - common, key=T.key))
        gb = tuple(sorted(b.pc - common, key=T.key))
        m = {}
        for k in set(a.mem) | set(b.mem):
            if k[0] == 'T' and not (k in a.mem and k in b.mem):
                continue
            va = a.mem[k] if k in a.mem else self.rootval(a, k)
            vb = b.mem[k] if k in b.mem else self.rootval(b, k)
            m[k] = va if va == vb else self.gateval(ga, va, gb, vb)
        return State(m, common)

    def gateval(self, ga, va, gb, vb):
        if va == vb:
            return va
        if isinstance(va, Rec) and isinstance(vb, Rec) and va.base == vb.base:
            d = {}
            for k in set(x for x, _ in va.over) | set(x for x, _ in vb.over):
                d[k] = self.gateval(ga, va.get(k), gb, vb.get(k))
            return Rec(va.ty, va.base, d).norm()
        if isinstance(va, Seq) and isinstance(vb, Seq):
            n = 0
            while n < len(va.parts) and n < len(vb.parts) and va.parts[n] == vb.parts[n]:
                n += 1
            ra, rb = va.parts[n:], vb.parts[n:]
            if any(p[0] == 'all' for p in ra + rb) and n == 0 and (va.parts or vb.parts):
                return Seq((('all', ('ite', ga, seq_term(va), seq_term(vb))),))
            cases = []
            if ra:
                cases.append((ga, ra))
            if rb:
                cases.append((gb, rb))
            return Seq(va.parts[:n] + (('case', tuple(cases)),))
        if isinstance(va, (bool, Lit)) and isinstance(vb, (bool, Lit)):
            if len(ga) == 1 and len(gb) == 1 and ga[0] == neg(gb[0]):
                return Lit('b', ('bite', ga[0], va, vb))
            return Lit('b', ('gite', ga, va, gb, vb))
        if isinstance(va, Num) or isinstance(vb, Num):
            t = ('ite', ga, tm(va), tm(vb))
            ks = set(kind_of(x) for v in (va, vb) if isinstance(v, Num) for x in v.atoms())
            KIND[t] = 's' if 's' in ks else ('f' if 'f' in ks else ('i' if 'i' in ks else 'u'))
            return N(t)
        return ('ite', ga, va, vb)

    # ------------------------------------------------------------ loops
    def ex_for(self, s, st, fr):
        outs = []
        for s0, o in self.ex(s.get('init'), st, fr):
            if o is not None:
                outs.append((s0, o))
                continue

            def it(s1, ix):
                return self.iter_for(s, s1, fr)
            outs.extend(self.loop(s0, fr, it, s))
        return outs

    def iter_for(self, s, s1, fr):
        res = []
        last, self.lastround = self.lastround, False
        conds = [(s1, True)] if s.get('c') is None else self.conds(s, s1, fr, res)
        for s2, b in conds:
            if not b:
                res.append((s2, ('exit0',)))
                continue
            if last:
                res.append((s2, ('next',)))
                continue
            for s3, o in self.ex(s['body'], s2, fr):
                if o is None or o == Out.CONT:
                    if s.get('inc') is not None:
                        for s4, o2 in self.ex({'k': 'expr', 'e': s['inc'], 'l': s.get('l', 0)}, s3, fr):
                            if o2 is None:
                                self.again(s, s4, fr, res)
                            else:
                                res.append((s4, o2))
                    else:
                        self.again(s, s3, fr, res)
                elif o == Out.BRK:
                    res.append((s3, ('exit1',)))
                else:
                    res.append((s3, o))
        return res

    def again(self, s, st, fr, res):
        """End of an iteration: when the condition is now definitely false the
        loop is left here (a flag that ends the loop is a break)."""
        if s.get('c') is not None and not s.get('cv'):
            r2 = []
            self.quiet += 1
            try:
                cs = self.conds(s, st, fr, r2)
            finally:
                self.quiet -= 1
            if cs and not r2 and not any(b for _, b in cs):
                res.extend((s2, ('exit0',)) for s2, _ in cs)
                return
        res.append((st, ('next',)))

    def conds(self, s, s1, fr, res):
        saved, self.exc = self.exc, []
        out = []
        sts = [s1]
        if s.get('cv'):
            sts = self.declare(s['cv'], s1, fr)
        for a in sts:
            for s2, c in self.rv(s['c'], a, fr):
                out.extend(self.branch(s2, c))
        res.extend(self.exc)
        self.exc = saved
        return out

    def ex_while(self, s, st, fr):
        return self.loop(st, fr, lambda s1, ix: self.iter_for(s, s1, fr), s)

    def ex_do(self, s, st, fr):
        def it(s1, ix):
            res = []
            for s2, o in self.ex(s['body'], s1, fr):
                if o is None or o == Out.CONT:
                    for s3, b in self.conds(s, s2, fr, res):
                        res.append((s3, ('next',) if b else ('exit1',)))
                elif o == Out.BRK:
                    res.append((s2, ('exit1',)))
                else:
                    res.append((s2, o))
            return res
        return self.loop(st, fr, it, s)

    def ex_rangefor(self, s, st, fr):
        outs = []
        for s0, l in self.lvs(s['range'], st, fr):
            v = self.read(s0, l)
            outs.extend(self.range_loop(s, s0, l, v, fr))
        return outs

    def range_loop(self, s, st, l, v, fr):
        var = s['var']
        root = ('L', fr.id, var['id'], var['name'])
        self.rty[root] = self.p.strip(var['t'])
        isref = self.p.isref(var['t'])
        et = self.elem(l[3])

        def bindvar(s1, el, val):
            """el: location of the element or None; val: its value."""
            if isref:
                if el is None:
                    s1, el = self.temp(s1, val, var['t'], fr)
                return s1.set(root, ('ref', el))
            return s1.set(root, self.mat(val if val is not None else self.read(s1, el), var['t']))

        def body(s1):
            return self.ex(s['body'], s1, fr)

        if isinstance(v, Num):
            v = tm(v)
        constref = not isref or self.p.ty(self.p.ty(var['t']).get('to', '')).get('const') or not self.writes_var(s['body'], var['id'])
        if isref and constref and self.takes_addr(s['body'], var['id']):
            constref = False
        if isinstance(v, Seq) and constref and not (len(v.parts) == 1 and v.parts[0][0] == 'all'):
            return self.parts_loop(v.parts, st, fr, s, lambda s1, val: bindvar(s1, None, val), body, et)
        # plain index loop over an opaque container
        base = seq_term(v) if isinstance(v, Seq) else v
        if isinstance(v, Seq):
            sizes = [(st, seq_len(v))]
        else:
            r = self.models.order_map(self, st, l, fr)
            if r is not None and r != [st]:
                outs = []
                for s1 in r:
                    outs.extend(self.range_loop(s, s1, l, self.read(s1, l), fr))
                return outs
            sizes = self.msize(st, v)
            ch = sorted_chain(v)
            if ch is not None:
                base = Seq(tuple(('one', self.step_get(v, ('i', N(i)))) for i in range(len(ch))))
            elif is_tag(v, 'mput') or is_tag(v, 'mdel'):
                one = v[0] == 'mput' and v[1] == ('mempty',)
                base = Seq((('one', self.step_get(v, ('i', ZERO))),)) if one else ('opaque', 'order', tm(v))
        outs = []
        for st2, n in sizes:
            def it(s1, ix, n=n):
                res = []
                last, self.lastround = self.lastround, False
                for s2, b in self.branch(s1, lt(ix, n)):
                    if not b:
                        res.append((s2, ('exit0',)))
                        continue
                    if last:
                        res.append((s2, ('next',)))
                        continue
                    el = mkloc(l[1], l[2] + (('i', ix),), et)
                    s3 = bindvar(s2, el, None) if (isref and not constref) else \
                        bindvar(s2, None, self.mat(seq_get(v if isinstance(v, Seq) else base, ix), et))
                    for s4, o in body(s3):
                        if o is None or o == Out.CONT:
                            res.append((s4, ('next',)))
                        elif o == Out.BRK:
                            res.append((s4, ('exit1',)))
                        else:
                            res.append((s4, o))
                return res
            outs.extend(self.loop(st2, fr, it, s))
        return outs

    def takes_addr(self, body, vid):
        def go(x):
            if isinstance(x, list):
                return any(go(y) for y in x)
            if isinstance(x, dict):
                if x.get('k') == 'un' and x.get('op') == '&' and isinstance(x.get('e'), dict) and \
                        x['e'].get('k') == 'var' and x['e'].get('id') == vid:
                    return True
                return any(go(y) for y in x.values())
            return False
        return go(body)

    def writes_var(self, body, vid):
        """Is the loop variable possibly written through (syntactic, conservative)?"""
        found = []

        def root(e):
            while isinstance(e, dict):
                if e['k'] == 'var':
                    return e.get('id') == vid
                if e['k'] in ('mem', 'sub'):
                    e = e['b']
                elif e['k'] in ('upcast', 'downcast', 'load', 'cast', 'un'):
                    e = e['e']
                elif e['k'] == 'call' and e.get('obj'):
                    e = e['obj']
                else:
                    return False
            return False

        def go(x):
            if isinstance(x, list):
                for y in x:
                    go(y)
            elif isinstance(x, dict):
                k = x.get('k')
                if k in ('assign', 'cassign') and root(x['x']):
                    found.append(x)
                elif k == 'un' and x['op'] in ('++', '--', 'post++', 'post--', '&') and root(x['e']):
                    found.append(x)
                elif k == 'call':
                    fn = x['fn']
                    if x.get('obj') is not None and root(x['obj']) and not fn.get('const') and not fn.get('static') \
                            and fn['qn'].split('::')[-1] not in ('begin', 'end', 'operator*', 'operator->'):
                        # non-const accessor chosen only because the object is non-const?
                        if not self.p.isref(fn['ret']) or fn['qn'].startswith('std::'):
                            found.append(x)
                    for a, pt in zip(x['a'], fn['pt']):
                        d = self.p.ty(pt)
                        if d['k'] == 'ref' and not d.get('rv') and not self.p.ty(d['to']).get('const') and root(a):
                            found.append(x)
                for y in x.values():
                    if isinstance(y, (dict, list)):
                        go(y)
        go(body)
        return bool(found)

    def parts_loop(self, parts, st, fr, s, bindval, body, et):
        """Run the body over a sequence given by its parts (in order)."""
        cur = [st]
        outs = []
        for p in parts:
            nxt = []
            for c in cur:
                for s2, o in self.part_loop(p, c, fr, s, bindval, body, et):
                    if o is None or o == Out.CONT:
                        nxt.append(s2)
                    elif o == Out.BRK:
                        outs.append((s2, None))
                    else:
                        outs.append((s2, o))
            cur = nxt
        return [(c, None) for c in cur] + outs

    def part_loop(self, p, st, fr, s, bindval, body, et):
        """Outcomes: None to go on with the next part, BRK to leave the loop."""
        if p[0] == 'one':
            return body(bindval(st, self.mat(p[1], et)))
        if p[0] == 'case':
            outs = []
            rest = [st]
            for g, ps in p[1]:
                nr = []
                for c in rest:
                    a = c
                    for l in g:
                        a = a.assume(l) if a is not None else None
                    if a is not None:
                        outs.extend(self.seqparts(ps, a, fr, s, bindval, body, et))
                    nr.extend(self.assume_not(c, g))
                rest = nr
            return outs + [(c, None) for c in rest]
        if p[0] == 'all':
            hi = N(('size', p[1]))
            cases = (((), (('one', ('at', p[1], N(('bv', 0)))),)),)
            n = 0
        else:
            _, n, hi, cases = p

        def it(s1, ix):
            res = []
            last, self.lastround = self.lastround, False
            for s2, b in self.branch(s1, lt(ix, hi)):
                if not b:
                    res.append((s2, ('exit0',)))
                    continue
                if last:
                    res.append((s2, ('next',)))
                    continue
                rest = [s2]
                for g, ps in cases:
                    g2 = tuple(subst(l, {('bv', n): ix}) for l in g)
                    ps2 = tuple(_subst_part(q, {('bv', n): ix}) for q in ps)
                    nr = []
                    for c in rest:
                        a = c
                        for l in g2:
                            a = a.assume(l) if a is not None else None
                        if a is not None:
                            for s3, o in self.seqparts(ps2, a, fr, s, bindval, body, et):
                                if o is None or o == Out.CONT:
                                    res.append((s3, ('next',)))
                                elif o == Out.BRK:
                                    res.append((s3, ('exit1',)))
                                else:
                                    res.append((s3, o))
                        nr.extend(self.assume_not(c, g2))
                    rest = nr
                for c in rest:
                    res.append((c, ('next',)))
            return res
        # a loop's 'exit1' means BRK for the whole sequence
        return self.loop(st, fr, it, s, brk=Out.BRK)

    def seqparts(self, ps, st, fr, s, bindval, body, et):
        cur = [st]
        outs = []
        for q in ps:
            nxt = []
            for c in cur:
                for s2, o in self.part_loop(q, c, fr, s, bindval, body, et):
                    if o is None or o == Out.CONT:
                        nxt.append(s2)
                    else:
                        outs.append((s2, o))
            cur = nxt
        return [(c, None) for c in cur] + outs

    def assume_not(self, st, g):
        """States where not all of g hold (disjoint)."""
        out = []
        cur = st
        for l in g:
            n = cur.assume(neg(l))
            if n is not None:
                out.append(n)
            cur = cur.assume(l)
            if cur is None:
                break
        return out

    def loop(self, st, fr, iterate, node, brk=None):
        from .loops import run_loop
        return run_loop(self, st, fr, iterate, node, brk)

    # ------------------------------------------------------------ entry
    def run(self, f, args=None, this=None, st=None):
        """Summary of function f with symbolic arguments.
        Returns list of (state, outcome) at function exit."""
        st = st or State()
        fr0 = Frame({'qn': '<entry>', 'file': '', 'ret': 'void'})
        nf = Frame(f, None, 0)
        if f.get('method') and not f.get('static'):
            root = ('A', 'this')
            self.rty[root] = f['clsty']
            nf.this = mkloc(root, (), f['clsty'])
        for i, p_ in enumerate(f['params']):
            name = 'a%d' % i
            if args and i < len(args) and args[i] is not None:
                v = args[i]
                st = self.bind(st, nf, p_, v)
                continue
            root = ('A', name)
            self.rty[root] = self.p.strip(p_['t'])
            r = ('L', nf.id, p_['id'], p_['name'])
            self.rty[r] = self.p.strip(p_['t'])
            if self.p.isref(p_['t']):
                st = st.set(r, ('ref', mkloc(root, (), self.p.strip(p_['t']))))
            else:
                d = self.p.unref(p_['t'])
                if d['k'] == 'ptr':
                    self.rty[root] = d['to']
                    # an array of pointers (argv) is addressed by position
                    path = (('i', ZERO),) if self.p.unref(d['to'])['k'] == 'ptr' else ()
                    st = st.set(r, ('ptr', mkloc(root, path, d['to'])))
                else:
                    st = st.set(r, self.mat(('arg', name), p_['t']))
        self.stack.append(f['id'])
        self.analysed.add(f['id'])
        try:
            if f.get('ctor'):
                raise Undecided('constructor entry')
            outs = self.ex(f['body'], st, nf)
        finally:
            self.stack.pop()
        res = []
        for s, o in outs:
            if o is None:
                o = ('ret', VOID)
            if o[0] == 'ret' and isloc(o[1]):
                if not self.p.isref(f['ret']):
                    o = ('ret', self.read(s, o[1]))
            res.append((s, o))
        return res


def _subst_part(q, m):
    r = subst(Seq((q,)), m)
    return r.parts[0] if len(r.parts) == 1 else ('case', (((), r.parts),))


def merge_pc(a, b):
    """Union of two guard sets when exactly representable as one."""
    if a == b:
        return a
    da, db = a - b, b - a
    if not da:
        return a          # b stronger
    if not db:
        return b
    if len(da) == 1 and len(db) == 1:
        x, y = next(iter(da)), next(iter(db))
        if x == neg(y):
            return a & b
        # x < 0  or x = 0  ->  x <= 0 ; x<0 or 0<x -> x != 0
        if x.op in ('<', '<=', '=', '!=') and y.op in ('<', '<=', '=', '!='):
            for p, q in ((x, y), (y, x)):
                if p.op == '<' and q.op == '=' and (p.x == q.x or p.x == q.x.neg()):
                    return (a & b) | {mklit('<=', p.x)}
                if p.op == '<' and q.op == '<' and p.x == q.x.neg():
                    return (a & b) | {mklit('!=', p.x)}
                if p.op == '<=' and q.op == '<=' and not feasible({neg(p), neg(q)}):
                    return a & b
                if p.op == '<=' and q.op == '<' and not feasible({neg(p), neg(q)}):
                    return a & b
    return None


SEQ_TYPES = {'std::vector', 'std::list', 'std::deque', 'std::array', 'std::initializer_list', 'std::forward_list',
             'std::basic_ostream', 'std::basic_ofstream', 'std::basic_ostringstream', 'std::basic_stringstream'}
OSTREAMS = {'std::basic_ostream', 'std::basic_ofstream', 'std::basic_ostringstream'}
MAP_TYPES = {'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::multiset', 'std::multimap'}
SETS = {'std::set', 'std::unordered_set', 'std::multiset'}
BOX_TYPES = {'std::unique_ptr', 'std::shared_ptr'}
