"""Three valued comparison of abstract values and function summaries.

True : equal for every input the path condition admits
False: a primitive component differs (rule: the normal forms are different and
       no piece of either is a form the theory has no normal form for)
None : not decided
"""
import itertools
from .terms import *
from . import terms as T
from .valuate import separates, admitted

NONPRIM = {'liter', 'lcnt', 'lex', 'loop', 'sum', 'map', 'exists', 'first', 'sorted', 'upd', 'wsub',
           'trunc', 'ite', 'gite', 'bite', 'count', 'idiv', 'imod', 'ratio', 'case', 'sortrange',
           'reversed', 'resized', 'updmap', 'concat', 'substr', 'pow', 'min', 'max', 'opaque'}


def l_of(pc):
    return tuple(l.x for l in pc if not isinstance(l, bool))


ACCESS = {'size', 'at', 'fld', 'popped', 'mget', 'has', 'front', 'back'}


def is_tag(v, t):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == t


_NP = {}


def nonprim(t):
    """Does the term contain a form without a unique normal form?"""
    if isinstance(t, (str, int, bool, type(None))):
        return False
    try:
        r = _NP.get(t)
    except TypeError:
        r = None
    if r is None:
        r = contains_term(t, lambda x: isinstance(x[0], str) and (x[0] in NONPRIM or x[0].startswith('opaque')))
        if len(_NP) > 200000:
            _NP.clear()
        _NP[t] = r
    return r


def conj(rs):
    r = True
    for x in rs:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def litset(pc):
    return frozenset(l for l in pc if l is not True)


class Differs(Exception):
    pass


FIRST = {}
LEMMAS = {}         # verdicts on pairs of recurrences without assumptions


class Cmp:
    def __init__(self, budget=60000):
        self.steps = 0
        self.budget = budget
        self.why = []
        self.memo = {}
        self.lemmas = LEMMAS
        self.depth = 0
        self.inloop = 0         # inside the comparison of the steps of two recurrences
        self.viarec = False     # a difference rests on two recurrences with different steps

    def note(self, what, a, b):
        if len(self.why) < 6:
            self.why.append('%s: code %s, expected %s' % (what, show(a)[:300], show(b)[:300]))

    # ------------------------------------------------------------ numbers
    def equalities(self, pc):
        out = []
        for l in pc:
            if l.op == '=' and l.x.d is None:
                out.append(l.x)
            elif l.op == '<=' and l.x.d is None and entails(pc, mklit('<=', l.x.neg())):
                out.append(l.x)
        return out

    def elim(self, pc, d):
        """Rewrite d with the linear equalities of pc."""
        eqs = self.equalities(pc)
        for _ in range(len(eqs)):
            e = eqs.pop(0)
            if e.iszero() or e.is_const():
                continue
            pick = None
            for m, c in sorted(e.n.items(), key=T.key):
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    if is_tag(a, 'str'):
                        continue
                    rest = Num({k: v for k, v in e.n.items() if k != m})
                    if contains_term(rest, lambda t: t == a):
                        continue
                    if a in d.atoms() or pick is None:
                        pick = (a, rest.neg().div(Num.const(c)))
                        if a in d.atoms():
                            break
            if pick is None:
                continue
            s = {pick[0]: pick[1]}
            d = subst(d, s)
            if not isinstance(d, Num):
                d = N(d)
            eqs = [x for x in (N(subst(x, s)) for x in eqs)]
        return d

    def unify(self, pc, d):
        at = [a for a in d.atoms() if isinstance(a, tuple)]
        at.sort(key=T.key)
        s = {}
        for i, a in enumerate(at):
            if a in s:
                continue
            for b in at[i + 1:]:
                if b in s or a[0] != b[0] or len(a) != len(b):
                    continue
                if a[0] in ('str', 'bv', 'cv', 'lv', 'ix', 'arg'):
                    continue
                if self.term(pc, a, b) is True:
                    s[b] = N(a)
        return subst(d, s) if s else d

    def zero(self, pc, d):
        k = (pc, d)
        if k in self.memo:
            return self.memo[k]
        self.steps += 1
        if self.steps > self.budget or self.depth > 40:
            return None
        self.memo[k] = None
        self.depth += 1
        r = self.zero1(pc, d)
        self.depth -= 1
        self.memo[k] = r
        return r

    def zero1(self, pc, d):
        d = Num(N(d).n)
        if d.is_const():
            return d.iszero()
        if self.modular(pc, d):
            return True
        d = self.texts(pc, d)
        if d.is_const():
            return d.iszero()
        d = self.elim(pc, d)
        d = Num(d.n)
        if d.is_const():
            return d.iszero()
        d = self.unify(pc, d)
        d = Num(d.n)
        if d.is_const():
            return d.iszero()
        d = self.wsubs(pc, d)
        if d.is_const():
            return d.iszero()
        d = self.splitguards(pc, d)
        if d is None or isinstance(d, bool):
            return d
        if entails(pc, mklit('<=', d)) and entails(pc, mklit('<=', d.neg())):
            return True
        if (entails(pc, mklit('<', d)) or entails(pc, mklit('<', d.neg()))):
            return False
        sums = [a for a in d.atoms() if is_tag(a, 'sum')]
        if sums:
            r = self.sums(pc, d, sums)
            if r is False and any(a[0] in ACCESS and nonprim(a) for a in d.atoms()):
                # an element read from a form without normal form may be the same sum
                return None
            return r
        np = [a for a in d.atoms() if nonprim(a)]
        if not np:
            return False if consistent(pc, (mklit('!=', d),)) else None
        if len(np) == 1 and np[0][0] in ('trunc', 'idiv', 'imod') and not any(nonprim(x) for x in np[0][1:]):
            return False
        # (reading from such a form says something about it: not independent of the rest)
        heads = [a for a in np if a[0] in NONPRIM or a[0] in ACCESS]
        if not heads:
            # uninterpreted heads over undecided arguments: independent when all differ
            if all(self.term(pc, a, b) is False for a, b in itertools.combinations(np, 2)) and \
                    not any(a[0] == b[0] and len(a) == len(b) and contains_term(a, lambda t: t[0] == 'opaque')
                            for a in np for b in d.atoms() if b not in np):
                return False
        # pairing of leftover forms of one tag
        if len(np) == 2 and np[0][0] == np[1][0]:
            if self.term(pc, np[0], np[1]) is False:
                e = subst(d, {np[0]: N(np[1])})
                if N(e).iszero():
                    return False
        # a lone at(sorted...)-like form against primitives of another vocabulary
        return None

    def texts(self, pc, d):
        """Texts the path knows written out inside longer ones."""
        cats = [a for a in d.atoms() if is_tag(a, 'cat')]
        if not cats:
            return d
        m = {}
        for l in pc:
            if l.op == '=' and isinstance(l.x, Num) and l.x.d is None and len(l.x.n) == 2:
                at = l.x.atoms()
                k = [a for a in at if a[0] == 'str']
                o = [a for a in at if a[0] != 'str']
                if len(k) == 1 and len(o) == 1 and o[0][0] != 'cat' and sorted(l.x.n.values()) == [-1, 1]:
                    m[o[0]] = k[0]
        for x in self.equalities(pc):
            at = x.atoms()
            if len(at) == 1 and set(x.n) <= {((at[0] if isinstance(at, (list, tuple)) else next(iter(at)), 1),), ()}:
                a = at[0] if isinstance(at, (list, tuple)) else next(iter(at))
                k = x.n[((a, 1),)]
                m.setdefault(a, N(-x.n.get((), 0) / k))
        for c in cats:
            for p in c[1]:
                a = p.as_atom() if isinstance(p, Num) else None
                if a is not None and a[0] != 'str' and kind_of(a) == 's' and pc and entails(pc, mklit('<=', N(('size', a)))):
                    m[a] = ('str', '')
        if not m:
            return d
        from .models import mkcat
        return N(subst(d, {c: mkcat([subst(p, m) for p in c[1]]) for c in cats}))

    def start(self, pc, v):
        """Recurrences at iteration zero are their initial values."""
        for _ in range(4):
            m = {}
            for t in subterms(v):
                if t[0] == 'liter' and isinstance(t[3], Num) and not bvinfo(t)[1] and t not in m:
                    if self.zero(pc, t[3]) is True:
                        x = t[1][2][t[2]]
                        m[t] = x
            if not m:
                return v
            v = subst(v, m)
        return v

    def modular(self, pc, d):
        """Unsigned differences agree when they agree modulo the word size."""
        w = [a for a in d.atoms() if is_tag(a, 'wsub') and isinstance(a[1], Num) and isinstance(a[2], Num)]
        if not w:
            return False
        for m, c in d.n.items():
            if sum(e for a, e in m if a in w) > 1:
                return False
        e = N(subst(d, {a: a[1] - a[2] for a in w}))
        if e.iszero():
            return True
        e = self.elim(pc, Num(e.n))
        return e.iszero()

    def wsubs(self, pc, d):
        for _ in range(6):
            s = {}
            for a in d.atoms():
                if is_tag(a, 'wsub') and isinstance(a[1], Num) and isinstance(a[2], Num):
                    if a[2].iszero() or self.zero(pc, a[2]) is True:
                        s[a] = a[1]
                    elif entails(pc, le(a[2], a[1])):
                        s[a] = a[1] - a[2]
            if not s:
                return d
            d = Num(N(subst(d, s)).n)
        return d

    def splitguards(self, pc, d):
        """Case split on literals inside sums that do not mention the index."""
        for a in sorted(d.atoms(), key=T.key):
            if is_tag(a, 'sum'):
                n = a[1]
                for l in inner_free_lits(a):
                    if isinstance(l, bool):
                        continue
                    r = []
                    for v, ll in ((True, l), (False, neg(l))):
                        if feasible(pc | {ll}):
                            e = N(subst(d, {l: v, neg(l): not v}))
                            if e == d:
                                return d
                            r.append(self.zero(pc | {ll}, e))
                    if not r:
                        return True
                    return conj(r)
        return d

    def sums(self, pc, d, sums):
        """d is a polynomial in sums and other forms."""
        # a common factor does not matter
        for a in sorted(d.atoms(), key=T.key):
            if all(any(x == a for x, _ in m) for m in d.n):
                q = {}
                for m, c in d.n.items():
                    mm = tuple((x, e - 1 if x == a else e) for x, e in m)
                    q[tuple((x, e) for x, e in mm if e)] = c
                r = self.zero(pc, Num(q))
                if r is True or (r is False and self.zero(pc, N(a)) is False):
                    return r
                return None
        lin = {}
        rest = ZERO
        for m, c in d.n.items():
            ss = [(a, e) for a, e in m if is_tag(a, 'sum')]
            if not ss:
                rest = rest + Num({m: c})
            elif len(ss) == 1 and ss[0][1] == 1:
                s = ss[0][0]
                co = Num({tuple((a, e) for a, e in m if a != s): c})
                lin[s] = lin.get(s, ZERO) + co
            else:
                return self.sumpoly(pc, d, sums)
        r = self.linsum(pc, lin, rest)
        if r is None:
            return self.sumpairs(pc, d, sums)
        return r

    def linsum(self, pc, lin, rest):
        """sum_i co_i * sum_i + rest over ranges that differ by constants:
        one range, every product shifted to its first offset."""
        his = sorted({s[2] for s in lin}, key=T.key)
        groups = []
        for h in his:
            for g in groups:
                o = self.elim(pc, h - g[0][0])
                if o.is_const() and o.cval().denominator == 1 and abs(o.cval()) <= 5:
                    g.append((h, int(o.cval())))
                    break
            else:
                groups.append([(h, 0)])
        if len(groups) > 1:
            # ranges that cannot be related: each must vanish on its own
            rs = []
            for g in groups:
                hs = [h for h, _ in g]
                rs.append(self.linsum(pc, {s: c for s, c in lin.items() if s[2] in hs}, ZERO))
            if all(r is True for r in rs):
                return self.zero(pc, rest)
            if False in rs and None not in rs and self.unrelated(pc, [g[0][0] for g in groups]):
                return False if not any(nonprim(a) for a in rest.atoms()) else None
            return None
        g = groups[0]
        lo = min(o for _, o in g)
        target = next(h for h, o in g if o == lo)
        off = {h: o - lo for h, o in g}
        nz = mklit('<=', target.neg())
        if not entails(pc, nz):
            rs = []
            for l in (nz, neg(nz)):
                if feasible(pc | {l}):
                    e = rest
                    for s, co in lin.items():
                        e = e + co * N(s)
                    if l is nz or (isinstance(l, Lit) and l == nz):
                        rs.append(self.linsum(pc | {l}, lin, rest))
                    else:
                        e2 = rest
                        for s, co in lin.items():
                            if off[s[2]] == 0:
                                continue
                            h = self.elim(pc | {l}, s[2])
                            if entails(pc | {l}, mklit('<=', s[2])):
                                continue
                            if not h.is_const():
                                h = next((N(k) for k in range(1, 6) if entails(pc | {l}, eq(s[2], N(k)))), None)
                                if h is None:
                                    return None
                            e2 = e2 + co * mksum(s[1], h, s[3], s[4])
                        rs.append(self.zero(pc | {l}, e2))
            return conj(rs)
        n = T.TMPBV + self.depth
        bv = N(('bv', n))
        pieces = []
        extra = rest
        for s, co in lin.items():
            _, k, h, gd, body = s
            for i in range(off[h]):
                t = self.point(pc, co, k, gd, body, target + N(i))
                if t is None:
                    return None
                extra = extra + t
            m = {('bv', k): bv}
            gd = tuple(subst(l, m) for l in gd)
            body = N(subst(body, m))
            c0 = min_offset((gd, body), n)
            if c0:
                for i in range(abs(c0)):
                    if c0 > 0:
                        at = ((1, target + N(i - c0)), (-1, N(i - c0)))
                    else:
                        at = ((-1, target + N(i)), (1, N(i)))
                    for sg, x in at:
                        t = self.point(pc, co, n, gd, body, x)
                        if t is None:
                            return None
                        extra = extra + t * N(sg)
                m = {('bv', n): bv - N(c0)}
                gd = tuple(subst(l, m) for l in gd)
                body = N(subst(body, m))
            pieces.append((co, gd, body))
        rng = frozenset(l for l in (mklit('<=', bv.neg()), lt(bv, target)) if l is not True)
        if False in rng or not feasible(pc | rng):
            return self.zero(pc, extra)
        r = self.regions(pc | rng, pieces)
        if r is True:
            return self.zero(pc, extra)
        if r is False:
            for x in ({('bv', n): target - ONE - bv},):
                if len(pieces) > 1:
                    rev = [pieces[0]] + [(c, tuple(subst(l, x) for l in g_), N(subst(b, x))) for c, g_, b in pieces[1:]]
                    if self.regions(pc | rng, rev) is not False:
                        return None
            if any(bare_bv(b, n) or any(bare_bv(l, n) for l in g_) for _, g_, b in pieces) and not extra.iszero():
                return None
            if any(nonprim(a) and a[0] in NONPRIM for a in extra.atoms()):
                return None
            return False
        return None

    def point(self, pc, co, k, gd, body, x):
        """co * [gd] * body at index x."""
        m = {('bv', k): x}
        gs = [subst(l, m) for l in gd]
        if any(q is False or (q is not True and entails(pc, neg(q))) for q in gs):
            return ZERO
        if not all(q is True or entails(pc, q) for q in gs):
            return None
        return co * N(subst(body, m))

    def unrelated(self, pc, hs):
        """No two of the ranges differ by a constant for every input."""
        for a, b in itertools.combinations(hs, 2):
            d = self.elim(pc, a - b)
            if d.is_const() or any(nonprim(x) and not is_tag(x, 'sum') for x in d.atoms()):
                return False
        return True

    def sumpoly(self, pc, d, sums):
        """Products of sums: equal sums are identified; different ones are
        independent functionals of the data."""
        r = self.sumpairs(pc, d, sums)
        if r is not None:
            return r
        ss = sorted(sums, key=T.key)
        for a, b in itertools.combinations(ss, 2):
            if self.zero(pc, N(a) - N(b)) is not False:
                return None
        for a in d.atoms():
            if nonprim(a) and not is_tag(a, 'sum'):
                return None
        # related ranges or bodies could still be linearly dependent
        for a, b in itertools.combinations(ss, 2):
            if self.elim(pc, a[2] - b[2]).is_const() and a[4] != b[4] and min_offset(a[4], a[1]) != min_offset(b[4], b[1]):
                return None
            if len(ss) > 2 and (a[3] or b[3]) and a[2] == b[2] and a[4] == b[4]:
                return None
        return False

    def regions(self, pc, pieces):
        lits = []
        for _, g, _ in pieces:
            for l in g:
                if isinstance(l, bool):
                    continue
                if l not in lits and neg(l) not in lits:
                    lits.append(l)
        if len(lits) > 8:
            return None
        out = []

        def go(i, p, asg):
            if not feasible(p):
                return
            if i == len(lits):
                t = ZERO
                for co, g, b in pieces:
                    ok = True
                    for l in g:
                        if l is False:
                            ok = False
                        elif l is not True and not asg.get(l, not asg.get(neg(l), False)):
                            ok = False
                    if ok:
                        t = t + co * b
                out.append(self.zero(p, t))
                return
            l = lits[i]
            nl = neg(l)
            for ll, v in ((l, True), (nl, False)):
                a = dict(asg)
                a[l] = v
                a[nl] = not v
                go(i + 1, p | {ll}, a)
        go(0, pc, {})
        if any(nonprim(l) for l in lits) and False in out:
            return None
        return conj(out)

    def sumpairs(self, pc, d, sums):
        if len(sums) == 2:
            r = self.zero(pc, N(sums[0]) - N(sums[1]))
            if r is True:
                return self.zero(pc, N(subst(d, {sums[0]: N(sums[1])})))
            if r is False and N(subst(d, {sums[0]: N(sums[1])})).iszero():
                return False
        if len(sums) > 2:
            for a, b in itertools.combinations(sorted(sums, key=T.key), 2):
                if self.zero(pc, N(a) - N(b)) is True:
                    return self.zero(pc, N(subst(d, {a: N(b)})))
        return None

    # ------------------------------------------------------------ values
    def value(self, pc, a, b):
        self.steps += 1
        if a is b or a == b:
            return True
        if self.steps > self.budget:
            return None
        if isinstance(a, Rec) or isinstance(b, Rec):
            return self.rec(pc, a, b)
        if isinstance(a, Num) or isinstance(b, Num):
            if isinstance(a, (Num, tuple)) and isinstance(b, (Num, tuple)):
                if bool(is_tag(a, 'ptr') or is_tag(a, 'null0')) or bool(is_tag(b, 'ptr')):
                    return None
                return self.num(pc, N(a), N(b))
            return None
        if isinstance(a, (bool, Lit)) or isinstance(b, (bool, Lit)):
            return self.boolean(pc, a, b)
        if isinstance(a, Seq) or isinstance(b, Seq):
            return self.seq(pc, as_seq(a), as_seq(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.term(pc, a, b)
        if isinstance(a, (list, frozenset)) or isinstance(b, (list, frozenset)):
            return None
        return False if (isinstance(a, (str, int)) and isinstance(b, (str, int))) else None

    def num(self, pc, a, b):
        if a.d is None and b.d is None:
            r = self.zero(pc, a - b)
        else:
            # compare as one fraction only when both denominators are nonzero;
            # a quotient against a plain value compares by cross product
            r = self.zero(pc, a - b)
        if r is None and separates(pc, a - b):
            r = False
        if r is False:
            self.note('value', a, b)
        return r

    def rec(self, pc, a, b):
        ka = [k for k, _ in a.over] if isinstance(a, Rec) else []
        kb = [k for k, _ in b.over] if isinstance(b, Rec) else []
        ba = a.base if isinstance(a, Rec) else a
        bb = b.base if isinstance(b, Rec) else b
        if not (ba is None or isinstance(ba, tuple)) or not (bb is None or isinstance(bb, tuple)):
            return None
        rs = []
        if ba is not None and bb is not None:
            rs.append(self.term(pc, ba, bb) if set(ka) != set(kb) or not (ka or kb) else
                      (True if self.term(pc, ba, bb) is True else None))
        for k in sorted(set(ka) | set(kb)):
            x = a.get(k) if isinstance(a, Rec) else ('fld', a, k)
            y = b.get(k) if isinstance(b, Rec) else ('fld', b, k)
            if (ba is None and k not in ka) or (bb is None and k not in kb):
                rs.append(None)
                continue
            rs.append(self.value(pc, x, y))
        r = conj(rs)
        if r is False:
            self.note('record', a, b)
        return r

    def boolean(self, pc, a, b):
        if isinstance(a, tuple):
            a = Lit('b', a)
        if isinstance(b, tuple):
            b = Lit('b', b)
        if not isinstance(a, (bool, Lit)) or not isinstance(b, (bool, Lit)):
            return None
        rs = []
        for x, y in ((a, neg(b)), (neg(a), b)):
            if x is False or y is False:
                continue
            p = pc | litset([x, y])
            if not feasible(p):
                continue
            if isinstance(a, Lit) and isinstance(b, Lit) and a.op in ('b', 'nb') and a.op == b.op:
                rs.append(self.term(pc, a.x, b.x))
                break
            if (isinstance(a, Lit) and nonprim(a)) or (isinstance(b, Lit) and nonprim(b)):
                rs.append(None)
            elif isinstance(a, Lit) and isinstance(b, Lit) and {a.op, b.op} <= {'=', '!='} and a.op == b.op:
                rs.append(True if self.zero(pc, a.x - b.x) is True or self.zero(pc, a.x + b.x) is True else False)
            else:
                rs.append(False)
        r = conj(rs)
        if r is False:
            self.note('condition', a, b)
        return r

    # ------------------------------------------------------------ sequences
    def seq(self, pc, a, b):
        pa, pb = list(expand(a).parts), list(expand(b).parts)
        while pa and pb:
            r = self.part(pc, pa[0], pb[0])
            if r is True:
                pa.pop(0)
                pb.pop(0)
            else:
                break
        while pa and pb:
            r = self.part(pc, pa[-1], pb[-1])
            if r is True:
                pa.pop()
                pb.pop()
            else:
                break
        if not pa and not pb:
            return True
        r = self.seq1(pc, pa, pb)
        if r is False:
            self.note('sequence', Seq(pa), Seq(pb))
        return r

    def seq1(self, pc, pa, pb):
        # a part that is empty under pc
        for ps in (pa, pb):
            for i, p in enumerate(ps):
                if p[0] != 'one' and self.zero(pc, part_len(p)) is True:
                    q = ps[:i] + ps[i + 1:]
                    return self.seq(pc, Seq(q if ps is pa else pa), Seq(q if ps is pb else pb))
        if all(p[0] == 'one' for p in pa) and all(p[0] == 'one' for p in pb):
            if len(pa) != len(pb):
                return False
            return conj(self.value(pc, x[1], y[1]) for x, y in zip(pa, pb))
        ln = self.zero(pc, seq_len(Seq(pa)) - seq_len(Seq(pb)))
        if ln is False:
            return False
        if len(pa) == 1 and len(pb) == 1:
            return self.part(pc, pa[0], pb[0])
        if len(pa) == len(pb) and ln is True:
            rs = []
            al = True
            for p, q in zip(pa, pb):
                if self.zero(pc, part_len(p) - part_len(q)) is not True:
                    al = False
            if al:
                return conj(self.part(pc, p, q) for p, q in zip(pa, pb))
        # unroll / peel: element-wise through maps of one element per index
        return self.bypoint(pc, pa, pb, ln)

    def pieces(self, ps):
        """[(start, len, fn(index)->value)] when every part has one element per index."""
        out = []
        pos = ZERO
        for p in ps:
            l = part_len(p)
            if p[0] == 'one':
                out.append((pos, l, lambda i, p=p: p[1]))
            elif p[0] == 'all':
                out.append((pos, l, lambda i, p=p: ('at', p[1], i)))
            elif p[0] == 'map' and len(p[3]) == 1 and not p[3][0][0] and len(p[3][0][1]) == 1 and p[3][0][1][0][0] == 'one':
                out.append((pos, l, lambda i, p=p: subst(p[3][0][1][0][1], {('bv', p[1]): i})))
            else:
                return None
            pos = pos + l
        return out

    def bypoint(self, pc, pa, pb, ln):
        if ln is not True:
            return None
        A, B = self.pieces(pa), self.pieces(pb)
        if A is None or B is None:
            return None
        n = T.TMPBV + 50 + self.depth
        x = N(('bv', n))
        rs = []
        for s, l, f in A:
            for s2, l2, g in B:
                r = frozenset(q for q in (le(s, x), lt(x, s + l), le(s2, x), lt(x, s2 + l2)) if q is not True)
                if False in r or not feasible(pc | r):
                    continue
                rs.append(self.value(pc | r, f(x - s), g(x - s2)))
        return conj(rs)

    def part(self, pc, p, q):
        if p == q:
            return True
        if p[0] == 'one' and q[0] == 'one':
            return self.value(pc, p[1], q[1])
        if p[0] == 'all' and q[0] == 'all':
            return self.term(pc, p[1], q[1])
        if p[0] == 'map' and q[0] == 'map':
            return self.maps(pc, p, q)
        if p[0] == 'case' or q[0] == 'case':
            return self.cases(pc, [((), (p,))] if p[0] != 'case' else p[1],
                              [((), (q,))] if q[0] != 'case' else q[1])
        if {p[0], q[0]} == {'map', 'all'}:
            m, o = (p, q) if p[0] == 'map' else (q, p)
            n = T.TMPBV + 80 + self.depth
            if is_tag(o[1], 'liter'):
                return None
            o2 = ('map', n, size_of(o[1]), (((), (('one', ('at', o[1], N(('bv', n)))),)),))
            if contains_term(o[1], lambda t: t[0] in NONPRIM):
                r = self.maps(pc, m, o2)
                return r if r is True else None
            return self.maps(pc, p if p[0] == 'map' else o2, q if q[0] == 'map' else o2)
        ln = self.zero(pc, part_len(p) - part_len(q))
        if ln is False:
            return False
        return None

    def maps(self, pc, p, q):
        h = self.zero(pc, p[2] - q[2])
        if h is not True:
            ln = self.zero(pc, part_len(p) - part_len(q))
            if ln is False:
                return False
            return None
        n = T.TMPBV + 100 + self.depth
        bv = N(('bv', n))
        rng = frozenset(l for l in (mklit('<=', bv.neg()), lt(bv, p[2])) if l is not True)
        if False in rng or not feasible(pc | rng):
            return True
        ca = [(tuple(subst(l, {('bv', p[1]): bv}) for l in g), tuple(subst(Seq(ps), {('bv', p[1]): bv}).parts)) for g, ps in p[3]]
        cb = [(tuple(subst(l, {('bv', q[1]): bv}) for l in g), tuple(subst(Seq(ps), {('bv', q[1]): bv}).parts)) for g, ps in q[3]]
        self.depth += 1
        r = self.cases(pc | rng, ca, cb)
        self.depth -= 1
        return r

    def complete(self, pc, cs):
        """Add the uncovered region (contributing nothing)."""
        rest = [frozenset()]
        for g, _ in cs:
            nr = []
            for r in rest:
                acc = r
                for l in g:
                    if l is True:
                        continue
                    if l is False:
                        nr.append(acc)
                        break
                    x = acc | {neg(l)}
                    if feasible(pc | x):
                        nr.append(x)
                    acc = acc | {l}
                else:
                    continue
            rest = [r for r in nr if feasible(pc | r)]
            if len(rest) > 64:
                return None
        return list(cs) + [(tuple(r), ()) for r in rest]

    def cases(self, pc, ca, cb):
        ca, cb = self.complete(pc, ca), self.complete(pc, cb)
        if ca is None or cb is None:
            return None
        rs = []
        for g, x in ca:
            for h, y in cb:
                c = litset(g) | litset(h)
                if False in c or not feasible(pc | c):
                    continue
                if not x and not y:
                    continue
                r = self.seq(pc | c, Seq(x), Seq(y))
                if r is False and not same_guards(g, h):
                    r = None
                rs.append(r)
        return conj(rs)

    # ------------------------------------------------------------ terms
    def term(self, pc, a, b):
        if a == b:
            return True
        if isinstance(a, (Num, Rec, Seq, Lit, bool)) or isinstance(b, (Num, Rec, Seq, Lit, bool)):
            return self.value(pc, a, b)
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            if type(a) is type(b) and isinstance(a, (str, int)):
                return False
            return None
        self.steps += 1
        if self.steps > self.budget:
            return None
        if not a or not b:
            return False if len(a) != len(b) else True
        if is_tag(a, 'ite') or is_tag(b, 'ite'):
            return self.ite(pc, a, b)
        if a[0] != b[0] and (is_tag(a, 'upd') or is_tag(b, 'upd')):
            # one element replaced against the list itself
            u, o = (a, b) if is_tag(a, 'upd') else (b, a)
            if self.term(pc, u[1], o) is True:
                r = self.value(pc, u[3], ('at', o, u[2]))
                return r
            return None
        if a[0] != b[0]:
            if isinstance(a[0], str) and isinstance(b[0], str):
                if is_tag(a, 'wsub') or is_tag(b, 'wsub') or is_tag(a, 'sum') or is_tag(b, 'sum'):
                    return self.zero(pc, N(a) - N(b))
                return None if nonprim(a) or nonprim(b) else False
            return self.tuples(pc, a, b)
        t = a[0]
        if t == 'sum':
            return self.zero(pc, N(a) - N(b))
        if t in ('exists', 'first'):
            return self.quant(pc, a, b)
        if t == 'liter':
            return self.liter(pc, a, b)
        if t == 'lcnt':
            r = self.loop(pc, a[1], b[1])
            self.viarec |= bool(r) and r[0] is False
            return r[0] if r else None
        if t == 'lex':
            r = self.loop(pc, a[1], b[1])
            self.viarec |= bool(r) and r[0] is False
            if not r or r[0] is not True:
                return r[0] if r else None
            return None if a[2:] != b[2:] else True
        if t == 'loop':
            r = self.loop(pc, a, b)
            self.viarec |= bool(r) and r[0] is False
            return r[0] if r else None
        if t == 'bv' or t == 'cv' or t == 'lv':
            return False
        if t == 'upd':
            x = [self.value(pc, x, y) for x, y in zip(a[1:], b[1:])]
            r = conj(x)
            return r if r is True or x == [True, True, False] else None
        if t == 'wsub':
            # modular difference: decided by the difference itself
            if all(isinstance(q, Num) for q in (a[1], a[2], b[1], b[2])):
                return self.zero(pc, (a[1] - a[2]) - (b[1] - b[2]))
            return None
        if t == 'mput':
            r = self.chains(pc, a, b)
            if r is not None:
                return r
        if t in ('mput', 'mdel'):
            r = conj([self.value(pc, x, y) for x, y in zip(a[1:], b[1:])])
            if r is False:
                # one component differs, all others equal
                x = [self.value(pc, x, y) for x, y in zip(a[1:], b[1:])]
                if x.count(True) == len(x) - 1:
                    return False
                return None
            return r
        if t == 'at' and len(a) == len(b) == 3 and explicit(a[1]) and explicit(b[1]):
            return self.places(pc, a, b)
        r = self.tuples(pc, a, b)
        if r is False and t == 'at' and a[1] == b[1] and self.alike(pc, a, b):
            return None
        if r is False and t == 'at' and len(a) == len(b) == 3 and nonprim(a[1]) and nonprim(b[1]) and \
                self.value(pc, a[1], b[1]) is not True and self.value(pc, a[2], b[2]) is not True:
            # another place of another list
            return None
        return r

    def alike(self, pc, a, b):
        """Does the path say that two elements of one list agree in every
        field it compares?"""
        fs = {x for l in pc if not isinstance(l, bool) for x in (l.x.atoms() if isinstance(l.x, Num) else (l.x,))
              if x != a and contains_term(x, lambda t: t == a)}
        fs = {x for x in fs if contains_term(l_of(pc), lambda t: t == subst(x, {a: b}))}
        return bool(fs) and all(self.zero(pc, N(x) - N(subst(x, {a: b}))) is True for x in fs)

    def places(self, pc, a, b):
        """Elements of lists written out, by the places they can be at."""
        if a == b:
            return True
        r = True
        for i, (_, x) in enumerate(a[1].parts):
            for j, (_, y) in enumerate(b[1].parts):
                c = [T.eq(N(a[2]), N(i)), T.eq(N(b[2]), N(j))]
                if False in c:
                    continue
                c = frozenset(l for l in c if l is not True)
                if any(entails(pc, T.neg(l)) for l in c) or not T.feasible(frozenset(pc) | c) or x == y:
                    continue
                v = self.value(frozenset(pc) | c, x, y)
                if v is False and consistent(frozenset(pc) | c):
                    return False
                if v is not True:
                    r = None
        return r

    def samekey(self, pc, a, b):
        """True / False when the path decides whether two keys are the same,
        else the literal that tells (None: no such literal)."""
        if a == b:
            return True
        if isinstance(a, Num) or isinstance(b, Num):
            x, y = N(a), N(b)
            if (x.as_atom() or (0,))[0] == 'str' and (y.as_atom() or (0,))[0] == 'str':
                return False
            c = T.eq(x, y)
        elif nonprim(a) or nonprim(b) or isinstance(a, (Rec, Seq)) or isinstance(b, (Rec, Seq)):
            return True if self.value(pc, a, b) is True else None
        else:
            from .engine import tm
            c = T.Lit('b', ('eqv',) + tuple(sorted((tm(a), tm(b)), key=T.key)))
        if isinstance(c, bool):
            return c
        if entails(pc, c):
            return True
        return False if entails(pc, neg(c)) else c

    def chains(self, pc, a, b, depth=0):
        """Two tables built entry by entry on the same base: equal when they map
        the same keys to the same values, whatever the order of the entries and
        whatever was overwritten.  None: not decided."""
        es, base = [], []
        for m in (a, b):
            ents = []
            while is_tag(m, 'mput'):
                for k, _ in ents:
                    c = self.samekey(pc, k, m[2])
                    if c is None:
                        return None
                    if not isinstance(c, bool):
                        return self.branch(pc, a, b, c, depth)
                    if c:
                        break
                else:
                    ents.append((m[2], m[3]))
                m = m[1]
            es.append(ents)
            base.append(('mempty',) if m == ('msorted',) else m)
        if base[0] != base[1]:
            return None
        res, left = [], list(es[1])
        for k, v in es[0]:
            for i, (k2, v2) in enumerate(left):
                c = self.samekey(pc, k, k2)
                if c is None:
                    return None
                if not isinstance(c, bool):
                    return self.branch(pc, a, b, c, depth)
                if c:
                    res.append(self.value(pc, v, v2))
                    del left[i]
                    break
            else:
                res.append(False if base[0] == ('mempty',) else None)
        if left:
            res.append(False if base[0] == ('mempty',) else None)
        return conj(res)

    def branch(self, pc, a, b, c, depth):
        if depth > 5:
            return None
        rs = [self.chains(q, a, b, depth + 1) for q in (pc | {c}, pc | {neg(c)}) if feasible(q)]
        return conj(rs) if rs else None

    def tuples(self, pc, a, b):
        if len(a) != len(b):
            return None if nonprim(a) or nonprim(b) else False
        rs = [self.value(pc, x, y) if not isinstance(x, str) or not isinstance(y, str) else x == y
              for x, y in zip(a, b)]
        r = conj(rs)
        if r is False and None in rs:
            # an unclear sibling could hide a reformulation only for nonprimitive forms
            if any(nonprim(x) or nonprim(y) for x, y in zip(a, b)):
                return None
        return r

    def ite(self, pc, a, b):
        """if-then-else values: split on the condition literals."""
        for x, other, first in ((a, b, True), (b, a, False)):
            if is_tag(x, 'ite'):
                g = x[1]
                rs = []
                gs = litset(g)
                if feasible(pc | gs):
                    rs.append(self.value(pc | gs, x[2] if first else other, other if first else x[2]))
                acc = frozenset()
                for l in g:
                    if isinstance(l, bool):
                        continue
                    q = pc | acc | {neg(l)}
                    if feasible(q):
                        rs.append(self.value(q, x[3] if first else other, other if first else x[3]))
                    acc = acc | {l}
                return conj(rs)
        return None

    def quant(self, pc, a, b):
        _, n, hi, ca = a
        _, n2, hi2, cb = b
        if (hi is None) != (hi2 is None):
            return None
        if hi is not None:
            h = self.zero(pc, N(hi) - N(hi2))
            if h is not True:
                return None if h is None else (False if a[0] == 'exists' and not nonprim(a) and not nonprim(b) else None)
        m = T.TMPBV + 150 + self.depth
        bv = N(('bv', m))
        rng = frozenset(l for l in ((mklit('<=', bv.neg()),) + ((lt(bv, hi),) if hi is not None else ())) if l is not True)
        A = [frozenset(subst(l, {('bv', n): bv}) for l in g) for g in ca]
        B = [frozenset(subst(l, {('bv', n2): bv}) for l in g) for g in cb]
        bad = any(nonprim(l) for g in A + B for l in g if not isinstance(l, bool))
        for X, Y in ((A, B), (B, A)):
            for g in X:
                rest = [pc | rng | litset(g)]
                for h in Y:
                    nr = []
                    for r in rest:
                        acc = r
                        for l in h:
                            if isinstance(l, bool):
                                continue
                            q = acc | {neg(l)}
                            if feasible(q):
                                nr.append(q)
                            acc = acc | {l}
                    rest = nr
                    if len(rest) > 64:
                        return None
                if any(feasible(r) for r in rest):
                    return None if bad else False
        return True

    # ------------------------------------------------------------ recurrences
    def liter(self, pc, a, b):
        via = self.viarec
        r = self.loop(pc, a[1], b[1], (a[2], b[2]))
        if not r:
            return None
        v, perm = r
        if v is True:
            if perm[a[2]] != b[2]:
                return None
            x = self.value(pc, a[3], b[3])
            return x
        if v is False and (a[3] == b[3] or nonprim(a[3])):
            self.viarec = via or not (a[3] == b[3] and self.first_step(pc, a, b))
            return False
        return None

    def first_step(self, pc, a, b):
        """Two recurrences with different steps run equally often: does the
        first iteration leave different values, and does that difference last
        (elements are only ever appended, or there is one iteration only)?"""
        if self.inloop:
            return False
        def start(l):
            _, n, init, kinds, cs, ex = l
            m = {('bv', n): N(0)}
            for t in subterms((cs, ex)):
                if t[0] == 'lv' and len(t) == 4 and t[1] == n:
                    m[t] = init[t[2]]
            return [(tuple(subst(x, m) for x in g), tuple(subst(x, m) for x in row)) for g, row in cs]
        if a[1][5] or b[1][5]:
            return False
        count = N(a[3])
        # the count may be spoken of with the state of no iteration in it
        lasting = all(appends(x[1], x[2]) for x in (a, b))
        at = mklit('<=', N(1) - count) if lasting else mklit('=', count - N(1))
        key = (pc, a, b)
        if key in FIRST:
            return FIRST[key]
        FIRST[key] = False
        for g, x in start(a[1]):
            for h, y in start(b[1]):
                c = frozenset(pc) | litset(g) | litset(h) | {at}
                c = frozenset(l for l in c if l is not True)
                if False in c or not feasible(c):
                    continue
                k = Cmp(self.budget)
                if k.value(c, x[a[2]], y[b[2]]) is False and not k.viarec and admitted(c):
                    FIRST[key] = True
                    return True
        return False

    def loop(self, pc, a, b, want=None):
        """(verdict, permutation) of two recurrence terms.  What holds without
        the path condition holds with it and is established once."""
        if len(pc) > 2 or not pc:
            k = (a, b, want)
            if k not in self.lemmas:
                self.lemmas[k] = self.loop1(frozenset(), a, b, want)
            r = self.lemmas[k]
            if not pc or r and r[0] is True:
                return r
        return self.loop1(pc, a, b, want)

    def loop1(self, pc, a, b, want=None):
        _, n, ia, ka, csa, exa = a
        _, n2, ib, kb, csb, exb = b
        if sorted(ka) != sorted(kb):
            return None
        if len(ka) > 5:
            return None
        best = None
        for perm in itertools.permutations(range(len(kb))):
            if any(ka[i] != kb[j] for i, j in enumerate(perm)):
                continue
            if want is not None and perm[want[0]] != want[1]:
                continue
            m = T.TMPBV + 200 + 10 * self.depth
            ra = {('bv', n): N(('bv', m))}
            rb = {('bv', n2): N(('bv', m))}
            la, lb = {}, {}
            for t in subterms((csa, exa)):
                if t[0] == 'lv' and len(t) == 4 and t[1] == n:
                    la[t] = ('lv', m) + t[2:]
            inv = {j: i for i, j in enumerate(perm)}
            for t in subterms((csb, exb)):
                if t[0] == 'lv' and len(t) == 4 and t[1] == n2:
                    lb[t] = ('lv', m, inv[t[2]]) + t[3:]
            ra.update(la)
            rb.update(lb)
            A = [(tuple(subst(l, ra) for l in g), tuple(subst(v, ra) for v in row)) for g, row in csa]
            B = [(tuple(subst(l, rb) for l in g), tuple(subst(row[perm[i]], rb) for i in range(len(perm)))) for g, row in csb]
            inits = conj([self.value(pc, ia[i], ib[perm[i]]) for i in range(len(perm))])
            self.depth += 1
            self.inloop += 1
            base = self.invar(pc)
            ex = self.dnf(base, [tuple(subst(l, ra) for l in g) for g in exa],
                          [tuple(subst(l, rb) for l in g) for g in exb])
            tr = self.trans(base, A, B)
            self.depth -= 1
            self.inloop -= 1
            v = conj([inits, ex, tr])
            res = [inits, ex, tr]
            if v is True:
                return True, perm
            if v is False:
                # exactly one component differs, everything else agrees
                if not (res.count(False) == 1 and None not in res):
                    v = None
            if best is None or (v is False and best[0] is None):
                best = (v, perm)
            if v is None and best[0] is False and len(ka) > 1:
                pass
        return best

    def invar(self, pc):
        return frozenset(l for l in pc)

    def dnf(self, pc, A, B):
        if not A and not B:
            return True
        bad = any(nonprim(l) for g in A + B for l in g if not isinstance(l, bool))
        for X, Y in ((A, B), (B, A)):
            for g in X:
                if any(l is False for l in g):
                    continue
                lg = litset(g)
                if any(litset(h) <= lg for h in Y if not any(l is False for l in h)):
                    continue
                rest = [pc | lg]
                for h in Y:
                    if any(l is False for l in h):
                        continue
                    lh = litset(h)
                    nr = []
                    for r in rest:
                        if any(neg(l) in r for l in lh) or not feasible(r | lh):
                            nr.append(r)
                            continue
                        acc = r
                        for l in h:
                            if isinstance(l, bool):
                                continue
                            q = acc | {neg(l)}
                            if feasible(q):
                                nr.append(q)
                            acc = acc | {l}
                    rest = nr
                    if len(rest) > 64:
                        return None
                if any(feasible(r) for r in rest):
                    return None if bad else False
        return True

    def trans(self, pc, A, B):
        rs = []
        for g, x in A:
            for h, y in B:
                c = litset(g) | litset(h)
                if False in c or not feasible(pc | c):
                    continue
                r = conj([self.value(pc | c, u, v) for u, v in zip(x, y)])
                if r is False and not same_guards(g, h):
                    r = None
                rs.append(r)
        return conj(rs)


def appends(loop, i):
    """Every iteration leaves what component i held, with more behind it."""
    n = loop[1]
    for g, row in loop[4]:
        v = row[i]
        ok = lambda t: isinstance(t, tuple) and t[0] == 'lv' and t[1] == n and t[2] == i
        if ok(v):
            continue
        if not (isinstance(v, Seq) and v.parts and v.parts[0][0] == 'all' and ok(v.parts[0][1])):
            return False
    return True


def same_guards(g, h):
    """Are the guards without normal form the same on both sides?"""
    x, y = npset(g), npset(h)
    if x == y:
        return True
    # truncation on one side only: independent of everything the other side says
    if (not x or not y) and all(l.op not in ('b', 'nb') and
                                all(a[0] in ('trunc', 'idiv', 'imod') and not any(nonprim(z) for z in a[1:])
                                    for a in l.x.atoms() if nonprim(a)) for l in x | y):
        return True
    return False


def nonlinear(l):
    return not isinstance(l, bool) and isinstance(l.x, Num) and (l.x.d is not None or any(sum(e for _, e in mo) > 1 for mo in l.x.n))


_CONS = {}


def forget():
    for d in (_NP, _CONS, LEMMAS, FIRST):
        d.clear()


def explicit(v):
    from .terms import Seq
    return isinstance(v, Seq) and 0 < len(v.parts) <= 6 and all(p[0] == 'one' for p in v.parts)


def consistent(pc, more=()):
    """Linear literals were found feasible; those that are not, with all the
    literals that share an unknown with them, must have a valuation."""
    pc = [l for l in pc if not isinstance(l, bool)]
    new = [l for l in pc if nonlinear(l)]
    if not new:
        return True
    new += [l for l in more if not isinstance(l, bool)]
    left = [l for l in pc if l not in new]
    take, seen = [], set()
    while new:
        take += new
        for l in new:
            seen |= set(l.x.atoms()) if isinstance(l.x, Num) else {l.x}
        new = [l for l in left if seen & (set(l.x.atoms()) if isinstance(l.x, Num) else {l.x})]
        left = [l for l in left if l not in new]
    k = frozenset(take)
    if k not in _CONS:
        if len(_CONS) > 5000:
            _CONS.clear()
        _CONS[k] = admitted(k)
    return _CONS[k]


def npset(g):
    return frozenset(l for l in g if not isinstance(l, bool) and nonprim(l))


def inner_free_lits(t):
    """Guard literals inside binders that mention no bound variable."""
    out = []

    def pred(x):
        if x[0] in ('sum', 'map', 'exists', 'first') and len(x) > 3:
            gs = []
            if x[0] == 'sum':
                gs = [x[3]]
            elif x[0] == 'map':
                gs = [g for g, _ in x[3]]
            else:
                gs = x[3]
            for g in gs:
                for l in g:
                    if isinstance(l, Lit) and not bvinfo(l)[1] and not nonprim(l) and l not in out and neg(l) not in out:
                        out.append(l)
        return False
    contains_term(t, pred)
    return out


def bv_nums(t, n):
    """Maximal numeric index terms inside t that mention bound variable n."""
    out = []

    def pred(x):
        if x[0] == 'at' and len(x) == 3 and isinstance(x[2], Num) and has_bv(x[2], n):
            out.append(x[2])
        elif x[0] == 'sum' and isinstance(x[2], Num) and has_bv(x[2], n):
            out.append(x[2])
        return False
    contains_term(t, pred)
    return out


def min_offset(t, n):
    """Smallest constant c of the indices k+c in t (0 when not of that form)."""
    b = ((('bv', n), 1),)
    cs = []
    for x in bv_nums(t, n):
        if x.d is not None or x.n.get(b) != 1 or not set(x.n) <= {b, ()}:
            return 0
        c = x.n.get((), 0)
        if c.denominator != 1 if hasattr(c, 'denominator') else False:
            return 0
        cs.append(int(c))
    if not cs:
        return 0
    c = min(cs)
    return c if abs(c) <= 4 else 0


def bare_bv(t, n):
    """Is the index used as a number (not only to select elements)?"""
    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == 'at' and len(x) == 3:
                return go(x[1])
            if x == ('bv', n):
                return True
            return any(go(y) for y in x)
        if isinstance(x, Num):
            return any(go(a) for a in x.atoms())
        if isinstance(x, Rec):
            return go(x.base) or any(go(v) for _, v in x.over)
        if isinstance(x, Seq):
            return any(go(p) for p in x.parts)
        if isinstance(x, Lit):
            return go(x.x)
        return False
    return go(t)


def telescopes(bodies, n):
    """Does a body mention one list at two different offsets of the index?"""
    offs = {}

    def pred(x):
        if x[0] == 'at' and len(x) == 3 and isinstance(x[2], Num) and has_bv(x[2], n):
            offs.setdefault(x[1], set()).add(x[2])
        return False
    for b in bodies:
        contains_term(b, pred)
    return any(len(v) > 1 for v in offs.values())


# ---------------------------------------------------------------- summaries
class Result:
    def __init__(self):
        self.verdict = True
        self.pairs = 0
        self.obs = 0
        self.direct = 0         # differences that do not rest on comparing the steps of two recurrences
        self.diffs = []
        self.unknown = []


def roots_of(st):
    # the final value of a static local is no result: where a later call depends
    # on it, this call depends on what an earlier one left and differs from a reference that has none
    return [r for r in st.mem if r[0] in ('A', 'D', 'LOG') or r[0] == 'G' and '#' not in str(r[1])]


def compare_summaries(eng, A, B, ignore=(), observe=None, budget=60000, first=False):
    """A: summary of the code, B: of the reference [(state, outcome)]."""
    res = Result()
    LEMMAS.clear()
    FIRST.clear()
    B = same_loops(A, B, budget)
    negb = [frozenset(neg(l) for l in sb.pc if isinstance(l, Lit)) for sb, _ in B]
    for sa, oa in A:
        for (sb, ob), nb in zip(B, negb):
            if sa.pc & nb:
                continue
            pc = sa.pc | sb.pc
            if not feasible(pc):
                continue
            c = Cmp(budget)
            res.pairs += 1
            safe = same_guards(sa.pc, sb.pc) and consistent(pc)
            it = iter(observables(eng, c, pc, sa, oa, sb, ob, ignore, observe))
            while True:
                try:
                    what, r = next(it)
                except StopIteration:
                    break
                res.obs += 1
                if r is False and not safe:
                    safe = admitted(pc)
                if r is False and safe and eng.unroll is not None and not same_after_sizes(eng, pc, sa, oa, sb, ob, ignore, observe, what, budget):
                    r = None
                if r is False and safe:
                    res.verdict = False
                    if not c.viarec:
                        res.direct += 1
                    res.diffs.append((what, list(c.why), sorted(map(str, pc))[:8]))
                    if first:
                        return res
                elif r is not True:
                    if res.verdict is True:
                        res.verdict = None
                    res.unknown.append((what, r, sorted(map(str, pc))[:8]))
                c.why = []
    return res


def same_loops(A, B, budget):
    """B with its loop results written as those of A wherever the two
    recurrences are the same without further assumptions: paths that agree on
    them then agree literally."""
    def parts(xs):
        out = {}
        for s, o in xs:
            for x in list(s.pc) + list(s.mem.values()) + list(o[1:]):
                for t in T.subterms(x):
                    if t[0] in ('liter', 'lcnt', 'lex', 'first', 'exists') and not T.bvinfo(t)[1]:
                        out[t] = 1
        return out
    pa, pb = parts(A), parts(B)
    if len(pa) < 2 or len(pb) < 2:
        return B
    m = {}
    mine = sorted((t for t in pb if t not in pa), key=lambda t: len(T.subterms(t)))
    for b in mine[:60]:
        b2 = T.subst(b, m) if m else b
        if isinstance(b2, Num):
            b2 = b2.as_atom()
        if b2 in pa:
            m[b] = b2
            continue
        if not isinstance(b2, tuple) or not b2:
            continue
        for a in pa:
            if a[0] != b2[0] or a[2:3] != b2[2:3] and a[0] == 'lex' or kind_of(a) != kind_of(b2):
                continue
            try:
                same = Cmp(budget).term(frozenset(), a, b2)
            except Differs:
                same = False
            if same is True:
                m[b] = a
                break
    if not m:
        return B
    from .engine import State
    f = lambda v: T.subst(v, m) if isinstance(v, (Num, Rec, Seq, tuple, Lit)) else v
    out = []
    for s, o in B:
        pc = frozenset(x for x in (f(l) for l in s.pc) if x is not True)
        if False in pc:
            continue
        out.append((State({k: f(v) for k, v in s.mem.items()}, pc),
                    tuple(f(x) if not isinstance(x, str) else x for x in o)))
    return out


def known_sizes(pc, limit=4):
    """{sequence term: its elements written out} for the sequences whose length pc fixes."""
    at = {a for l in pc if isinstance(l, Lit) and isinstance(l.x, Num) for a in l.x.atoms()
          if isinstance(a, tuple) and a[0] == 'size' and isinstance(a[1], tuple) and a[1] and a[1][0] in ('arg', 'app', 'fld', 'at')}
    m = {}
    for a in at:
        for k in range(limit + 1):
            if entails(pc, mklit('<=', N(a) - N(k))):
                if entails(pc, mklit('<=', N(k) - N(a))):
                    m[a[1]] = Seq(tuple(('one', seq_get(Seq((('all', a[1]),)), N(i))) for i in range(k)))
                break
    return m


def same_after_sizes(eng, pc, sa, oa, sb, ob, ignore, observe, what, budget):
    """Does the difference remain when sequences of known length are written
    out everywhere (also as arguments of abstract functions)?"""
    done = set()
    for _ in range(4):
        m = {k: v for k, v in known_sizes(pc).items() if k not in done}
        if not m:
            break
        small = {k: v for k, v in m.items() if not any(j != k and T.contains_term(k, lambda t: t == j) for j in m)}
        done |= set(small)
        f = lambda v: T.subst(v, small) if isinstance(v, (Num, Rec, Seq, tuple, Lit)) else v
        from .engine import State
        pc = frozenset(x for x in (f(l) for l in pc) if x is not True)
        if not feasible(pc):
            return False
        sa, sb = (State({k: f(v) for k, v in x.mem.items()}, x.pc) for x in (sa, sb))
        oa, ob = (tuple(f(x) if not isinstance(x, str) else x for x in o) for o in (oa, ob))
    if not done:
        return True
    c = Cmp(budget)
    return any(w == what and r is False for w, r in observables(eng, c, pc, sa, oa, sb, ob, ignore, observe))


def observables(eng, c, pc, sa, oa, sb, ob, ignore, observe):
    if oa[0] != ob[0]:
        c.note('outcome', tuple(oa), tuple(ob))
        yield ('outcome', False)
        return
    pc, fix = split_free(c, pc)
    if oa[0] == 'ret':
        yield ('result', outval(eng, c, pc, sa, oa[1], sb, ob[1]))
    elif oa[0] == 'throw':
        yield ('exception', True if oa[1] == ob[1] else False)
        if oa[1] is None and is_tag(oa[2], 'given') and is_tag(ob[2], 'given'):
            for i, (x, y) in enumerate(zip(oa[2][1:], ob[2][1:])):
                x, y = plain_maps(x, y)
                yield ('input %d of the matcher' % i, outval(eng, c, pc, sa, x, sb, y))
    elif oa[0] == 'exit':
        yield ('exit status', c.value(pc, oa[1], ob[1]))
    given = oa[0] == 'throw' and oa[1] is None and is_tag(oa[2], 'given')
    if oa[0] == 'throw' and observe is None and not (given and getattr(eng, 'view', None)):
        return
    for r in sorted(set(roots_of(sa)) | set(roots_of(sb)), key=T.key):
        if r in ignore or (callable(observe) and not observe(r)) or given and r != ('G', 'std::cerr'):
            continue
        va, vb = eng.rootval(sa, r), eng.rootval(sb, r)
        if getattr(eng, 'view', None):
            va, vb = eng.view(r, va), eng.view(r, vb)
        if va == vb:
            yield (rootname(r), True)
            continue
        va, vb = plain_maps(va, vb)
        va, vb = c.start(pc, va), c.start(pc, vb)
        yield (rootname(r), c.value(pc, va, vb))


def plain_maps(a, b):
    """Whether a map is kept sorted does not change what it holds."""
    if not T.contains_term((a, b), lambda t: t == ('msorted',)):
        return a, b
    return tuple(T.subst(v, {('msorted',): ('mempty',)}) if isinstance(v, (tuple, Rec, Seq)) else v for v in (a, b))


def split_free(c, pc):
    return pc, None


def rootname(r):
    if r[0] == 'A':
        return 'object' if r[1] == 'this' else 'argument ' + str(r[1])
    if r[0] == 'G':
        return str(r[1])
    if r[0] == 'D':
        return 'target of ' + show(r[1])[:60]
    return 'effects'


def outval(eng, c, pc, sa, va, sb, vb):
    if is_tag(va, 'ref') and is_tag(vb, 'ref'):
        la, lb = va[1], vb[1]
        if la[1][0] in ('A', 'D', 'G') and lb[1][0] in ('A', 'D', 'G'):
            if la[1] == lb[1] and len(la[2]) == len(lb[2]):
                return conj([c.value(pc, x, y) if not isinstance(x, str) else x == y for x, y in zip(la[2], lb[2])])
        return c.value(pc, eng.read(sa, la), eng.read(sb, lb))
    return c.value(pc, c.start(pc, va), c.start(pc, vb))
