"""Models of the C++ library operations the repository (and plausible edits of it) use."""
from .terms import *
from . import terms as T

CONT_NS = ('std::vector::', 'std::list::', 'std::deque::', 'std::array::', 'std::initializer_list::')
MAP_NS = ('std::map::', 'std::unordered_map::', 'std::set::', 'std::unordered_set::', 'std::multimap::', 'std::multiset::')
STR_NS = 'std::basic_string::'
END = ('end',)


def E():
    from . import engine
    return engine


def rd(eng, st, v):
    from .engine import isloc
    return eng.read(st, v) if isloc(v) else v


def num(v):
    from .engine import tm
    return v if isinstance(v, Num) else N(tm(v))


def strof(eng, st, v):
    """String value (Num of kind s) of a value or location."""
    from .engine import isloc, is_tag, tm
    if is_tag(v, 'ptr'):
        l = v[1]
        if l[1][0] == 'D' and l[2] == ():
            if lit_of(num(l[1][1])) is not None:
                return num(l[1][1])
            a = ('deref', l[1][1])
            KIND[a] = 's'
            return N(a)
        x = eng.read(st, l)
        if isinstance(x, Num):
            return x
        a = ('cstr', tm(x))
        KIND[a] = 's'
        return N(a)
    if isloc(v):
        v = eng.read(st, v)
        if is_tag(v, 'ptr'):
            return strof(eng, st, v)
    if isinstance(v, Num):
        if v.is_const():
            return N(('str', chr(int(v.cval()) & 255)))
        return v
    a = tm(v)
    if isinstance(a, tuple):
        KIND.setdefault(a, 's')
    return N(a)


def lit_of(v):
    a = v.as_atom() if isinstance(v, Num) else None
    if isinstance(a, tuple) and a[0] == 'str':
        return a[1]
    return None


def mkcat(parts):
    """Concatenation of output items / strings."""
    out = []
    for p in parts:
        a = p.as_atom() if isinstance(p, Num) else None
        if isinstance(a, tuple) and a[0] == 'cat':
            out.extend(a[1])
        else:
            out.append(p)
    merged = []
    for p in out:
        s = lit_of(p)
        if s == '':
            continue
        if s is not None and merged and lit_of(merged[-1]) is not None:
            merged[-1] = N(('str', lit_of(merged[-1]) + s))
        else:
            merged.append(p)
    if not merged:
        return N(('str', ''))
    if len(merged) == 1:
        return merged[0]
    a = ('cat', tuple(merged))
    KIND[a] = 's'
    return N(a)


def push_out(seq, items):
    ps = list(seq.parts)
    for it in items:
        a = it.as_atom() if isinstance(it, Num) else None
        if isinstance(a, tuple) and a[0] == 'cat':
            sub = list(a[1])
        else:
            sub = [it]
        for x in sub:
            s = lit_of(x)
            if s == '':
                continue
            if s is not None and ps and ps[-1][0] == 'one' and lit_of(ps[-1][1]) is not None:
                ps[-1] = ('one', N(('str', lit_of(ps[-1][1]) + s)))
            else:
                ps.append(('one', x))
    return Seq(ps)


# ------------------------------------------------------------------ iterators
def it_cmp(eng, op, a, b, st=None):
    from .engine import is_tag, tm
    if is_tag(b, 'mit') and not is_tag(a, 'mit'):
        a, b = b, a
    if is_tag(a, 'mit'):
        if is_tag(b, 'mend'):
            r = (a[3] is False)
        elif is_tag(b, 'mit') and (a[3] is False or b[3] is False):
            r = (a[3] is False and b[3] is False)
        elif is_tag(b, 'mit'):
            r = eng.keycmp(a[2], b[2])
        else:
            r = Lit('b', ('eqit', tm(a), tm(b)))
        return r if op == '==' else neg(r)
    if is_tag(b, 'mend') and is_tag(a, 'it'):
        n = eng.sizeterm(st, eng.read(st, b[1])) if st is not None else None
        b = ('it', b[1], n)
    elif is_tag(a, 'mend') and is_tag(b, 'it'):
        return it_cmp(eng, op, b, a, st)
    if is_tag(a, 'mend') and is_tag(b, 'mend'):
        return op == '=='
    if is_tag(a, 'it') and is_tag(b, 'it') or is_tag(a, 'rit') and is_tag(b, 'rit'):
        if op == '==' or op == '!=':
            return eng.compare(op, a[2], b[2])
        return eng.compare(op, a[2], b[2])
    r = Lit('b', ('eqit', tm(a), tm(b)))
    return r if op == '==' else neg(r)


def full_range(eng, st, b, e):
    """The sequence value denoted by iterators [b,e), or None."""
    from .engine import is_tag
    b, e = rd(eng, st, b), rd(eng, st, e)
    if is_tag(b, 'it') and b[2].iszero():
        v = eng.read(st, b[1])
        if is_tag(e, 'mend') and e[1][:3] == b[1][:3]:
            return v
        if is_tag(e, 'it') and e[1][:3] == b[1][:3]:
            n = seq_len(v) if isinstance(v, Seq) else N(('size', E().tm(v)))
            if e[2] == n:
                return v
    return None


def subrange(eng, st, b, e):
    from .engine import is_tag, tm
    v = full_range(eng, st, b, e)
    if v is not None:
        return v
    b, e = rd(eng, st, b), rd(eng, st, e)
    if is_tag(b, 'it') and is_tag(e, 'it'):
        v = eng.read(st, b[1])
        return Seq((('all', ('range', tm(v), b[2], e[2])),))
    return Seq((('all', ('range', tm(b), tm(e))),))


def loop_range(eng, st, fr, b, e, body, line=0):
    """Run body(state, element location) for every element of [b,e)."""
    from .engine import is_tag, mkloc, Out
    b, e = rd(eng, st, b), rd(eng, st, e)
    if not is_tag(b, 'it'):
        raise E().Undecided('algorithm over unknown iterators')
    l = b[1]
    v = eng.read(st, l)
    et = eng.elem(l[3])
    full = full_range(eng, st, b, e)
    if is_tag(full, 'mput'):
        from .engine import sorted_chain
        ch = [(full[2], full[3])] if full[1] == ('mempty',) else sorted_chain(full)
        if ch is not None:
            full = Seq(tuple(('one', eng.step_get(full, ('i', N(i)))) for i in range(len(ch))))
    if full is not None and isinstance(full, Seq):
        def bindval(s, val):
            s, loc = eng.temp(s, val, et, fr)
            return (s, loc)
        # drive through the part machinery using a dedicated temp cell
        eng.nheap += 1
        cell = ('T', fr.id, 'cell%d' % eng.nheap)
        eng.rty[cell] = et

        def bind(s, val):
            return s.set(cell, val)

        def bd(s):
            return body(s, mkloc(cell, (), et))
        return eng.parts_loop(full.parts, st, fr, {'k': 'for', 'l': line}, bind, bd, et)
    if is_tag(e, 'mend'):
        hi = N(('size', E().tm(eng.read(st, e[1]))))
    else:
        hi = e[2]
    n = hi - b[2]

    def it(s1, ix):
        res = []
        for s2, c in eng.branch(s1, lt(ix, n)):
            if not c:
                res.append((s2, ('exit0',)))
                continue
            for s3, o in body(s2, mkloc(l[1], l[2] + (('i', b[2] + ix),), et)):
                if o is None or o == Out.CONT:
                    res.append((s3, ('next',)))
                elif o == Out.BRK:
                    res.append((s3, ('exit1',)))
                else:
                    res.append((s3, o))
        return res
    return eng.loop(st, fr, it, {'k': 'for', 'l': line})


# ------------------------------------------------------------------ comparisons
def find_op(eng, rid, op):
    for b in eng.p.allbases(rid):
        r = eng.p.records.get(str(b))
        if not r:
            continue
        for m in r['methods']:
            if m['name'] == op:
                f = eng.p.funcs.get(m['id'])
                if f is not None and f.get('hasbody'):
                    return f
    return None


def val_less(eng, st, a, b, ty, fr, op='<'):
    """Branches [(state, bool/Lit)] of a < b for values of type ty."""
    if eng.p.kind(ty):
        return [(st, eng.simp_bool(st, eng.compare(op, a, b)))]
    q = eng.p.qn(ty)
    if q == 'std::pair':
        t = eng.p.targs(ty)
        out = []
        ga = lambda v, k: v.get(k) if isinstance(v, Rec) else ('fld', v, k)
        x1, y1 = eng.mat(ga(a, 'first'), t[0]), eng.mat(ga(b, 'first'), t[0])
        x2, y2 = eng.mat(ga(a, 'second'), t[1]), eng.mat(ga(b, 'second'), t[1])
        for s, c in val_less(eng, st, x1, y1, t[0], fr, op):
            for s2, r in eng.branch(s, c):
                if r:
                    out.append((s2, True))
                    continue
                for s3, c2 in val_less(eng, s2, y1, x1, t[0], fr, op):
                    for s4, r2 in eng.branch(s3, c2):
                        if r2:
                            out.append((s4, False))
                        else:
                            out.extend(val_less(eng, s4, x2, y2, t[1], fr, op))
        return out
    rid = eng.p.recid(ty)
    if rid is not None:
        f = find_op(eng, rid, 'operator' + op)
        if f is not None:
            s, la = eng.temp(st, a, ty, fr)
            s, lb = eng.temp(s, b, ty, fr)
            return eng.inline(f, la, [lb], s, fr)
    return [(st, Lit('b', ('lessv', q, E().tm(a), E().tm(b)) if op == '<' else ('lessv', q, E().tm(b), E().tm(a))))]


def cmp_summary(eng, st, f, ty, fr):
    """Canonical description of a comparison function: when it is true of (A,B)."""
    from .engine import is_tag, isloc, State, Undecided
    if isloc(f):
        f = eng.read(st, f)
    a, b = ('cmpA',), ('cmpB',)
    A = eng.mat(a, ty)
    B = eng.mat(b, ty)
    # what the path settled about the surroundings (a flag the function captured)
    # holds in the comparison and is not part of it
    base = State(st.mem, st.pc)
    eng.quiet += 1
    saved = eng.exc
    eng.exc = []
    try:
        if f is None or is_tag(f, 'stdfn'):
            op = '<' if f is None or f[1] == 'std::less' else '>'
            res = val_less(eng, base, A, B, ty, fr, op)
        else:
            s, la = eng.temp(base, A, ty, fr)
            s, lb = eng.temp(s, B, ty, fr)
            res = eng.apply(f, [la, lb], s, fr, None)
        out = []
        for s, v in res:
            for s2, r in eng.branch(s, v):
                if r:
                    out.append(s2.pc - st.pc)
    finally:
        eng.quiet -= 1
        eng.exc = saved
    from .loops import group, simplify_disjoint
    g = [x for x, _ in group([(p, True) for p in out])]
    return tuple(sorted((tuple(sorted(p, key=T.key)) for p in g), key=T.key))


def sized(eng, st, loc, limit):
    """With loops cut: the list at loc with its elements written out, for each
    length up to the limit: [(state, list)]."""
    v = eng.read(st, loc)
    if not isinstance(v, Seq):
        v = Seq((('all', v),)) if isinstance(v, tuple) else None
    if v is None:
        return None
    v = expand(v)
    parts = [p for p in v.parts if p[0] != 'one']
    if not parts:
        return [(st, v)]
    if len(parts) > 1 or parts[0][0] != 'all' or not isinstance(parts[0][1], tuple):
        return None
    whole, i = parts[0], v.parts.index(parts[0])
    n, out, rest = N(('size', whole[1])), [], st
    for k in range(limit + 1 - (len(v.parts) - 1)):
        if rest is None:
            break
        br = eng.branch(rest, eq(n, N(k)))
        rest = None
        for s, q in br:
            if not q:
                rest = s
                continue
            w = Seq(v.parts[:i] + tuple(('one', seq_get(Seq((whole,)), N(j))) for j in range(k)) + v.parts[i + 1:])
            out.append((eng.write(s, loc, w), w))
    if rest is not None:
        eng.cut += 1
    return out


def place_of(eng, st, x):
    """The constant an iterator position is known to be."""
    x = num(x)
    if x.is_const():
        return int(x.cval())
    for k in range(5):
        if entails(st.pc, mklit('<=', x - N(k))):
            return k if entails(st.pc, mklit('<=', N(k) - x)) else None
    return None


def small_sort(eng, st, b, e, f, fr):
    """With loops cut: sort up to three explicit elements by comparing them."""
    ss = sized(eng, st, b[1], min(eng.unroll, 3))
    if ss is None:
        return None
    out = []
    for s, v in ss:
        r = small_sort1(eng, s, v, b, e, f, fr)
        if r is None:
            return None
        out.extend(r)
    return out


def small_sorted(eng, st, b, e, f, fr):
    """With loops cut: std::is_sorted over up to three explicit elements."""
    ss = sized(eng, st, b[1], min(eng.unroll, 3))
    if ss is None:
        return None
    out = []
    for s, v in ss:
        i, j = place_of(eng, s, b[2]), place_of(eng, s, e[2])
        if i is None or j is None or not 0 <= i <= j <= len(v.parts):
            return None
        less = lesser(eng, b, f, fr, s)
        ty = eng.elem(b[1][3])
        cur = [s]
        for k in range(i + 1, j):
            nxt = []
            for s1 in cur:
                for s2, q in less(s1, eng.mat(v.parts[k][1], ty), eng.mat(v.parts[k - 1][1], ty)):
                    if q:
                        out.append((s2, False))
                    else:
                        nxt.append(s2)
            cur = nxt
        out.extend((s1, True) for s1 in cur)
    return out


def lesser(eng, b, f, fr, st):
    from .engine import is_tag, isloc
    ty = eng.elem(b[1][3])
    fv = eng.read(st, f) if f is not None and isloc(f) else f

    def less(s, x, y):
        if fv is None or is_tag(fv, 'stdfn'):
            r = val_less(eng, s, x, y, ty, fr, '<' if fv is None or fv[1] == 'std::less' else '>')
        else:
            s, la = eng.temp(s, x, ty, fr)
            s, lb = eng.temp(s, y, ty, fr)
            r = eng.apply(fv, [la, lb], s, fr, None)
        return [(s3, q) for s2, t in r for s3, q in eng.branch(s2, t)]
    return less


def small_sort1(eng, st, v, b, e, f, fr):
    i, j = place_of(eng, st, b[2]), place_of(eng, st, e[2])
    if i is None or j is None:
        return None
    if not 0 <= i <= j <= len(v.parts) or j - i > 3:
        return None
    ty = eng.elem(b[1][3])
    less = lesser(eng, b, f, fr, st)
    work = [(st, [])]
    for p in v.parts[i:j]:
        nxt = []
        for s, done in work:
            pos = [(s, len(done))]
            while pos:
                s1, k = pos.pop()
                if k == 0:
                    nxt.append((s1, [p[1]] + done))
                    continue
                for s2, q in less(s1, eng.mat(p[1], ty), eng.mat(done[k - 1], ty)):
                    if q:
                        pos.append((s2, k - 1))
                    else:
                        nxt.append((s2, done[:k] + [p[1]] + done[k:]))
        work = nxt
    from .engine import VOID
    return [(eng.write(s, b[1], Seq(v.parts[:i] + tuple(('one', x) for x in done) + v.parts[j:])), VOID) for s, done in work]


def built_set(eng, st, w, kt):
    """The set of the elements of w, written out (lists of unknown length: with loops cut only)."""
    if eng.unroll is None and len(w.parts) > 3:
        return None
    from .engine import State
    work = [(st, ('mempty',))]
    for p in expand(w).parts:
        nxt = []
        for s, m in work:
            if p[0] == 'one':
                elems = [(s, [p[1]])]
            elif p[0] == 'all' and eng.unroll is not None:
                elems, n, rest = [], N(('size', p[1])), s
                for k in range(eng.unroll + 1):
                    if rest is None:
                        break
                    br = eng.branch(rest, eq(n, N(k)))
                    rest = None
                    for s2, b in br:
                        if b:
                            elems.append((s2, [seq_get(Seq((p,)), N(i)) for i in range(k)]))
                        else:
                            rest = s2
                if rest is not None:
                    eng.cut += 1
            else:
                return None
            for s2, ks in elems:
                cur = [(s2, m)]
                for k in ks:
                    k = eng.mat(k, kt)
                    if eng.p.kind(kt) is None and not isinstance(k, (Num, Lit, bool)):
                        eng.kty[k] = eng.p.strip(kt)
                    cur = [(s4, x if b else eng.mput(x, k, True)) for s3, x in cur for s5, h in eng.has(s3, x, k)
                           for s4, b in eng.branch(s5, h)]
                nxt.extend(cur)
        work = nxt
    return work


def knowntext(k):
    return isinstance(k, Num) and all(a[0] == 'str' for a in k.atoms()) and len(list(k.atoms())) == 1


def order_map(eng, st, o, fr):
    """Put the entries of an explicit map or set (at most
    three, more where the keys are known texts) in the order of their keys; the states after that, or None."""
    from .engine import is_tag, sorted_chain, chain_map
    if not isinstance(o, tuple) or o[0] != 'loc' or not o[3]:
        return None
    q, ta = eng.p.qn(o[3]), eng.p.targs(o[3])
    if 'unordered' in q or not ta:
        return None
    isset = 'set' in q
    cmp = eng.p.qn(ta[1 if isset else 2]) if len(ta) > (1 if isset else 2) else 'std::less'
    if cmp not in ('std::less', 'std::greater'):
        return None
    v, ops = eng.read(st, o), []
    if sorted_chain(v) is not None:
        return None
    while is_tag(v, 'mput') or is_tag(v, 'mdel'):
        ops.append(v)
        v = v[1]
    known = all(knowntext(o2[2]) for o2 in ops)     # the keys are texts of the program
    if v != ('mempty',) or len(ops) > (12 if known else 6):
        return None
    work = [(st, [])]
    for op in reversed(ops):
        nxt = []
        for s, kv in work:
            cur, hit = [(s, None)], []
            for i, (k, _) in enumerate(kv):
                n2 = []
                for s1, _ in cur:
                    for s2, c in eng.keyeq(s1, k, op[2]):
                        for s3, b in eng.branch(s2, c):
                            (hit if b else n2).append((s3, i if b else None))
                cur = n2
            for s1, i in hit + cur:
                if op[0] == 'mput':
                    nxt.append((s1, kv + [(op[2], op[3])] if i is None else kv[:i] + [(kv[i][0], op[3])] + kv[i + 1:]))
                else:
                    nxt.append((s1, kv if i is None else kv[:i] + kv[i + 1:]))
        work = nxt
    out = []
    kt = ta[0]
    for st1, kv in work:
        if len(kv) > (12 if known else 3):
            return None
        part = [(st1, [])]
        for k, x in kv:
            nxt = []
            for s, done in part:
                pos = [(s, len(done))]
                while pos:
                    s1, n = pos.pop()
                    if n == 0:
                        nxt.append((s1, [(k, x)] + done))
                        continue
                    for s2, t in val_less(eng, s1, eng.mat(k, kt), eng.mat(done[n - 1][0], kt), kt, fr, '<' if cmp == 'std::less' else '>'):
                        for s3, b in eng.branch(s2, t):
                            if b:
                                pos.append((s3, n - 1))
                            else:
                                nxt.append((s3, done[:n] + [(k, x)] + done[n:]))
            part = nxt
        out.extend((eng.write(s, o, chain_map(done)), ) for s, done in part)
    return [x[0] for x in out]


# ------------------------------------------------------------------ construction
def construct(eng, e, fn, q, st, fr):
    from .engine import SEQ_TYPES, MAP_TYPES, BOX_TYPES, NULLP, is_tag, isloc, tm, OSTREAMS
    ty = e['t']
    out = []
    for s, vs in eng.evargs(e['a'], fn['pt'], st, fr):
        out.extend((s2, v) for s2, v in construct_vals(eng, e, fn, q, ty, vs, s, fr))
    return out


def construct_vals(eng, e, fn, q, ty, vs, s, fr):
    from .engine import SEQ_TYPES, MAP_TYPES, BOX_TYPES, NULLP, is_tag, isloc, tm, SETS
    raw = vs
    vals = [rd(eng, s, v) for v in vs]
    # trailing allocator
    pts = fn.get('pt', [])
    while vals and len(vals) > 0 and len(pts) >= len(vals) and eng.p.qn(pts[len(vals) - 1]) == 'std::allocator':
        vals = vals[:-1]
        vs = vs[:-1]
    if q in ('std::basic_string', 'std::string'):
        if not vals:
            return [(s, N(('str', '')))]
        if len(vals) == 2 and isinstance(vals[0], Num) and vals[0].is_const() and isinstance(vals[1], Num) and vals[1].is_const():
            return [(s, N(('str', chr(int(vals[1].cval())) * int(vals[0].cval()))))]
        if len(vals) >= 2:
            t = ('app', 'string') + tuple(tm(x) for x in vals)
            KIND[t] = 's'
            return [(s, N(t))]
        return [(s, strof(eng, s, vals[0]))]
    if q.endswith('basic_istringstream'):
        if vals and isinstance(vals[0], Num):
            return [(s, new_input(('iss', tm(vals[0]))))]
        return [(s, new_input(('iss', ('str', ''))))]
    if q.endswith('basic_ifstream'):
        return [(s, open_input(eng, s, vals))]
    if q.endswith('basic_ofstream'):
        if vals:
            return [(s, Seq((('one', ('open', tm(strof(eng, s, vals[0])), opmode(vals[1:]))),)))]
        return [(s, Seq(()))]
    if q in SEQ_TYPES:
        if not vals:
            return [(s, Seq(()))]
        if len(vals) == 1 and isinstance(vals[0], Seq):
            return [(s, vals[0])]
        if len(vals) == 1 and isinstance(vals[0], Num):
            return [(s, fill(eng, vals[0], eng.default(eng.elem(ty))))]
        if len(vals) == 2 and (is_tag(vals[0], 'it') or is_tag(vals[0], 'rit')):
            v = subrange(eng, s, vals[0], vals[1])
            if not isinstance(v, Seq):
                v = Seq((('all', tm(v)),))
            return [(s, v)]
        if len(vals) == 2 and isinstance(vals[0], Num):
            return [(s, fill(eng, vals[0], vals[1]))]
    if q in MAP_TYPES:
        if not vals:
            return [(s, ('mempty',))]
        if len(vals) >= 2 and is_tag(vals[0], 'it'):
            v = subrange(eng, s, vals[0], vals[1])
            if q in SETS:
                if isinstance(v, Seq):
                    r = built_set(eng, s, v, eng.p.targs(ty)[0])
                    return r or [(s, ('setof', v))]
                return [(s, v)]
        if len(vals) == 1 and isinstance(vals[0], Seq) and q in SETS:
            r = built_set(eng, s, vals[0], eng.p.targs(ty)[0])
            if r:
                return r
            return [(s, ('setof', vals[0]))]
    if q in BOX_TYPES:
        if not vals or vals[0] == NULLP:
            return [(s, NULLP)]
        s = eng.consume(s, vals[0], 'second owner for one object', e, fr)
        return [(s, box(eng, s, vals[0]))]
    if q == 'std::pair':
        if len(vals) == 1:
            return [(s, vals[0])]
        if len(vals) == 2:
            return [(s, Rec('std::pair', None, {'first': vals[0], 'second': vals[1]}))]
        return [(s, eng.default(ty))]
    if q in ('std::greater', 'std::less', 'std::greater_equal', 'std::less_equal', 'std::equal_to', 'std::plus'):
        return [(s, ('stdfn', q))]
    if q == 'std::uniform_int_distribution':
        lo = num(vals[0]) if vals else ZERO
        hi = num(vals[1]) if len(vals) > 1 else N(('inf',))
        return [(s, ('udist', lo, hi))]
    if q in ('std::linear_congruential_engine', 'std::mersenne_twister_engine', 'std::subtract_with_carry_engine'):
        return [(s, ('rng', (q,) + tuple(tm(v) for v in vals), ZERO))]
    if q.endswith('iterator') or q.endswith('_Node_const_iterator') or q.endswith('_Node_iterator'):
        if len(vals) == 1:
            return [(s, vals[0])]
    if q == 'std::function' and vals:
        return [(s, vals[0])]
    if q == 'std::reverse_iterator' and len(vals) == 1:
        return [(s, vals[0])]
    if q == 'std::tuple':
        return [(s, ('tup',) + tuple(vals))]
    if q == 'std::allocator':
        return [(s, ('alloc',))]
    return [(s, eng.mat(('app', 'new ' + q) + tuple(tm(v) for v in vals), ty))]


def opmode(vals):
    if not vals:
        return 0
    v = vals[0]
    if isinstance(v, Num) and v.is_const():
        m = int(v.cval()) & ~4                      # binary makes no difference here
        return m & ~32 if m & 48 == 48 and not m & 9 else m     # out alone truncates
    return E().tm(v)


def fill(eng, n, v):
    n = num(n)
    if n.is_const() and 0 <= n.cval() <= 4:
        return Seq([('one', v)] * int(n.cval()))
    return Seq(norm_part(('map', 1, n, (((), (('one', v),)),))))


def box(eng, st, v):
    from .engine import is_tag, NULLP
    if v == NULLP:
        return NULLP
    if is_tag(v, 'ptr'):
        l = v[1]
        if l[1][0] in ('H', 'T', 'L'):
            return ('box', eng.read(st, l))
        if l[1][0] == 'D' and l[2] == ():
            return ('boxp', l[1][1])
        return ('box', eng.read(st, l))
    return v


# ------------------------------------------------------------------ calls
def call(eng, fn, o, vs, st, fr, e):
    q = fn['qn']
    name = q.split('::')[-1]
    h = None
    cls = q[:-len(name)]
    if cls in CONT_NS:
        h = call_seq
    elif cls in MAP_NS:
        h = call_map
    elif cls == STR_NS:
        h = call_str
    elif cls in ('std::unique_ptr::', 'std::shared_ptr::', 'std::__shared_ptr::'):
        h = call_box
    elif o is not None and ('stream::' in cls or cls == 'std::basic_ios::' or cls == 'std::ios_base::'):
        h = call_stream
    elif o is not None and 'iterator' in cls:
        h = call_iter
    elif o is not None and name == 'operator()' and cls == 'std::uniform_int_distribution::':
        return draw(eng, o, vs, st)
    elif o is not None and name == 'operator()' and cls in ('std::greater::', 'std::less::'):
        v = eng.read(st, o)
        return apply_stdfn(eng, v, vs, st, fr, e)
    elif o is not None and name == 'operator()' and cls == 'std::function::':
        return eng.apply(eng.read(st, o), vs, st, fr, e)
    if h is not None:
        r = h(eng, name, fn, o, vs, st, fr, e)
        if r is not None:
            return r
    return call_named(eng, q, vs, st, fr, e, fn, o)


def draw(eng, o, vs, st):
    from .engine import is_tag, tm, isloc
    d = eng.read(st, o)
    if is_tag(d, 'udist'):
        lo, hi = d[1], d[2]
    else:
        lo, hi = N(('fld', tm(d), 'a')), N(('fld', tm(d), 'b'))
    r = eng.read(st, vs[0]) if isloc(vs[0]) else vs[0]
    if not is_tag(r, 'rng'):
        r = ('rng', tm(r), ZERO)
    a = ('draw', lo, hi, r[1], r[2])
    KIND[a] = 'u'
    v = lo if (hi - lo).iszero() else N(a)
    s = eng.write(st, vs[0], ('rng', r[1], r[2] + ONE)) if isloc(vs[0]) else st
    pc = s.pc
    for l in (le(lo, v), le(v, hi)):
        if isinstance(l, Lit) and not contains_term(l.x, lambda t: t[0] == 'wsub'):
            pc = pc | {l}
    if not feasible(pc):
        pc = s.pc
    eng.obl.append(('draw', le(lo, hi), st.pc, '', fr_name(eng))) if not eng.quiet else None
    return [(E().State(s.mem, pc), v)]


def fr_name(eng):
    return eng.p.funcs[eng.stack[-1]]['qn'] if eng.stack else ''


def at_oblige(eng, st, i, n, e, fr, what='index'):
    eng.oblige(what, lt(i, n), st, e or {'l': 0}, fr)


def sub(loc, step, ty):
    from .engine import mkloc
    return mkloc(loc[1], loc[2] + (step,), ty)


def cut_at(v, pos):
    """The parts of v before and from position pos, when pos lies between parts."""
    off, ps = N(pos), list(expand(v).parts)
    for n in range(len(ps) + 1):
        if off.iszero():
            return tuple(ps[:n]), tuple(ps[n:])
        if n < len(ps):
            off = off - part_len(ps[n])
    return None


def call_seq(eng, name, fn, o, vs, st, fr, e):
    from .engine import is_tag, isloc, tm, VOID, mkloc, Undecided
    v = eng.read(st, o)
    if not isinstance(v, Seq):
        v = Seq((('all', tm(v)),))
    et = eng.elem(o[3])
    n = None

    def length():
        return seq_len(v)
    if name == 'size':
        return [(st, length())]
    if name == 'empty':
        return [(st, eq(length(), ZERO))]
    if name in ('operator[]', 'at'):
        i = num(rd(eng, st, vs[0]))
        i = eng.simp(st.pc, i)
        at_oblige(eng, st, i, length(), e, fr)
        return [(st, sub(o, ('i', i), et))]
    if name == 'back':
        eng.oblige('nonempty', lt(ZERO, length()), st, e or {'l': 0}, fr)
        return [(st, sub(o, ('i', length() - ONE), et))]
    if name == 'front':
        eng.oblige('nonempty', lt(ZERO, length()), st, e or {'l': 0}, fr)
        return [(st, sub(o, ('i', ZERO), et))]
    if name in ('push_back', 'emplace_back'):
        out = []
        if not vs:
            nv = eng.default(et)
        elif len(vs) == 1:
            nv = rd(eng, st, vs[0])
            nv = eng.mat(nv, et) if not isinstance(nv, Num) or eng.p.kind(et) else nv
        elif eng.p.qn(et) == 'std::pair':
            nv = Rec('std::pair', None, {'first': rd(eng, st, vs[0]), 'second': rd(eng, st, vs[1])})
        else:
            nv = ('app', 'new ' + eng.p.qn(et)) + tuple(tm(rd(eng, st, x)) for x in vs)
        if vs and len(vs) == 1 and name == 'emplace_back' and eng.p.qn(et) in E().SEQ_TYPES and isinstance(nv, Num):
            nv = fill(eng, nv, eng.default(eng.elem(et)))
        if eng.p.kind(et) == 'f' or eng.p.kind(et) in ('u', 'i'):
            res = [(s, x) for s, x in eng.num(st, nv)]
        else:
            res = [(st, nv)]
        for s, x in res:
            s2 = eng.write(s, o, v.push(x))
            out.append((s2, VOID))
        return out
    if name == 'push_front':
        nv = rd(eng, st, vs[0])
        return [(eng.write(st, o, Seq((('one', nv),) + v.parts)), VOID)]
    if name == 'pop_back':
        if v.parts and v.parts[-1][0] == 'one':
            return [(eng.write(st, o, Seq(v.parts[:-1])), VOID)]
        return [(eng.write(st, o, Seq((('all', ('popped', tm(v))),))), VOID)]
    if name == 'clear':
        return [(eng.write(st, o, Seq(())), VOID)]
    if name in ('reserve', 'shrink_to_fit'):
        return [(st, VOID)]
    if name == 'capacity':
        return [(st, N(('app', 'capacity', tm(v))))]
    if name == 'resize':
        m = num(rd(eng, st, vs[0]))
        dv = rd(eng, st, vs[1]) if len(vs) > 1 else eng.default(et)
        if not v.parts:
            return [(eng.write(st, o, fill(eng, m, dv)), VOID)]
        if m == length():
            return [(st, VOID)]
        if m.iszero():
            return [(eng.write(st, o, Seq(())), VOID)]
        return [(eng.write(st, o, mkresized(v, m, dv)), VOID)]
    if name == 'assign':
        a = [rd(eng, st, x) for x in vs]
        if len(a) == 2 and is_tag(a[0], 'it'):
            w = subrange(eng, st, a[0], a[1])
            return [(eng.write(st, o, w if isinstance(w, Seq) else as_seq(w)), VOID)]
        if len(a) == 2:
            return [(eng.write(st, o, fill(eng, a[0], a[1])), VOID)]
        return [(eng.write(st, o, a[0]), VOID)]
    if name in ('begin', 'cbegin'):
        return [(st, ('it', o, ZERO))]
    if name in ('end', 'cend'):
        return [(st, ('it', o, length()))]
    if name in ('rbegin', 'crbegin'):
        return [(st, ('rit', o, ZERO))]
    if name in ('rend', 'crend'):
        return [(st, ('rit', o, length()))]
    if name == 'operator=':
        w = rd(eng, st, vs[0])
        return [(eng.write(st, o, w), o)]
    if name == 'swap':
        w = eng.read(st, vs[0])
        s = eng.write(st, o, w)
        return [(eng.write(s, vs[0], v), VOID)]
    if name == 'insert':
        a = [rd(eng, st, x) for x in vs]
        pos = a[0]
        if is_tag(pos, 'it') and pos[2] == length():
            if len(a) == 3 and is_tag(a[1], 'it'):
                w = subrange(eng, st, a[1], a[2])
                w = w if isinstance(w, Seq) else as_seq(w)
                return [(eng.write(st, o, v.cat(w)), ('it', o, length()))]
            if len(a) == 2:
                return [(eng.write(st, o, v.push(a[1])), ('it', o, length()))]
    if name in ('insert', 'emplace', 'erase') and vs:
        a = [rd(eng, st, x) for x in vs]
        pos = a[0]
        cut = cut_at(v, eng.simp(st.pc, pos[2])) if is_tag(pos, 'it') and pos[1] == o else None
        if cut is not None:
            head, tail = cut
            if name == 'erase':
                to = a[1] if len(a) == 2 else ('it', o, pos[2] + ONE)
                c2 = cut_at(v, eng.simp(st.pc, to[2])) if is_tag(to, 'it') else None
                if c2 is not None:
                    return [(eng.write(st, o, Seq(head + c2[1])), ('it', o, pos[2]))]
            elif len(a) == 3 and is_tag(a[1], 'it') and name == 'insert':
                w = subrange(eng, st, a[1], a[2])
                w = w if isinstance(w, Seq) else as_seq(w)
                return [(eng.write(st, o, Seq(head + w.parts + tail)), ('it', o, pos[2]))]
            elif len(a) == 2:
                nv = eng.mat(a[1], et) if not isinstance(a[1], Num) or eng.p.kind(et) else a[1]
                return [(eng.write(st, o, Seq(head + (('one', nv),) + tail)), ('it', o, pos[2]))]
    if name == 'data':
        return [(st, ('ptr', sub(o, ('i', ZERO), et)))]
    return None


def call_map(eng, name, fn, o, vs, st, fr, e):
    from .engine import is_tag, isloc, tm, VOID, mkloc, MAP_TYPES, EMPTIES, unsort
    m = eng.read(st, o)
    q = fn['qn']
    isset = 'set::' in q
    if isset and isinstance(m, tuple) and m[0] not in ('mput', 'mdel', 'mempty', 'setof'):
        KIND[('isset', m)] = 1
    a = eng.p.targs(o[3]) if o[3] else []
    kt = a[0] if a else None
    vt = a[1] if len(a) > 1 and not isset else None

    def key(v):
        v = rd(eng, st, v)
        if kt is not None:
            if eng.p.kind(kt) == 's':
                return strof(eng, st, v)
            v = eng.mat(v, kt)
            if eng.p.kind(kt) is None and not isinstance(v, (Num, Lit, bool)):
                eng.kty[v] = eng.p.strip(kt)
        return v
    if name == 'size':
        return eng.msize(st, m)
    if name == 'empty':
        return [(s, eq(n, ZERO)) for s, n in eng.msize(st, m)]
    if name == 'clear':
        return [(eng.write(st, o, ('mempty',)), VOID)]
    if name == 'find':
        k = key(vs[0])
        out = []
        for s, h in eng.has(st, m, k):
            for s2, b in eng.branch(s, h):
                out.append((s2, ('mit', o, k, b)))
        return out
    if name in ('lower_bound', 'upper_bound') and 'unordered' not in q:
        k = key(vs[0])
        nk = ('app', 'next_key', tm(m), tm(k))
        out = []
        for s, h in eng.has(st, m, k):
            for s2, b in eng.branch(s, h):
                if b and name == 'lower_bound':
                    out.append((s2, ('mit', o, k, True)))
                elif m in EMPTIES:
                    out.append((s2, ('mend', o)))
                else:
                    for s3, b2 in eng.branch(s2, Lit('b', ('hasnext', tm(m), tm(k)))):
                        out.append((s3, ('mit', o, eng.mat(nk, kt) if kt else nk, True) if b2 else ('mend', o)))
        return out
    if name in ('count', 'contains'):
        k = key(vs[0])
        out = []
        for s, h in eng.has(st, m, k):
            for s2, b in eng.branch(s, h):
                out.append((s2, N(int(b)) if name == 'count' else b))
        return out
    if name in ('end', 'cend'):
        return [(st, ('mend', o))]
    if name in ('begin', 'cbegin'):
        r = order_map(eng, st, o, fr)
        return [(s, ('it', o, ZERO)) for s in (r or [st])]
    if name == 'erase':
        v = rd(eng, st, vs[0])
        out = []
        if is_tag(v, 'mit'):
            return [(eng.write(st, o, ('mdel', unsort(m), v[2])), VOID)]
        if is_tag(v, 'it'):
            return [(eng.write(st, o, ('mdel', unsort(m), tm(eng.read(st, sub(v[1], ('i', v[2]), None))))), VOID)]
        k = key(vs[0])
        for s, h in eng.has(st, m, k):
            for s2, b in eng.branch(s, h):
                if b:
                    s2 = eng.write(s2, o, ('mdel', unsort(m), k))
                out.append((s2, N(int(b))))
        return out
    if name in ('emplace', 'insert', 'emplace_hint', 'try_emplace', 'insert_or_assign'):
        args = list(vs)
        if name == 'emplace_hint' or (name == 'insert' and len(args) == 2 and (is_tag(rd(eng, st, args[0]), 'mit') or is_tag(rd(eng, st, args[0]), 'mend'))):
            args = args[1:]
        if name == 'insert' and len(args) == 2:
            w = subrange(eng, st, args[0], args[1])
            if isset and m in EMPTIES and isinstance(w, Seq):
                r = built_set(eng, st, w, kt)
                if r is not None:
                    return [(eng.write(s, o, x), VOID) for s, x in r]
                return [(eng.write(st, o, ('setof', w)), VOID)]
            return None
        if isset:
            k, val = key(args[0]), True
        elif len(args) == 1:
            pr = rd(eng, st, args[0])
            g = lambda f: pr.get(f) if isinstance(pr, Rec) else ('fld', pr, f)
            k, val = eng.mat(g('first'), kt), eng.mat(g('second'), vt)
        else:
            k = key(args[0])
            val = rd(eng, st, args[1])
            if vt is not None:
                val = eng.mat(val, vt)
        out = []
        for s, h in eng.has(st, m, k):
            for s2, b in eng.branch(s, h):
                if not b or name == 'insert_or_assign':
                    s2 = eng.write(s2, o, eng.mput(m, k, val))
                it = ('mit', o, k, True)
                if name == 'emplace_hint' or (name == 'insert' and len(vs) == 2):
                    out.append((s2, it))
                else:
                    out.append((s2, Rec('std::pair', None, {'first': it, 'second': (not b)})))
        return out
    if name in ('operator[]', 'at'):
        k = key(vs[0])
        out = []
        for s, h in eng.has(st, m, k):
            for s2, b in eng.branch(s, h):
                if not b:
                    if name == 'at':
                        eng.exc.append((s2, ('throw', None, ('out_of_range',))))
                        continue
                    s2 = eng.write(s2, o, eng.mput(m, k, eng.default(vt)))
                out.append((s2, mkloc(o[1], o[2] + (('e', k), ('f', 'second')), vt)))
        return out
    if name == 'operator=':
        return [(eng.write(st, o, rd(eng, st, vs[0])), o)]
    if name == 'swap':
        w = eng.read(st, vs[0])
        s = eng.write(st, o, w)
        return [(eng.write(s, vs[0], m), VOID)]
    return None


def call_str(eng, name, fn, o, vs, st, fr, e):
    from .engine import tm, VOID, isloc
    v = num(eng.read(st, o))
    s0 = lit_of(v)
    if name in ('size', 'length'):
        return [(st, N(len(s0)) if s0 is not None else N(('size', tm(v))))]
    if name == 'empty':
        return [(st, (s0 == '') if s0 is not None else eq(N(('size', tm(v))), ZERO))]
    if name in ('operator[]', 'at', 'back', 'front'):
        n = N(len(s0)) if s0 is not None else N(('size', tm(v)))
        i = ZERO if name == 'front' else (n - ONE if name == 'back' else num(rd(eng, st, vs[0])))
        if name != 'operator[]':
            at_oblige(eng, st, i, n, e, fr)
        else:
            eng.oblige('index', le(i, n), st, e or {'l': 0}, fr)
        if s0 is not None and i.is_const():
            k = int(i.cval())
            return [(st, N(ord(s0[k]) if 0 <= k < len(s0) else 0))]
        a = ('at', tm(v), i)
        KIND[a] = 'i'
        return [(st, N(a))]
    if name == 'substr':
        i = num(rd(eng, st, vs[0])) if vs else ZERO
        n = num(rd(eng, st, vs[1])) if len(vs) > 1 else None
        if n is not None and n.is_const() and n.cval() >= (1 << 32):
            n = None
        ln = N(len(s0)) if s0 is not None else N(('size', tm(v)))
        eng.oblige('substr', le(i, ln), st, e or {'l': 0}, fr)
        if s0 is not None and i.is_const() and n is None:
            return [(st, N(('str', s0[int(i.cval()):])))]
        if i.iszero() and n is None:
            return [(st, v)]
        a = ('app', 'substr', tm(v), i) + ((n,) if n is not None else ())
        KIND[a] = 's'
        return [(st, N(a))]
    if name == 'clear':
        return [(eng.write(st, o, N(('str', ''))), VOID)]
    if name in ('operator=', 'assign'):
        return [(eng.write(st, o, strof(eng, st, vs[0])), o)]
    if name in ('operator+=', 'append', 'push_back'):
        return [(eng.write(st, o, mkcat([v, strof(eng, st, vs[0])])), o)]
    if name in ('c_str', 'data'):
        return [(st, v)]
    if name == 'compare' and len(vs) == 1:
        w = strof(eng, st, vs[0])
        out = []
        for s, b in eng.branch(st, streq(v, w)):
            if b:
                out.append((s, ZERO))
            else:
                a = ('app', 'strcmp', tm(v), tm(w))
                KIND[a] = 'i'
                s2 = s.assume(ne(N(a), ZERO))
                out.append((s2 or s, N(a)))
        return out
    t = ('app', 'string::' + name, tm(v)) + tuple(tm(rd(eng, st, x)) for x in vs)
    return [(st, eng.mat(t, fn['ret']) if fn['ret'] != 'void' else VOID)]


def streq(a, b):
    for x, y in ((a, b), (b, a)):
        if lit_of(x) == '':
            if lit_of(y) is not None:
                return lit_of(y) == ''
            return eq(N(('size', E().tm(y))), ZERO)
    if lit_of(a) is not None and lit_of(b) is not None:
        return lit_of(a) == lit_of(b)
    return eq(a, b)


def call_box(eng, name, fn, o, vs, st, fr, e):
    from .engine import is_tag, NULLP, mkloc, VOID, tm
    v = eng.read(st, o)
    et = None
    a = eng.p.targs(o[3]) if o[3] else []
    et = a[0] if a else None
    if name in ('operator*', 'operator->', 'get'):
        if is_tag(v, 'boxp'):
            root = ('D', v[1])
            eng.rty.setdefault(root, et)
            l = mkloc(root, (), et)
        elif v == NULLP:
            if name == 'get':
                return [(st, NULLP)]
            eng.oblige('null', False, st, e or {'l': 0}, fr)
            l = mkloc(('D', NULLP), (), et)
        else:
            if name == 'get' and not is_tag(v, 'box'):
                out = []
                for s, b in eng.branch(st, eng.nonnull(v)):
                    out.append((s, ('ptr', sub(o, ('*',), et)) if b else NULLP))
                return out
            if name != 'get' and not is_tag(v, 'box'):
                eng.oblige('null', eng.nonnull(v), st, e or {'l': 0}, fr)
            l = sub(o, ('*',), et)
        return [(st, l if name == 'operator*' else ('ptr', l))]
    if name == 'operator bool' or name == '<conv>':
        return [(st, eng.nonnull(v))]
    if name == 'reset':
        w = rd(eng, st, vs[0]) if vs else NULLP
        if 'reset' in eng.hooks:
            eng.hooks['reset'](eng, o, v, w, st, fr, e)
        st = eng.consume(st, w, 'second owner for one object', e, fr)
        return [(eng.write(st, o, box(eng, st, w)), VOID)]
    if name == 'release':
        if 'release' in eng.hooks:
            eng.hooks['release'](eng, o, v, st, fr, e)
        s = eng.write(st, o, NULLP)
        if v == NULLP:
            return [(s, NULLP)]
        if is_tag(v, 'box'):
            eng.nheap += 1
            root = ('H', eng.nheap)
            eng.rty[root] = et
            if eng.own:
                s = eng.acquire(s, root, e, fr)
            return [(s.set(root, v[1]), ('ptr', mkloc(root, (), et)))]
        if eng.own:
            root = ('D', tm(v))
            return [(eng.acquire(s2, root, e, fr) if b else s2, ('ptr', mkloc(root, (), et)) if b else NULLP)
                    for s2, b in eng.branch(s, eng.nonnull(v))]
        return [(s, ('ptr', mkloc(('D', tm(v)), (), et)))]
    if name == 'operator=':
        w = rd(eng, st, vs[0])
        from .engine import isloc
        s = st
        if isloc(vs[0]) and (is_tag(w, 'box') or w == NULLP or isinstance(w, tuple)):
            s = eng.write(s, vs[0], NULLP) if eng.p.qn(vs[0][3] or '') in E().BOX_TYPES and vs[0][:3] != o[:3] else s
        return [(eng.write(s, o, w), o)]
    if name == 'swap':
        w = eng.read(st, vs[0])
        s = eng.write(st, o, w)
        return [(eng.write(s, vs[0], v), VOID)]
    return None


def call_iter(eng, name, fn, o, vs, st, fr, e):
    from .engine import is_tag, mkloc
    v = eng.read(st, o)
    if name == 'operator*':
        l = eng.deref(v, st, e, fr)
        if l[3] is None:
            l = mkloc(l[1], l[2], eng.p.strip(fn['ret']))
        return [(st, l)]
    if name == 'operator->':
        l = eng.deref(v, st, e, fr)
        if l[3] is None:
            d = eng.p.unref(fn['ret'])
            l = mkloc(l[1], l[2], d.get('to'))
        return [(st, ('ptr', l))]
    if name in ('operator++', 'operator--'):
        if is_tag(v, 'it') or is_tag(v, 'rit'):
            nv = (v[0], v[1], v[2] + N(1 if name == 'operator++' else -1))
            s = eng.write(st, o, nv)
            return [(s, v if vs else o)]
        if is_tag(v, 'mit'):
            return None
    if name in ('operator+', 'operator-', 'operator+=', 'operator-=') and (is_tag(v, 'it') or is_tag(v, 'rit')):
        w = rd(eng, st, vs[0])
        if isinstance(w, Num):
            nv = (v[0], v[1], v[2] + (w if '+' in name else w.neg()))
            if name.endswith('='):
                return [(eng.write(st, o, nv), o)]
            return [(st, nv)]
    if name == 'operator[]' and is_tag(v, 'it'):
        i = v[2] + num(rd(eng, st, vs[0]))
        return [(st, sub(v[1], ('i', i), eng.elem(v[1][3])))]
    if name in ('operator==', 'operator!='):
        return [(st, it_cmp(eng, name[8:], v, rd(eng, st, vs[0]), st))]
    if name == 'operator=':
        return [(eng.write(st, o, rd(eng, st, vs[0])), o)]
    return None


# ------------------------------------------------------------------ streams
def is_out(eng, loc, v):
    q = eng.p.qn(loc[3]) if loc[3] else ''
    return isinstance(v, Seq) or 'ostream' in q or 'ofstream' in q


FLOATFIELD = {'scientific': 'scientific', 'fixed': 'fixed', 'defaultfloat': 'general', 'hexfloat': 'hexfloat'}


def fmt_root(loc, what):
    return ('FMT', loc[1], loc[2], what)


def fmt_of(eng, st, loc, what):
    v = eng.rootval(st, fmt_root(loc, what))
    return v if isinstance(v, Num) else num(v)


def manip_state(eng, st, loc, v):
    """State with the formatting change of a manipulator, None for others."""
    from .engine import is_tag
    if is_tag(v, 'fnv'):
        n = v[2].split('::')[-1]
        if n in FLOATFIELD:
            return st.set(fmt_root(loc, 'floatfield'), N(('str', FLOATFIELD[n])))
    if isinstance(v, tuple) and v[:1] == ('app',) and v[1] == 'setprecision':
        return st.set(fmt_root(loc, 'precision'), num(v[2]))
    return None


def outitems(eng, st, v, ty, fr, loc=None):
    """Text items produced by << of value v with type ty."""
    from .engine import is_tag, tm
    if isinstance(v, Num) and loc is not None and ty and eng.p.kind(ty) == 'f':
        ff, pr = fmt_of(eng, st, loc, 'floatfield'), fmt_of(eng, st, loc, 'precision')
        if ff != N(('str', 'general')) or pr != N(6):
            t = ('app', 'format', tm(v), tm(ff), tm(pr))
            KIND[t] = 's'
            return [N(t)]
    if is_tag(v, 'fnv'):
        n = v[2].split('::')[-1]
        if n == 'endl':
            return [N(('str', '\n'))]
        if n in ('flush', 'ends'):
            return []
        return [('manip', n)]
    d = eng.p.unref(ty) if ty else {}
    if isinstance(v, Num) and d.get('ch') and v.is_const():
        return [N(('str', chr(int(v.cval()) & 255)))]
    if isinstance(v, Num):
        return [v]
    if is_tag(v, 'ptr'):
        return [strof(eng, st, v)]
    if isinstance(v, tuple) and v and v[0] == 'app' and v[1] == 'setw':
        return [('manip', 'setw', v[2])]
    return [tm(v)]


def out_op(eng, loc, v, ty, st, fr):
    cur = eng.read(st, loc)
    if not isinstance(cur, Seq):
        cur = as_seq(cur)
    out = []
    m = manip_state(eng, st, loc, v)
    if m is not None:
        return [(m, loc)]
    if isinstance(v, (bool, Lit)):
        for s, b in eng.branch(st, v):
            out.append((eng.write(s, loc, push_out(cur, [N(('str', '1' if b else '0'))])), loc))
        return out
    if isinstance(v, Seq) or isinstance(v, Rec):
        v = E().tm(v)
    return [(eng.write(st, loc, push_out(cur, outitems(eng, st, v, ty, fr, loc))), loc)]


# An input stream: where it stands and its state flags.
FLAGS = ('$eof', '$fail', '$bad', '$open', '$skip')


def new_input(pos, fail=False, open_=False):
    return Rec('istream', None, {'$pos': pos, '$eof': False, '$fail': fail, '$bad': False, '$open': open_, '$skip': True})


def open_input(eng, st, vals):
    from .engine import tm
    if not vals:
        return new_input(('ifs',))
    m = opmode(vals[1:])
    m = m if not isinstance(m, int) else m | 8
    f = ('ifs', tm(strof(eng, st, vals[0]))) + (() if m in (8, 12) or m is None else (m,))
    ok = Lit('b', ('openok', f))
    return new_input(f, neg(ok), ok)


def flag(v, k):
    x = v.get(k) if isinstance(v, Rec) else ('fld', v, k)
    if isinstance(x, tuple):
        if k == '$skip' and x[0] == 'fld':
            return True
        x = Lit('b', x)
    return x


def pos_of(v):
    return v.get('$pos') if isinstance(v, Rec) else ('fld', v, '$pos')


def upd(v, **k):
    v = v if isinstance(v, Rec) else Rec('', v, {})
    for n, x in k.items():
        v = v.set('$' + n, x)
    return v


def advance(v, pos, **k):
    """Flags after an operation that got as far as pos."""
    k = dict(dict(eof=Lit('b', ('eof', pos)), fail=Lit('b', ('fail', pos))), **k)
    if flag(v, '$bad') is not False:
        k['bad'] = Lit('b', ('bad', pos))
    return upd(v, pos=pos, **k)


def goodness(eng, st, v):
    out = []
    for s, f in eng.branch(st, flag(v, '$fail')):
        if f:
            out.append((s, False))
        else:
            out.extend((s2, not e) for s2, e in eng.branch(s, flag(v, '$eof')))
    return out


def skip_ws(p):
    return p if p[0] == 'ws' else ('ws', p)


def read_into(eng, is_loc, dst, ty, st, tag='rd'):
    v = eng.read(st, is_loc)
    k = eng.p.kind(ty) if ty else None
    d = eng.p.unref(ty) if ty else {}
    tk = k if k not in ('u', 'i', 'f') else '%s%s%s' % (k, d.get('w', ''), 'c' if d.get('ch') else '')
    out = []
    skip = flag(v, '$skip')
    if not isinstance(skip, bool):
        skip = False
        tag = 'rds'
    for s, g in goodness(eng, st, v):
        if not g:
            out.append((eng.write(s, is_loc, upd(v, fail=True)), is_loc))
            continue
        p, at = pos_of(v), [(s, False)]
        if skip:
            p = skip_ws(p)
            at = eng.branch(s, Lit('b', ('eof', p)))
        for s1, end in at:
            if end:
                out.append((eng.write(s1, is_loc, upd(v, pos=p, eof=True, fail=True)), is_loc))
                continue
            t = (tag, p, tk)
            s2 = eng.write(s1, dst, eng.mat(t, ty))
            sure = skip and (k == 's' or d.get('ch'))
            out.append((eng.write(s2, is_loc, advance(v, (tag + '+', p, tk), **({'fail': False} if sure else {}))), is_loc))
    return out


def in_manip(eng, st, loc, name):
    """is >> manipulator"""
    v = eng.read(st, loc)
    if name in ('skipws', 'noskipws'):
        return [(eng.write(st, loc, upd(v, skip=name == 'skipws')), loc)]
    if name != 'ws':
        return [(eng.write(st, loc, upd(v, pos=(name, pos_of(v)))), loc)]
    out = []
    for s, g in goodness(eng, st, v):
        p = skip_ws(pos_of(v))
        out.append((eng.write(s, loc, advance(v, p, fail=False) if g else upd(v, fail=True)), loc))
    return out


def in_call(eng, name, o, vs, st):
    """Member functions of input streams."""
    from .engine import VOID, tm
    v = eng.read(st, o)
    if name in ('<conv>', 'operator bool'):
        return [(st, neg(flag(v, '$fail')))]
    if name == 'good':
        return goodness(eng, st, v)
    if name in ('operator!', 'fail'):
        return [(st, flag(v, '$fail'))]
    if name == 'eof':
        return [(st, flag(v, '$eof'))]
    if name == 'bad':
        if flag(v, '$bad') is False:
            return [(st, False)]
        return [(s, flag(v, '$bad') if f else False) for s, f in eng.branch(st, flag(v, '$fail'))]
    if name == 'is_open':
        return [(st, flag(v, '$open'))]
    if name in ('peek', 'get') and not vs:
        out = []
        for s, g in goodness(eng, st, v):
            if not g:
                out.append((eng.write(s, o, upd(v, fail=True)), N(-1)))
                continue
            p = pos_of(v)
            a = ('peek', p)
            KIND[a] = 'i'
            some = p[0] == 'ws'             # something stands there
            s2 = s.assume(mklit('<=', (ZERO if some else N(-1)) - N(a)))
            if s2 is None:
                continue
            at_end = False if some else eq(N(a), N(-1))
            if name == 'peek':
                w = v if some else upd(v, eof=at_end)
            else:
                w = upd(v, pos=('gc', p), eof=at_end, fail=at_end)
            if flag(v, '$bad') is not False:
                w = upd(w, bad=Lit('b', ('bad', ('gc', p))))
            out.append((eng.write(s2, o, w), N(a)))
        return out
    if name == 'open':
        return [(eng.write(st, o, open_input(eng, st, [rd(eng, st, x) for x in vs])), VOID)]
    if name == 'close':
        return [(eng.write(st, o, upd(v, open=False)), VOID)]
    if name == 'clear' and not vs:
        return [(eng.write(st, o, upd(v, eof=False, fail=False, bad=False)), VOID)]
    if name == 'str' and len(vs) == 1:
        return [(eng.write(st, o, upd(v, pos=('iss', tm(rd(eng, st, vs[0]))))), VOID)]
    if name in ('clear', 'setstate', 'seekg', 'ignore', 'unget', 'putback', 'get', 'read'):
        eng.unknown[name] += 1
        p = ('opaque', name, tm(v)) + tuple(tm(rd(eng, st, x)) for x in vs)
        return [(eng.write(st, o, advance(v, p)), o if name in ('seekg', 'ignore', 'unget', 'putback') else VOID)]
    return None


def close_file(eng, st, loc):
    """What a file stream wrote is kept when it is closed."""
    v = eng.read(st, loc)
    if not isinstance(v, Seq) or 'basic_ofstream' not in (eng.p.qn(loc[3]) if loc[3] else ''):
        return st
    if not v.parts or v.parts == (('one', ('closed',)),):
        return st
    lg = st.mem.get(('LOG', 'files'), Seq(()))
    from .engine import tm
    return eng.write(st.set(('LOG', 'files'), lg.push(('file', tm(v)))), loc, Seq((('one', ('closed',)),)))


def call_stream(eng, name, fn, o, vs, st, fr, e):
    from .engine import tm, VOID, is_tag, isloc
    v = eng.read(st, o)
    out = is_out(eng, o, v)
    if name == 'operator<<':
        a = e['a'][0] if e and e.get('a') else None
        x = rd(eng, st, vs[0])
        return out_op(eng, o, x, (a or {}).get('t'), st, fr)
    if name == 'operator>>':
        x = vs[0]
        if isloc(x):
            w = eng.read(st, x)
            if is_tag(w, 'fnv'):
                x = w
            else:
                return read_into(eng, o, x, x[3], st)
        if is_tag(x, 'fnv'):
            return in_manip(eng, st, o, x[2].split('::')[-1])
    if not out:
        return in_call(eng, name, o, vs, st)
    if name in ('put', 'write') and out:
        x = rd(eng, st, vs[0])
        return out_op(eng, o, strof(eng, st, x), None, st, fr)
    if name == 'str' and out and not vs:
        if isinstance(v, Seq) and all(p[0] == 'one' for p in v.parts):
            return [(st, mkcat([p[1] if isinstance(p[1], Num) else N(p[1]) for p in v.parts]))]
        a = ('cat', (tm(v),))
        KIND[a] = 's'
        return [(st, N(a))]
    S = tm(v)
    if name in ('<conv>', 'operator bool', 'good'):
        return [(st, Lit('b', ('good', S)))]
    if name in ('operator!', 'fail'):
        return [(st, Lit('b', ('failo', S)))]
    if name == 'eof':
        return [(st, Lit('b', ('eof', S)))]
    if name == 'bad':
        return [(st, Lit('b', ('bad', S)))]
    if name == 'is_open':
        t = S
        if isinstance(v, Seq):
            t = None
            for p in v.parts:
                if p[0] == 'one' and is_tag(p[1], 'open'):
                    t = p[1]
            t = t or ('noopen',)
        return [(st, Lit('b', ('openok', t)))]
    if name == 'open':
        f = tm(strof(eng, st, vs[0]))
        if out:
            cur = v if isinstance(v, Seq) else as_seq(v)
            return [(eng.write(st, o, cur.push(('open', f, opmode(vs[1:])))), VOID)]
    if name == 'close':
        return [(close_file(eng, st, o), VOID)]
    if name == 'flush':
        return [(st, o)]
    if name in ('exceptions',) and vs:
        if out:
            cur = v if isinstance(v, Seq) else as_seq(v)
            x = ('one', ('exceptions', tm(rd(eng, st, vs[0]))))
            if all(p[0] == 'one' and is_tag(p[1], 'open') for p in cur.parts):
                return [(eng.write(st, o, Seq((x,) + cur.parts)), VOID)]    # a failed open throws either way
            return [(eng.write(st, o, cur.push(x[1])), VOID)]
        return [(st, VOID)]
    if name == 'precision' and out and vs:
        return [(st.set(fmt_root(o, 'precision'), num(rd(eng, st, vs[0]))), fmt_of(eng, st, o, 'precision'))]
    if name in ('precision', 'setf', 'width', 'fill', 'unsetf') and out:
        cur = v if isinstance(v, Seq) else as_seq(v)
        return [(eng.write(st, o, cur.push(('manip', name) + tuple(tm(rd(eng, st, x)) for x in vs))),
                 N(('app', name)))]
    if name in ('clear', 'setstate', 'seekg', 'ignore', 'unget', 'putback'):
        s = eng.write(st, o, (name, S) + tuple(tm(rd(eng, st, x)) for x in vs))
        return [(s, o if name in ('seekg', 'ignore', 'unget', 'putback') else VOID)]
    return None


# ------------------------------------------------------------------ free functions
def apply_stdfn(eng, f, vs, st, fr, e):
    op = {'std::less': '<', 'std::greater': '>', 'std::plus': '+', 'std::equal_to': '==',
          'std::less_equal': '<=', 'std::greater_equal': '>='}[f[1]]
    a, b = rd(eng, st, vs[0]), rd(eng, st, vs[1])
    from .engine import isloc
    ty = vs[0][3] if isloc(vs[0]) else None
    if op == '+':
        return [(st, num(a) + num(b))]
    if op in ('<', '>') and ty:
        return val_less(eng, st, a, b, ty, fr, op)
    return eng.cmpvals(op, a, b, st)


def tup_items(eng, st, v):
    from .engine import is_tag, isloc
    v = rd(eng, st, v)
    if is_tag(v, 'tup'):
        return [(rd(eng, st, x), x[3] if isloc(x) else None) for x in v[1:]]
    return None


def lex(eng, st, op, xs, ys, fr):
    """Lexicographic comparison of lists of (value, type)."""
    if op in ('==', '!='):
        out = []
        cur = [st]
        for (x, t), (y, _) in zip(xs, ys):
            nxt = []
            for s in cur:
                for s2, c in eng.cmpvals('==', x, y, s):
                    for s3, b in eng.branch(s2, c):
                        if b:
                            nxt.append(s3)
                        else:
                            out.append((s3, op == '!='))
            cur = nxt
        return out + [(s, op == '==') for s in cur]
    if op in ('>', '<='):
        r = lex(eng, st, '<', ys, xs, fr)
        return r if op == '>' else [(s, neg(v)) for s, v in r]
    if op == '>=':
        return [(s, neg(v)) for s, v in lex(eng, st, '<', xs, ys, fr)]
    out = []
    cur = [st]
    for (x, t), (y, _) in zip(xs, ys):
        nxt = []
        for s in cur:
            for s2, c in (val_less(eng, s, x, y, t, fr) if t else eng.cmpvals('<', x, y, s)):
                for s3, b in eng.branch(s2, c):
                    if b:
                        out.append((s3, True))
                        continue
                    for s4, c2 in (val_less(eng, s3, y, x, t, fr) if t else eng.cmpvals('<', y, x, s3)):
                        for s5, b2 in eng.branch(s4, c2):
                            if b2:
                                out.append((s5, False))
                            else:
                                nxt.append(s5)
        cur = nxt
    return out + [(s, False) for s in cur]


MATH = {'sqrt', 'exp', 'floor', 'ceil', 'round', 'fabs', 'abs', 'log1p', 'expm1', 'cbrt', 'sin', 'cos', 'lround', 'isnan', 'isinf', 'isfinite', 'llround', 'nearbyint', 'rint', 'trunc'}


def call_named(eng, q, vs, st, fr, e, fn=None, o=None):
    from .engine import is_tag, isloc, tm, VOID, NULLP, mkloc, Undecided, State
    name = q.split('::')[-1]
    short = name
    for suf in ('f', 'l'):
        if name.endswith(suf) and name[:-1] in ('exp2', 'log2', 'log', 'pow', 'sqrt', 'exp', 'floor', 'ceil', 'fabs'):
            short = name[:-1]
    if name in ('__assert_fail', 'abort', 'terminate', '__builtin_unreachable', '_Exit', 'quick_exit'):
        if 'assert' in eng.hooks and name == '__assert_fail':
            eng.hooks['assert'](eng, st, e, fr)
        return []
    if q == 'exit' or q == 'std::exit':
        eng.exc.append((st, ('exit', tm(rd(eng, st, vs[0])))))
        return []
    vals = [rd(eng, st, v) for v in vs]
    if short == 'exp2':
        return mathapp(eng, st, 'exp2', vals)
    if short == 'pow':
        b, x = num(vals[0]), num(vals[1])
        if b.is_const() and b.cval() == 2:
            return mathapp(eng, st, 'exp2', [x])
        if x.is_const() and x.cval().denominator == 1 and 0 <= x.cval() <= 4:
            r = ONE
            for _ in range(int(x.cval())):
                r = r * b
            return [(st, r)]
        return mathapp(eng, st, 'pow', vals)
    if short in ('log2', 'log', 'log10'):
        ln = lambda x: N(('app', 'log', tm(x)))
        x = num(vals[0])
        if x.is_const() and x.cval() == 1:
            return [(st, ZERO)]
        if short == 'log':
            return [(st, ln(x))]
        return [(st, ln(x).div(ln(N(2 if short == 'log2' else 10))))]
    if short in ('fabs', 'abs') and len(vals) == 1:
        x = num(vals[0])
        return [(s, x if b else x.neg()) for s, b in eng.branch(st, le(ZERO, x))]
    if short in MATH and len(vals) == 1:
        return mathapp(eng, st, short, vals)
    if q in ('std::max', 'std::min', 'fmax', 'fmin', 'std::fmax', 'std::fmin') and len(vs) >= 2:
        out = []
        a, b = num(vals[0]), num(vals[1])
        if len(vs) == 3:
            return None
        c = lt(a, b) if name in ('max', 'fmax') else lt(b, a)
        for s, r in eng.branch(st, c):
            out.append((s, vs[1] if r else vs[0]))
        return out
    if q in ('std::move', 'std::forward', 'std::cref', 'std::ref', 'std::as_const', 'std::addressof'):
        if name == 'addressof':
            return [(st, ('ptr', vs[0]))]
        return [(st, vs[0])]
    if q == 'std::swap' and len(vs) == 2 and isloc(vs[0]) and isloc(vs[1]):
        s = eng.write(st, vs[0], vals[1])
        return [(eng.write(s, vs[1], vals[0]), VOID)]
    if q == 'std::make_pair':
        return [(st, Rec('std::pair', None, {'first': vals[0], 'second': vals[1]}))]
    if q in ('std::tie', 'std::make_tuple', 'std::forward_as_tuple'):
        return [(st, ('tup',) + tuple(vs if name != 'make_tuple' else vals))]
    if q == 'std::make_unique' or q == 'std::make_shared':
        return [(st, ('box', vals[0] if len(vals) == 1 else ('app', 'make') + tuple(tm(v) for v in vals)))]
    if q == 'std::setw' or q == 'std::setprecision':
        return [(st, ('app', name, tm(vals[0])))]
    if q == 'std::to_string':
        return [(st, num(vals[0]))]
    if q == 'std::operator|' and all(isinstance(v, Num) and v.is_const() for v in vals):
        return [(st, N(int(vals[0].cval()) | int(vals[1].cval())))]
    if q == 'std::operator|':
        return [(st, N(('app', 'bitor') + tuple(sorted((tm(v) for v in vals), key=T.key))))]
    if q in ('std::basic_ios::eof',):
        return None
    if name in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'size', 'empty') and q.startswith('std::') and len(vs) == 1 and isloc(vs[0]):
        t = eng.p.qn(vs[0][3]) if vs[0][3] else ''
        h = call_map if t in E().MAP_TYPES else call_seq
        return h(eng, name, {'qn': t + '::' + name, 'ret': ''}, vs[0], [], st, fr, e)
    if name == 'distance' and len(vals) == 2 and is_tag(vals[0], 'it') and is_tag(vals[1], 'it'):
        return [(st, vals[1][2] - vals[0][2])]
    if name in ('next', 'prev') and q.startswith('std::') and vals and (is_tag(vals[0], 'it') or is_tag(vals[0], 'rit')):
        k = num(vals[1]) if len(vals) > 1 else ONE
        return [(st, (vals[0][0], vals[0][1], vals[0][2] + (k if name == 'next' else k.neg())))]
    if name == 'advance' and is_tag(vals[0], 'it'):
        return [(eng.write(st, vs[0], ('it', vals[0][1], vals[0][2] + num(vals[1]))), VOID)]
    # ---- operators
    if name.startswith('operator') and len(vs) == 2 and o is None:
        op = name[8:]
        r = binop(eng, op, vs, vals, st, fr, e, fn)
        if r is not None:
            return r
    if name.startswith('operator') and len(vs) == 1 and o is not None:
        op = name[8:]
        ov = eng.read(st, o)
        r = binop(eng, op, [o] + list(vs), [ov] + vals, st, fr, e, fn)
        if r is not None:
            return r
    if q == 'std::getline':
        is_, dst = vs[0], vs[1]
        v = eng.read(st, is_)
        delim = tm(vals[2]) if len(vals) > 2 else 10
        delim = N(delim) if not isinstance(delim, Num) else delim
        nl = delim.is_const() and delim.cval() == 10
        out = []
        for s, g in goodness(eng, st, v):
            if not g:
                out.append((eng.write(s, is_, upd(v, fail=True)), is_))
                continue
            p = pos_of(v)
            t = ('line', p) if nl else ('linez', p, delim)
            KIND[t] = 's'
            s = eng.write(s, dst, N(t))
            out.append((eng.write(s, is_, advance(v, ('gl', p) if nl else ('glz', p, delim))), is_))
        return out
    if q == 'std::ws' and vs:
        return in_manip(eng, st, vs[0], 'ws')
    # ---- algorithms
    if q in ('std::sort', 'std::stable_sort'):
        b = vals[0]
        if eng.unroll is not None and is_tag(b, 'it') and is_tag(vals[1], 'it'):
            r = small_sort(eng, st, b, vals[1], vs[2] if len(vs) > 2 else None, fr)
            if r is not None:
                return r
        seq = full_range(eng, st, vals[0], vals[1])
        if seq is None:
            if is_tag(b, 'it'):
                v = eng.read(st, b[1])
                f = cmp_summary(eng, st, vs[2] if len(vs) > 2 else None, eng.elem(b[1][3]), fr)
                return [(eng.write(st, b[1], Seq((('all', ('sortrange', f, tm(v), b[2], tm(vals[1])),),))), VOID)]
            raise Undecided('sort over unknown range')
        ety = eng.elem(b[1][3])
        w = eng.read(st, b[1])
        if isinstance(w, Seq) and len(w.parts) <= 1 and all(p[0] == 'one' for p in w.parts):
            return [(st, VOID)]
        try:
            f = cmp_summary(eng, st, vs[2] if len(vs) > 2 else None, ety, fr)
        except Undecided:
            f = ('cmp', tm(vals[2]) if len(vs) > 2 else 'less')
        return [(eng.write(st, b[1], Seq((('all', ('sorted', f, tm(seq))),))), VOID)]
    if q == 'std::is_sorted':
        b = vals[0]
        if eng.unroll is not None and is_tag(b, 'it') and is_tag(vals[1], 'it'):
            r = small_sorted(eng, st, b, vals[1], vs[2] if len(vs) > 2 else None, fr)
            if r is not None:
                return r
        seq = full_range(eng, st, vals[0], vals[1])
        if seq is None:
            raise Undecided('is_sorted over unknown range')
        try:
            f = cmp_summary(eng, st, vs[2] if len(vs) > 2 else None, eng.elem(b[1][3]), fr)
        except Undecided:
            f = ('cmp', tm(vals[2]) if len(vs) > 2 else 'less')
        # where the range is sorted it equals its sorted self
        return [(eng.write(s, b[1], Seq((('all', ('sorted', f, tm(seq))),))) if y else s, y)
                for s, y in eng.branch(st, Lit('b', ('is_sorted', f, tm(seq))))]
    if q == 'std::accumulate':
        eng.nheap += 1
        acc = ('T', fr.id, 'acc%d' % eng.nheap)
        ity = e.get('t') if e else None
        eng.rty[acc] = ity
        f = vs[3] if len(vs) > 3 else None
        res = []
        for s0, i0 in (eng.num(st, vals[2])):
            s0 = s0.set(acc, i0)

            def body(s, el):
                rs = []
                if f is not None:
                    for s2, r in eng.apply(f, [eng.read(s, mkloc(acc, (), ity)), el], s, fr, {'t': ity}):
                        rs.append((s2.set(acc, rd(eng, s2, r)), None))
                else:
                    a = num(eng.read(s, mkloc(acc, (), ity)))
                    rs.append((s.set(acc, a + num(eng.read(s, el))), None))
                return rs
            for s1, oc in loop_range(eng, s0, fr, vals[0], vals[1], body, (e or {}).get('l', 0)):
                if oc is not None:
                    eng.exc.append((s1, oc))
                    continue
                v = eng.read(s1, mkloc(acc, (), ity))
                m = dict(s1.mem)
                m.pop(acc, None)
                res.append((State(m, s1.pc), v))
        return res
    if q == 'std::for_each':
        def body(s, el):
            return [(s2, None) for s2, _ in eng.apply(vs[2], [el], s, fr, e)]
        return [(s, vals[2]) for s, oc in loop_range(eng, st, fr, vals[0], vals[1], body) if oc is None]
    if q in ('std::any_of', 'std::all_of', 'std::none_of'):
        from .engine import Out
        eng.nheap += 1
        cell = ('T', fr.id, 'flag%d' % eng.nheap)
        eng.rty[cell] = None
        want = q != 'std::all_of'
        s0 = st.set(cell, False)

        def body(s, el):
            rs = []
            for s2, r in eng.apply(vs[2], [el], s, fr, {'t': 'bool'}):
                for s3, b in eng.branch(s2, rd(eng, s2, r)):
                    rs.append((s3.set(cell, True), Out.BRK) if b == want else (s3, None))
            return rs
        res = []
        for s, oc in loop_range(eng, s0, fr, vals[0], vals[1], body):
            v = s.mem.get(cell)
            m = dict(s.mem)
            m.pop(cell, None)
            res.append((State(m, s.pc), v if q == 'std::any_of' else neg(v)))
        return res
    if q in ('std::count_if', 'std::count'):
        eng.nheap += 1
        cell = ('T', fr.id, 'cnt%d' % eng.nheap)
        eng.rty[cell] = None
        s0 = st.set(cell, ZERO)

        def body(s, el):
            rs = []
            if q == 'std::count':
                tests = eng.cmpvals('==', eng.read(s, el), vals[2], s)
            else:
                tests = eng.apply(vs[2], [el], s, fr, {'t': 'bool'})
            for s2, r in tests:
                for s3, b in eng.branch(s2, rd(eng, s2, r)):
                    rs.append((s3.set(cell, s3.mem[cell] + ONE) if b else s3, None))
            return rs
        res = []
        for s, oc in loop_range(eng, s0, fr, vals[0], vals[1], body):
            v = s.mem.get(cell)
            m = dict(s.mem)
            m.pop(cell, None)
            res.append((State(m, s.pc), v))
        return res
    if q in ('std::transform', 'std::copy', 'std::copy_if') and is_tag(vals[2], 'backins'):
        dst = vals[2][1]

        def body(s, el):
            rs = []
            if q == 'std::copy':
                vv = [(s, eng.read(s, el), True)]
            elif q == 'std::transform':
                vv = [(s2, rd(eng, s2, r), True) for s2, r in eng.apply(vs[3], [el], s, fr, {'t': eng.elem(dst[3])})]
            else:
                vv = []
                for s2, r in eng.apply(vs[3], [el], s, fr, {'t': 'bool'}):
                    for s3, b in eng.branch(s2, rd(eng, s2, r)):
                        vv.append((s3, eng.read(s3, el), b))
            for s2, x, put in vv:
                if put:
                    cur = eng.read(s2, dst)
                    s2 = eng.write(s2, dst, (cur if isinstance(cur, Seq) else as_seq(cur)).push(x))
                rs.append((s2, None))
            return rs
        return [(s, vals[2]) for s, oc in loop_range(eng, st, fr, vals[0], vals[1], body) if oc is None]
    if q in ('std::generate_n', 'std::fill_n', 'std::generate') and (is_tag(vals[0], 'it') or is_tag(vals[0], 'backins') and q != 'std::generate'):
        d = vals[0]
        if q == 'std::generate':
            if not is_tag(vals[1], 'it') or vals[1][1] != d[1]:
                raise E().Undecided('range of std::generate')
            n = N(vals[1][2] - d[2])
        else:
            n = num(vals[1])
        et = eng.elem(d[1][3])

        def step(s1, ix):
            res = []
            for s2, c in eng.branch(s1, lt(ix, n)):
                if not c:
                    res.append((s2, ('exit0',)))
                    continue
                for s3, r in ([(s2, vals[2])] if q == 'std::fill_n' else eng.apply(vs[2], [], s2, fr, {'t': et})):
                    x = rd(eng, s3, r)
                    if d[0] == 'backins':
                        cur = eng.read(s3, d[1])
                        s3 = eng.write(s3, d[1], (cur if isinstance(cur, Seq) else as_seq(cur)).push(x))
                    else:
                        s3 = eng.write(s3, mkloc(d[1][1], d[1][2] + (('i', d[2] + ix),), et), x)
                    res.append((s3, ('next',)))
            return res
        return [(s, VOID if q == 'std::generate' or d[0] == 'backins' else ('it', d[1], N(d[2] + n)))
                for s, oc in eng.loop(st, fr, step, {'k': 'for', 'l': 0}) if oc is None]
    if q in ('std::back_inserter',):
        return [(st, ('backins', vs[0]))]
    if q == 'std::fill' and is_tag(vals[0], 'it'):
        seq = full_range(eng, st, vals[0], vals[1])
        if seq is not None:
            return [(eng.write(st, vals[0][1], fill(eng, seq_len(seq), vals[2])), VOID)]
    if q == 'std::reverse' and is_tag(vals[0], 'it'):
        seq = full_range(eng, st, vals[0], vals[1])
        if seq is not None:
            return [(eng.write(st, vals[0][1], Seq((('all', ('reversed', tm(seq))),))), VOID)]
    if name in ('infinity',) and 'numeric_limits' in q:
        return [(st, N(('inf',)))]
    if name in ('max', 'lowest', 'min', 'epsilon', 'quiet_NaN') and 'numeric_limits' in q:
        d = eng.p.unref(fn['ret']) if fn else {}
        if d.get('k') == 'int' and name in ('max', 'min', 'lowest'):
            w = d.get('w', 32)
            if name == 'max':
                return [(st, N((1 << (w - (1 if d.get('s') else 0))) - 1))]
            return [(st, N(-(1 << (w - 1)) if d.get('s') else 0))]
        return [(st, N(('limit', name, str(d.get('w', '')))))]
    # ---- unknown
    eng.unknown[q] = eng.unknown.get(q, 0) + 1
    if fn is not None:
        return eng.opaque_call(fn, o, vs, st, fr, e)
    t = ('opaque', q) + tuple(tm(v) for v in vals)
    return [(st, eng.mat(t, e.get('t') if e else None))]


def mathapp(eng, st, name, vals):
    t = ('app', name) + tuple(E().tm(num(v)) for v in vals)
    return [(st, N(t))]


def binop(eng, op, vs, vals, st, fr, e, fn):
    from .engine import is_tag, isloc, tm, NULLP
    a, b = vals
    tya = vs[0][3] if isloc(vs[0]) else None
    itl = lambda v: isinstance(v, tuple) and v and v[0] in ('it', 'rit', 'mit', 'mend')
    if itl(a) or itl(b):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return [(st, it_cmp(eng, op, a, b, st))]
        if op == '-' and is_tag(a, 'it') and is_tag(b, 'it'):
            return [(st, a[2] - b[2])]
        if op in '+-' and isinstance(b, Num):
            return [(st, (a[0], a[1], a[2] + (b if op == '+' else b.neg())))]
        if op == '+' and isinstance(a, Num):
            return [(st, (b[0], b[1], b[2] + a))]
    if op in ('<<',) and isloc(vs[0]) and is_out(eng, vs[0], a):
        ty = None
        if e and len(e.get('a', [])) == 2:
            ty = e['a'][1].get('t')
        v = b
        if isloc(vs[1]) and is_tag(v, 'ptr'):
            pass
        return out_op(eng, vs[0], v, ty, st, fr)
    if op == '>>' and isloc(vs[0]):
        x = vs[1]
        if is_tag(b, 'fnv'):
            return in_manip(eng, st, vs[0], b[2].split('::')[-1])
        if isloc(x):
            return read_into(eng, vs[0], x, x[3], st)
    if op in ('==', '!=', '<', '<=', '>', '>='):
        ta, tb = tup_items(eng, st, a), tup_items(eng, st, b)
        if ta and tb:
            return lex(eng, st, op, ta, tb, fr)
        if a == NULLP or b == NULLP or is_tag(a, 'ptr') or is_tag(a, 'box'):
            return [(st, eng.compare(op, a, b))]
        ka = kindof_val(a)
        kb = kindof_val(b)
        if ka == 's' or kb == 's' or (fn and any('basic_string' in eng.p.qn(t) for t in fn.get('pt', []))):
            x, y = strof(eng, st, vs[0] if not is_tag(a, 'ptr') else a), strof(eng, st, vs[1] if not is_tag(b, 'ptr') else b)
            if op == '==':
                return [(st, streq(x, y))]
            if op == '!=':
                return [(st, neg(streq(x, y)))]
            return [(st, eng.compare(op, x, y))]
        if tya and eng.p.qn(tya) == 'std::pair' and op in ('<', '>'):
            return val_less(eng, st, a, b, tya, fr, op)
        if isinstance(a, Num) and isinstance(b, Num):
            return eng.cmpvals(op, a, b, st)
    if op == '+' and (kindof_val(a) == 's' or kindof_val(b) == 's' or is_tag(a, 'ptr') or is_tag(b, 'ptr')):
        return [(st, mkcat([strof(eng, st, a), strof(eng, st, b)]))]
    return None


def kindof_val(v):
    if isinstance(v, Num):
        a = v.as_atom()
        if a is not None:
            return kind_of(a)
    return None
