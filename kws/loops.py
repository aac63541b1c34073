"""Loop summaries: closed forms for induction variables, sums, appended
sequences and flags; everything else becomes a canonical recurrence term."""
from fractions import Fraction
from .terms import *
from . import terms as T

TMP = 9000      # temporary bound-variable numbers, renumbered when canonicalised


class LoopRec:
    """What was established about one loop, for rules that look at iterations."""
    def __init__(self, fn, line, kind, depth, carried, cases, exits, pc):
        self.fn, self.line, self.kind, self.depth = fn, line, kind, depth
        self.carried, self.cases, self.exits, self.pc = carried, cases, exits, pc


def diffval(va, vb, path=(), d=None):
    """Paths (tuples of field steps) at which two values of a location differ."""
    from .engine import is_tag
    if va == vb:
        return []
    ra, rb = isinstance(va, Rec), isinstance(vb, Rec)
    if is_tag(va, 'box') and is_tag(vb, 'box'):
        return diffval(va[1], vb[1], path + (('*',),), d)
    if ra or rb:
        ba = va.base if ra else va
        bb = vb.base if rb else vb
        same = ba == bb
        if same and (isinstance(ba, tuple) or ba is None):
            ks = []
            for v in (va, vb):
                if isinstance(v, Rec):
                    ks.extend(k for k, _ in v.over if k not in ks)
            out = []
            for k in ks:
                x = va.get(k) if ra else ('fld', va, k)
                y = vb.get(k) if rb else ('fld', vb, k)
                out.extend(diffval(x, y, path + (('f', k),), d))
            return out
    if isinstance(va, Seq) and isinstance(vb, Seq) and len(va.parts) == len(vb.parts) and d is not None:
        ks = [i for i, (x, y) in enumerate(zip(va.parts, vb.parts)) if x != y]
        if len(ks) == 1 and all(x[0] == 'one' for x in va.parts[:ks[0] + 1]) and vb.parts[ks[0]][0] == 'one':
            return diffval(va.parts[ks[0]][1], vb.parts[ks[0]][1], path + (('i', N(ks[0])),), d)
    k = upd_at(va, vb)
    if k is not None and d is not None and not contains_term(k, lambda t: t[:2] in (('cv', d), ('ix', d))):
        return [path + (('i', k),)]
    return [path]


def upd_at(va, vb):
    """Index of the single element at which sequence vb differs from va, if the terms show it."""
    def core(v):
        if isinstance(v, Seq):
            if len(v.parts) == 1 and v.parts[0][0] == 'all':
                v = v.parts[0][1]
            else:
                return None
        return v
    b = core(vb)
    if not (isinstance(b, tuple) and b and b[0] == 'upd'):
        return None
    a = core(va)
    if a is None:
        a = va
    if isinstance(a, tuple) and a and a[0] == 'upd' and a[2] == b[2]:
        a = a[1]
    return b[2] if a == b[1] else None


def relevant(root, st):
    return root in st.mem or root[0] in ('A', 'D', 'G', 'LOG') or root[0] == 'FMT' and relevant(root[1], st)


def diffstate(eng, a, b, d=None):
    out = []
    for root in b.mem:
        if not relevant(root, a):
            continue
        if root in a.mem:
            va = a.mem[root]
        else:
            va = eng.rootval(a, root)
        vb = b.mem[root]
        if va is vb:
            continue
        for p in diffval(va, vb, (), d):
            out.append((root, p))
    return out


def getp(eng, st, root, path):
    v = eng.rootval(st, root)
    for s in path:
        v = eng.step_get(v, s)
    return v


def ltype(eng, root, path, st=None):
    t = eng.rty.get(root)
    for n, s in enumerate(path):
        if s[0] == '*':
            t = None
            continue
        if t is None and st is not None and s[0] == 'f':
            v = getp(eng, st, root, path[:n])
            if isinstance(v, Rec) and v.ty:
                ft = set(eng.p.fieldtype(int(i), s[1]) for i, r in eng.p.records.items() if r['qn'] == v.ty)
                if len(ft) == 1:
                    t = ft.pop()
                    continue
        if t is None:
            return None
        rid = eng.p.recid(t)
        if s[0] == 'i':
            t = eng.elem(t)
            continue
        if eng.p.qn(t) == 'std::pair':
            a = eng.p.targs(t)
            t = a[0] if s[1] == 'first' else a[1]
            continue
        t = eng.p.fieldtype(rid, s[1]) if rid is not None else None
    return t


def is_flag(t):
    # state flag of an input stream
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'fld' and t[2] in ('$eof', '$fail', '$bad', '$open')


def symkind(eng, init, ty):
    """Kind of the unknown standing for a carried value."""
    from .engine import is_tag
    if is_tag(init, 'it') or is_tag(init, 'rit') or is_tag(init, 'ptr'):
        return 'i'
    if is_tag(init, 'rng'):
        return 'u'
    if is_tag(init, 'mit'):
        return 'o'
    k = eng.p.kind(ty) if ty is not None else None
    if k:
        return k
    if isinstance(init, Num):
        ks = set(kind_of(a) for a in init.atoms())
        return 's' if 's' in ks else ('f' if 'f' in ks or any(c.denominator != 1 for c in init.n.values())
                                      else ('i' if 'i' in ks or any(c < 0 for c in init.n.values()) else 'u'))
    if isinstance(init, (bool, Lit)) or is_flag(init):
        return 'b'
    if isinstance(init, Seq):
        return 'q'
    if eng.is_set(init):
        return 'set'
    return 'o'


def symbol(eng, d, j, init, ty):
    """(atom, unknown of the same shape as init)."""
    from .engine import is_tag, mkloc
    k = symkind(eng, init, ty)
    cv = ('cv', d, j, k)
    if is_tag(init, 'it') or is_tag(init, 'rit'):
        return cv, (init[0], init[1], N(cv))
    if is_tag(init, 'rng'):
        return cv, ('rng', init[1], N(cv))
    if is_tag(init, 'ptr') and init[1][2] and init[1][2][-1][0] == 'i':
        l = init[1]
        return cv, ('ptr', mkloc(l[1], l[2][:-1] + (('i', N(cv)),), l[3]))
    if is_tag(init, 'mit'):
        return cv, cv
    if ty is not None:
        v = eng.mat(cv, ty)
        if v is not cv:
            return cv, v
    if isinstance(init, Num):
        return cv, N(cv)
    if isinstance(init, (bool, Lit)) or is_flag(init):
        return cv, Lit('b', cv)
    if isinstance(init, Seq):
        return cv, Seq((('all', cv),))
    return cv, cv


def strip_it(v):
    """(shape key, scalar) of iterator-like values, else (None, v)."""
    from .engine import is_tag
    if is_tag(v, 'it') or is_tag(v, 'rit') or is_tag(v, 'rng'):
        return (v[0], v[1]), v[2]
    if is_tag(v, 'ptr') and v[1][2] and v[1][2][-1][0] == 'i':
        l = v[1]
        return ('ptr', l[1], l[2][:-1], l[3]), l[2][-1][1]
    return None, v


def rebuild(shape, x):
    from .engine import mkloc
    if shape is None:
        return x
    if shape[0] in ('it', 'rit', 'rng'):
        return (shape[0], shape[1], N(x))
    return ('ptr', mkloc(shape[1], shape[2] + (('i', N(x)),), shape[3]))


def cvs_in(t, d):
    out = set()

    def pred(x):
        if x[0] == 'cv' and x[1] == d:
            out.add(x[2])
        return False
    contains_term(t, pred)
    return out


def substval(v, S, ixm=None):
    m = dict(S)
    if ixm:
        m.update(ixm)
    return subst(v, m)


def group(cases):
    """cases: list of (guardset frozenset, value) -> merged list."""
    from .engine import merge_pc
    out = [(frozenset(g), v) for g, v in cases]
    changed = True
    while changed:
        changed = False
        for i in range(len(out)):
            for j in range(i + 1, len(out)):
                if out[i][1] == out[j][1]:
                    m = merge_pc(out[i][0], out[j][0])
                    if m is None and out[i][0] == out[j][0]:
                        m = out[i][0]
                    if m is not None:
                        out[i] = (m, out[i][1])
                        del out[j]
                        changed = True
                        break
            if changed:
                break
    return out


def simplify_disjoint(groups):
    """Merge groups with equal values using the other groups: when every case
    outside a value's groups excludes a literal, guards can be weakened."""
    vals = []
    for g, v in groups:
        if v not in [x for x, _ in vals]:
            vals.append((v, [g]))
        else:
            next(l for x, l in vals if x == v).append(g)
    if len(vals) == 1:
        # the cases cover everything
        return [(frozenset(), vals[0][0])]
    res = []
    for v, gs in vals:
        others = [g for w, l in vals if w != v for g in l]
        cur = [frozenset(g) for g in gs]
        changed = True
        while changed:
            changed = False
            for i in range(len(cur)):
                for l in sorted(cur[i], key=T.key, reverse=True):
                    rest = cur[i] - {l}
                    if any(feasible(rest | o) for o in others):
                        continue
                    # the groups of one value stay disjoint (or swallow each other)
                    sib = [h for k, h in enumerate(cur) if k != i]
                    if any(not (rest <= h) and feasible(rest | h) for h in sib):
                        continue
                    cur = [h for h in sib if not (rest <= h)] + [rest]
                    changed = True
                    break
                if changed:
                    break
        res.extend((g, v) for g in sorted(cur, key=lambda g: sorted(map(T.key, g))))
    return res


class Sys:
    """One loop being summarised."""
    pass


def unrolled(eng, st, fr, iterate, brk):
    """Loops cut after eng.unroll iterations (longer runs are dropped): used
    only to exhibit a difference between two summaries."""
    cur, out = [st], []
    for k in range(eng.unroll + 1):
        nxt = []
        for c in cur:
            eng.lastround = k == eng.unroll
            res = iterate(c, N(k))
            eng.lastround = False
            for s, o in res:
                if o == ('next',):
                    nxt.append(s)
                elif o[0] == 'exit0':
                    out.append((sized(eng, st, s), None))
                elif o[0] == 'exit1':
                    out.append((sized(eng, st, s), brk))
                else:
                    out.append((s, o))
        cur = [s for s, _ in eng.coalesce([(s, None) for s in nxt])]
        if not cur:
            break
        if len(cur) + len(out) > eng.max_paths:
            from .engine import Undecided
            raise Undecided('too many paths')
    else:
        eng.cut += len(cur)
    return out


def sized(eng, st, s):
    """Sizes the path has fixed become numbers."""
    at = {a for l in s.pc - st.pc if isinstance(l, Lit) and isinstance(l.x, Num) for a in l.x.atoms()
          if isinstance(a, tuple) and a[0] in ('size', 'app')}
    m = {}
    for a in at:
        if kind_of(a) != 'u':
            continue
        for k in range(eng.unroll + 2):
            if entails(s.pc, mklit('<=', N(a) - N(k))):
                if entails(s.pc, mklit('<=', N(k) - N(a))):
                    m[a] = N(k)
                break
    if not m:
        return s
    from .engine import State
    mem = {k: subst(v, m) if isinstance(v, (Num, Rec, Seq, tuple, Lit)) else v for k, v in s.mem.items()}
    keep = {l for a, k in m.items() for l in (mklit('<=', N(a) - k), mklit('<=', k - N(a))) if l is not True}
    for l in s.pc:
        n = subst(l, m)
        if n is True:
            continue
        if n is False:
            return s
        keep.add(n)
    return State(mem, frozenset(keep))


def few(eng, st, fr, node):
    """Does one conjunct of the loop condition compare two numbers known to be
    close together, so that the loop ends after at most four iterations?"""
    todo = [node.get('c')] if isinstance(node, dict) else []
    if not todo or not isinstance(todo[0], dict) or todo[0].get('op') != '&&':
        return False
    while todo:
        c = todo.pop()
        if not isinstance(c, dict):
            continue
        if c.get('op') == '&&':
            todo += [c['x'], c['y']]
        elif c.get('op') in ('<', '!=', '>', '<=', '>=') and 'x' in c:
            vs = []
            for x in (c['x'], c['y']):
                v = eng.rv(x, st, fr)
                if len(v) != 1 or not isinstance(v[0][1], Num) or not v[0][1].is_const():
                    break
                vs.append(v[0][1].cval())
            if len(vs) == 2 and abs(vs[0] - vs[1]) <= 4:
                return True
    return False


def peeled(eng, st, iterate, brk, open_=False):
    """The loop written out, when its conditions are decided in each of at most
    four iterations."""
    cur, out = [st], []
    for k in range(5):
        nxt = []
        for c in cur:
            res = iterate(c, N(k))
            ks = {o[0] for _, o in res}
            if not open_ and 'exit0' in ks and len(ks) > 1 or len(res) > (24 if open_ else 8):
                return None
            for s, o in res:
                if o == ('next',):
                    nxt.append(s)
                else:
                    out.append((s, None if o[0] == 'exit0' else brk if o[0] == 'exit1' else o))
        if not nxt:
            return out
        if len(nxt) > (24 if open_ else 8):
            return None
        cur = nxt
    return None


def run_loop(eng, st, fr, iterate, node, brk=None):
    if eng.unroll is not None:
        return unrolled(eng, st, fr, iterate, brk)
    eng.quiet += 1
    try:
        open_ = few(eng, st, fr, node)
        res = peeled(eng, st, iterate, brk, open_)
    finally:
        eng.quiet -= 1
    if res is not None:
        return res if eng.quiet else peeled(eng, st, iterate, brk, open_)
    d = eng.ldepth
    ixa = ('ix', d)
    ix = N(ixa)
    eng.ldepth += 1
    eng.quiet += 1
    nloops = len(eng.loops)
    try:
        mods = []
        for rnd in range(12):
            h, cvs = havoc(eng, st, mods, d)
            paths = [(s, k) for s, k in iterate(h, ix)]
            new = []
            for s, k in paths:
                if k[0] == 'next':
                    for rp in diffstate(eng, h, s, d):
                        if rp not in new and not covered(rp, mods):
                            new.append(rp)
            if not new:
                break
            mods = addmods(mods, new)
        else:
            from .engine import Undecided
            raise Undecided('loop effects do not stabilise')
        inv = ()
        if eng.invariants and cvs:
            h, paths, inv = invariants(eng, st, h, cvs, paths, d, lambda x: list(iterate(x, ix)))
        res, S, info = solve(eng, st, h, cvs, paths, d, fr, node)
        if inv:
            res = [(at_exit(eng, s, cvs, inv) if k[0] == 'exit0' else s, k) for s, k in res]
    finally:
        eng.quiet -= 1
        del eng.loops[nloops:]
    try:
        if not eng.quiet:
            # pass that records what happens inside an iteration
            hs = close_state(eng, st, h, cvs, S, ixa)
            hs = type(hs)(hs.mem, hs.pc | same_sizes(cvs, paths, S, eng) | frozenset(l for l in (subst(x[-1], S) for x in inv) if isinstance(l, Lit)))
            saved = eng.exc
            eng.exc = []
            fin = [(s, k) for s, k in iterate(hs, ix)]
            eng.exc = saved
            eng.loops.append(LoopRec(fr.fn, node.get('l', 0), node['k'], d, info, fin, None, st.pc))
    finally:
        eng.ldepth -= 1
    out = []
    for s, k in res:
        if k[0] == 'exit0':
            out.append((s, None))
        elif k[0] == 'exit1':
            out.append((s, brk))
        else:
            out.append((s, k))
    return out


def covered(rp, mods):
    return any(rp[0] == r and rp[1][:len(p)] == p for r, p in mods)


def addmods(mods, new):
    allm = []
    for r, p in mods + new:
        for r2, p2 in mods + new:
            # two elements of one sequence: they may be the same one
            if r == r2 and p != p2:
                k = next((i for i, (x, y) in enumerate(zip(p, p2)) if x != y), None)
                if k is not None and p[k][0] == 'i' and p2[k][0] == 'i':
                    p = p[:k]
        allm.append((r, p))
    out = []
    for i, (r, p) in enumerate(allm):
        if any(r == r2 and len(p2) < len(p) and p[:len(p2)] == p2 for r2, p2 in allm):
            continue
        if (r, p) not in out:
            out.append((r, p))
    return out


def havoc(eng, st, mods, d):
    from .engine import mkloc
    cvs = []
    h = st
    for j, (root, path) in enumerate(mods):
        init = getp(eng, st, root, path)
        ty = ltype(eng, root, path, st)
        if ty is not None and isinstance(init, tuple):
            init = eng.mat(init, ty)
        if root[0] == 'LOG':
            init = st.mem.get(root, Seq(()))
        cv, v = symbol(eng, d, j, init, ty)
        cvs.append((root, path, init, v, ty, cv))
        h = eng.write(h, mkloc(root, path, None), v)
    return h, cvs


def iszeroish(x):
    return isinstance(x, Num) and x.iszero()


def seqof(v):
    return v if isinstance(v, Seq) else None


def solve(eng, st, h, cvs, paths, d, fr, node):
    """Closed forms S (cv -> value at iteration ix) and the exit states."""
    from .engine import is_tag, State, tm
    ixa = ('ix', d)
    base = st.pc
    nxt = [(s, s.pc - h.pc) for s, k in paths if k[0] == 'next']
    exits = [(s, k, s.pc - h.pc) for s, k in paths if k[0] != 'next']
    S = {}
    pend = list(range(len(cvs)))
    vals = [[getp(eng, s, root, path) for root, path, _, _, _, _ in cvs] for s, g in nxt]
    kinds = [None] * len(cvs)

    def cur(j):
        return cvs[j][3]

    progress = True
    while pend and nxt:
        if not progress:
            if not any([lengths(eng, j, cvs, nxt, vals, S, d) for j in list(pend)] + [elementwise(eng, j, cvs, nxt, vals, S, pend, kinds, d) for j in list(pend)]):
                break
        progress = False
        # current guards and values under S
        G = []
        for s, g in nxt:
            gg = set()
            dead = False
            for l in g:
                l2 = subst(l, S) if S else l
                l2 = eng.simp_bool2(base | g, l2) if hasattr(eng, 'simp_bool2') else l2
                if l2 is False:
                    dead = True
                elif l2 is not True:
                    gg.add(l2)
            if not dead and not feasible(frozenset(gg) | base):
                dead = True
            G.append(None if dead else frozenset(gg))
        live = [i for i in range(len(nxt)) if G[i] is not None]
        if not live:
            break
        common = frozenset.intersection(*[G[i] for i in live])
        gs = {i: G[i] - common for i in live}
        for j in list(pend):
            root, path, init, sym, ty, cva = cvs[j]
            shape, c0 = strip_it(sym)
            news = {}
            bad = False
            for i in live:
                v = vals[i][j]
                if S:
                    v = subst(v, S)
                if isinstance(v, Num) or isinstance(v, Seq) or isinstance(v, tuple):
                    v = eng.simp(base | G[i], v)
                sh, x = strip_it(v)
                if sh != shape:
                    bad = True
                news[i] = x
            if bad:
                continue
            _, i0 = strip_it(init)
            if all(news[i] == c0 for i in live):
                S[cva] = rawinit(init)
                kinds[j] = 'const'
            elif isinstance(c0, Num) and all(isinstance(news[i], Num) for i in live) and kind_of(cva) != 's':
                ds = [(gs[i], news[i] - c0) for i in live]
                if any(cvs_in(x, d) for _, x in ds):
                    continue
                grp = group(ds)
                grp = simplify_disjoint(grp)
                grp = [(g, x) for g, x in grp if not x.iszero()]
                if any(cvs_in(l, d) for g, x in grp for l in g):
                    continue
                tot = N(i0) if isinstance(i0, Num) else N(tm(i0))
                b = ('bv', TMP + d)
                for g, x in grp:
                    m = {ixa: N(b)}
                    gl = [subst(l, m) for l in g]
                    if any(l is False for l in gl):
                        continue
                    tot = tot + mksum(TMP + d, N(ixa), tuple(l for l in gl if l is not True), subst(x, m))
                S[cva] = tot
                kinds[j] = 'sum'
            elif isinstance(c0, Seq) and c0.parts == (('all', cva),) and all(
                    isinstance(news[i], Seq) and news[i].parts[:1] == c0.parts for i in live):
                ds = [(gs[i], news[i].parts[1:]) for i in live]
                if any(cvs_in(x, d) for _, x in ds):
                    continue
                grp = simplify_disjoint(group(ds))
                grp = [(g, x) for g, x in grp if x]
                if any(cvs_in(l, d) for g, x in grp for l in g):
                    continue
                b = N(('bv', TMP + d))
                cases = []
                for g, x in grp:
                    gl = [subst(l, {ixa: b}) for l in g]
                    if any(l is False for l in gl):
                        continue
                    cases.append((tuple(sorted((l for l in gl if l is not True), key=T.key)),
                                  subst(Seq(x), {ixa: b}).parts))
                cases = tuple(sorted(cases, key=T.key))
                n, cases = canon_binder(TMP + d, cases)
                cases = tuple(sorted(cases, key=T.key))
                si = as_seq(init) if not isinstance(init, Seq) else init
                if cases:
                    S[cva] = Seq(si.parts + tuple(T.norm_part(('map', n, N(ixa), cases))))
                else:
                    S[cva] = si
                kinds[j] = 'append'
            elif isinstance(c0, Lit) and c0.x == cva and all(
                    isinstance(news[i], bool) or news[i] == c0 for i in live):
                setv = set(news[i] for i in live if isinstance(news[i], bool))
                if len(setv) != 1:
                    continue
                val = next(iter(setv))
                gl = [gs[i] for i in live if news[i] is val]
                gl = [g for g, _ in simplify_disjoint(group([(gs[i], news[i] is val) for i in live])) if _]
                # guards may mention the flag itself: while unset it equals the initial value
                if isinstance(init, bool) and init != val:
                    gl2 = []
                    for g in gl:
                        g2 = [subst(l, {cva: init}) for l in g]
                        if not any(l is False for l in g2):
                            gl2.append(frozenset(l for l in g2 if l is not True))
                    gl = gl2
                if any(cvs_in(l, d) for g in gl for l in g):
                    continue
                b = N(('bv', TMP + d))
                ex = mkexists('exists', TMP + d, N(ixa), tuple(tuple(subst(l, {ixa: b}) for l in g) for g in gl))
                ex = ex if isinstance(ex, bool) else Lit('b', ex)
                if init is val:
                    S[cva] = val
                elif isinstance(init, bool):
                    S[cva] = ex if val else neg(ex)
                else:
                    continue
                kinds[j] = 'flag'
            elif is_setins(news, live, cva):
                if not setbase(init):
                    continue
                ds = []
                okk = True
                for i in live:
                    ks = []
                    v = news[i]
                    while v != cva:
                        ks.append(v[2])
                        v = v[1]
                    ds.append((gs[i], tuple(('one', k) for k in reversed(ks))))
                if any(cvs_in(x, d) for _, x in ds):
                    continue
                grp = [(g, x) for g, x in simplify_disjoint(group(ds)) if x]
                if any(cvs_in(l, d) for g, x in grp for l in g):
                    continue
                b = N(('bv', TMP + d))
                cases = tuple(sorted(((tuple(sorted((subst(l, {ixa: b}) for l in g), key=T.key)),
                                       subst(Seq(x), {ixa: b}).parts) for g, x in grp), key=T.key))
                n, cases = canon_binder(TMP + d, cases)
                s0 = () if init in (('mempty',), ('msorted',)) else init[1].parts
                S[cva] = ('setof', Seq(s0 + tuple(T.norm_part(('map', n, N(ixa), cases)))))
                kinds[j] = 'setins'
            else:
                continue
            pend.remove(j)
            progress = True
            # closed forms stored before that speak of this one (a list written
            # element by element is what was written and the rest)
            for k in S:
                if k != cva and contains_term(S[k], lambda t: t == cva):
                    S[k] = subst(S[k], {cva: S[cva]})
    if not nxt:
        # the body never completes an iteration: at most one pass
        for j in list(pend):
            S[cvs[j][5]] = rawinit(cvs[j][2])
        pend = []
    res = make_exits(eng, st, h, cvs, nxt, exits, vals, S, pend, d, fr, node)
    info = [(cvs[j][0], cvs[j][1], cvs[j][2], kinds[j]) for j in range(len(cvs))]
    return res, S, info


def lengths(eng, j, cvs, nxt, vals, S, d):
    """Every iteration lengthens the sequence by the same number of elements:
    positions counted by the iteration are positions from its end."""
    root, path, init, sym, ty, cva = cvs[j]
    if not (isinstance(sym, Seq) and sym.parts == (('all', cva),)):
        return False
    c = None
    for i in range(len(nxt)):
        v = subst(vals[i][j], S) if S else vals[i][j]
        if not isinstance(v, Seq):
            return False
        x = seq_len(v) - size_of(cva)
        if not x.is_const() or x.iszero() or (c is not None and c != x.cval()):
            return False
        c = x.cval()
    if c is None:
        return False
    ix, n = ('ix', d), size_of(cva)
    si = init if isinstance(init, Seq) else as_seq(init)
    n0 = seq_len(si)
    m1 = {ix: (n - n0) * N(Fraction(1) / c)}
    m2 = {n.as_atom(): n0 + N(ix) * N(c)}
    ch = False
    for i, (s, g) in enumerate(nxt):
        for k, v in enumerate(vals[i]):
            v0 = subst(v, S) if S else v
            v1 = subst(subst(v0, m1), m2)
            if v1 != v0:
                vals[i][k] = v1
                ch = True
        g0 = frozenset(subst(l, S) for l in g) if S else g
        g1 = frozenset(subst(subst(l, m1), m2) if isinstance(l, Lit) else l for l in g0)
        if g1 != g0:
            nxt[i] = (s, frozenset(l for l in g1 if l is not True))
            ch = True
    return ch


def elementwise(eng, j, cvs, nxt, vals, S, pend, kinds, d):
    """Iteration ix of the loop replaces element ix only: describe the sequence
    as what was written so far followed by the untouched rest."""
    root, path, init, sym, ty, cva = cvs[j]
    ix = N(('ix', d))
    if not (isinstance(sym, Seq) and sym.parts == (('all', cva),)):
        return False
    new = []
    for i in range(len(nxt)):
        v = subst(vals[i][j], S) if S else vals[i][j]
        if v == sym:
            new.append(None)
            continue
        if not (isinstance(v, Seq) and len(v.parts) == 1 and v.parts[0][0] == 'all' and is_upd(v.parts[0][1], cva)):
            return False
        k = v.parts[0][1][2]
        if not (k - ix).iszero():
            return False
        new.append(v.parts[0][1][3])
    if all(x is None for x in new):
        return False
    si = init if isinstance(init, Seq) else as_seq(init)
    old = seq_get(si, ix)
    if isinstance(old, tuple) and old and old[0] == 'at' and old[1] == si:
        return False
    a0 = ('at', cva, ix)
    m = {a0: old}
    new = [subst(x, m) if x is not None else old for x in new]
    if any(cva in (('cv', d, n, cvs[n][5][3]) for n in cvs_in(x, d)) for x in new):
        return False
    rows = []
    for i, (s, g) in enumerate(nxt):
        g2 = [subst(subst(l, S), m) for l in g]
        if any(l is False for l in g2) or any(j in cvs_in(l, d) for l in g2 if l is not True):
            return False
        row = [subst(subst(v, S), m) if n != j else v for n, v in enumerate(vals[i])]
        if any(j in cvs_in(v, d) for n, v in enumerate(row) if n != j):
            return False
        rows.append((row, frozenset(l for l in g2 if l is not True)))
    n = len(cvs)
    cv2 = ('cv', d, n, 'q')
    seq2 = Seq((('all', cv2),))
    rest = Num_or(seq_len(si)) - ix
    b = N(('bv', TMP + 500 + d))
    el = seq_get(si, ix + b)
    nn, cs = canon_binder(TMP + 500 + d, (((), (('one', el),)),))
    cvs.append((root, path, Seq(()), seq2, ty, cv2))
    S[cva] = Seq((('all', cv2), ('map', nn, rest, cs)))
    kinds[j] = 'elements'
    kinds.append(None)
    for i, (row, g) in enumerate(rows):
        vals[i] = row + [Seq((('all', cv2), ('one', new[i])))]
        nxt[i] = (nxt[i][0], g)
    pend.remove(j)
    pend.append(n)
    return True


def Num_or(x):
    return x if isinstance(x, Num) else N(x)


def is_upd(t, cva):
    return isinstance(t, tuple) and len(t) == 4 and t[0] == 'upd' and t[1] == cva


def setbase(init):
    return init == ('mempty',) or (isinstance(init, tuple) and init and init[0] == 'setof' and isinstance(init[1], Seq))


def is_setins(news, live, cva):
    any_ = False
    for i in live:
        v = news[i]
        while isinstance(v, tuple) and v and v[0] == 'mput' and v[3] is True:
            v = v[1]
            any_ = True
        if v != cva:
            return False
    return any_


def rawinit(init):
    """Value replacing the cv atom itself."""
    from .engine import is_tag
    shape, x = strip_it(init)
    if shape is not None:
        return x
    return init


def close_state(eng, st, h, cvs, S, ixa):
    from .engine import State
    if not S:
        return h
    mem = {}
    for r, v in h.mem.items():
        mem[r] = subst(v, S) if relevant(r, st) else v
    return State(mem, h.pc)


def invariants(eng, st, h, cvs, paths, d, again):
    """Bounds of the carried counters that hold at the start of every
    iteration: a guess from the guards, kept while every iteration keeps it."""
    mine = lambda t: t[0] in ('cv', 'ix') and len(t) > 1 and t[1] == d
    cand = []
    for j, (root, path, init, sym, ty, cva) in enumerate(cvs):
        _, c = strip_it(sym)
        _, i0 = strip_it(init)
        if not isinstance(c, Num) or not isinstance(i0, Num) or not is_intpoly(i0) or kind_of(cva) not in ('i', 'u') or contains_term(i0, mine):
            continue
        cand.append((j, 'low', le(i0, c)))
        for s, k in paths:
            for l in s.pc:
                x = getattr(l, 'x', None)
                if not isinstance(x, Num) or x.d is not None:
                    continue
                for m, q in x.n.items():
                    if abs(q) != 1 or len(m) != 1 or m[0][1] != 1 or not contains_term(m[0][0], mine) or kind_of(m[0][0]) not in ('i', 'u'):
                        continue
                    r = Num({n: -v / q for n, v in x.n.items() if n != m})
                    if not contains_term(r, lambda t: t[0] in ('cv', 'ix')) and is_intpoly(r):
                        eng.bseen |= {r, r + ONE}
        for b in sorted(eng.bseen, key=T.key):
            if entails(st.pc, le(i0, b)):
                cand.append((j, 'up', le(c, b)))
    cand = [x for x in cand if isinstance(x[-1], Lit)]
    for _ in range(6):
        if not cand:
            return h, paths, ()
        h2 = type(h)(h.mem, h.pc | {x[-1] for x in cand})
        p2 = again(h2)
        keep = []
        for x in cand:
            _, c = strip_it(cvs[x[0]][3])
            ok = True
            for s, k in p2:
                if k[0] == 'next':
                    _, v = strip_it(getp(eng, s, cvs[x[0]][0], cvs[x[0]][1]))
                    l = subst(x[-1], {cvs[x[0]][5]: v}) if isinstance(v, Num) else False
                    if l is not True and not (isinstance(l, Lit) and entails(s.pc, l)):
                        ok = False
                        break
            if ok:
                keep.append(x)
        if len(keep) == len(cand):
            return h2, p2, tuple(cand)
        cand = keep
    return h, paths, ()


def at_exit(eng, s, cvs, inv):
    """The bounds of the counters also hold of their final values, when the
    loop ends by its condition."""
    add = set()
    for j, _, l in inv:
        root, path, _, _, _, cva = cvs[j]
        _, v = strip_it(getp(eng, s, root, path))
        if isinstance(v, Num):
            l = subst(l, {cva: v})
            if isinstance(l, Lit):
                add.add(l)
    return type(s)(s.mem, s.pc | add) if add else s


def same_sizes(cvs, paths, S, eng):
    """Sequences that every iteration leaves as long as they were."""
    out = set()
    for root, path, init, v, _, _ in cvs:
        if not isinstance(v, Seq) or not isinstance(init, Seq):
            continue
        n = seq_len(v)
        if all(k[0] != 'next' or isinstance(w, Seq) and (seq_len(w) - n).iszero()
               for s, k in paths for w in [getp(eng, s, root, path)]):
            l = subst(eq(n, seq_len(init)), S)
            if isinstance(l, Lit):
                out.add(l)
    return frozenset(out)


def canon_loop(eng, cvs, nxt, exits, vals, S, pend, d, base):
    """Canonical recurrence term over the unresolved carried values."""
    ixa = ('ix', d)
    cases = []
    for i, (s, g) in enumerate(nxt):
        gg = []
        dead = False
        for l in g:
            l2 = subst(l, S)
            if l2 is False:
                dead = True
            elif l2 is not True:
                gg.append(l2)
        if dead or not feasible(frozenset(gg) | base):
            continue
        row = {}
        for j in pend:
            v = subst(vals[i][j], S)
            v = eng.simp(base | frozenset(gg), v)
            row[j] = strip_it(v)[1]
        cases.append((frozenset(gg), row))
    exg = []
    for s, k, g in exits:
        gg = []
        dead = False
        for l in g:
            l2 = subst(l, S)
            if l2 is False:
                dead = True
            elif l2 is not True:
                gg.append(l2)
        if not dead and feasible(frozenset(gg) | base):
            exg.append((s, k, frozenset(gg)))
    return cases, exg


def slice_loop(cases, exg, want, d, cvs, counted):
    """Restrict to what component(s) `want` depend on."""
    R = set(want)
    if not counted:
        for _, _, g in exg:
            for l in g:
                R |= cvs_in(l, d)
    while True:
        rs = sorted(R)
        rows = [(g, tuple(row[j] for j in rs)) for g, row in cases]
        common = frozenset.intersection(*[g for g, _ in rows]) if rows else frozenset()
        grp = simplify_disjoint(group([(g - common, v) for g, v in rows])) if rows else []
        need = set(R)
        for g, v in grp:
            for l in g:
                need |= cvs_in(l, d)
            for x in v:
                need |= cvs_in(x, d)
        if not counted:
            for l in common:
                pass
        need &= set(cases[0][1]) if cases else need
        if need == R:
            return rs, grp
        R = need


def loopterm(cases, exg, want, d, cvs, counted):
    """('loop', n, inits, kinds, cases, exits) with carried values ('lv', n... )."""
    ixa = ('ix', d)
    rs, grp = slice_loop(cases, exg, want, d, cvs, counted)
    # canonical order of the carried values
    def fp(j):
        return (cvs[j][5][3], T.key(strip_it(cvs[j][2])[1]))
    rs2 = sorted(rs, key=fp)
    b = ('bv', TMP + d)
    m = {ixa: N(b)}
    for i, j in enumerate(rs2):
        m[cvs[j][5]] = ('lv', TMP + d, i, cvs[j][5][3])
    perm = [rs.index(j) for j in rs2]
    cs = []
    for g, v in grp:
        gl = tuple(sorted((l for l in (subst(l, m) for l in g)), key=T.key))
        cs.append((gl, tuple(subst(v[p], m) for p in perm)))
    cs = tuple(sorted(cs, key=T.key))
    ex = ()
    if not counted:
        ex = tuple(sorted((tuple(sorted((subst(l, m) for l in g), key=T.key)) for _, _, g in exg), key=T.key))
    inits = tuple(strip_it(cvs[j][2])[1] for j in rs2)
    kinds = tuple(cvs[j][5][3] for j in rs2)
    n, kinds, cs, ex = canon_binder(TMP + d, kinds, cs, ex)
    return ('loop', n, inits, kinds, cs, ex), rs2


def lin_exit(lits, d, base):
    """Exit index of a counted loop: single literal linear in ix."""
    ixm = ((('ix', d), 1),)
    if len(lits) != 1:
        return None
    l = next(iter(lits))
    if l.op not in ('<=', '<', '=') or l.x.d is not None:
        return None
    c = l.x.n.get(ixm, 0)
    if not c or abs(c) != 1:
        return None
    rest = Num({m: k for m, k in l.x.n.items() if m != ixm})
    if contains_term(rest, lambda t: t == ('ix', d)):
        return None
    if l.op == '=':
        return (rest.neg() if c > 0 else rest), '='
    # c<0:  rest - ix <= 0  -> first ix with ix >= rest
    if c > 0:
        return None
    if not is_intpoly(rest):
        return None
    if l.op == '<':
        return rest + ONE, '<='
    return rest, '<='


def make_exits(eng, st, h, cvs, nxt, exits, vals, S, pend, d, fr, node):
    from .engine import State
    ixa = ('ix', d)
    ix = N(ixa)
    base = st.pc
    cases, exg = canon_loop(eng, cvs, nxt, exits, vals, S, pend, d, base)
    if not exg:
        return []
    # literals that hold throughout, on exits too
    bound = None
    exit0 = [(s, k, g) for s, k, g in exg if k[0] in ('exit0', 'exit1')]
    # counted exit: find the exit whose guard is a single linear literal and
    # whose negation is common to everything else
    ncase = [g for g, _ in cases]
    for i, (s, k, g) in enumerate(exg):
        cand = []
        if len(g) == 1:
            cand = list(g)
        for l in cand:
            b = lin_exit([l], d, base)
            if b is None:
                continue
            nl = neg(l)
            others = [x for n2, (_, _, x) in enumerate(exg) if n2 != i] + ncase
            if all(nl in x or entails(x | base, nl) for x in others):
                bound = (i, l, b[0], b[1])
                break
        if bound:
            break
    if bound is None and len(exg) > 1:
        # exits sharing the same single linear literal (exit condition split by other guards)
        lits = [set(l for l in g if lin_exit([l], d, base)) for _, _, g in exg]
        inter = set.intersection(*lits) if lits else set()
        for l in inter:
            if all(neg(l) in x or entails(x | base, neg(l)) for x in ncase):
                b = lin_exit([l], d, base)
                bound = ('all', l, b[0], b[1])
                break
    depcv = any(cvs_in(l, d) for _, _, g in exg for l in g)
    out = []

    def finish(s, k, ixval, extra, guards, LT=None):
        """Exit state s at iteration ixval."""
        m0 = dict(S)
        memo = []
        m1 = {ixa: ixval}
        un = {}
        for j in pend:
            if LT is not None:
                un[cvs[j][5]] = LT(j, ixval)

        def fix(v):
            v = subst(v, m0) if m0 else v
            v = subst(v, {**un, **m1}) if un else subst(v, m1)
            return v
        pc = set(base)
        for l in extra:
            if l is False:
                return
            if l is not True:
                pc.add(l)
        for l in guards:
            l = fix(l)
            if l is False:
                return
            if l is not True:
                pc.add(l)
        pc = frozenset(pc)
        if not feasible(pc):
            return
        mem = {}
        for r, v in s.mem.items():
            if r in st.mem and v is st.mem[r]:
                mem[r] = v
                continue
            if isinstance(v, tuple) and v and v[0] == 'ref':
                mem[r] = fixref(v, fix)
                continue
            mem[r] = fix(v)
        if k[0] in ('ret', 'throw', 'exit'):
            k = (k[0],) + tuple(fixref(x, fix) if isinstance(x, tuple) else fix(x) if not isinstance(x, str) else x for x in k[1:])
        out.append((State(mem, pc), k))

    if bound is not None and (bound[0] == 'all' or len(exg) == 1):
        # counted loop: number of completed iterations
        N_ = bound[2]
        counted = True

        def LT(j, at, memo={}):
            lt_, rs = loopterm(cases, exg, [j], d, cvs, True)
            a = ('liter', lt_, rs.index(j), at)
            return a
        for s, k, g in exg:
            if bound[3] == '=' or entails(base, mklit('<=', N_.neg())):
                finish(s, k, N_, [], g - {bound[1]}, LT)
            else:
                finish(s, k, N_, [mklit('<=', N_.neg())], g - {bound[1]}, LT)
                finish(s, k, ZERO, [mklit('<', N_)], g - {bound[1]}, LT)
        return out
    if not depcv:
        # breaks whose guards depend on the iteration only
        b = N(('bv', TMP + d))
        hi = bound[2] if bound is not None else None
        brks = [(i, g - ({neg(bound[1])} if bound is not None else frozenset()))
                for i, (_, _, g) in enumerate(exg) if bound is None or i != bound[0]]
        dn = tuple(tuple(subst(l, {ixa: b}) for l in g) for _, g in brks)
        # remove literals common to all iterations (range)
        if bound is None and not any(l is True for g in dn for l in g):
            first = mkexists('first', TMP + d, None, dn)
            KIND[first] = 'u'
            def LT(j, at):
                lt_, rs = loopterm(cases, exg, [j], d, cvs, True)
                return ('liter', lt_, rs.index(j), at)
            for s, k, g in exg:
                finish(s, k, N(first), [], g, LT)
            return out
        if bound is not None:
            ex = mkexists('exists', TMP + d, N(hi), dn)
            exl = ex if isinstance(ex, bool) else Lit('b', ex)
            first = mkexists('first', TMP + d, N(hi), dn)
            KIND[first] = 'u'

            def LT(j, at):
                lt_, rs = loopterm(cases, exg, [j], d, cvs, True)
                return ('liter', lt_, rs.index(j), at)
            single = len(brks) == 1
            nonneg = bound[3] == '=' or entails(base, mklit('<=', hi.neg()))
            for i, (s, k, g) in enumerate(exg):
                if i == bound[0]:
                    if nonneg:
                        finish(s, k, hi, [neg(exl)], [], LT)
                    else:
                        finish(s, k, hi, [neg(exl), mklit('<=', hi.neg())], [], LT)
                        finish(s, k, ZERO, [mklit('<', hi)], [], LT)
                else:
                    gg = [x for n2, x in brks if n2 == i][0]
                    extra = [exl] + ([] if nonneg else [mklit('<=', hi.neg())])
                    finish(s, k, N(first), extra, gg, LT)
            return out
    # unresolved exit
    def LTu(j, at):
        lt_, rs = loopterm(cases, exg, [j], d, cvs, False)
        return ('liter', lt_, rs.index(j), at)
    lt0, rs0 = loopterm(cases, exg, [], d, cvs, False)
    cnt = ('lcnt', lt0)
    KIND[cnt] = 'u'
    many = len(exg) > 1
    b = N(('bv', TMP + d))
    m = {ixa: b}
    for i, j in enumerate(rs0):
        m[cvs[j][5]] = ('lv', TMP + d, i, cvs[j][5][3])
    for i, (s, k, g) in enumerate(exg):
        at = N(cnt)
        extra = []
        gg = g
        if many:
            gt = tuple(sorted((subst(l, m) for l in g), key=T.key))
            n_, gt = canon_binder(TMP + d, gt)
            extra.append(Lit('b', ('lex', lt0, n_, gt)))
        if bound is not None and i == bound[0]:
            at = bound[2]
            gg = g - {bound[1]}
        finish(s, k, at, extra, gg, LTu)
    return out


def fixref(v, fix):
    if not isinstance(v, tuple):
        return fix(v)
    return fix(v)
