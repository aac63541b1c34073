"""What the command line gives to the evaluation tool, left abstract.

Registering an option records which variable it belongs to; parsing either fails
or gives every registered variable a value that is a function of the option's
name and of the variable's default. The reference asks for the same values with
Given(name, default) and Parsed(argc, argv). Focus("a b") limits the options
that may be given to those named; the others keep their default."""
from .terms import *

OPTS = ('OPTS',)
FOCUS = ('FOCUS',)
UNTIL = ('UNTIL',)


def given(eng, st, name, cur, ty):
    from .engine import tm
    f = st.mem.get(FOCUS)
    if f is not None and name not in f:
        return cur
    t = ('app', 'given', name, tm(cur))
    k = eng.p.kind(ty)
    if k:
        KIND[t] = k
    return eng.mat(t, ty)


def text(eng, st, v):
    from .models import strof, lit_of
    return lit_of(strof(eng, st, v))


def register(eng, fn, f, o, vs, st, fr, e):
    from .engine import VOID, Undecided, is_tag, isloc
    kind = fn['qn'].split('::')[-1]
    name = text(eng, st, vs[0])
    p = eng.read(st, vs[2]) if isloc(vs[2]) else vs[2]
    if name is None or not is_tag(p, 'ptr'):
        raise Undecided('option with a computed name')
    old = st.mem.get(OPTS, ())
    if kind == 'RegisterOption':
        fresh = name != 'help' and all(n != name for n, _ in old)
        return [(st.set(OPTS, old + ((name, p[1]),)) if fresh else st, fresh)]
    n = sum(1 for x, _ in old if x.startswith(kind))
    return [(st.set(OPTS, old + (('%s %d' % (kind, n), p[1]),)), VOID)]


def parse(eng, fn, f, o, vs, st, fr, e):
    from .engine import tm, isloc
    args = tuple(tm(eng.read(st, v)) if isloc(v) else eng.argterm(st, v) for v in vs[:1])
    out = []
    for s, ok in eng.branch(st, Lit('b', ('app', 'parsed') + args)):
        if ok and 'Parser' in fn['qn']:
            for name, loc in s.mem.get(OPTS, ()):
                s = eng.write(s, loc, given(eng, s, name, eng.read(s, loc), loc[3]))
        out.append((s, ok))
    return out


def ask(eng, fn, f, o, vs, st, fr, e):
    from .engine import isloc
    cur = eng.read(st, vs[1]) if isloc(vs[1]) else vs[1]
    if eng.p.kind(fn['ret']) == 's':
        from .models import strof
        cur = strof(eng, st, cur)
    return [(st, given(eng, st, text(eng, st, vs[0]), cur, fn['ret']))]


def focus(eng, fn, f, o, vs, st, fr, e):
    from .engine import VOID
    return [(st.set(FOCUS, frozenset(text(eng, st, vs[0]).split(','))), VOID)]


def until_match(eng, fn, f, o, vs, st, fr, e):
    from .engine import VOID
    return [(st.set(UNTIL, True), VOID)]


def until_groups(eng, fn, f, o, vs, st, fr, e):
    from .engine import VOID
    return [(st.set(UNTIL, 'groups'), VOID)]


def group(eng, fn, f, o, vs, st, fr, e):
    if st.mem.get(UNTIL) != 'groups':
        return eng.opaque_call(fn, o, vs, st, fr, e, known=True, fresh=True)
    eng.exc.append((st, ('throw', None, ('given',) + tuple(eng.argterm(st, v) for v in vs[:2]))))
    return []


def source(eng, fn, f, o, vs, st, fr, e):
    if st.mem.get(UNTIL) == 'groups':
        return [(st, True)]
    return eng.opaque_call(fn, o, vs, st, fr, e, known=True)


def match(eng, fn, f, o, vs, st, fr, e):
    """The matcher; a run that is followed only so far ends with what it is given."""
    if st.mem.get(UNTIL) == 'groups':
        return [(st, Seq(()))]
    if not st.mem.get(UNTIL):
        return eng.opaque_call(fn, o, vs, st, fr, e, known=True)
    eng.exc.append((st, ('throw', None, ('given',) + tuple(eng.argterm(st, v) for v in vs))))
    return []


HOOKS = {'::Parser::RegisterOption': register, '::Parser::RegisterArgument': register, '::Parser::RegisterOptArgument': register,
         '::Parser::Parse': parse, '::expect::Parsed': parse, '::expect::Given': ask, '::expect::Focus': focus, '::expect::UntilMatch': until_match, '::AnyMatcher::Match': match,
         '::RefSource::Read': source, '::HypSource::Read': source,
         '::expect::UntilGroups': until_groups, '::GroupMatchesByQueryGroup': group}


def deep(eng, st, v, seen=(), tables=None):
    """A value with everything it points to; texts do not count."""
    from .engine import tm, isloc, is_tag
    tables = {} if tables is None else tables
    if is_tag(v, 'ref'):
        v = ('ptr', v[1])
    if is_tag(v, 'ptr') or is_tag(v, 'box'):
        l = v[1]
        if not isloc(l) or l[1][0] not in ('L', 'T', 'H') or l[1] in seen:
            return tm(v)
        ty = eng.rty.get(l[1]) if not l[2] else l[3]
        x = eng.read(st, l)
        # a table two parts share is not the same as a table for each of them
        table = (tables.setdefault(l, len(tables)),) if isinstance(x, Seq) or is_tag(x, 'mempty') or is_tag(x, 'msorted') or is_tag(x, 'mput') else ()
        return ('object', eng.p.recid(ty) if ty else None, deep(eng, st, x, seen + (l[1],), tables)) + table
    if isinstance(v, Rec):
        d = ((k, deep(eng, st, x, seen, tables)) for k, x in v.over)
        return ('made', tuple((k, x) for k, x in d if not (isinstance(x, tuple) and x and x[0] == 'str')))
    if is_tag(v, 'clo'):
        return eng.behaviour(st, v)
    t = tm(v)
    return ('unset',) if contains_term(t, lambda x: x[0] == 'undef') else t


def started(eng, fn, f, o, vs, st, fr, e):
    from .engine import isloc
    t = ('app', 'run', deep(eng, st, ('ptr', o))) + tuple(eng.argterm(st, v) for v in vs)
    return [(st, eng.mat(t, fn['ret']))]


START = {'::GenericKwsEvalTool::Main': started}
