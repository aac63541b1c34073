"""Rules: constructs that a property forbids, whatever the rest of the program does."""
import signal
from . import compare, prog, valuate
from . import terms as T
from .engine import Engine, Lit, Undecided
from .terms import N, ONE, ZERO, Num, le, lt, mklit
from .valuate import admitted

KINDS = {'sizes': 'the lists need not be equally long (%s)', 'index': 'the position %s is not shown to be inside the sequence', 'element': 'the position %s is not shown to be inside the sequence',
         'nonempty': 'the sequence may be empty (%s)', 'substr': 'the start may lie beyond the string (%s)', 'div': 'the divisor may be zero (%s)',
         'fdiv': 'the divisor may be zero (%s)', 'null': 'the pointer may be null (%s)', 'entry': 'the map may have no such entry (%s)',
         'draw': 'the range drawn from may be empty (%s)'}


def atoms_in(x):
    out = set()
    T.contains_term(x, lambda t: (out.add(t) if t and t[0] == 'draw' else None) and False)
    return out


def promised(l):
    """Equal lengths of what abstracted calls return."""
    add = set()

    def visit(t):
        if t and t[0] == 'size' and isinstance(t[1], tuple) and t[1][:1] == ('out',) and t[1][1][0] == 'app':
            app, i = t[1][1], t[1][2]
            args = app[2:]
            for p in CONTRACTS.get(app[1].split('::')[-1], ((), ()))[1]:
                x, y = (q % len(args) for q in p)
                if i in (x, y):
                    j = y if i == x else x
                    other = ('out', app, j) if args[j] == ('output',) else args[j]
                    if isinstance(other, tuple):
                        f = T.eq(N(t), T.seq_len(T.Seq((('all', other),))))
                        if isinstance(f, Lit):
                            add.add(f)
        return False
    T.contains_term(l.x, visit)
    return add


def facts(pc, lit):
    """What holds of every value that occurs in a literal: the range of draws."""
    add = set()
    for l in list(pc) + [lit]:
        if isinstance(l, Lit):
            add |= promised(l)
            for a in atoms_in(l.x):
                lo, hi = N(a[1]), N(a[2])
                for f in (le(lo, N(a)), le(N(a), hi)):
                    if isinstance(f, Lit) and T.entails(pc, le(lo, hi)):
                        add.add(f)
    return frozenset(pc) | add


def positive(pc, x):
    """Is x > 0 on pc, by sign rules?"""
    if not isinstance(x, Num):
        return False
    if compare_lit(pc, lt(ZERO, x)):
        return True
    if x.d is not None:
        return positive(pc, Num(x.n)) and positive(pc, Num(x.d))
    if not x.n:
        return False
    for m, c in x.n.items():
        if c <= 0 or not all(e % 2 == 0 or factor(pc, a) for a, e in m):
            return False
    return True


def factor(pc, a):
    if not isinstance(a, tuple) or not a:
        return False
    if a[0] == 'app' and a[1] == 'log' and len(a) == 3:
        return compare_lit(pc, lt(ONE, N(a[2])))
    if a[0] == 'app' and a[1] in ('exp2', 'exp'):
        return True
    if a[0] == 'ratio':
        return positive(pc, N(a[1])) and positive(pc, N(a[2]))
    if a[0] == 'sum' and not a[3]:
        k = N(('bv', a[1]))
        inner = frozenset(pc) | {l for l in (le(ZERO, k), lt(k, N(a[2]))) if isinstance(l, Lit)}
        return compare_lit(pc, lt(ZERO, N(a[2]))) and positive(inner, N(a[4]))
    return compare_lit(pc, lt(ZERO, N(a)))


def compare_lit(pc, l):
    return l is True or isinstance(l, Lit) and T.entails(pc, l)


def safe(pc, l):
    if l is True:
        return True
    if not isinstance(l, Lit):
        return not T.feasible(pc)
    pc = facts(pc, l)
    if T.entails(pc, l) or not T.feasible(pc):
        return True
    if l.op == '!=' and isinstance(l.x, Num):
        return positive(pc, l.x) or positive(pc, ZERO - l.x)
    return False


LOOPY = ('cv', 'ix', 'lv', 'loop', 'liter', 'lcnt', 'lex')


def unclear(t):
    return bool(t) and (t[0] in LOOPY or t[0] == 'out' or t[0] == 'app' and str(t[1]).split('::')[-1] in CONTRACTS)


def broken(pc, l):
    """Is there an input that takes the path and violates the obligation? A
    value carried by a loop stands for those some iteration reaches, not for
    all, and the result of an abstracted call for those it returns."""
    if l is True or l is None:
        return False
    if l is False:
        pc = facts(pc, True)
        return not any(T.contains_term(x, unclear) for x in pc) and admitted(pc)
    if not isinstance(l, Lit):
        return False
    if any(T.contains_term(x, unclear) for x in list(pc) + [l]):
        return False
    pc = facts(pc, l)
    return admitted(pc | {T.neg(l)})


def length(eng, st, v):
    """Length of the list a parameter stands for."""
    if isinstance(v, tuple) and v and v[0] == 'ptr':
        v = v[1]
    if isinstance(v, tuple) and v and v[0] == 'loc':
        v = eng.read(st, v)
    if isinstance(v, tuple):
        v = T.Seq((('all', v),))
    return T.seq_len(v) if isinstance(v, T.Seq) else None


def equal(a, b):
    return T.eq(a, b) if a is not None and b is not None else None


def contracted(pre, _, how):
    """A call decided on its own elsewhere: what it asks of its arguments
    becomes an obligation here; what it promises is in `promised`."""
    def run(eng, fn, f, o, vs, st, fr, e):
        n = [length(eng, st, v) for v in vs[:3]]
        for i, j in pre:
            eng.oblige('sizes', equal(n[i], n[j]), st, e, fr)
        return eng.stopped(how, fn, f, o, vs, st, fr, e)
    return run


CONTRACTS = {
    'ComputePrecisionAndRecall': ((), ((-2, -1),), 'fresh'),
    'SampleCurveAtGivenPoints': (((0, 1),), ((3, 2),), 'fresh'),
    'GetEvenlyDistributedPoints01Interval': ((), (), 'fresh'),
    'ComputeAP': (((0, 1),), (), 'pure'),
    'ComputeNDCG': ((), (), 'pure'),
    'CollapseMatches': ((), (), 'pure'),
    'GetMatchErrors': ((), (), 'pure'),
    'SortMatchesDecreasingScore': ((), (), 'opaque'),
    'WriteCurveToFile': ((), (), 'log'),
}
# entry points whose callees are entry points of their own
MODULAR = ('global_ap', 'global_ap_groups', 'mean_ap', 'global_ndcg', 'global_ndcg_groups', 'mean_ndcg', 'mean_curve', 'global_curve')


def whole(fn, f):
    return None


def modular(fn, f):
    q = (f or fn)['qn']
    c = CONTRACTS.get(q.split('::')[-1]) if q.startswith('kws::core::') and fn['repo'] else None
    return contracted(*c) if c else None


def partly(fn, f):
    """As modular, with the simple calls followed."""
    q = (f or fn)['qn'].split('::')[-1]
    return None if q == 'GetEvenlyDistributedPoints01Interval' else modular(fn, f)


def _bounds(job):
    p, name, f, stop, limit = job
    T.forget()
    compare.forget()
    res = {'driver': name, 'obligations': 0, 'discharged': 0, 'bad': [], 'open': [], 'functions': [], 'error': ''}

    def alarm(*_):
        raise TimeoutError('time limit')
    signal.signal(signal.SIGALRM, alarm)
    left, sites = {}, {}
    stop0 = stop

    def attempt(step, seconds):
        signal.alarm(seconds)
        try:
            step()
        except TimeoutError:
            return 'time limit'
        except Undecided as e:
            return str(e)
        except (RecursionError, MemoryError) as e:
            return type(e).__name__
        finally:
            signal.alarm(0)
        return ''

    def closed():
        eng = Engine(p, stop)
        eng.invariants = True
        try:
            eng.run(f)
        finally:
            res['functions'] = sorted({(p.funcs[i]['qn'], p.funcs[i]['file'], p.funcs[i]['line']) for i in eng.analysed if p.funcs[i]['file'].startswith(prog.REPO + '/')})
        for kind, l, pc, line, fn in sorted(set(eng.obl), key=repr):
            res['obligations'] += 1
            if safe(pc, l):
                res['discharged'] += 1
            else:
                left.setdefault((kind, line, fn), []).append((l, pc))
        for k, v in left.items():
            hit = [x for x in v if broken(x[1], x[0])]
            if hit:
                sites[k] = hit[0]

    def short(n, stop):
        eng = Engine(p, stop, unroll=n)
        eng.run(f)
        for kind, l, pc, line, fn in sorted(set(eng.obl), key=repr):
            k = (kind, line, fn)
            if k not in sites and (k in left or res['error'] or stop0 is not whole) and not safe(pc, l) and broken(pc, l):
                sites[k] = (l, pc)

    res['error'] = attempt(closed, limit)
    if res['error'] or any(k not in sites for k in left):
        for n in (1, 2, 3):
            attempt(lambda: short(n, whole), max(5, limit // 6))
            if stop is modular:
                attempt(lambda: short(n, partly), max(5, limit // 6))
    for k, (l, pc) in sites.items():
        res['bad'].append((k, str(l)[:160], sorted(map(str, pc))[:6]))
    res['open'] = [(k, str(v[0][0])[:160]) for k, v in left.items() if k not in sites]
    return res


def bounds(tier):
    from . import check
    from .check import Violation, export
    p, dropped = export('P25.cc', 'P25')
    jobs = []
    for f in sorted(p.funcs.values(), key=lambda f: f['qn']):
        if f['qn'].endswith('__code'):
            jobs.append((p, f['qn'][:-6], f, modular if f['qn'][:-6] in MODULAR else whole, 90 if tier == 'quick' else 540))
    rs = check.run_jobs(jobs, work=_bounds)
    viol, seen = [], set()
    for r in rs:
        for (kind, line, fn), lit, pc in r['bad']:
            if (kind, line) in seen:
                continue
            seen.add((kind, line))
            viol.append(Violation('%s %s' % (kind, line), '%s in %s: %s; from %s when %s' % (
                line, fn, KINDS.get(kind, '%s') % lit, r['driver'], ' and '.join(pc)[:300])))
    ev = {'rule_obligations': sum(r['obligations'] for r in rs), 'rule_discharged': sum(r['discharged'] for r in rs),
          'entry_points': len(rs), 'entry_points_samples': [{k: r[k] for k in ('driver', 'obligations', 'discharged', 'open', 'error')} for r in rs],
          'functions_analysed': sorted({'%s %s:%d' % (q, f, l) for r in rs for q, f, l in r['functions']}), 'drivers_not_compiling': dropped}
    return viol, ev
