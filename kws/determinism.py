"""Constructs whose value may differ between two runs on the same input:
everything reachable from the main of either tool is searched for them."""
import os
import re
import signal
import subprocess
import tempfile
from . import prog
from . import terms as T
from .engine import Engine, Undecided

SOURCES = {
    'time', 'clock', 'gettimeofday', 'clock_gettime', 'timespec_get', 'ftime', 'times', 'getrusage', 'rand', 'srand', 'rand_r', 'random', 'srandom',
    'drand48', 'lrand48', 'mrand48', 'getrandom', 'getentropy', 'arc4random', 'getpid', 'getppid', 'gettid', 'getenv', 'secure_getenv', 'getcwd',
    'gethostname', 'getlogin', 'getuid', 'tmpnam', 'tempnam', 'localtime', 'pthread_self', 'sched_getcpu', 'sbrk', '__rdtsc', '__builtin_ia32_rdtsc', '__rdtscp', '__builtin_ia32_rdtscp', '__builtin_readcyclecounter', '__builtin_ia32_rdrand32_step',
    '__builtin_ia32_rdrand64_step', '__builtin_ia32_rdseed64_step', '__builtin_ia32_rdseed_di_step', '__builtin_ia32_rdrand64_step',
    'omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads', 'omp_get_num_procs', 'omp_get_wtime', 'setlocale', 'random_shuffle', 'sysconf',
    '__builtin_frame_address', '__builtin_return_address', 'readdir', 'get_nprocs'}
SOURCE_PARTS = ('std::random_device::', 'std::this_thread::', 'std::thread::', 'std::async', 'std::filesystem::directory_iterator')
GROW = ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'append', 'push', 'emplace')
LINEAR = ('std::vector', 'std::list', 'std::deque', 'std::basic_string', 'std::forward_list', 'std::queue', 'std::stack')
ORDERED = ('std::map', 'std::set', 'std::multimap', 'std::multiset', 'std::priority_queue')


def last(q):
    return q.split('::')[-1]


def children(n):
    for k, v in n.items():
        if k in ('fn', 't', 'vt'):
            continue
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def nodes(n):
    todo = [n]
    while todo:
        x = todo.pop()
        if not isinstance(x, dict):
            continue
        yield x
        todo.extend(reversed(list(children(x))))


def base(n):
    """Identity of the variable or field an expression is a part of."""
    while isinstance(n, dict):
        if n.get('k') == 'var':
            return ('var', n['id'])
        if n.get('k') == 'mem':
            return ('mem', n['name'])
        n = n.get('e') or n.get('obj') or n.get('b') or (n['a'][0] if n.get('k') in ('call', 'construct') and n.get('a') else None)
    return None


class Unit:
    def __init__(self, p):
        self.p = p
        self.viol = {}
        self.sites = 0
        self.over = {}
        for f in p.funcs.values():
            for o in f.get('over') or ():
                self.over.setdefault(o if isinstance(o, int) else o.get('id'), []).append(f['id'])
        self.reach = self.reachable()

    # ---------------------------------------------------------- call graph
    def callees(self, body):
        for n in nodes(body):
            f = n.get('fn')
            if isinstance(f, dict) and 'id' in f:
                yield f['id'], f
            elif isinstance(f, int):
                yield f, None

    def reachable(self):
        p = self.p
        todo = [f['id'] for f in p.funcs.values() if f['qn'] == 'main' or f.get('dtor') or f['qn'].endswith('<dtor>')]
        seen = set()
        while todo:
            i = todo.pop()
            if i in seen or i not in p.funcs:
                continue
            seen.add(i)
            f = p.funcs[i]
            for part in [f.get('body')] + list(f.get('inits') or ()):
                if part:
                    for j, _ in self.callees(part):
                        todo.append(j)
                        todo.extend(self.over.get(j, ()))
        return [p.funcs[i] for i in sorted(seen) if p.funcs[i].get('hasbody')]

    def flag(self, f, n, what, about=None):
        site = '%s:%s' % (f['file'].replace(prog.REPO + '/', ''), n.get('l', f['line']))
        key = (site, what)
        if key not in self.viol:
            self.viol[key] = (site, f['qn'], what)

    # ---------------------------------------------------------- types
    def pointer(self, t):
        return self.p.unref(t)['k'] == 'ptr'

    def hashed(self, t):
        return self.p.qn(t).startswith('std::unordered_')

    def by_address(self, t):
        if self.p.qn(t) not in ORDERED:
            return False
        ta = self.p.targs(t)
        return bool(ta) and bool(re.search(r'\*( const)?(,|>|$)', str(ta[0])))

    def orderless(self, t):
        return self.hashed(t) and 'hash' or self.by_address(t) and 'address' or None

    def floating(self, t):
        return self.p.unref(t)['k'] == 'float'

    # ---------------------------------------------------------- order of effects
    def effects(self, body, own=frozenset(), depth=0, seen=frozenset()):
        """Effects of a loop body whose outcome depends on the order of the
        iterations: [(what, growing container or None, node)]."""
        own = set(own)
        for n in nodes(body):
            if n.get('k') == 'decl':
                own |= {('var', v['id']) for v in n['v']}
        out = []
        for n in nodes(body):
            k = n.get('k')
            if k == 'call':
                f = n.get('fn') or {}
                q = f.get('qn', '')
                obj = n.get('obj') or (n['a'][0] if n.get('a') and f.get('method') else None)
                if q.startswith(LINEAR) and last(q) in GROW + ('insert', 'operator+='):
                    b = base(obj)
                    if b not in own:
                        out.append(('elements are added to a list', b, n))
                elif q.startswith('std::') and last(q) in ('operator<<', 'write', 'put') and self.stream(n):
                    if base((n.get('a') or [None])[0]) not in own and base(obj) not in own:
                        out.append(('output is written', None, n))
                elif q.startswith('std::') and last(q) == 'operator()' and 'distribution' in q:
                    out.append(('random numbers are drawn', None, n))
                elif f.get('repo') and depth < 4 and f.get('id') in self.p.funcs and f['id'] not in seen:
                    g = self.p.funcs[f['id']]
                    if g.get('hasbody'):
                        for w, b, _ in self.effects(g['body'], (), depth + 1, seen | {f['id']}):
                            a = None
                            if b and b[0] == 'var':
                                for prm, arg in zip(g.get('params') or (), n.get('a') or ()):
                                    if prm.get('id') == b[1]:
                                        a = base(arg)
                                        if a in own:
                                            break
                                else:
                                    continue
                                if a in own:
                                    continue
                            out.append((w, a, n))
            elif k == 'cassign' and self.floating(n.get('t')) and n.get('op') in ('+=', '-=', '*=', '/='):
                if base(n.get('x')) not in own:
                    out.append(('floating point values are accumulated', None, n))
        return out

    def stream(self, n):
        t = self.p.qn(n.get('t', ''))
        return 'ostream' in t or 'stream' in t

    def settled(self, f, b):
        """Is the container put in order somewhere in the function?"""
        for n in nodes(f['body']):
            if n.get('k') == 'call' and last((n.get('fn') or {}).get('qn', '')) in ('sort', 'stable_sort') and n.get('a'):
                if b is not None and base(n['a'][0]) == b:
                    return True
        return False

    def iterated(self, f, site, why, body, own=()):
        self.sites += 1
        for w, b, n in self.effects(body, own):
            if b is not None and self.settled(f, b):
                continue
            self.flag(f, site, 'iteration in %s order in which %s (line %s)' % (why, w, n.get('l')))

    def function(self, f):
        body = f['body']
        for part in [body] + [i.get('e') for i in f.get('inits') or () if i.get('e')]:
            for n in nodes(part):
                self.node(f, n)
        self.begins(f, body)

    def begins(self, f, body):
        """Iterators over containers without an order of their own."""
        def begin(n):
            for m in nodes(n):
                if m.get('k') == 'call' and last((m.get('fn') or {}).get('qn', '')) in ('begin', 'cbegin'):
                    o = m.get('obj') or (m['a'][0] if m.get('a') else None)
                    w = o and self.orderless(o.get('t', ''))
                    if w:
                        return w
            return None
        its = {}
        for n in nodes(body):
            if n.get('k') == 'decl':
                for v in n['v']:
                    w = v.get('init') and begin(v['init'])
                    if not w:
                        continue
                    q = self.p.qn(v.get('t', ''))
                    if q.startswith(LINEAR):
                        self.sites += 1
                        if not self.settled(f, ('var', v['id'])):
                            self.flag(f, n, 'a list is filled in %s order' % w)
                    elif 'iterator' in q.lower() or 'iterator' in str(v.get('t', '')).lower():
                        its[('var', v['id'])] = w
                    elif self.floating(v.get('t', '')):
                        self.sites += 1
                        self.flag(f, n, 'floating point values are accumulated in %s order' % w)
            elif n.get('k') == 'call':
                fn = n.get('fn') or {}
                q = fn.get('qn', '')
                w = any(begin(a) for a in n.get('a') or ()) and next(begin(a) for a in n['a'] if begin(a))
                if not w:
                    continue
                o = n.get('obj')
                if q.startswith(LINEAR) and last(q) in ('assign', 'insert'):
                    self.sites += 1
                    if not self.settled(f, base(o)):
                        self.flag(f, n, 'a list is filled in %s order' % w)
                elif q in ('std::accumulate', 'std::reduce', 'std::inner_product') and self.floating(n.get('t', '')):
                    self.sites += 1
                    self.flag(f, n, 'floating point values are accumulated in %s order' % w)
                elif q in ('std::copy', 'std::transform', 'std::copy_if'):
                    self.sites += 1
                    d = (n['a'] + [None] * 3)[2]
                    if 'back_insert' in str((d or {}).get('t', '')) and not self.settled(f, base(d)):
                        self.flag(f, n, 'a list is filled in %s order' % w)
        if its:
            for n in nodes(body):
                if n.get('k') in ('for', 'while', 'do'):
                    heads = [x for x in (n.get('init'), n.get('i'), n.get('c')) if isinstance(x, dict)]
                    for it, w in its.items():
                        if any(base(m) == it for h in heads for m in nodes(h) if m.get('k') == 'var') or \
                           any(m.get('k') == 'decl' and any(('var', v['id']) == it for v in m['v']) for h in heads for m in nodes(h)):
                            self.iterated(f, n, w, n['body'], {it})
                            break

    def node(self, f, n):
        k = n.get('k')
        fn = n.get('fn') if isinstance(n.get('fn'), dict) else {}
        q = fn.get('qn', '')
        if k in ('call', 'fn', 'construct') and q:
            self.sites += 1
            if not self.p.funcs.get(fn.get('id'), {}).get('hasbody') and (q in SOURCES or q.startswith('std::') and q.count('::') == 1 and last(q) in SOURCES) or q.startswith(SOURCE_PARTS) or q.startswith('std::chrono::') and last(q) == 'now':
                self.flag(f, n, 'use of %s' % q)
            if q == 'std::locale::<ctor>' and fn.get('pt') and 'char' in str(fn['pt'][0]):
                self.flag(f, n, 'use of a locale of the environment')
            if q == 'std::basic_ostream::operator<<' and any(re.match(r'const (volatile )?void \*', str(t)) for t in fn.get('pt') or ()):
                self.flag(f, n, 'an address is printed')
            if q.startswith('std::hash') and last(q) == 'operator()' and any(self.pointer(t) for t in fn.get('pt') or ()):
                self.flag(f, n, 'an address is hashed')
            if q in ('std::sort', 'std::stable_sort', 'std::nth_element', 'std::partial_sort') and fn.get('pt'):
                default = len(fn['pt']) == (2 if 'sort' in q and 'partial' not in q else 3)
                e = str(fn['pt'][0])
                if default and (re.search(r'__normal_iterator<[^,]*\*( const)? \*', e) or re.search(r'(pair|tuple)<[^>]*\*', e) or re.match(r'.*\* \*$', e)):
                    self.flag(f, n, 'elements are sorted by address')
            if q.startswith('std::less') and last(q) == 'operator()' and any(self.pointer(t) for t in fn.get('pt') or ()):
                self.flag(f, n, 'addresses are compared')
        elif k == 'cast' and n.get('ck') == 'PointerToIntegral':
            self.sites += 1
            self.flag(f, n, 'an address is used as a number')
        elif k == 'bin' and n.get('op') in ('<', '>', '<=', '>='):
            self.sites += 1
            if self.pointer(n['x'].get('t', '')) and self.pointer(n['y'].get('t', '')) and self.comparator(f) \
               and self.plain(n['x']) and self.plain(n['y']):
                self.flag(f, n, 'addresses are compared')
        elif k == 'rangefor':
            w = self.orderless(n['range'].get('t', ''))
            self.sites += 1
            if w:
                self.iterated(f, n, w, n['body'], {('var', n['var']['id'])})
        elif k == 'omp':
            self.sites += 1
            self.parallel(f, n)

    def comparator(self, f):
        ps = f.get('params') or ()
        return f.get('ret') == 'bool' and (len(ps) == 2 or len(ps) == 1 and f.get('method'))

    def plain(self, n):
        """An address taken as such, not a position inside an array."""
        while n.get('k') in ('load', 'cast', 'upcast'):
            n = n['e']
        if n.get('k') == 'un' and n.get('op') == '&':
            return True
        if n.get('k') == 'call':
            return last((n.get('fn') or {}).get('qn', '')) in ('get', 'addressof', 'data', 'c_str')
        return n.get('k') in ('mem', 'var', 'this')

    def parallel(self, f, n):
        d = n.get('dir', '')
        if 'Critical' in d or 'Atomic' in d or 'Ordered' in d or 'Barrier' in d or 'Single' in d or 'Master' in d:
            return
        if 'Parallel' not in d and 'For' not in d and 'Section' not in d and 'Task' not in d:
            return
        private = set()
        for c in n.get('cl') or ():
            if c['n'] in ('private', 'firstprivate', 'lastprivate', 'linear'):
                private |= {('var', v['id']) for v in c['v']}
            if c['n'] == 'reduction':
                for v in c['v']:
                    private.add(('var', v['id']))
                    if self.floating(v.get('t', '')):
                        self.flag(f, n, 'concurrent accumulation of the floating point value %s' % v['name'])
        body = n.get('body') or {}
        own = set(private)
        for m in nodes(body):
            if m.get('k') == 'decl':
                own |= {('var', v['id']) for v in m['v']}
            if m.get('k') == 'rangefor':
                own.add(('var', m['var']['id']))
        guarded = set()
        for m in nodes(body):
            if m.get('k') == 'omp' and ('Critical' in m.get('dir', '') or 'Atomic' in m.get('dir', '')):
                guarded |= {id(x) for x in nodes(m)}
        for w, b, m in self.effects(body, own):
            if b is None or b not in own:
                self.flag(f, n, 'concurrent iterations in which %s (line %s)' % (w, m.get('l')))
        for m in nodes(body):
            if id(m) in guarded:
                continue
            if m.get('k') in ('assign', 'cassign') and isinstance(m.get('x'), dict) and m['x'].get('k') in ('var', 'mem') and base(m['x']) not in own and base(m['x'].get('b')) not in own:
                self.flag(f, n, 'concurrent iterations write %s (line %s)' % (m['x'].get('name'), m.get('l')))
            if m.get('k') == 'un' and m.get('op') in ('++', '--') and base(m['e']) not in own and m['e'].get('k') == 'var':
                self.flag(f, n, 'concurrent iterations write %s (line %s)' % (m['e'].get('name'), m.get('l')))


# -------------------------------------------------------------- values never set
# entry points whose paths are searched for values nobody has set
ENTRIES = ('P25.cc', 'P05.cc', 'P06.cc', 'P07.cc', 'P08.cc', 'P10.cc', 'P13.cc', 'P16.cc', 'P21.cc', 'P23.cc', 'P15.cc')
LOOPY = ('loop', 'liter', 'lcnt', 'lex', 'first', 'exists', 'sum', 'map')


def unset_in(x):
    """Names of the unset values x depends on (what a loop carries may start
    without a value and be set before it counts)."""
    names = set()

    def visit(t):
        if t and t[0] == 'uninit':
            names.add(str(t[1]))
        return False
    T.contains_term(x, visit, skip=lambda t: t[0] in LOOPY)
    return names


def scalar(v):
    return isinstance(v, (T.Num, bool)) or type(v).__name__ == 'Lit'


def _unset(job):
    p, name, f, stop, limit = job
    res = {'driver': name, 'paths': 0, 'bad': [], 'error': '', 'functions': []}

    def alarm(*_):
        raise TimeoutError('time limit')
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        eng = Engine(p, stop)
        outs = eng.run(f)
        res['functions'] = sorted('%s %s:%d' % (p.funcs[i]['qn'], p.funcs[i]['file'], p.funcs[i]['line']) for i in eng.analysed
                                  if p.funcs[i]['file'].startswith(prog.REPO + '/'))
        res['paths'] = len(outs)
        bad = {}
        for s, o in outs:
            for l in s.pc:
                for n in unset_in(l):
                    bad.setdefault(n, 'it decides which path is taken')
            for x in o[1:]:
                if scalar(x):
                    for n in unset_in(x):
                        bad.setdefault(n, 'it is part of the result')
            for r in s.mem:
                if r[0] in ('G', 'LOG'):
                    for n in unset_in(eng.rootval(s, r)):
                        bad.setdefault(n, 'it is part of what is written')
        res['bad'] = sorted(bad.items())
    except TimeoutError:
        res['error'] = 'time limit'
    except (Undecided, RecursionError, MemoryError) as e:
        res['error'] = str(e)[:200] or type(e).__name__
    finally:
        signal.alarm(0)
    return res


def never_set(tier):
    from . import check, safety
    from .check import Violation
    from .props import PROPS
    jobs, dropped = [], []
    for src in ENTRIES:
        cfg = next((c for c in PROPS.values() if src in c.get('specs', [])), {})
        p, d = check.export(src, 'P17')
        dropped += d
        for f in sorted(p.funcs.values(), key=lambda f: f['qn']):
            if not f['qn'].endswith('__code'):
                continue
            n = f['qn'][:-6]
            if src == 'P25.cc':
                stop = safety.modular if n in safety.MODULAR else safety.whole
            else:
                st = cfg.get('per', {}).get(n, {}).get('stops', cfg.get('stops') or [()])[0]
                stop = check.stopper(st, cfg.get('hooks'))
            jobs.append((p, n + ' of ' + src, f, stop, 60 if tier == 'quick' else 300))
    rs = check.run_jobs(jobs, work=_unset)
    viol = []
    for r in rs:
        for n, why in r['bad']:
            viol.append(Violation('unset ' + n, '%s is used before it has a value on a path of %s: %s' % (n, r['driver'], why)))
    ev = {'rule_obligations': sum(r['paths'] for r in rs), 'rule_discharged': sum(r['paths'] for r in rs if not r['bad']),
          'entry_points': len(rs), 'entry_points_not_finished': [r['driver'] + ': ' + r['error'] for r in rs if r['error']],
          'drivers_not_compiling': dropped}
    return viol, ev


def warnings(src):
    """Locals read before they are set, as the compiler's dataflow finds them."""
    cmd = ['clang++', '-fsyntax-only', '-std=gnu++14', '-fopenmp', '-Wno-everything', '-Wuninitialized', '-Wsometimes-uninitialized', '-fno-caret-diagnostics',
           '-I' + prog.REPO, src]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out = []
    for l in r.stderr.splitlines():
        m = re.match(r'(.*?):(\d+):\d+: (warning|error): (.*)', l)
        if m and m.group(3) == 'warning' and os.path.abspath(m.group(1)).startswith(prog.REPO + '/') and 'uninitialized' in l:
            out.append(('%s:%s' % (os.path.abspath(m.group(1)).replace(prog.REPO + '/', ''), m.group(2)), re.sub(r' \[-W.*', '', m.group(4))))
        elif m and m.group(3) == 'error':
            raise prog.AnalysisBroken('%s does not compile: %s' % (src, m.group(4)))
    return sorted(set(out))


def repeatable(tier):
    from .check import Violation
    viol, seen = [], set()
    functions, sites, units = set(), 0, []
    d = os.path.join(prog.REPO, 'tools')
    mains = [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith('.cc') and not x.endswith('Test.cc')]
    if not mains:
        raise prog.AnalysisBroken('no tool found in ' + d)
    for src in mains:
        fd, out = tempfile.mkstemp(suffix='.json')
        os.close(fd)
        try:
            prog.export(src, [prog.REPO], out)
            u = Unit(prog.Prog(out))
        finally:
            if os.path.exists(out):
                os.unlink(out)
        if not any(f['qn'] == 'main' for f in u.reach):
            continue
        units.append(os.path.basename(src))
        for f in u.reach:
            if f['file'].startswith(prog.REPO + '/'):
                functions.add('%s %s:%d' % (f['qn'], f['file'], f['line']))
                u.function(f)
        for site, fn, what in u.viol.values():
            if (site, what) not in seen:
                seen.add((site, what))
                viol.append(Violation(site, 'in %s (%s): %s' % (fn, site, what)))
        for site, what in warnings(src):
            u.sites += 1
            if (site, what) not in seen:
                seen.add((site, what))
                viol.append(Violation(site, '%s: %s' % (site, what)))
        sites += u.sites
    ev = {'rule_obligations': sites, 'rule_discharged': sites - len(viol), 'tools': units, 'functions_analysed': sorted(functions)}
    return viol, ev
