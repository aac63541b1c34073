"""Runs the reference drivers of one property and decides them."""
import hashlib, json, multiprocessing, os, re, resource, signal, sys, time, traceback
from . import prog, compare, cmdline, scale, terms as T
from .engine import Engine, Undecided

HERE = prog.HERE
WORK = os.path.join(prog.BUILD, 'work')


# ---------------------------------------------------------------- export
def blank(lines, ln):
    """Blank the top-level construct around 1-based line ln; True if done."""
    i = ln - 1
    if i >= len(lines):
        return False
    j = i
    while j > 0 and not re.match(r'(PAIR|CODE|SPEC|ORDER|GEOM|template class|[A-Z_]+\()', lines[j]):
        j -= 1
    if not re.match(r'(PAIR|CODE|SPEC|template class|[A-Z_]+\()', lines[j]):
        return False
    k, depth, seen = j, 0, False
    while k < len(lines):
        for ch in lines[k]:
            if ch in '({':
                depth += 1
                seen = True
            elif ch in ')}':
                depth -= 1
        done = (seen and depth == 0) or (not seen and lines[k].rstrip().endswith(';'))
        lines[k] = ''
        if done:
            break
        k += 1
    return True


def export(spec, tag):
    """Export a driver file; drivers that no longer compile are dropped and
    reported. Returns (Prog, dropped diagnostics)."""
    os.makedirs(WORK, exist_ok=True)
    src = os.path.join(HERE, 'spec', spec)
    dropped = []
    lines = open(src).read().split('\n')
    base = os.path.splitext(spec)[0]
    out = os.path.join(WORK, '%s.%s.%d.json' % (base, tag, os.getpid()))
    cur = src
    try:
        for attempt in range(12):
            try:
                prog.export(cur, [prog.REPO, os.path.join(HERE, 'spec'), WORK], out)
                return prog.Prog(out), dropped
            except prog.AnalysisBroken as e:
                msg = str(e)
                hit = False
                for m in re.finditer(r'(%s|%s):(\d+):\d+: (error|note|fatal error)' % (re.escape(src), re.escape(cur)), msg):
                    ln = int(m.group(2))
                    if ln - 1 < len(lines) and lines[ln - 1] and blank(lines, ln):
                        hit = True
                        if m.group(3) != 'note':
                            continue
                if not hit:
                    raise
                dropped.append(re.sub(r'\s+', ' ', next((l for l in msg.split('\n') if 'error:' in l), msg))[:300])
                cur = os.path.join(WORK, '%s.%d.cc' % (base, os.getpid()))
                with open(cur, 'w') as f:
                    f.write('\n'.join(lines))
        raise prog.AnalysisBroken('drivers of %s do not compile' % spec)
    finally:
        for f in (out, os.path.join(WORK, '%s.%d.cc' % (base, os.getpid()))):
            if os.path.exists(f):
                os.unlink(f)


# ---------------------------------------------------------------- one driver
def stopper(names, hooks=None):
    def stop(fn, f):
        if not (names or hooks) or not fn['repo']:
            return None
        q = (f or fn)['qn']
        for n, h in (hooks or {}).items():
            if ('::' + q).endswith(n):
                return h
        for n in names:
            if q.endswith('::' + n.rstrip('!=@')):
                return {'!': 'opaque', '=': 'fresh', '@': 'log'}.get(n[-1], 'pure')
        return None
    return stop


def apps(v, names):
    s = set()
    T.contains_term(v, lambda x: (s.add(x[1]) if x[0] == 'app' and isinstance(x[1], str) and x[1] in names else None) and False)
    return s


def kept(p, st):
    """Functions with a body that the list st of names leaves abstract."""
    names = tuple('::' + n.rstrip('!=@') for n in st)
    return {f['qn'] for f in p.funcs.values() if f.get('hasbody') and names and f['qn'].endswith(names)}


def error_class(r, v):
    """Of what goes to standard error only the sort of message counts."""
    if r != ('G', 'std::cerr'):
        return v
    words = set()
    T.contains_term(v, lambda t: (words.update(w for w in ('ERROR', 'WARN') if w in t[1]) if t[0] == 'str' and len(t) == 2 else None) and False)
    empty = isinstance(v, T.Seq) and not v.parts
    return ('messages',) + (('none',) if empty else tuple(sorted(words)) or ('some',))


def decide(p, code, spec, stops, ignore=(), budget=60000, unroll=None, cfg={}):
    eng = Engine(p, stopper(stops, cfg.get('hooks')), unroll=unroll)
    if cfg.get('own'):
        eng.own = True
        eng.hooks.update(copyctor=True, copyassign=True)
    A = eng.run(code)
    an = set(eng.analysed)
    if cfg.get('own'):
        for s, o in A:
            for root in s.mem.get(('OWN',), ()):
                eng.ownv.append(('object without owner at exit (leak)', eng.ownsite.get(root, ''), T.show(root)[:80]))
    ownv = sorted(set(eng.ownv))
    B = eng.run(spec)
    # a parameter called scratch... may be left in any state
    ignore = set(ignore) | set(('A', 'a%d' % i) for i, x in enumerate(code['params']) if (x.get('name') or '').startswith('scratch'))
    if cfg.get('observe') == 'errors':
        eng.view = error_class
    observe = {'result': lambda r: False, 'no messages': lambda r: r != ('G', 'std::cerr')}.get(cfg.get('observe'))
    r = compare.compare_summaries(eng, A, B, ignore, observe, budget=budget, first=unroll is not None)
    r.ownv = ownv
    return eng, r, an, A, B


def run_driver(args):
    p, name, code, spec, cfg, limit = args
    t = time.time()
    T.forget()
    compare.forget()
    res = {'driver': name, 'verdict': None, 'obligations': 0, 'discharged': 0, 'pairs': 0, 'functions': [], 'detail': [],
           'unknown': {}, 'divs': 0, 'mode': ''}

    def alarm(*_):
        raise TimeoutError('time limit of the driver')
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(max(1, limit * 11 // 20))
    try:
        modes = cfg.get('stops') or [()]
        verdicts = []
        tried_bounded = False
        late = False
        for st in modes:
            if late:
                break
            try:
                eng, r, an, A, B = decide(p, code, spec, st, budget=cfg.get('budget', 60000), cfg=cfg)
            except TimeoutError as e:
                res['detail'].append(str(e))
                verdicts.append((None, None))
                late = True
                continue
            except Undecided as e:
                res['detail'].append('undecided: %s' % e)
                verdicts.append((None, None))
                continue
            verdicts.append((r.verdict, r))
            res['mode'] = 'modular' if st else 'inlined'
            res['pairs'] = r.pairs
            res['obligations'] = r.obs
            res['discharged'] = r.obs - len(r.diffs) - len(r.unknown)
            res['functions'] = sorted({(p.funcs[i]['qn'], p.funcs[i]['file'], p.funcs[i]['line']) for i in an if p.funcs[i]['file'].startswith(prog.REPO + '/')})
            res['unknown'] = dict(eng.unknown)
            if r.ownv:
                res['verdict'] = False
                res['detail'] = [{'observable': 'ownership', 'difference': ['%s at %s: %s' % v for v in r.ownv[:4]], 'when': []}]
                break
            if r.verdict is True:
                res['verdict'] = True
                break
            if r.verdict is False:
                # calls left abstract must be the same functions on both sides
                na = apps(tuple(x for s, o in A for x in list(s.mem.values()) + [o]), kept(p, st))
                nb = apps(tuple(x for s, o in B for x in list(s.mem.values()) + [o]), kept(p, st))
                if st and na != nb:
                    verdicts[-1] = (None, r)
                    continue
                if not r.direct:
                    # the steps of two recurrences differ; they may still agree on
                    # the states that occur, so the difference has to show in the
                    # first iterations too
                    bounded(p, code, spec, cfg, res)
                    if res['verdict'] is not False:
                        verdicts[-1] = (None, r)
                        tried_bounded = True
                        continue
                    break
                res['verdict'] = False
                res['detail'] = [{'observable': w, 'difference': y, 'when': pc} for w, y, pc in r.diffs[:4]]
                break
        if res['verdict'] is None and not tried_bounded:
            signal.alarm(max(1, int(limit - (time.time() - t))))
            bounded(p, code, spec, cfg, res)
        if res['verdict'] is None:
            for v, r in verdicts:
                if r is not None:
                    res['detail'] += [{'observable': w, 'when': pc} for w, y, pc in r.unknown[:2]]
    except TimeoutError as e:
        res['detail'].append(str(e))
        res['verdict'] = None
    except RecursionError:
        res['detail'].append('recursion limit')
    except MemoryError:
        res['detail'].append('memory limit')
    except Exception as e:
        res['detail'].append('engine: ' + repr(e)[:200] + ' ' + traceback.format_exc()[-300:])
    finally:
        signal.alarm(0)
    res['wall'] = round(time.time() - t, 2)
    return res


def bounded(p, code, spec, cfg, res):
    """No verdict from the closed forms: look for a difference with every loop
    cut after a few iterations. Only a difference is a verdict."""
    tried = []
    for n in cfg.get('bounds', (1, 2, 3, 5)):
        for st in cfg.get('stops') or [()]:
            try:
                eng, r, an, A, B = decide(p, code, spec, st, budget=cfg.get('budget', 60000), unroll=n, cfg=cfg)
            except Undecided as e:
                tried.append('%d: %s' % (n, e))
                continue
            if r.verdict is False:
                na = apps(tuple(x for s, o in A for x in list(s.mem.values()) + [o]), kept(p, st))
                nb = apps(tuple(x for s, o in B for x in list(s.mem.values()) + [o]), kept(p, st))
                if st and na != nb:
                    continue
                res['verdict'] = False
                res['mode'] = 'first %d iterations' % n
                res['pairs'] += r.pairs
                res['detail'] = [{'observable': w, 'difference': y, 'when': pc} for w, y, pc in r.diffs[:4]]
                return
            tried.append('%d: %s' % (n, r.verdict))
    res['detail'].append('with loops cut: ' + ', '.join(tried))


def run_scaled(args):
    p, name, code, spec, cfg, limit = args
    res = {'driver': name, 'verdict': None, 'mode': '', 'pairs': 0, 'detail': []}
    T.forget()
    compare.forget()

    def alarm(*_):
        raise TimeoutError('time limit of the driver')
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(max(1, limit))
    try:
        bounded(p, code, spec, cfg, res)
    except TimeoutError as e:
        res['detail'].append(str(e))
    except Exception as e:
        res['detail'].append('engine: ' + repr(e)[:200])
    finally:
        signal.alarm(0)
    return res


def smaller(p, marked, jobs, rs, notes):
    """Compare again with every constant a count is compared with in the
    repository's code replaced by a small one."""
    names = {(p.funcs[i]['qn'], p.funcs[i]['line']) for i in marked}
    for value in (1, 2):
        todo = [i for i, r in enumerate(rs) if r['verdict'] is not False and
                (not r['functions'] or any((q, l) in names for q, f, l in r['functions']))]
        if not todo:
            return
        q = scale.scaled(p, marked, value)
        work = []
        for i in todo:
            _, name, c, s, cfg, limit = jobs[i]
            work.append((q, name, q.funcs[c['id']], q.funcs[s['id']], dict(cfg, bounds=(value + 1,)), min(limit, 45)))
        for i, r in zip(todo, run_jobs(work, work=run_scaled)):
            if r['verdict'] is False:
                at = ', '.join(sorted({'%s:%d' % (os.path.relpath(p.funcs[k]['file'], prog.REPO), l) for k, ls in marked.items() for l, v in ls}))
                rs[i].update(verdict=False, mode=r['mode'] + ', constants at %s taken for parameters' % at, detail=r['detail'])
                rs[i]['detail'][0]['difference'] = ['beyond the constant at %s' % at] + list(rs[i]['detail'][0]['difference'])


_JOBS = []


def _job(i):
    return _WORK(_JOBS[i])


def drivers(p):
    fs = {}
    for f in p.funcs.values():
        if f['qn'].endswith('__code') or f['qn'].endswith('__spec'):
            fs[f['qn']] = f
    out = []
    for q in sorted(fs):
        if q.endswith('__code') and q[:-6] + '__spec' in fs:
            out.append((q[:-6], fs[q], fs[q[:-6] + '__spec']))
    return out


def run_jobs(jobs, procs=8, work=None):
    global _JOBS, _WORK
    _JOBS, _WORK = jobs, work or run_driver
    if len(jobs) <= 1:
        return [_job(i) for i in range(len(jobs))]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(procs, len(jobs)), maxtasksperchild=20) as pool:
        return pool.map(_job, range(len(jobs)), chunksize=1)


# ---------------------------------------------------------------- findings
def known():
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) site=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


def source_of(res):
    fs = [f for f in res.get('functions', [])]
    return '; '.join('%s (%s:%d)' % (q, os.path.relpath(f, prog.REPO), l) for q, f, l in fs[:6])


class Violation:
    def __init__(self, site, what, detail=None):
        self.site, self.what, self.detail = site, what, detail


def main(props, argv):
    pid, tier = argv[1], (argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    cfg = props[pid]
    t0 = time.time()
    viol, results, dropped, notes, extra = [], [], [], [], {}
    broken = None
    limit = cfg.get('limit', 90) if tier == 'quick' else cfg.get('limit', 90) * 6
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    total = 0
    for spec in cfg.get('specs', []):
        try:
            p, dr = export(spec, pid)
        except prog.AnalysisBroken as e:
            broken = str(e)
            continue
        dropped += dr
        jobs = []
        for name, c, s in drivers(p):
            c2 = dict(cfg)
            if name in cfg.get('per', {}):
                c2.update(cfg['per'][name])
            if tier != 'quick' and c2.get('thorough'):
                c2.update(c2['thorough'])
            jobs.append((p, name, c, s, c2, limit))
        total += len(jobs)
        rs = run_jobs(jobs)
        marked = scale.affected(p)
        if marked:
            smaller(p, marked, jobs, rs, notes)
        for r in rs:
            r['spec'] = spec
        results += rs
    for r in results:
        if r['verdict'] is False:
            d = r['detail'][0]
            viol.append(Violation('%s:%s' % (os.path.splitext(r['spec'])[0], r['driver']),
                                  'driver %s: %s differs from the property: %s; analysed %s' % (
                                      r['driver'], d['observable'], '; '.join(d['difference'][:2])[:500], source_of(r)), r))
    for rule in cfg.get('rules', []):
        try:
            vs, ev = rule(tier)
            viol += vs
            for k, v in ev.items():
                extra[k] = extra[k] + v if k in extra and isinstance(v, (int, list)) else v
        except prog.AnalysisBroken as e:
            broken = str(e)
        except Undecided as e:
            notes.append('rule %s undecided: %s' % (rule.__name__, e))
    if broken and not results and not extra:
        print('ERROR property=%s the analysis cannot be carried out: %s' % (pid, broken[-1500:]))
        return 2
    kn = known()
    new = []
    for v in viol:
        if any(k[0] == pid and k[1] == v.site for k in kn):
            print('KNOWN-FINDING: property=%s %s' % (pid, v.what[:300]))
        else:
            new.append(v)
    und = [r for r in results if r['verdict'] is None]
    funcs = sorted({'%s %s:%d' % (q, os.path.relpath(f, prog.REPO), l) for r in results for q, f, l in r['functions']})
    cov = {
        'explanation': cfg['explanation'],
        'rule': 'a driver pair agrees when, for every feasible combination of their path conditions, outcome and every '
                'observable location have the same normal form; a rule reports constructs that violate it',
        'drivers': len(results),
        'drivers_agreeing': sum(r['verdict'] is True for r in results),
        'drivers_undecided': [{'driver': r['driver'], 'why': r['detail'][:2]} for r in und][:20],
        'drivers_not_compiling': dropped,
        'path_pairs': sum(r['pairs'] for r in results),
        'obligations': sum(r['obligations'] for r in results) + extra.get('rule_obligations', 0),
        'discharged': sum(r['discharged'] for r in results) + extra.get('rule_discharged', 0),
        'functions_analysed': funcs,
        'samples': [{k: r[k] for k in ('driver', 'verdict', 'pairs', 'obligations', 'wall', 'mode')} for r in results[:60]],
    }
    cov.update(extra)
    if notes or broken:
        cov['notes'] = notes + ([broken[-500:]] if broken else [])
    ev = {'property': pid, 'tier': 'thorough' if tier == 'thorough' else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')),
          'level': 'other', 'coverage': cov, 'assumptions': cfg.get('assumptions', ASSUME),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    evd = os.environ.get('KWS_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if und:
        print('UNDECIDED property=%s drivers: %s' % (pid, ', '.join(r['driver'] for r in und[:12])))
    for d in dropped:
        print('NOTE property=%s driver dropped: %s' % (pid, d[:200]))
    for n in notes:
        print('NOTE property=%s %s' % (pid, n[:300]))
    rd = os.path.join(prog.BUILD, 'replay')
    for i, v in enumerate(new):
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%s.json' % (pid, re.sub(r'\W+', '_', v.site)))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'site': v.site, 'what': v.what, 'detail': v.detail,
                       'rerun': 'python3 /verif/check.py %s %s' % (pid, tier)}, f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  ' + v.what[:900])
    print('property=%s tier=%s drivers=%d agree=%d undecided=%d obligations=%d discharged=%d violations=%d wall=%.1fs' % (
        pid, tier, len(results), cov['drivers_agreeing'], len(und), cov['obligations'], cov['discharged'], len(new), time.time() - t0))
    return 1 if new else 0


ASSUME = [
    'arithmetic is exact: no overflow of coordinates or counts, no rounding (N01, N02, N04 are not claimed)',
    'scores and errors are not NaN',
    'library functions behave as their models in kws/models.py say',
    'the exporter (clang 18 front end, C++14, the flags of the build) shows the program the compiler builds',
    'allocation does not fail',
]
