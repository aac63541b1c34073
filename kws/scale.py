"""Constants that counts are compared with, taken for parameters.

A branch taken only for the thousandth element lies beyond any list written out
element by element. What the property says does not depend on such a constant,
so code that is right is right whatever its value: the comparison is
repeated with a smaller one."""
import copy
from . import prog

COMPARE = ('<', '<=', '>', '>=', '==', '!=')
LEAST = 3


def peel(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'load', 'temp', 'mat', 'paren') and isinstance(n.get('e'), dict):
        n = n['e']
    return n


def nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from nodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from nodes(v)


def literal(n, consts):
    """The literal node a comparison operand stands for."""
    n = peel(n)
    if not isinstance(n, dict):
        return None
    if n.get('k') == 'int' and not n.get('ch') and not n.get('cx') and str(n['v']).isdigit() and int(n['v']) >= LEAST:
        return n
    if n.get('k') == 'var' and n.get('id') in consts:
        return consts[n['id']]
    return None


def counts(p, n):
    """Is this operand a count: an integer of more than a character?"""
    t = p.unref(n['t']) if isinstance(n, dict) and n.get('t') else {}
    return t.get('k') == 'int' and not t.get('ch')


def thresholds(p, f):
    """Literal nodes of f that a count is compared with."""
    body = [f.get('body'), f.get('inits')]
    consts = {}
    for n in nodes(body):
        if n.get('k') == 'decl':
            for v in n.get('v', []):
                t = p.ty(v['t'])
                if t.get('k') == 'int' and v.get('init') is not None:
                    l = literal(v['init'], {})
                    if l is not None:
                        consts[v['id']] = l
    for n in nodes(body):            # assigned anywhere: no constant
        if n.get('k') in ('assign', 'un') and n.get('op') != '*':
            for k in ('x', 'e'):
                if isinstance(n.get(k), dict) and n[k].get('k') == 'var':
                    consts.pop(n[k].get('id'), None)
    out = []
    for n in nodes(body):
        if n.get('k') == 'bin' and n.get('op') in COMPARE:
            for a, b in ((n['x'], n['y']), (n['y'], n['x'])):
                l = literal(a, consts)
                if l is not None and counts(p, b) and literal(b, consts) is None:
                    out.append(l)
        elif n.get('k') == 'call' and (n.get('fn') or {}).get('qn') in ('std::min', 'std::max'):
            ls = [literal(a, consts) for a in n.get('a', [])]
            if any(l is None for l in ls):
                out += [l for l in ls if l is not None]
    return out


def affected(p):
    out = {}
    for i, f in p.funcs.items():
        if f.get('hasbody') and f['file'].startswith(prog.REPO + '/'):
            ls = thresholds(p, f)
            if ls:
                out[i] = sorted({(l.get('l', f['line']), l['v']) for l in ls})
    return out


def scaled(p, ids, value):
    q = copy.copy(p)
    q.funcs = dict(p.funcs)
    for i in ids:
        f = copy.deepcopy(p.funcs[i])
        for l in thresholds(p, f):
            l['v'] = str(value)
        q.funcs[i] = f
    q.byqn = {}
    for f in q.funcs.values():
        q.byqn.setdefault(f['qn'], []).append(f)
    return q
