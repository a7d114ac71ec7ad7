"""Evaluation of terms at numbers: decides conditions over few quantities by enumeration of their values."""
from .terms import *

M64 = (1 << 64) - 1


class Unknown(Exception):
    pass


def sgn(x):
    return x - (1 << 64) if x >> 63 else x


def nev(t, env):
    """value of a term under an assignment of its symbols; Unknown if it mentions others"""
    if t in env:
        return env[t]
    op, a = t.op, t.args
    if op == 'const':
        return cval(t) & M64
    if op == 'lin':
        c, l = lin(t)
        return (c + sum(k * nev(x, env) for x, k in l)) & M64
    if op == 'udiv':
        d = nev(a[1], env)
        if not d:
            raise Unknown
        return nev(a[0], env) // d
    if op == 'shl':
        return (nev(a[0], env) << nev(a[1], env)) & M64
    if op == 'lshr':
        return nev(a[0], env) >> nev(a[1], env)
    if op == 'and':
        return nev(a[0], env) & nev(a[1], env)
    if op == 'or':
        return nev(a[0], env) | nev(a[1], env)
    if op == 'xor':
        return nev(a[0], env) ^ nev(a[1], env)
    if op == 'mul':
        return (nev(a[0], env) * nev(a[1], env)) & M64
    if op == 'eq':
        return nev(a[0], env) == nev(a[1], env)
    if op == 'eq0':
        return nev(a[0], env) == 0
    if op == 'not':
        return not nev(a[0], env)
    if op == 'ult':
        return nev(a[0], env) < nev(a[1], env)
    if op == 'slt':
        return sgn(nev(a[0], env)) < sgn(nev(a[1], env))
    if op in ('band', 'bor'):
        x, y = nev(a[0], env), nev(a[1], env)
        return (x and y) if op == 'band' else (x or y)
    if op == 'ite':
        return nev(a[1] if nev(a[0], env) else a[2], env)
    if op == 'b2i':
        return int(nev(a[0], env))
    if op in ('uitofp', 'sitofp'):
        x = nev(a[0], env)
        return float(sgn(x) if op == 'sitofp' else x)
    if op == 'fconst':
        try:
            return float(a[0])
        except ValueError:
            raise Unknown
    if op in ('fmul', 'fadd', 'fsub', 'fdiv'):
        x, y = nev(a[0], env), nev(a[1], env)
        if op == 'fdiv' and not y:
            raise Unknown
        return {'fmul': x * y, 'fadd': x + y, 'fsub': x - y, 'fdiv': x / y if y else 0}[op]
    if op == 'fcmp':
        x, y = nev(a[1], env), nev(a[2], env)
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[a[0][1:]]
    raise Unknown


def holds(facts, env):
    """do all the facts that mention nothing else hold?"""
    for f in facts:
        try:
            if not nev(f, env):
                return False
        except (Unknown, KeyError, TypeError):
            pass
    return True


EVAL = {'const', 'lin', 'udiv', 'shl', 'lshr', 'and', 'or', 'xor', 'mul', 'eq', 'eq0', 'not', 'ult', 'slt', 'band', 'bor', 'ite', 'b2i', 'uitofp', 'sitofp',
        'fconst', 'fmul', 'fadd', 'fsub', 'fdiv', 'fcmp'}


def leaves(t, out):
    """largest parts that are not computed"""
    if t.op not in EVAL:
        out.add(t)
    elif t.op == 'lin':
        for x, _ in lin(t)[1]:
            leaves(x, out)
    else:
        for x in t.args:
            if isinstance(x, T):
                leaves(x, out)


def witness(facts, values=(0, 1, 2, 3, 5, 8), limit=60000, dom={}):
    """an assignment of small numbers under which all facts hold; False if there is none, None if it is not known.  The values of some
    parts may be given."""
    ls = set()
    for f in facts:
        leaves(f, ls)
    ls = sorted(ls, key=lambda t: t.id)
    size = 1
    for x in ls:
        size *= len(dom.get(x, values))
    if size > limit:
        return None
    unknown = False
    # facts are evaluated as soon as their leaves have values
    need = []
    for f in facts:
        s = set()
        leaves(f, s)
        need.append(max([ls.index(x) for x in s], default=-1))
    env = {}

    def go(k):
        nonlocal unknown
        for f, n in zip(facts, need):
            if n == k - 1:
                try:
                    if not nev(f, env):
                        return None
                except (Unknown, TypeError, KeyError):
                    unknown = True
                    return None
        if k == len(ls):
            return dict(env)
        for v in dom.get(ls[k], values):
            env[ls[k]] = v
            r = go(k + 1)
            if r is not None:
                return r
        del env[ls[k]]
        return None
    r = go(0)
    if r is not None:
        return r
    return None if unknown else False
