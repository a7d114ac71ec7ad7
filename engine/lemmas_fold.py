"""Operations on lists and ranges of diagrams, and constraints on the number of true operands.

The range has any length: the analysis splits it symbolically.  A result is an expression over pairwise operations, operations
on parts of the range (known by contract) and single operands.  The parts have boundaries that are ordered by linear
arithmetic; between two neighbouring boundaries only the number of true operands matters, and whether some operand is false.
"""
import itertools
import math
import re
from .terms import *
from .interp import *
from .nodes import *
from .contracts import opres, ret_ref, getref
from .lemmas_ops import setup_mgr, mkinterp, slot, refarg, moved, nodesym, locof, facts, clean, rc_balance, sure, summarised, check_common

F1 = 'every operand is combined exactly as often as it counts'
F2 = 'parts of a range are long enough and get shorter'
F3 = 'temporary handles are balanced'
G1 = 'the constraint holds exactly for the right numbers of true operands'

FOLDS = {'and_rec': 'C09', 'or_rec': 'C09', 'xor_rec': 'C09'}
CARD = {'all_false': 0, 'at_most_one': 0, 'at_least_one': 0, 'simplex': 0, 'at_least': 1, 'at_most': 1, 'cardinality': 1}
MINLEN = {'and_rec': 2, 'or_rec': 2, 'xor_rec': 2}
ORDER = ['and_rec', 'or_rec', 'xor_rec', 'all_false', 'at_most_one', 'at_least_one', 'simplex', 'at_least', 'at_most', 'cardinality']
B = sym('RANGE', ptr=True, nonnull=True, cls='ARR', elems='nodes')
cnt = sym('cnt', small=True)
part_ = sym('cnt.part', small=True)


class Unknown(Exception):
    pass


def target(f, b, t, fl):
    """value for t true operands (capped) and some false one (fl)"""
    if f == 'and_rec':
        return not fl
    if f in ('or_rec', 'at_least_one'):
        return t >= 1
    if f == 'all_false':
        return t == 0
    if f == 'at_most_one':
        return t <= 1
    if f == 'simplex':
        return t == 1
    if f == 'at_least':
        return t >= b
    if f == 'at_most':
        return t <= b
    if f == 'cardinality':
        return t == b
    raise Unknown(f)


def leaves(t, out):
    """operations of an expression: ranges and operands"""
    if t is TOP or t is BOT:
        return
    if t.op == 'opres':
        f = t.args[0]
        if f.startswith('range:'):
            out.append(t)
            return
        for x in t.args[2 if f.startswith('of:') else 1:]:
            leaves(x, out)
        return
    out.append(t)


def position(I, p):
    """element number of an address in the range"""
    d = I.norm(sub(I.norm(p), B))
    c, l = lin(d)
    if any(is_ptr(x) for x, _ in l) or c % 8 or any(k % 8 for _, k in l):
        raise Unknown('an address outside of the range: %s' % show(p, 4))
    return I.norm(udiv(d, const(8)))


def part(I, t, n):
    """(from, to) of a leaf"""
    if t.op == 'opres':
        return position(I, t.args[1]), position(I, t.args[2])
    a = I.S.user['operands'].get(t)
    if a is None:
        raise Unknown('%s is no operand' % show(t, 4))
    p = position(I, a)
    return p, addc(p, 1)


def operands(I):
    """operands that are read, with their addresses"""
    return {I.norm(v): add(B, off) for off, (sz, v) in I.S.mem.get(B, {}).items()}


def divisors(ts, seen, out):
    for t in ts:
        if isinstance(t, T) and t.id not in seen:
            seen.add(t.id)
            if t.op in ('udiv', 'sdiv', 'urem', 'srem') and is_const(t.args[1]):
                out.add(cval(t.args[1]))
            elif t.op == 'bits' or t.op == 'and':
                out.add(2)
            divisors(t.args, seen, out)


def le(I, a, b):
    return I.prove_ge0(sub(b, a))


def sort_points(I, pts):
    out = []
    for p in pts:
        if any(p is q for q in out):
            continue
        k = 0
        while k < len(out):
            q = out[k]
            if I.decide(eq(p, q)) is True:
                k = None
                break
            if le(I, p, q):
                break
            if not le(I, q, p):
                raise Unknown('order of %s and %s' % (show(p, 4), show(q, 4)))
            k += 1
        if k is not None:
            out.insert(k, p)
    return out


def value(I, t, seg, asg, idx, xor):
    """truth value of an expression under an assignment of (true, false) numbers to segments"""
    if t is TOP:
        return True
    if t is BOT:
        return False
    if t.op == 'opres' and t.args[0].startswith('of:'):
        if not is_const(t.args[1]):
            raise Unknown('a symbolic bound')
        a = [value(I, x, seg, asg, idx, xor) for x in t.args[2:]]
        return target(t.args[0][3:], cval(t.args[1]), sum(a), not all(a))
    if t.op == 'opres' and not t.args[0].startswith('range:'):
        a = [value(I, x, seg, asg, idx, xor) for x in t.args[1:]]
        f = t.args[0]
        if f == 'and':
            return all(a)
        if f == 'or':
            return any(a)
        if f == 'xor':
            return a[0] != a[1]
        if f == 'not':
            return not a[0]
        if f == 'ite':
            return a[1] if a[0] else a[2]
        raise Unknown(f)
    s, e = idx[t]
    part = asg[s:e]
    if t.op != 'opres':
        if len(part) != 1:
            raise Unknown('an operand is split')
        return part[0][0] >= 1
    f = t.args[0][6:]
    b = cval(t.args[3]) if len(t.args) > 3 else None
    if f == 'xor_rec':
        return sum(x[-1] for x in part) % 2 == 1
    if xor:
        raise Unknown('numbers')
    return target(f, b, sum(x[0] for x in part), any(x[1] for x in part))


def judge_expr(I, o, v, f, b, n):
    """(verdict, message)"""
    ls = []
    leaves(v, ls)
    ls = list(dict.fromkeys(ls))
    for t in ls:
        if t.op == 'opres' and len(t.args) > 3 and not is_const(t.args[3]):
            raise Unknown('a symbolic bound')
    pts = [ZERO, n]
    pos = {}
    for t in ls:
        pos[t] = part(I, t, n)
        pts += pos[t]
    pts = sort_points(I, pts)
    if I.decide(eq(pts[0], ZERO)) is not True:
        return False, 'an operand before the range is taken'
    if I.decide(eq(pts[-1], n)) is not True:
        return False, 'an operand behind the range is taken'

    def number(p):
        return next(k for k, q in enumerate(pts) if q is p or I.decide(eq(p, q)) is True)
    idx = {t: (number(p), number(q)) for t, (p, q) in pos.items()}
    for t, (s, e) in idx.items():
        if s > e:
            return False, 'the part from %s to %s ends before it begins' % (show(pos[t][0], 4), show(pos[t][1], 4))
    seg = [I.norm(sub(pts[k + 1], pts[k])) for k in range(len(pts) - 1)]
    xor = f == 'xor_rec'
    parity = any(t.op == 'opres' and t.args[0] == 'range:xor_rec' for t in ls)
    caps = [cval(t.args[3]) for t in ls if t.op == 'opres' and len(t.args) > 3]
    cap = max([2, (b or 0) + 1] + [c + 1 for c in caps])
    if xor:
        pass
    ncase = 0
    classes = []
    for L in seg:
        c = []
        if xor:
            # parity of the number of true operands; one operand for certain
            c = [(0, 1, 0), (1, 1, 1)]
        else:
            for t in range(cap + 1):
                for fl in (0, 1):
                    # feasibility of the length, by itself
                    if is_const(L):
                        l = cval(L)
                        if fl == 0 and not (t == l if t < cap else l >= cap):
                            continue
                        if fl == 1 and t + 1 > l:
                            continue
                    # parity of the number of true operands, where it matters
                    c += [(t, fl, t % 2)] if t < cap or not parity else [(t, fl, 0), (t, fl, 1)]
        classes.append(c)
    for asg in itertools.product(*classes):
        ncase += 1
        got = value(I, v, seg, asg, idx, xor)
        want = (sum(x[0] for x in asg) % 2 == 1) if xor else target(f, b, sum(x[0] for x in asg), any(x[1] for x in asg))
        if got == want:
            continue
        S = I.S
        I.S = S.copy()
        try:
            for L, (t, fl, par) in zip(seg, asg):
                L = I.norm(L)
                if parity and not xor and t == cap and t % 2 != par:
                    t += 1
                    if fl == 0:
                        I.assume(eq(L, const(t)))
                        continue
                elif parity and not xor and t == cap and fl == 0:
                    I.assume(eq(L, const(t)))
                    continue
                if xor:
                    ok = addc(L, -1)
                elif fl == 0 and t < cap:
                    I.assume(eq(L, const(t)))
                    continue
                else:
                    ok = addc(L, -(t + fl))
                if is_const(ok):
                    if cval(ok) < 0:
                        raise Infeasible()
                    continue
                if I.prove_ge0(addc(scale(ok, -1), -1)):
                    raise Infeasible()
                I.add_lin(ok)
            if any(I.decide(c) is False for c in S.facts):
                raise Infeasible()
        except Infeasible:
            continue
        finally:
            I.S = S
        d = ', '.join('%s%s%s true%s' % ('at least ' if not xor and x[0] == cap else '', x[0], ', an %s number,' % ('odd' if x[-1] else 'even') if parity and x[0] == cap else '', ' and a false one' if x[1] else '') if not xor else ('odd' if x[0] else 'even') for x in asg)
        return False, 'parts of lengths %s with %s operands: result is %s' % (', '.join(show(x, 4) for x in seg), d, got)
    return True, '%d combinations over %d parts' % (ncase, len(seg))


def slt_(c):
    c = cval(c)
    return c - (1 << 64) if c >> 63 else c


def find_ranges(P):
    r = {}
    for f in ORDER:
        for x in P.find(r'BDD::node_ref BDD::bdd_mgr::%s<__gnu_cxx' % f):
            r[x] = f
    return r


def run(P, R, n, f, b, rngs):
    prop = FOLDS.get(f, 'C10')
    rule = F1 if prop == 'C09' else G1
    name = '%s%s' % (f, '' if b is None else ' with bound %d' % b)
    I = mkinterp(P)

    def rng(I, a, nm):
        g = rngs[nm]
        s, e = I.norm(a[2]), I.norm(a[3])
        bd = [I.norm(x) for x in a[4:]]
        t = opres('range:' + g, s, e, *bd)
        base, off = I.split(s)
        if base is not B:
            L = I.norm(udiv(sub(e, s), const(8)))
            if is_const(L) and g not in FOLDS and 1 <= slt_(L) <= 16:
                # operands that have been collected before
                t = opres('of:' + g, bd[0] if bd else ZERO, *[getref(I, addc(s, 8 * k)) for k in range(cval(L))])
            if not is_const(L) or g not in FOLDS or cval(L) < 1:
                I.event('range', f=g, s=s, e=e, b=bd, val=t, length=L, other=True)
                return ret_ref(I, a[0], t)
            els = [getref(I, addc(s, 8 * k)) for k in range(cval(L))]
            t = els[0]
            for x in els[1:]:
                t = opres(g[:-4], t, x)
            I.event('range', f=g, s=s, e=e, b=bd, val=t, length=L, other=True)
            return ret_ref(I, a[0], t)
        I.event('range', f=g, s=s, e=e, b=bd, val=t, length=I.norm(udiv(sub(e, s), const(8))), other=False)
        return ret_ref(I, a[0], t)
    for x in rngs:
        I.contracts[x] = rng
    root = P.func(n)

    def go(N):
        def start(I):
            setup_mgr(I)
            I.add_lin(addc(N, -MINLEN.get(f, 1)))
            I.S.facts.clear()
            I.S.events.clear()
            s = slot(I, 'ret')
            I.run(root, [s, MGR, B, add(B, scale(N, 8))] + ([const(b)] if b is not None else []))
            return I.load(s, 8, 'ptr')
        try:
            return [(o, N) for o in I.explore(start, 600)]
        except Budget:
            return []
    outs = go(cnt)
    ds = set()
    for o, _ in outs:
        divisors([o.value] + [x for e in o.S.events for x in e.d.values()], set(), ds)
    k = math.lcm(*[d for d in ds if 0 < d < 16])
    if k > 1:
        # the range is split into equal parts: distinguish the remainders
        outs = []
        for r in range(k):
            outs += go(addc(scale(part_, k), r))
    R.absorb(I, [o for o, _ in outs])
    w0 = (root.file, root.line, root.dem)
    if not outs:
        R.ob((prop,), rule, None, w0, name + ': too many paths')
    unknown = not outs
    for o, N in outs:
        I.S = o.S
        ops = operands(I)
        if any(is_const(t) for t in ops):
            continue          # an empty handle is no operand
        o.S.user['operands'] = ops
        check_common(I, R, o, root, name)
        w = locof(None, o, root)
        cl = clean(o)
        if o.kind in ('throw', 'assert'):
            continue
        if o.kind != 'ret':
            R.ob((prop,), rule, None, w, '%s: path ends with %s' % (name, o.kind))
            unknown = True
            continue
        N = I.norm(N)
        for e in o.S.events:
            if e.k != 'range':
                continue
            need = MINLEN.get(e.f, 1)
            okl = I.prove_ge0(addc(I.norm(e.length), -need))
            R.ob((prop, 'C23'), F2, True if okl else (False if cl and possible_short(I, o, e.length, need) else None), locof(e, o, root), '%s: %s of %s operands' % (name, e.f, show(e.length, 4)), None if okl else facts(I, o))
            if e.other:
                continue
            if e.f == f or ORDER.index(e.f) >= ORDER.index(f):
                less = I.prove_ge0(addc(sub(N, I.norm(e.length)), -1)) or (e.b and b is not None and is_const(e.b[0]) and cval(e.b[0]) < b and I.prove_ge0(sub(N, I.norm(e.length))))
                R.ob((prop, 'C23'), F2, True if less else (False if cl and I.decide(eq(N, I.norm(e.length))) is True else None), locof(e, o, root), '%s: recursion on %s operands of %s' % (name, show(e.length, 4), show(N, 4)), None if less else facts(I, o))
        v = I.norm(o.value)
        try:
            ok, msg = judge_expr(I, o, v, f, b, N)
        except Unknown as u:
            ok, msg = None, str(u)
            unknown = True
        R.ob((prop,), rule, True if ok else (False if ok is False and cl else None), w, '%s: %s' % (name, msg), None if ok else facts(I, o) + ['result: ' + show(v, 8)])
        bad = rc_balance(I, o, [], [v])
        R.ob(('C05',), F3, True if not bad else (False if cl and sure(bad) else None), w, '%s: %s' % (name, 'balanced' if not bad else 'counter of %s changes by %s, references by %s' % tuple(show(x, 4) for x in bad[0][:3])))


    if not unknown:
        return
    # what cannot be decided for ranges of any length may still be refuted for short ones, whose loops can be followed
    for k in range(MINLEN.get(f, 1), 7):
        for o, N in go(const(k)):
            I.S = o.S
            ops = operands(I)
            if o.kind != 'ret' or not clean(o) or any(is_const(t) for t in ops):
                continue
            o.S.user['operands'] = ops
            try:
                ok, msg = judge_expr(I, o, I.norm(o.value), f, b, const(k))
            except Unknown:
                continue
            if ok is False:
                R.ob((prop,), rule, False, locof(None, o, root), '%s of %d operands: %s' % (name, k, msg), facts(I, o) + ['result: ' + show(I.norm(o.value), 8)])
                return


def possible_short(I, o, L, need):
    I.S = o.S.copy()
    try:
        L = I.norm(L)
        if is_const(L):
            return cval(L) < need
        if any(a.op != 'sym' for a, _ in lin(L)[1]):
            return False
        for k in range(need):
            try:
                S = I.S.copy()
                I.assume(eq(L, const(k)))
                if not any(I.decide(c) is False for c in o.S.facts):
                    return True
            except Infeasible:
                pass
            finally:
                I.S = S
        return False
    finally:
        I.S = o.S


def lemma_folds(P, R):
    rngs = find_ranges(P)
    for n, f in rngs.items():
        if f in FOLDS:
            run(P, R, n, f, None, rngs)
    for f in FOLDS:
        if f not in rngs.values():
            R.ob(('C09',), F1, None, None, f + ' of a range not found')
        variadic(P, R, f)


def variadic(P, R, f):
    for n in P.find(r'BDD::node_ref BDD::bdd_mgr::%s<BDD::node_ref' % f):
        root = P.func(n)
        k = len(root.args) - 2
        I = mkinterp(P)
        ops = [nodesym('p%d' % j) for j in range(k)]

        def start(I):
            setup_mgr(I)
            I.S.facts.clear()
            I.S.events.clear()
            s = slot(I, 'ret')
            I.run(root, [s, MGR] + [refarg(I, 'a%d' % j, x) for j, x in enumerate(ops)])
            return I.load(s, 8, 'ptr')
        outs = I.explore(start, 100)
        R.absorb(I, outs)
        for o in outs:
            I.S = o.S
            check_common(I, R, o, root, f)
            w = locof(None, o, root)
            cl = clean(o)
            if o.kind != 'ret':
                continue
            v = I.norm(o.value)
            try:
                bad = None
                for bits in itertools.product((False, True), repeat=k):
                    D = {I.norm(x): y for x, y in zip(ops, bits)}
                    D[TOP], D[BOT] = True, False
                    got = tt(v, D)
                    want = all(bits) if f == 'and_rec' else any(bits) if f == 'or_rec' else sum(bits) % 2 == 1
                    if got != want:
                        bad = bits
                        break
                R.ob(('C09',), F1, True if bad is None else (False if cl else None), w, '%s of %d operands: %s' % (f, k, 'all combinations of values' if bad is None else 'wrong for operands %s' % (bad,)), None if bad is None else [show(v, 8)])
            except Unknown as u:
                R.ob(('C09',), F1, None, w, '%s of %d operands: %s' % (f, k, u))
            b = rc_balance(I, o, ops, [v] + moved(I, o, *['a%d' % j for j in range(k)]))
            R.ob(('C05',), F3, True if not b else (False if cl and sure(b) else None), w, '%s of %d operands: %s' % (f, k, 'balanced' if not b else 'counter of %s changes by %s, references by %s' % tuple(show(x, 4) for x in b[0][:3])))


def tt(t, D):
    if t in D:
        return D[t]
    if t.op == 'opres':
        a = [tt(x, D) for x in t.args[1:]]
        f = t.args[0]
        if f == 'and':
            return all(a)
        if f == 'or':
            return any(a)
        if f == 'xor':
            return a[0] != a[1]
        if f == 'not':
            return not a[0]
    raise Unknown(show(t, 4))


def lemma_cardinality(P, R):
    rngs = find_ranges(P)
    top = 8 if getattr(P, 'thorough', False) else 4
    for f in CARD:
        if f not in rngs.values():
            R.ob(('C10',), G1, None, None, f + ' not found')
    for n, f in rngs.items():
        if f in CARD:
            for b in (range(top + 1) if CARD[f] else [None]):
                run(P, R, n, f, b, rngs)
