"""Collections: product construction, relocation, copying, removing, renaming, building of stored diagrams."""
import itertools
import json
import re
from .terms import *
from .interp import *
from .nodes import *
from .models import Models
from . import maps
from .maps import HMap
from .lemmas_ops import setup_mgr, locof, facts, clean, check_common
from .lemmas_table import loop_of

COL = 'BDD::bdd_collection'
INS = 'BDD::bdd_instruction'
C = sym('COL', ptr=True, nonnull=True, cls=COL)
MAX = const(-1)
BOTI = const(-2)

A1 = 'the product of stored diagrams denotes their conjunction'
A2 = 'the product branches on the first variable of its operands'
A3 = 'products are remembered for their operands only'
A4 = 'products are reduced'
A5 = 'products are given up beyond the limit only'
A6 = 'stored diagrams are not changed'
A7 = 'the product of two stored diagrams is computed once'
A8 = 'the product proceeds to successors'
A9 = 'the last node of a product is its root'
B1 = 'the product is appended completely'
B2 = 'arcs are relocated to the appended nodes'
B3 = 'the root of the product comes first'
B4 = 'scratch memory is empty afterwards'
B5 = 'a product that is given up leaves the collection unchanged'
B6 = 'the number of the appended diagram is returned'
B7 = 'the operands are the roots of the given diagrams'
D1 = 'every number of operands is dispatched to the product of that many'
D2 = 'all operands are taken'
H1 = 'equality of instructions compares all members'
H2 = 'equal keys have equal hashes'


class Coll:
    """members of the class, as byte offsets"""

    def __init__(self, P):
        self.P = P
        f = {}
        for n in ('bdd_instructions', 'bdd_delimiters', 'stack', 'generated_nodes', 'reduction', 'node_ref_hash'):
            try:
                f[n] = P.field(COL, n) // 8
            except Exception:
                f[n] = None
        self.f = f
        for n in ('lo', 'hi', 'index'):
            try:
                f['i.' + n] = P.field(INS, n) // 8
            except Exception:
                f['i.' + n] = None
        self.size = (P.dtypes.get(INS) or {}).get('s', 0) // 8 or 24
        self.ok = all(v is not None for k, v in f.items())

    def a(self, n):
        return addc(C, self.f[n])

    def data(self, I, n):
        return I.norm(I.load(self.a(n), 8, 'ptr'))

    def length(self, I, n):
        b = self.data(I, n)
        e = I.norm(I.load(addc(self.a(n), 8), 8, 'ptr'))
        return udiv(sub(e, b), const(self.size if n in ('bdd_instructions', 'stack') else 8))

    def word(self, I, base, pos, part):
        return I.norm(I.load(addc(add(base, scale(pos, self.size)), self.f['i.' + part]), 8, 'i64'))


def reads(I, t, part):
    """t, or what has been read from an instruction and is known to equal the constant t"""
    if not is_const(t):
        return t
    return next((x for x in I.S.sub if x.op == 'fld' and x.args[0] == part and I.norm(x) is t), t)


def interp(P, contracts=()):
    I = Interp(P, Models())
    for names, c in contracts:
        for x in names:
            I.contracts[x] = c
    return I


def explore(I, P, n, args, setup=None, maxpath=3000):
    root = P.func(n)

    def start(I):
        setup_mgr(I)
        if setup:
            setup(I)
        I.S.events.clear()
        I.S.facts.clear()
        return I.run(root, args)
    try:
        return I.explore(start, maxpath), root
    except Budget:
        return [], root


# ------------------------------------------------------------------ product construction
def impls(P):
    """(number of operands, function) of every product construction"""
    out = []
    for n in P.find(COL + r'::bdd_and_impl\(') + P.find(r'(unsigned long |size_t )?' + COL + r'::bdd_and_impl<'):
        d = P.demangled(n)
        if '::$_' in d or 'lambda' in d:
            continue
        m = re.search(r'bdd_and_impl<(\d+)', d)
        out.append((int(m.group(1)) if m else 2, n, bool(m)))
    return sorted(set(out))


def lemma_product(P, R):
    K = Coll(P)
    fs = impls(P)
    if not K.ok or not fs:
        R.ob(('C14', 'C15'), A1, None, None, 'members of the product construction not found')
        return
    byN = {}
    for k, n, arr in fs:
        byN.setdefault((k, arr), n)
    done = set()
    for (k, arr), n in sorted(byN.items()):
        if k > (4 if getattr(P, 'thorough', False) else 3):
            continue
        product(P, R, K, k, n, arr)
        done.add((k, arr))
    same_code(P, R, [(k, n) for (k, arr), n in sorted(byN.items()) if arr and k >= 3], 'bdd_and_impl')


def shape(P, n):
    """text of a function without source positions, split at numbers"""
    f = P.func(n)
    t = json.dumps([[{k: v for k, v in i.items() if k not in ('l', 'cl', 'n', 'dn')} for i in b] for b in f.blocks], sort_keys=True)
    t = re.sub(r'(%(?:struct|class|union)\.[\w:<>, ]*?)\.\d+(?=["\\])', r'\1', t)
    return re.split(r'(\d+)', t)


def same_code(P, R, fs, what, props=('C15',), fact=None):
    """instantiations of one template differ in the number of operands only"""
    if not fs:
        return
    k0, n0 = fs[0]
    s0 = shape(P, n0)
    for k, n in fs[1:]:
        s = shape(P, n)
        f = P.func(n)
        ok = len(s) == len(s0) and all(x == y or (i % 2 and int(y) - int(x) in ((k - k0), 8 * (k - k0), 24 * (k - k0))) for i, (x, y) in enumerate(zip(s0, s)))
        R.ob(props, 'instantiations for other numbers of operands have the same code', True if ok else None, (f.file, f.line, f.dem), '%s<%d> %s' % (what, k, 'agrees with the analysed instantiation' if ok else 'differs from the analysed instantiation'))


def product(P, R, K, N, n, arr):
    name = 'bdd_and_impl<%d>' % N
    props = ('C14',) if not arr else ('C15',)
    ops = [sym('op%d' % k, small=True) for k in range(N)]
    limit = sym('limit')
    GEN = sym('GEN', ptr=True, nonnull=True, cls='MAP') if arr else K.a('generated_nodes')
    RED = K.a('reduction')

    def rec(I, a, nm):
        if arr:
            ar = [I.norm(I.load(addc(a[1], 8 * k), 8, 'i64')) for k in range(N)]
            lim, gen = I.norm(a[3]), I.norm(a[2])
        else:
            ar, lim, gen = [I.norm(x) for x in a[1:1 + N]], I.norm(a[1 + N]), GEN
        n0 = K.length(I, 'stack')
        c = I.choose(3)
        m = I.S.maps.get(RED)
        I.S.maps[RED] = HMap(('R', len(I.S.events)), False)
        if m:
            I.S.maps[RED].dirty = m.dirty + 1
        if c == 2:
            I.event('rec', args=ar, val=MAX, limit=lim, this=I.norm(a[0]), gen=gen, mode='failed')
            n1 = I.newsym('stacklen', small=True)
            I.add_lin(addc(sub(n1, n0), 0))
            I.store(addc(K.a('stack'), 8), add(K.data(I, 'stack'), scale(n1, K.size)), 8)
            return MAX
        if c == 0:
            t = I.newsym('result', small=True)
            I.add_lin(addc(sub(n0, t), -1))
            I.event('rec', args=ar, val=t, limit=lim, this=I.norm(a[0]), gen=gen, mode='known')
            return t
        n1 = I.newsym('stacklen', small=True)
        I.add_lin(addc(sub(n1, n0), -1))
        I.store(addc(K.a('stack'), 8), add(K.data(I, 'stack'), scale(n1, K.size)), 8)
        t = addc(n1, -1)
        I.event('rec', args=ar, val=t, limit=lim, this=I.norm(a[0]), gen=gen, mode='pushed')
        return t

    I = interp(P, [([n], rec)])

    def policy(I, M, m, key):
        if M is RED and len(key) == 3:
            last = addc(K.length(I, 'stack'), -1)
            if any(e.k == 'rec' and e.mode == 'pushed' for e in I.S.events) and (key[0] is last or key[1] is last):
                return False
        if M is GEN:
            return None
        return None
    I.mappolicy = policy
    arrslot = sym('OPS', ptr=True, nonnull=True, cls=None)

    def setup(I):
        n0 = K.length(I, 'stack')
        I.add_lin(addc(n0, -2))
        I.assume(ult(ONE, limit))
        if arr:
            for k, o in enumerate(ops):
                I.S.mem.setdefault(arrslot, {})[const(8 * k)] = (8, o)
        I.S.user['n0'] = n0
    args = [C] + (ops + [limit] if not arr else [arrslot, GEN, limit])
    outs, root = explore(I, P, n, args, setup, 6000)
    R.absorb(I, outs)
    if not outs:
        R.ob(props, A1, None, (root.file, root.line, root.dem), name + ': too many paths')
        return
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, name)
        w = locof(None, o, root)
        if o.kind == 'unsupported':
            R.ob(props, A1, None, w, name + ': ' + str(o.info))
            continue
        if o.kind in ('throw', 'assert'):
            continue
        if o.kind != 'ret':
            R.ob(props, A1, None, w, name + ': path ends with ' + o.kind)
            continue
        cl = clean(o)
        writes(I, R, props, K, o, root, name, cl, (GEN, RED))
        recs = [e for e in o.S.events if e.k == 'rec']
        for e in recs:
            ok = e.this is C and e.limit is I.norm(limit) and e.gen is I.norm(GEN)
            R.ob(props, A1, True if ok else (False if cl else None), locof(e, o, root), '%s: recursion with the same collection, limit and memory' % name)
        v = I.norm(o.value)
        pushes = [e for e in o.S.events if e.k == 'push' and I.norm(e.v) is I.norm(K.a('stack'))]
        n1 = K.length(I, 'stack')
        failed = any(e.mode == 'failed' for e in recs)
        if v is MAX:
            # a new node that is known to be needed counts although it has not been put on the stack
            need = len(recs) >= 2 and not pushes and I.decide(eq(recs[0].val, recs[1].val)) is False and any(
                e.k in ('map_absent', 'map_insert') and e.m is RED and (e.k == 'map_absent' or not e.present) for e in o.S.events)
            over = I.decide(ult(limit, addc(n1, 1) if need else n1))
            ok = failed or over is True
            R.ob(props, A5, True if ok else (False if cl else None), w, '%s: given up %s' % (name, 'because a part was given up' if failed else 'with more nodes than allowed' if over else 'with no more nodes than allowed'), None if ok else facts(I, o))
            continue
        R.ob(props, A5, True if not failed else (False if cl else None), w, '%s: a result is returned although a part has been given up' % name if failed else '%s: all parts are present' % name)
        if failed:
            continue
        if pushes:
            ok = I.decide(ult(limit, n1))
            R.ob(props, A5, True if ok is False else (False if cl else None), w, '%s: number of nodes is %s' % (name, 'within the limit' if ok is False else 'possibly above the limit'), None if ok is False else facts(I, o))
        if pushes or any(e.mode == 'pushed' for e in recs):
            ok = v is addc(n1, -1)
            R.ob(props, A9, True if ok else (False if cl else None), w, '%s: the result is %s' % (name, 'the last node' if ok else show(v, 4) + ' of ' + show(n1, 3)), None if ok else facts(I, o))
        remembered = [e for e in o.S.events if e.k == 'map_insert' and e.m is GEN and not e.present]
        hit = [e for e in o.S.events if e.k == 'map_present' and e.m is GEN]
        if recs:
            ok = any(same(I, e.key, ops) for e in remembered)
            looked = any(e.k in ('map_absent', 'map_present') and e.m is GEN and same(I, e.key, ops) and before(o, e, recs[0]) for e in o.S.events)
            R.ob(props + ('C23',), A7, True if ok and looked else (False if cl else None), w, '%s: result is %s' % (name, 'remembered' if ok and looked else 'not remembered' if not ok else 'not looked up before it is computed'))
        semantics(P, I, R, props, K, N, ops, o, root, name, v, cl, pushes, recs, GEN, RED, n0=o.S.user['n0'])


def before(o, a, b):
    for e in o.S.events:
        if e is a:
            return True
        if e is b:
            return False


def same(I, key, ops):
    return len(key) == len(ops) and all(I.norm(a) is I.norm(b) for a, b in zip(key, ops))


def writes(I, R, props, K, o, root, name, cl, mapaddr):
    """nothing but the stack, the scratch maps and local variables is written"""
    okb = set()
    sd = I.norm(K.data(I, 'stack'))
    bad = 0
    for e in o.S.events:
        if e.k != 'store' or e.base in o.S.fresh:
            continue
        b = I.norm(e.base)
        if b is C and is_const(e.off) and K.f['stack'] <= cval(e.off) < K.f['stack'] + 24:
            continue
        if b is sd or (b.op == 'vdata' and I.norm(b.args[0]) is I.norm(K.a('stack'))):
            continue
        if b.op == 'fld' and b.args[0] == 'entry':
            continue
        bad += 1
        stored = b.op == 'vdata' and I.norm(b.args[0]) in (I.norm(K.a('bdd_instructions')), I.norm(K.a('bdd_delimiters'))) or b is C
        R.ob(props, A6, False if cl and stored else None, locof(e, o, root), '%s: writes to %s' % (name, show(b, 3)))
    if not bad:
        R.ob(props, A6, True, (root.file, root.line, root.dem), '%s: writes to scratch memory only' % name)


def weak_orders(k):
    """all weak orders of k things as tuples of ranks"""
    if k == 0:
        return [()]
    out = set()
    for t in itertools.product(range(k), repeat=k):
        r = sorted(set(t))
        out.add(tuple(r.index(x) for x in t))
    return sorted(out)


def semantics(P, I, R, props, K, N, ops, o, root, name, v, cl, pushes, recs, GEN, RED, n0):
    w = locof(None, o, root)
    S0 = o.S
    d0 = mk('vdata', K.a('bdd_instructions'))
    base = I.S.mem.get(C, {}).get(const(K.f['bdd_instructions']))
    ncase = 0
    und = None
    for kinds in itertools.product(('bot', 'top', 'inner'), repeat=N):
        inner = [k for k in range(N) if kinds[k] == 'inner']
        for order in weak_orders(len(inner)):
            I.S = S0.copy()
            try:
                data = K.data(I, 'bdd_instructions')
                W = [[K.word(I, data, ops[k], p) for p in ('lo', 'hi', 'index')] for k in range(N)]
                for k in range(N):
                    lo, hi, ix = W[k]
                    if kinds[k] == 'inner':
                        I.assume(bnot(eq(lo, hi)))
                        I.assume(ult(I.norm(ix), BOTI))
                        I.add_lin(I.norm(ix))
                    else:
                        I.assume(eq(lo, hi))
                        I.assume(eq(I.norm(ix), MAX if kinds[k] == 'top' else BOTI))
                for x in range(len(inner)):
                    for y in range(x):
                        a, b = I.norm(W[inner[x]][2]), I.norm(W[inner[y]][2])
                        if order[x] == order[y]:
                            I.assume(eq(a, b))
                        elif order[x] < order[y]:
                            I.assume(ult(a, b))
                        else:
                            I.assume(ult(b, a))
                for c in list(S0.facts):
                    c2 = I.norm(c)
                    if c2 is FALSE or I.decide(c2) is False:
                        raise Infeasible()
                contradiction(I)
            except Infeasible:
                continue
            ncase += 1
            W = [[I.norm(x) for x in r] for r in W]
            case = ', '.join('%s%s' % (kinds[k], '' if kinds[k] != 'inner' else '@%d' % order[inner.index(k)]) for k in range(N))
            r = judge(I, K, N, ops, W, kinds, inner, order, o, I.norm(v), pushes, recs, GEN, RED, n0)
            for rule, ok, msg, e, extra in r:
                if ok is True:
                    continue
                R.ob(props + extra, rule, False if ok is False and cl else None, locof(e, o, root), '%s: operands %s: %s' % (name, case, msg), facts(I, o) if ok is False else None)
                und = True
    I.S = S0
    if ncase and not und:
        for rule in (A1, A2, A3, A4, A8):
            R.ob(props + (('C23',) if rule == A8 else ('C02',) if rule == A2 else ()), rule, True, w, '%s: %d combinations of operands' % (name, ncase))


def contradiction(I):
    """comparisons that were undecided when they were assumed may contradict what was assumed later"""
    ts = set()
    for c, v in list(I.S.conds.items()):
        c = I.norm(c)
        if c is TRUE or c is FALSE:
            if (c is TRUE) != v:
                raise Infeasible()
            continue
        if c.op == 'ult':
            r = I.decide_lt(c.args[0], c.args[1], 'ult')
            if r is not None and r != v:
                raise Infeasible()
            ts.update(x for x in c.args if not is_const(x))
    for t in ts:
        lo, hi = I.urange(t)
        if lo > hi:
            raise Infeasible()


def judge(I, K, N, ops, W, kinds, inner, order, o, v, pushes, recs, GEN, RED, n0):
    res = []
    nb = 2 * len(inner)
    ranks = sorted(set(order))
    nbits = nb + len(ranks)
    tot = 1 << nbits
    full = (1 << tot) - 1

    def var(i):
        m = 0
        for t in range(tot):
            if t >> i & 1:
                m |= 1 << t
        return m
    L = {inner[j]: var(2 * j) for j in range(len(inner))}
    H = {inner[j]: var(2 * j + 1) for j in range(len(inner))}
    X = {r: var(nb + j) for j, r in enumerate(ranks)}
    D = {}
    ixs = {}
    for k in range(N):
        if kinds[k] == 'inner':
            x = X[order[inner.index(k)]]
            D.setdefault(I.norm(ops[k]), (x & H[k]) | (full & ~x & L[k]))
            D.setdefault(W[k][0], L[k])
            D.setdefault(W[k][1], H[k])
            ixs.setdefault(W[k][2], order[inner.index(k)])
        else:
            D.setdefault(I.norm(ops[k]), full if kinds[k] == 'top' else 0)

    def pos(t):
        return D.get(I.norm(t))
    spec = full
    for k in range(N):
        spec &= D[I.norm(ops[k])]
    val = {ZERO: 0, ONE: full}
    cons = [full]        # one position denotes one function

    def define(t, m):
        t = I.norm(t)
        if t in val:
            cons[0] &= full & ~(val[t] ^ m)
        else:
            val[t] = m
    # what the results stand for, in the order of the events
    for e in o.S.events:
        if e.k == 'rec':
            m = full
            for a in e.args:
                p = pos(a)
                m = None if p is None or m is None else m & p
            if m is None and any(pos(a) is None and any(kinds[j] != 'inner' and I.norm(a) in W[j][:2] for j in range(N)) for a in e.args):
                res.append((A1, False, 'recursion on an arc of a constant', e, ('C08',)))
            elif m is None:
                res.append((A1, None, 'recursion on operands %s' % ', '.join(show(a, 4) for a in e.args), e, ()))
            t = I.norm(e.val)
            if t is not MAX and m is not None:
                define(t, m)
            # progress
            prog = 0
            for k, a in enumerate(e.args):
                a = I.norm(a)
                if k < N and kinds[k] == 'inner' and (a is W[k][0] or a is W[k][1]):
                    prog += 1
                elif k < N and a is I.norm(ops[k]):
                    pass
                elif any(a is I.norm(x) for x in ops) or any(kinds[j] == 'inner' and (a is W[j][0] or a is W[j][1]) for j in range(N)):
                    pass
                else:
                    prog = -99
            res.append((A8, True if prog > 0 else (False if prog == 0 else None), 'recursion %s' % ('proceeds' if prog > 0 else 'does not proceed to a successor'), e, ('C23',)))
        elif e.k == 'map_present' and e.m is GEN:
            if len(e.key) == N:
                m = full
                for a in e.key:
                    p = pos(a)
                    m = None if p is None or m is None else m & p
                if m is not None and e.val is not None:
                    define(e.val, m)
        elif e.k == 'map_present' and e.m is RED:
            r = node(I, K, e.key, val, ixs, X, full)
            if isinstance(r, int) and e.val is not None:
                define(e.val, r)
            else:
                res.append((A1, None if r is None else r[0], 'a node is looked up: %s' % (r[1] if r else 'unknown successors'), e, ()))
        elif e.k == 'push' and I.norm(e.v) is I.norm(K.a('stack')):
            words = pushed(I, K, o, e)
            at = udiv(sub(I.norm(e.at), I.norm(K.data(I, 'stack'))), const(K.size))
            r = node(I, K, words, val, ixs, X, full) if words else None
            if isinstance(r, int):
                define(at, r)
                v1 = min(order) if order else None
                ok = ixs.get(I.norm(words[2])) == v1
                res.append((A2, ok, 'new node is labelled with %s' % ('the first variable' if ok else 'a later variable'), e, ('C02',)))
                d = I.decide(eq(I.norm(words[0]), I.norm(words[1])))
                res.append((A4, d is False if d is not None else False, 'successors of the new node are %s' % ('different' if d is False else 'possibly equal'), e, ()))
                lk = [x for x in o.S.events if x.k == 'map_absent' and x.m is RED]
                ins = [x for x in o.S.events if x.k == 'map_insert' and x.m is RED]
                okl = any(len(x.key) == 3 and all(I.norm(a) is I.norm(b) for a, b in zip(x.key, words)) for x in lk) or newest(I, words, recs, o, e, K)
                res.append((A4, True if okl else False, 'an equal node is %s before a node is added' % ('looked up' if okl else 'not looked up'), e, ()))
                oki = any(len(x.key) == 3 and all(I.norm(a) is I.norm(b) for a, b in zip(x.key, words)) and x.val and I.norm(x.val[0]) is I.norm(at) for x in ins)
                res.append((A4, True if oki else False, 'the added node is %s' % ('recorded' if oki else 'not recorded'), e, ()))
            elif r is None:
                res.append((A1, None, 'a node with unknown parts is added', e, ()))
            else:
                res.append((A1, r[0], r[1], e, ()))
        elif e.k == 'map_insert' and not e.present and e.m in (GEN, RED) and e.val:
            x = val.get(I.norm(e.val[0]))
            if e.m is GEN:
                m = full
                for a in e.key:
                    p = pos(a)
                    m = None if p is None or m is None else m & p
                if len(e.key) != N:
                    m = None
                ok = None if m is None or x is None else not (m ^ x) & cons[0]
                res.append((A3, ok, 'remembered result %s' % ('is the product' if ok else 'is unknown' if ok is None else 'is not the product'), e, ()))
            else:
                r = node(I, K, e.key, val, ixs, X, full)
                ok = None if not isinstance(r, int) or x is None else not (r ^ x) & cons[0]
                res.append((A3, ok, 'recorded node %s' % ('agrees with its parts' if ok else 'is unknown' if ok is None else 'has other parts'), e, ()))
    x = val.get(v)
    if x is None:
        ok = False if is_const(v) else None
        res.append((A1, ok, 'result %s is unknown' % show(v, 4), None, ()))
    else:
        ok = not (x ^ spec) & cons[0]
        res.append((A1, ok, 'result %s the conjunction' % ('is' if ok else 'is not'), None, ()))
    return res


def newest(I, words, recs, o, e, K):
    """does the new node have a successor that has been added last?"""
    if not recs:
        return False
    last = [r for r in recs if r.mode == 'pushed']
    return bool(last) and any(I.norm(words[k]) is I.norm(last[-1].val) for k in (0, 1)) and before(o, last[-1], e)


def pushed(I, K, o, e):
    ev = o.S.events
    k = next(i for i, x in enumerate(ev) if x is e)
    out = []
    b, off = I.split(I.norm(e.at))
    cells = {}
    for x in ev[:k]:
        if x.k == 'store' and I.norm(x.base) is b:
            d = sub(I.norm(x.off), off)
            if is_const(d):
                cells[cval(d)] = x.val
    for p in ('lo', 'hi', 'index'):
        t = cells.get(K.f['i.' + p])
        if t is None:
            return None
        out.append(I.norm(t))
    return out


def node(I, K, words, val, ixs, X, full):
    if len(words) != 3:
        return None
    lo, hi, ix = (I.norm(x) for x in words)
    a, b = val.get(lo), val.get(hi)
    r = ixs.get(ix)
    if a is None or b is None:
        return None
    if r is None:
        return None
    x = X[r]
    return (x & b) | (full & ~x & a)


# ------------------------------------------------------------------ appending a product
def tops(P):
    out = []
    for n in P.find(COL + r'::bdd_and\(unsigned long') + P.find(r'(unsigned long |size_t )?' + COL + r'::bdd_and<\d+'):
        d = P.demangled(n)
        if '::$_' in d or 'lambda' in d:
            continue
        m = re.search(r'::bdd_and<(\d+)ul>', d)
        out.append((int(m.group(1)) if m else 2, n, bool(m)))
    return sorted(set(out))


def lemma_append(P, R):
    K = Coll(P)
    fs = tops(P)
    if not K.ok or not fs:
        R.ob(('C14', 'C15'), B1, None, None, 'members of the conjunction of stored diagrams not found')
        return
    for k, n, arr in fs:
        if k > 3:
            continue
        append(P, R, K, k, n, arr)
    same_code(P, R, [(k, n) for k, n, arr in fs if arr and k >= 3], 'bdd_and')


def append(P, R, K, N, n, arr):
    name = 'bdd_and<%d>' % N
    props = ('C14',) if not arr else ('C15',)
    ops = [sym('nr%d' % k, small=True) for k in range(N)]
    limit = sym('limit')
    arrslot = sym('OPS', ptr=True, nonnull=True)
    local = {}

    def impl(I, a, nm):
        isarr = 'bdd_and_impl<' in P.demangled(nm)
        if isarr:
            k = int(re.search(r'bdd_and_impl<(\d+)', P.demangled(nm)).group(1))
            ar = [I.norm(I.load(addc(a[1], 8 * j), 8, 'i64')) for j in range(k)]
            lim, gen = I.norm(a[3]), I.norm(a[2])
        else:
            ar, lim, gen = [I.norm(x) for x in a[1:3]], I.norm(a[3]), I.norm(K.a('generated_nodes'))
        n0 = K.length(I, 'stack')
        first = [[K.word(I, K.data(I, 'stack'), const(s), p) for p in ('lo', 'hi', 'index')] for s in range(2)] if n0 is const(2) else None
        g = I.S.maps.get(gen)
        r = I.S.maps.get(I.norm(K.a('reduction')))
        empty = g is not None and g.empty and not g.ents and r is not None and r.empty and not r.ents
        I.S.maps[gen] = HMap(('P', 1), False)
        I.S.maps[I.norm(K.a('reduction'))] = HMap(('P', 1), False)
        for m in (g, r):
            pass
        c = I.choose(4)
        ev = dict(args=ar, limit=lim, this=I.norm(a[0]), gen=gen, n0=n0, first=first, empty=empty)
        if c in (0, 1):
            v = const(c)
            n1 = n0
        else:
            n1 = I.newsym('stacklen', small=True)
            I.add_lin(addc(sub(n1, n0), -1))
            I.store(addc(K.a('stack'), 8), add(K.data(I, 'stack'), scale(n1, K.size)), 8)
            v = addc(n1, -1) if c == 2 else MAX
        I.event('impl', val=v, n1=n1, **ev)
        I.S.user['impl_n'] = n1
        return v
    I = interp(P, [([x for _, x, _ in impls(P)], impl)])

    def setup(I):
        S = I.S
        d = K.data(I, 'stack')
        I.store(addc(K.a('stack'), 8), d, 8)
        S.maps[K.a('generated_nodes')] = HMap(0, True)
        S.maps[K.a('reduction')] = HMap(0, True)
        wf(I, K)
        nb = addc(K.length(I, 'bdd_delimiters'), -1)
        for k, o in enumerate(ops):
            I.add_lin(addc(sub(nb, o), -1))
            if arr:
                S.mem.setdefault(arrslot, {})[const(8 * k)] = (8, o)
        I.assume(ult(const(2), limit))
        S.user['nb'] = nb
        S.user['len0'] = K.length(I, 'bdd_instructions')
        S.written.clear()
    args = [C] + (ops + [limit] if not arr else [arrslot, limit])
    outs, root = explore(I, P, n, args, setup, 3000)
    R.absorb(I, outs)
    if not outs:
        R.ob(props, B1, None, (root.file, root.line, root.dem), name + ': too many paths')
        return
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, name)
        w = locof(None, o, root)
        if o.kind == 'unsupported':
            R.ob(props, B1, None, w, name + ': ' + str(o.info))
            continue
        cl = clean(o)
        im = [e for e in o.S.events if e.k == 'impl']
        len0, nb = I.norm(o.S.user['len0']), I.norm(o.S.user['nb'])
        data = K.data(I, 'bdd_instructions')
        if len(im) == 1 and o.kind in ('ret', 'backedge'):
            e = im[0]
            want = [I.norm(I.load(addc(K.data(I, 'bdd_delimiters'), 0) if x is ZERO else add(K.data(I, 'bdd_delimiters'), scale(I.norm(x), 8)), 8, 'i64')) for x in ops]
            ok = [I.norm(x) for x in e.args] == want
            R.ob(props, B7, True if ok else (False if cl and all(x.op == 'fld' or is_const(x) for x in e.args) else None), locof(e, o, root), '%s: product of %s' % (name, ', '.join(show(x, 4) for x in e.args)))
            ok = e.n0 is const(2) and e.first is not None and [I.norm(e.first[0][2]), I.norm(e.first[1][2])] == [BOTI, MAX] and all(I.norm(x[0]) is I.norm(x[1]) for x in e.first) and e.empty and I.norm(e.limit) is I.norm(limit)
            R.ob(props, B7, True if ok else (False if cl else None), locof(e, o, root), '%s: the product starts with both constants, empty memory and the given limit' % name)
        if o.kind == 'backedge':
            copied(I, R, props, K, o, root, name, cl, len0, im)
            continue
        if o.kind != 'ret':
            continue
        v = I.norm(o.value)
        stack = K.length(I, 'stack')
        okm = all(m.empty and not m.ents for a in ('generated_nodes', 'reduction') for m in [o.S.maps[I.norm(K.a(a))]]) and I.decide(eq(stack, ZERO)) is True
        R.ob(props, B4, True if okm else (False if cl else None), w, '%s: scratch memory is %s' % (name, 'empty' if okm else 'not empty'))
        if len(im) != 1:
            v = I.norm(o.value)
            # the number of a diagram that was there before is not that of an appended one
            old = not im and cl and v in [I.norm(x) for x in ops] and K.length(I, 'bdd_delimiters') is addc(nb, 1)
            R.ob(props, B1, False if old else None, w, '%s: %d products%s' % (name, len(im), ', nothing is appended and a given diagram is returned' if old else ''))
            continue
        e = im[0]
        len1 = K.length(I, 'bdd_instructions')
        nd0 = addc(nb, 1)
        nd1 = K.length(I, 'bdd_delimiters')
        if I.norm(e.val) is MAX:
            ok = v is MAX and len1 is len0 and nd1 is nd0 and not other_writes(I, K, o, len0, nd0)
            R.ob(props, B5, True if ok else (False if cl else None), w, '%s: product given up: returns %s, instructions added: %s, delimiters added: %s' % (name, show(v, 3), show(sub(len1, len0), 3), show(sub(nd1, nd0), 3)))
            continue
        ok = v is nb
        R.ob(props, B6, True if ok else (False if cl else None), w, '%s: returns %s of %s' % (name, show(v, 4), show(nb, 4)))
        copied(I, R, props, K, o, root, name, cl, len0, im, True)
        if I.norm(e.val) in (ZERO, ONE):
            ix = K.word(I, data, len0, 'index')
            ok = ix is (BOTI if e.val is ZERO else MAX)
            R.ob(props, B3, True if ok else (False if cl else None), w, '%s: the product is constant, first instruction is labelled %s' % (name, show(ix, 4)))
        d = sub(len1, len0)
        ok = I.decide(eq(d, I.norm(e.n1)))
        R.ob(props, B1, True if ok else (False if cl and ok is False else None), w, '%s: %s instructions are appended, the product has %s' % (name, show(d, 4), show(e.n1, 4)), None if ok else facts(I, o))
        back = I.norm(I.load(add(K.data(I, 'bdd_delimiters'), scale(addc(nd1, -1), 8)), 8, 'i64'))
        ok = nd1 is addc(nd0, 1) and I.decide(eq(back, len1)) is True
        R.ob(props, B1, True if ok else (False if cl else None), w, '%s: the end of the diagram is recorded: %s' % (name, show(back, 4)))
        bad = other_writes(I, K, o, len0, nd0)
        for x in bad:
            R.ob(props, A6, False if cl and x.base.op == 'vdata' else None, locof(x, o, root), '%s: writes to %s' % (name, show(add(x.base, x.off), 4)))
        if not bad:
            R.ob(props, A6, True, w, name + ': existing diagrams are not written to')


def wf(I, K):
    """the collection is consistent: the last delimiter is the number of instructions"""
    nd = K.length(I, 'bdd_delimiters')
    I.add_lin(addc(nd, -1))
    dd = K.data(I, 'bdd_delimiters')
    back = I.norm(I.load(add(dd, scale(addc(nd, -1), 8)), 8, 'i64'))
    n = K.length(I, 'bdd_instructions')
    setmeta(back, small=True)
    I.assume(eq(back, n))


def other_writes(I, K, o, len0, nd0):
    """writes to instructions or delimiters that existed before"""
    bad = []
    di = I.norm(mk('vdata', K.a('bdd_instructions')))
    dd = I.norm(mk('vdata', K.a('bdd_delimiters')))
    for e in o.S.events:
        if e.k != 'store' or e.base in o.S.fresh:
            continue
        b = I.norm(e.base)
        off = I.norm(e.off)
        if b is di and not I.prove_ge0(sub(off, scale(len0, K.size))):
            bad.append(e)
        elif b is dd and not I.prove_ge0(sub(off, scale(nd0, 8))):
            bad.append(e)
    return bad


def copied(I, R, props, K, o, root, name, cl, len0, im, whole=False):
    """one step of the copy of the product"""
    k, L = loop_of(o) if o.kind == 'backedge' else (0, None)
    if whole:
        if any(e.k == 'loop' for e in o.S.events):
            return
    elif L is None or not im:
        return
    n = I.norm(im[0].n1)
    di = K.data(I, 'bdd_instructions')
    sd = K.data(I, 'stack')
    ps = [e for e in o.S.events[k:] if e.k == 'push' and I.norm(e.v) is I.norm(K.a('bdd_instructions'))]
    for e in ps:
        words = pushed(I, K, o, e)
        b, off = I.split(I.norm(e.at))
        pos = udiv(sub(I.norm(e.at), di), const(K.size))
        w = locof(e, o, root)
        if words is None:
            R.ob(props, B2, None, w, name + ': parts of the appended instruction are unknown')
            continue
        # element of the stack at the mirrored position
        s = sub(addc(add(len0, n), -1), pos)
        want = [K.word(I, sd, s, p) for p in ('lo', 'hi', 'index')]
        top = addc(add(len0, n), -1)
        for j, p in ((0, 'lo'), (1, 'hi')):
            exp = I.norm(sub(top, want[j]))
            ok = words[j] is exp or I.decide(eq(words[j], exp)) is True
            R.ob(props, B2, True if ok else (False if cl else None), w, '%s: %s arc of the instruction appended at position %s is %s' % (name, p, show(pos, 4), 'relocated' if ok else show(words[j], 5)), None if ok else [show(exp, 6), show(words[j], 6)])
        ok = words[2] is I.norm(want[2])
        R.ob(props, B2, True if ok else (False if cl else None), w, '%s: label of the instruction is %s' % (name, 'copied' if ok else show(words[2], 5)))


# ------------------------------------------------------------------ dispatch on the number of operands
def lemma_dispatch(P, R):
    K = Coll(P)
    props = ('C15',)
    ns = P.find(r'(unsigned long |size_t )?' + COL + r'::bdd_and<__gnu_cxx')
    if not K.ok or not ns:
        R.ob(props, D1, None, None, 'conjunction of a range not found')
        return
    ks = {}
    for x in P.find(r'(unsigned long |size_t )?' + COL + r'::bdd_and<\d+'):
        ks[x] = int(re.search(r'bdd_and<(\d+)', P.demangled(x)).group(1))
    two = P.find(COL + r'::bdd_and\(unsigned long, unsigned long')

    def many(I, a, nm):
        t = MAX if any(e.k == 'conj' for e in I.S.events) is False and I.choose(2) else I.newsym('conj', small=True)
        v = [I.norm(I.load(addc(a[1], 8 * j), 8, 'i64')) for j in range(ks[nm])]
        I.event('conj', this=I.norm(a[0]), args=v, limit=I.norm(a[2]), val=t)
        return t

    def pair(I, a, nm):
        t = MAX if any(e.k == 'conj' for e in I.S.events) is False and I.choose(2) else I.newsym('conj', small=True)
        I.event('conj', this=I.norm(a[0]), args=[I.norm(x) for x in a[1:3]], limit=I.norm(a[3]), val=t)
        return t
    B = sym('RANGE', ptr=True, nonnull=True, cls='ARR')
    cnt = sym('cnt', small=True)
    limit = sym('limit')
    for n in ns:
        I = interp(P, [(list(ks), many), (two, pair)])
        outs, root = explore(I, P, n, [C, B, add(B, scale(cnt, 8)), limit])
        R.absorb(I, outs)
        if not outs:
            R.ob(props, D1, None, (root.file, root.line, root.dem), 'too many paths')
        seen = set()
        und = False
        for o in outs:
            I.S = o.S
            w = locof(None, o, root)
            cl = clean(o)
            if o.kind not in ('ret', 'throw'):
                R.ob(props, D1, None, w, 'path ends with %s %s' % (o.kind, o.info or ''))
                und = True
                continue
            c = I.norm(cnt)
            if o.kind == 'throw':
                bad = [k for k in range(1, 50) if possible(I, o, cnt, k)]
                R.ob(props, D1, True if not bad else (False if cl else None), w, 'an exception is raised for %s' % ('other numbers of operands' if not bad else '%d operands' % bad[0]), None if not bad else facts(I, o))
                continue
            if not is_const(c):
                bad = possible(I, o, cnt, 50) or possible(I, o, cnt, 0)
                R.ob(props, D1, None, w, 'a result is returned for a number of operands that is not known', facts(I, o))
                und = True
                continue
            k = cval(c)
            seen.add(k)
            if not 1 <= k <= 49:
                R.ob(props, D1, False if cl else None, w, 'no exception for %d operands' % k, facts(I, o))
                continue
            want = [I.norm(I.load(addc(B, 8 * j), 8, 'i64')) for j in range(k)]
            ev = [e for e in o.S.events if e.k == 'conj']
            v = I.norm(o.value)
            if not ev:
                ok = k == 1 and v is want[0]
                R.ob(props, D2, True if ok else (False if cl else None), w, '%d operands: %s' % (k, 'the diagram itself is returned' if ok else 'returns %s without any conjunction' % show(v, 4)))
                continue
            # results of pairwise conjunctions may be operands of others
            got = {}
            for e in ev:
                s = set()
                for a in e.args:
                    s |= got.get(a, {a})
                    if a is MAX:
                        R.ob(props, D2, False if cl else None, locof(e, o, root), '%d operands: a product that has been given up is an operand of another one' % k)
                got[I.norm(e.val)] = s
                ok = e.this is C and e.limit is limit
                R.ob(props, D2, True if ok else (False if cl else None), locof(e, o, root), '%d operands: same collection and limit' % k if ok else '%d operands: another collection or limit' % k)
            s = got.get(v)
            ok = s is not None and s == set(want)
            miss = [j for j in range(k) if s is None or want[j] not in s]
            R.ob(props, D2, True if ok else (False if cl else None), locof(ev[-1], o, root), '%d operands: %s' % (k, 'all are taken' if ok else 'the result is not that of the conjunction' if s is None else 'operand %d is not taken' % miss[0] if miss else 'other diagrams are taken'), None if ok else ['taken: %s' % ', '.join(show(x, 4) for x in (s or ()))])
        if outs and not und:
            miss = [k for k in range(1, 50) if k not in seen]
            R.ob(props, D1, True if not miss else None, (root.file, root.line, root.dem), '%d numbers of operands have a path of their own%s' % (len(seen), ', none for %s' % miss if miss else ''))


def possible(I, o, t, k):
    I.S = o.S.copy()
    try:
        I.assume(eq(I.norm(t), const(k)))
        return not any(I.decide(c) is False for c in o.S.facts)
    except Infeasible:
        return False
    finally:
        I.S = o.S


# ------------------------------------------------------------------ keys of hash tables
def lemma_keys(P, R):
    """equality and hashes of the keys of the tables used by managers and collections"""
    types = ((INS, INS + '_hasher', 3, ('C14', 'C15', 'C17')), ('BDD::node_ref', 'std::hash<BDD::node_ref>', 1, ('C12', 'C13')))
    for cls, hs, words, props in types:
        a, b = sym('OA', ptr=True, nonnull=True, cls=None), sym('OB', ptr=True, nonnull=True, cls=None)
        for n in P.find(re.escape(cls) + r'::operator(==|!=)\(|bool BDD::operator(==|!=)\(' + re.escape(cls)):
            neg = 'operator!=' in P.demangled(n)
            if len(P.func(n).args) != 2:
                continue
            I = interp(P)
            outs, root = explore(I, P, n, [a, b])
            R.absorb(I, outs)
            name = cls.split('::')[-1]
            if not outs:
                R.ob(props, H1, None, (root.file, root.line, root.dem), name + ': too many paths')
            for o in outs:
                I.S = o.S
                cl = clean(o)
                w = locof(None, o, root)
                if o.kind != 'ret' or not hasattr(o.value, 'op'):
                    R.ob(props, H1, None, w, '%s: path ends with %s' % (name, o.kind))
                    continue
                v = I.norm(o.value)
                for val in (True, False):
                    I.S = o.S.copy()
                    try:
                        I.assume(truth(v), val != neg)
                    except Infeasible:
                        continue
                    ws = [(I.norm(I.load(addc(a, 8 * k), 8, 'i64')), I.norm(I.load(addc(b, 8 * k), 8, 'i64'))) for k in range(words)]
                    if val:
                        bad = [k for k in range(words) if I.decide(eq(*ws[k])) is not True]
                        R.ob(props, H1, True if not bad else (False if cl else None), w, '%s: %s' % (name, 'equal objects agree in all members' if not bad else 'objects are equal although member %d may differ' % bad[0]), None if not bad else facts(I, o))
                    else:
                        try:
                            for k in range(words):
                                I.assume(eq(I.norm(ws[k][0]), I.norm(ws[k][1])))
                            ok = any(I.decide(c) is False for c in o.S.facts)
                        except Infeasible:
                            ok = True
                        R.ob(props, H1, True if ok else (False if cl else None), w, '%s: objects that agree in all members are %s' % (name, 'equal' if ok else 'different'), None if ok else facts(I, o))
        for n in P.find(re.escape(hs) + r'::operator\(\)'):
            hash_of(P, R, props, n, words, cls.split('::')[-1])
    for n in P.find(r'BDD::array_hasher<\d+(ul)?>::operator\(\)'):
        k = int(re.search(r'array_hasher<(\d+)', P.demangled(n)).group(1))
        hash_of(P, R, ('C14',) if k == 2 else ('C15',), n, k, 'array of %d' % k)


def truth(v):
    return v if v.op in ('eq0', 'not', 'band', 'true', 'false', 'ult', 'slt') else bnot(eq(v, ZERO))


def hash_of(P, R, props, n, words, name):
    a = sym('OA', ptr=True, nonnull=True, cls=None)
    I = interp(P)
    outs, root = explore(I, P, n, [sym('HASHER', ptr=True, nonnull=True, cls=None), a])
    R.absorb(I, outs)
    vals = set()
    for o in outs:
        I.S = o.S
        w = locof(None, o, root)
        cl = clean(o)
        if o.kind != 'ret' or not hasattr(o.value, 'op'):
            R.ob(props, H2, None, w, '%s: path ends with %s' % (name, o.kind))
            continue
        v = I.norm(o.value)
        vals.add(v)
        okt = set(I.norm(I.load(addc(a, 8 * k), 8, 'i64')) for k in range(words))
        bad, todo, seen = [], [v], set()
        while todo:
            x = todo.pop()
            if x in seen or x in okt:
                continue
            seen.add(x)
            if x.op in ('sym', 'fld', 'call', 'global', 'phi'):
                bad.append(x)
                continue
            st = list(x.args)
            while st:
                y = st.pop()
                if hasattr(y, 'op'):
                    todo.append(y)
                elif isinstance(y, tuple):
                    st.extend(y)
        R.ob(props, H2, True if not bad else (False if cl else None), w, 'hash of %s depends on %s' % (name, 'its members' if not bad else show(bad[0], 4)))
        ne = [e for e in o.S.events if e.k == 'store' and e.base not in o.S.fresh]
        if ne:
            R.ob(props, H2, None, locof(ne[0], o, root), 'hash of %s writes to memory' % name)
    if not outs:
        R.ob(props, H2, None, (root.file, root.line, root.dem), '%s: too many paths' % name)
