"""Building stored diagrams node by node, and reading stored diagrams through entries and nodes.

A diagram under construction is the range of instructions from its first delimiter to the end of the array; the two constants follow when
it is closed.  The values that stand for arcs not known yet are read off the functions that write them; closing has to recognise the same
values."""
from .terms import *
from .numeric import leaves, witness as small_witness
from .interp import *
from .nodes import *
from .lemmas_ops import setup_mgr, mkinterp, slot, locof, facts, clean, check_common
from .lemmas_coll import Coll, COL, C, MAX, BOTI, wf, other_writes
from .lemmas_store import Stored, equal
from .lemmas_edit import segment

N1 = 'a new diagram begins after all others'
N2 = 'a node is appended with its label and without arcs'
N3 = 'an arc is set to the given node or constant'
N4 = 'closing appends the two constants'
N5 = 'closing directs arcs to constants, keeps other arcs and reports missing arcs'
N6 = 'closing passes over all nodes of the diagram'
N7 = 'nothing else is written'
N8 = 'values that stand for unknown arcs are distinct and no positions'

V1 = 'constants, root and nodes of a stored diagram'
V2 = 'arcs, labels and kinds of nodes of a stored diagram'
V3 = 'traversal from the first node in postorder'
V4 = 'number of nodes of a stored diagram'
V5 = 'variables of a stored diagram'
V6 = 'equality of nodes of stored diagrams'
V7 = 'reading changes nothing'

BN = 'BDD::bdd_collection_node'
BE = 'BDD::bdd_collection_entry'
NR = sym('nr', small=True)
I1 = sym('i', small=True)
I2 = sym('j', small=True)
VAR = sym('var', small=True)


class Lay:
    def __init__(self, P):
        f = lambda c, x: P.field(c, x) // 8
        try:
            self.i, self.bce, self.nr, self.col = f(BN, 'i'), f(BN, 'bce'), f(BE, 'bdd_nr'), f(BE, 'bdd_col')
            self.ok = True
        except Exception:
            self.ok = False


def put_entry(I, L, s, nr, off=0):
    I.store(addc(s, off + L.nr), nr, 8)
    I.store(addc(s, off + L.col), C, 8)


def put_node(I, L, name, i, nr=NR):
    s = slot(I, name, BN)
    I.store(addc(s, L.i), i, 8)
    put_entry(I, L, s, nr, L.bce)
    return s


def got_node(I, L, s):
    return [I.norm(I.load(addc(s, x), 8, t)) for x, t in ((L.i, 'i64'), (L.bce + L.nr, 'i64'), (L.bce + L.col, 'ptr'))]


class Run:
    """one function on a well-formed collection"""

    def __init__(self, P, R, K, L, n, rule, props, scen=None, mk=None, building=False, maxpath=300):
        self.P, self.R, self.K, self.L, self.rule, self.props = P, R, K, L, rule, props
        self.root = P.func(n)
        self.name = self.root.dem.split('(')[0].replace('BDD::', '')
        I = self.I = mkinterp(P)
        want = len(self.root.args)

        def start(I):
            setup_mgr(I)
            wf(I, K)
            if building:
                I.add_lin(addc(K.length(I, 'bdd_delimiters'), -2))
                D = Stored(I, K, I.norm(addc(K.length(I, 'bdd_delimiters'), -2)))
                I.add_lin(sub(D.e, D.b))
                I.S.user['D'] = D
            else:
                D = Stored(I, K)
                I.S.user['D'] = D
                D.wf()
            if scen:
                scen(I, D)
            a = mk(I, D)
            I.S.user['len0'] = I.norm(K.length(I, 'bdd_instructions'))
            I.S.user['nd0'] = I.norm(K.length(I, 'bdd_delimiters'))
            I.S.facts.clear()
            I.S.events.clear()
            if len(a) != want:
                raise Unsupported('arguments')
            return I.run(self.root, a)
        try:
            self.outs = I.explore(start, maxpath)
        except Budget:
            self.outs = []
        R.absorb(I, self.outs)
        if not self.outs:
            R.ob(props, rule, None, (self.root.file, self.root.line, self.root.dem), self.name + ': too many paths')

    def paths(self, kinds=('ret',)):
        for o in self.outs:
            self.I.S = o.S
            check_common(self.I, self.R, o, self.root, self.name, self.props + ('C08',))
            if o.kind == 'unsupported':
                self.ob(o, self.rule, False, False, str(o.info))
            if o.kind in kinds:
                yield o

    def ob(self, o, rule, ok, bad, msg, e=None):
        self.R.ob(self.props, rule, True if ok else (False if bad and clean(o) else None), locof(e, o, self.root), '%s: %s' % (self.name, msg), None if ok else facts(self.I, o))

    def stores(self, o):
        return [e for e in o.S.events if e.k == 'store' and e.base not in o.S.fresh]

    def value(self, o, rule, got, want, what):
        """got must be want"""
        I = self.I
        got, want = I.norm(got), I.norm(want)
        ok = equal(I, got, want)
        sure = ok is False or not any(x.op in ('phi', 'mval', 'undef', 'ambig', 'rmem', 'sym0') for x in subterms(got)) and got.op in ('lin', 'fld', 'sym', 'const', 'vlen', 'mem', 'vdata')
        self.ob(o, rule, ok is True, sure, '%s is %s' % (what, show(want, 4) if ok is True else show(got, 5) + ' instead of ' + show(want, 5)))
        return ok is True


def labels(I, D, q, kind):
    """assume that the instruction at q is a constant"""
    w = BOTI if kind == 'bot' else MAX
    for x in ('index', 'lo', 'hi'):
        I.assume(eq(I.norm(D.word(q, x)), w))


def inner(I, D, q):
    ix = I.norm(D.word(q, 'index'))
    I.assume(eq(ix, BOTI), False)
    I.assume(eq(I.norm(ix), MAX), False)


def long(I, D):
    """not at the very beginning of the array: distances from the end do not wrap around"""
    I.add_lin(addc(D.e, -3))


SIZES = (None, long)
ORDERS = (('top', 'bot'), ('bot', 'top'))


def closed(order):
    def scen(I, D):
        labels(I, D, addc(D.e, -2), order[0])
        labels(I, D, addc(D.e, -1), order[1])
    return scen


def const_at(D, order, kind):
    return addc(D.e, -2 if order[0] == kind else -1)


# ------------------------------------------------------------------ building
def lemma_build(P, R):
    K, L = Coll(P), Lay(P)
    props = ('C30',)
    fn = {}
    for k in ('new_bdd', 'add_bdd_node', 'close_bdd'):
        fs = P.find(COL + '::' + k + r'\(')
        if fs:
            fn[k] = fs[0]
    for k in ('set_lo_arc', 'set_hi_arc', 'set_lo_to_0_terminal', 'set_lo_to_1_terminal', 'set_hi_to_0_terminal', 'set_hi_to_1_terminal'):
        fs = P.find(BN + '::' + k + r'\(')
        if fs:
            fn[k] = fs[0]
    if len(fn) < 9 or not K.ok or not L.ok:
        R.ob(props, N1, None, None, 'functions that build stored diagrams not found: %d of 9' % len(fn))
    special = {}
    if 'new_bdd' in fn:
        build_new(P, R, K, L, fn['new_bdd'], props)
    if 'add_bdd_node' in fn:
        build_add(P, R, K, L, fn['add_bdd_node'], props, special)
    for k, n in sorted(fn.items()):
        if k.startswith('set_'):
            build_set(P, R, K, L, n, k, props, special)
    w0 = None
    if 'close_bdd' in fn:
        f = P.func(fn['close_bdd'])
        w0 = (f.file, f.line, f.dem)
    vals = {}
    for k in ('undef', 'top', 'bot'):
        v = special.get(k, set())
        if len(v) == 1:
            vals[k] = next(iter(v))
    if len(vals) == 3:
        cs = [cval(v) if is_const(v) else None for v in vals.values()]
        ok = None not in cs and len(set(cs)) == 3 and all(c < 0 or c >= 1 << 62 for c in cs)
        R.ob(props, N8, True if ok else (False if None not in cs else None), w0, 'values that stand for arcs: ' + ', '.join('%s %s' % (k, show(v)) for k, v in sorted(vals.items())))
    else:
        bad = [k for k in special if len(special[k]) > 1]
        R.ob(props, N8, False if bad else None, w0, 'values that stand for arcs: %s' % (', '.join(bad) + ' not unique' if bad else 'not found'))
        if bad:
            return
    if 'close_bdd' in fn and len(vals) == 3:
        build_close(P, R, K, L, fn['close_bdd'], props, vals)


def build_new(P, R, K, L, n, props):
    X = Run(P, R, K, L, n, N1, props, mk=lambda I, D: [C])
    I = X.I
    for o in X.paths():
        len0, nd0 = o.S.user['len0'], o.S.user['nd0']
        X.value(o, N1, K.length(I, 'bdd_delimiters'), addc(nd0, 1), 'number of delimiters')
        X.value(o, N1, I.load(add(K.data(I, 'bdd_delimiters'), scale(nd0, 8)), 8, 'i64'), len0, 'the new delimiter')
        X.value(o, N1, o.value, addc(nd0, -1), 'the returned number')
        X.value(o, N1, K.length(I, 'bdd_instructions'), len0, 'number of instructions')
        untouched(X, o)


def untouched(X, o, allowed=()):
    """existing instructions and delimiters are not written to"""
    I, K = X.I, X.K
    bad = [e for e in other_writes(I, K, o, o.S.user['len0'], o.S.user['nd0']) if not any(I.norm(e.base) is b and equal(I, e.off, off) is True for b, off in allowed)]
    for e in bad:
        X.ob(o, N7, False, I.norm(e.base).op == 'vdata', 'writes to ' + show(add(e.base, e.off), 5), e)
    if not bad:
        X.ob(o, N7, True, False, 'other diagrams are not written to')


def build_add(P, R, K, L, n, props, special):
    X = Run(P, R, K, L, n, N2, props, building=True, mk=lambda I, D: [slot(I, 'ret', BN), C, VAR])
    I = X.I
    for o in X.paths():
        len0, nd0 = o.S.user['len0'], o.S.user['nd0']
        di, dd = I.norm(K.data(I, 'bdd_instructions')), I.norm(K.data(I, 'bdd_delimiters'))
        X.value(o, N2, K.length(I, 'bdd_instructions'), addc(len0, 1), 'number of instructions')
        X.value(o, N2, K.length(I, 'bdd_delimiters'), nd0, 'number of delimiters')
        X.value(o, N2, I.load(add(dd, scale(addc(nd0, -1), 8)), 8, 'i64'), addc(len0, 1), 'the last delimiter')
        X.value(o, N2, K.word(I, di, len0, 'index'), VAR, 'the label of the new node')
        for x in ('lo', 'hi'):
            v = I.norm(K.word(I, di, len0, x))
            X.ob(o, N2, is_const(v), False, '%s arc of the new node is %s' % (x, show(v, 4)))
            special.setdefault('undef', set()).add(v)
        i, nr, col = got_node(I, L, slot(I, 'ret', BN))
        X.value(o, N2, i, len0, 'the position of the returned node')
        X.value(o, N2, nr, addc(nd0, -2), 'the diagram of the returned node')
        X.value(o, N2, col, C, 'the collection of the returned node')
        untouched(X, o, [(dd, I.norm(scale(addc(nd0, -1), 8)))])


def build_set(P, R, K, L, n, k, props, special):
    part = 'lo' if '_lo_' in k else 'hi'
    arc = k.endswith('_arc')
    kind = 'bot' if '_0_' in k else 'top'
    scens = [('of any diagram', None)] if arc else [('under construction', 'building')] + [('of a closed diagram, constants %s and %s' % s, s) for s in ORDERS]
    for what, s in scens:
        def scen(I, D, s=s):
            if s == 'building':
                inner(I, D, addc(D.e, -1))
            elif s:
                closed(s)(I, D)

        def args(I, D):
            I.add_lin(addc(sub(sub(D.e, I1), ONE), 0))
            I.add_lin(sub(I1, D.b))
            a = [put_node(I, L, 'this', I1)]
            if arc:
                a.append(put_node(I, L, 'node', I2))
            return a
        X = Run(P, R, K, L, n, N3, props, scen, args)
        I = X.I
        for o in X.paths():
            D = o.S.user['D']
            at = scale(I1, K.size)
            st = [e for e in X.stores(o) if I.norm(e.base) is D.data]
            for e in X.stores(o):
                ok = e in st and I.norm(e.off) is I.norm(addc(at, K.f['i.' + part]))
                if not ok:
                    same = isinstance(e.old, T) and I.norm(e.old) is I.norm(e.val)
                    X.ob(o, N7, same, I.norm(e.base) is D.data, 'writes to ' + show(add(e.base, e.off), 5), e)
            v = I.norm(D.word(I1, part))
            if not [e for e in st if I.norm(e.off) is I.norm(addc(at, K.f['i.' + part]))]:
                X.ob(o, N3, False, True, '%s arc of a node %s is not written' % (part, what))
                continue
            if arc:
                X.value(o, N3, v, I2, '%s arc' % part)
            elif s == 'building':
                X.ob(o, N3, is_const(v), True, '%s arc to constant of a diagram %s is %s' % (part, what, show(v, 4)))
                special.setdefault(kind, set()).add(v)
            else:
                X.value(o, N3, v, const_at(D, s, kind), '%s arc to constant %s of a node %s' % (part, kind, what))
            X.ob(o, N7, True, False, 'one arc is written')


def build_close(P, R, K, L, n, props, vals):
    for some in (True, False):
        def scen(I, D, some=some):
            if some:
                long(I, D)
        close(Run(P, R, K, L, n, N5, props, scen, building=True, mk=lambda I, D: [C], maxpath=1500), P, R, K, props, vals, some)


def close(X, P, R, K, props, vals, some):
    U, T_, B_ = vals['undef'], vals['top'], vals['bot']
    I = X.I
    seen = 0
    final = set()
    loopcon = set()
    for o in X.paths(('ret', 'backedge', 'throw')):
        S = o.S
        D = S.user['D']
        di, dd = I.norm(K.data(I, 'bdd_instructions')), I.norm(K.data(I, 'bdd_delimiters'))
        len0, nd0 = S.user['len0'], S.user['nd0']
        con = last_two(I, K, di, len0)
        lastd = I.norm(scale(addc(nd0, -1), 8))
        if o.kind == 'ret':
            X.value(o, N4, K.length(I, 'bdd_instructions'), addc(len0, 2), 'number of instructions')
            X.value(o, N4, K.length(I, 'bdd_delimiters'), nd0, 'number of delimiters')
            X.value(o, N4, I.load(add(dd, lastd), 8, 'i64'), addc(len0, 2), 'the last delimiter')
            ok = set(con) == {'bot', 'top'}
            X.ob(o, N4, ok, None not in con, 'the last two instructions are %s and %s' % con)
            final.add(con)
            loops = [e for e in S.events if e.k == 'loop']
            if len(loops) != 1:
                X.ob(o, N6, False, not loops, '%d loops over the nodes' % len(loops))
                continue
            e = loops[0]
            k = ZERO if e.first else I.norm(e.K)
            n0 = I.norm(sub(len0, D.b))
            left = I.norm(sub(n0, k))
            ok = equal(I, left, ZERO) is True
            bad = equal(I, left, ZERO) is False or is_const(left) and left is not ZERO
            if e.first and not ok and I.prove_ge0(addc(sub(D.b, len0), 0)):
                ok = True       # no nodes
            X.ob(o, N6, ok, bad, 'the loop ends with %s nodes left' % show(left, 5))
            bad = [e for e in X.stores(o) if I.norm(e.base) in (di, dd) and not allowed_close(I, K, e, di, dd, len0, lastd, None)]
            for e in bad:
                X.ob(o, N7, False, I.norm(e.base) is not di or not overwritten(I, K, e, D, len0), 'writes to ' + show(add(e.base, e.off), 5), e)
            if not bad:
                X.ob(o, N7, True, False, 'other diagrams are not written to')
            continue
        # an iteration
        be = S.events[-1]
        loop = next((e for e in reversed(S.events) if e.k == 'loop'), None)
        if loop is None:
            X.ob(o, N5, False, o.kind == 'throw', 'exception outside of the loop over the nodes' if o.kind == 'throw' else 'iteration of an unknown loop')
            continue
        i0 = next(i for i, e in enumerate(S.events) if e is loop)
        seg = S.events[i0 + 1:]
        k = ZERO if loop.first else I.norm(loop.K)
        q = I.norm(add(D.b, k))
        st = [e for e in seg if e.k == 'store' and e.base not in S.fresh and I.norm(e.base) in (di, dd, C)]
        old = {}
        for x in ('lo', 'hi'):
            w = [e for e in st if I.norm(e.base) is di and equal(I, e.off, addc(scale(q, K.size), K.f['i.' + x])) is True]
            old[x] = I.norm(w[0].old) if w and isinstance(w[0].old, T) else I.norm(D.word(q, x)) if not w else None
        # nodes that the iteration has looked at
        read = [p for p in D.labels() if p is not q and isarc_of(I, D, p, len0, S)]
        if o.kind == 'throw':
            und = [x for x in old if old[x] is not None and I.decide(eq(old[x], U)) is True]
            other = any(I.decide(eq(I.norm(D.word(p, x)), U)) is True for p in read for x in ('lo', 'hi'))
            known = all(old[x] is not None and I.decide(eq(old[x], U)) is False for x in old)
            X.ob(o, N5, bool(und), known and not other, 'exception for %s' % ('a missing %s arc' % und[0] if und else 'a node without missing arcs'))
            continue
        seen += 1
        new = {x: I.norm(D.word(q, x)) for x in ('lo', 'hi')}
        for e in st:
            if I.norm(e.base) is di and allowed_close(I, K, e, di, dd, len0, lastd, q):
                continue
            p = D.position(I.norm(addc(e.off, -K.f['i.lo']))) if I.norm(e.base) is di else None
            X.ob(o, N6, False, I.norm(e.base) is di and is_const(sub(p, q)) if p is not None else False, 'iteration %s writes to %s' % (show(k, 3), show(add(e.base, e.off), 5)), e)
        for x in ('lo', 'hi'):
            if old[x] is None:
                X.ob(o, N5, False, False, '%s arc of node %s unknown' % (x, show(k, 3)))
                continue
            d = [I.decide(eq(old[x], v)) for v in (U, T_, B_)]
            known = None not in d or True in d
            if d[0] is True or not known and d[0] is None:
                wit = d[0] is True or not mentions(I, old[x])
                X.ob(o, N5, False, wit, 'a missing %s arc is not reported' % x)
                continue
            want = None
            for dd_, kd in ((d[1], 'top'), (d[2], 'bot')):
                if dd_ is True:
                    want = kd
            if want is None and None in d:
                X.ob(o, N5, False, new[x] is old[x] and not mentions(I, old[x]), '%s arc is %s, whether it leads to a constant is not looked at' % (x, 'kept' if new[x] is old[x] else 'changed'))
                continue
            if want is None:
                ok = new[x] is old[x]
                X.ob(o, N5, ok, True, '%s arc to a node is %s' % (x, 'kept' if ok else 'changed to ' + show(new[x], 5)))
                continue
            pos = [add(len0, const(j)) for j in range(2) if con[j] == want]
            if not pos:
                c2 = I.norm(sub(new[x], len0))
                loopcon.add((want, cval(c2) if is_const(c2) else None))
                continue
            ok = any(equal(I, new[x], p) is True for p in pos)
            c2 = I.norm(sub(new[x], len0))
            X.ob(o, N5, ok, is_const(c2) or new[x] is old[x], '%s arc to constant %s is %s' % (x, want, 'directed to it' if ok else show(new[x], 5)), None)
    if not seen:
        R.ob(props, N5, None, (X.root.file, X.root.line, X.root.dem), X.name + ': no iteration over the nodes')
    if loopcon:
        # the constants are appended after the loop
        f = next(iter(final)) if len(final) == 1 else (None, None)
        for kd, j in sorted(loopcon, key=str):
            ok = j in (0, 1) and f[j] == kd
            R.ob(props, N5, True if ok else (False if j is not None and None not in f else None), (X.root.file, X.root.line, X.root.dem), '%s: arcs to constant %s are directed to position %s of the constants, which is %s' % (X.name, kd, j, f[j] if j in (0, 1) else '?'))


def mentions(I, t):
    """is anything known about the term on this path?"""
    t = I.norm(t)
    return any(t in subterms(c) for c in I.S.facts)


def last_two(I, K, di, n):
    """the two instructions after the nodes, by what has been written to them; iterations of the loop are checked to write to nodes only"""
    out = []
    for j in range(2):
        v = {}
        for e in I.S.events:
            if e.k == 'store' and I.norm(e.base) is di:
                for x in ('lo', 'hi', 'index'):
                    if equal(I, e.off, addc(scale(addc(n, j), K.size), K.f['i.' + x])) is True:
                        v[x] = I.norm(e.val)
        if len(v) < 3:
            out.append(None)
            continue
        out.append('bot' if v['index'] is BOTI and v['lo'] is v['hi'] else 'top' if v['index'] is MAX and v['lo'] is v['hi'] else None)
    return tuple(out)


def allowed_close(I, K, e, di, dd, len0, lastd, q):
    b, off = I.norm(e.base), I.norm(e.off)
    if b is dd:
        return equal(I, off, lastd) is True
    if b is di:
        if I.prove_ge0(sub(off, scale(len0, K.size))):
            return True
        if q is not None:
            d = I.norm(sub(off, scale(q, K.size)))
            return is_const(d) and cval(d) in (K.f['i.lo'], K.f['i.hi'])
    return False


def overwritten(I, K, e, D, len0):
    p = D.position(I.norm(addc(e.off, -K.f['i.lo'])))
    return p is None or I.prove_ge0(sub(p, D.b))


def isarc_of(I, D, p, len0, S):
    return I.prove_ge0(sub(p, D.b)) and not I.prove_ge0(sub(p, len0))


# ------------------------------------------------------------------ reading
def gives_up(I, o, left, n):
    """can the path be taken with at least n instructions left, all of them with small labels?"""
    fs = [I.norm(f) for f in o.S.facts]
    for f in fs:
        ls = set()
        leaves(f, ls)
        if len(ls) > 1 and any(x.op not in ('fld', 'mem', 'sym', 'iter') for y in ls for x in subterms(y) if isinstance(x, T) and x.op in ('phi', 'mval', 'undef', 'ambig', 'rmem', 'rcell')):
            return False
    w = small_witness(fs + [bnot(ult(left, const(n))), slt(left, const(1000))], (0, 1, 2, 4, 9))
    return bool(w)


def lemma_view(P, R):
    K, L = Coll(P), Lay(P)
    props = ('C31',)
    if not K.ok or not L.ok:
        R.ob(props, V1, None, None, 'members of stored diagrams not found')
        return
    E = lambda n: P.find(r'(^|\s)' + BE + '::' + n)
    N = lambda n: P.find(r'(^|\s)' + BN + '::' + n)
    Cc = lambda n: P.find(r'(^|\s)' + COL + '::' + n)
    missing = []

    def need(fs, what):
        if not fs:
            missing.append(what)
        return fs[:1]

    def entry(I, D):
        s = slot(I, 'this', BE)
        put_entry(I, L, s, NR)
        return s

    def pure(X, o):
        st = [e for e in X.stores(o)]
        for e in st:
            b = I_(X).norm(e.base)
            X.ob(o, V7, False, b.op == 'vdata' or b is C, 'writes to ' + show(add(e.base, e.off), 5), e)
        if not st:
            X.ob(o, V7, True, False, 'writes nothing')
    I_ = lambda X: X.I

    def node(n, rule, want, scen=None, this='entry', extra=(), what='the node', pre=None):
        def args(I, D):
            if this == 'node':
                a = put_node(I, L, 'this', I1)
            else:
                a = entry(I, D)
            if pre:
                pre(I, D)
            return [slot(I, 'ret', BN), a] + list(extra)
        X = Run(P, R, K, L, n, rule, props, scen, args)
        for o in X.paths():
            D = o.S.user['D']
            i, nr, col = got_node(X.I, L, slot(X.I, 'ret', BN))
            X.value(o, rule, i, want(X.I, D), 'position of ' + what)
            X.value(o, rule, nr, NR, 'diagram of ' + what)
            X.value(o, rule, col, C, 'collection of ' + what)
            pure(X, o)

    def inside(I, D):
        I.add_lin(addc(sub(D.e, I1), -1))
        I.add_lin(sub(I1, D.b))
    for n in need(E(r'root_node\('), 'root_node'):
        node(n, V1, lambda I, D: D.b, what='the root')
    for s in ORDERS:
        for kd, f in (('bot', r'botsink\('), ('top', r'topsink\(')):
            for n in need(E(f), f):
                node(n, V1, lambda I, D, s=s, kd=kd: const_at(D, s, kd), closed(s), what='constant %s, constants in order %s, %s' % ((kd,) + s))
    for n in need(E(r'operator\[\]\('), 'operator[]'):
        node(n, V1, lambda I, D: add(D.b, I2), extra=(I2,), what='node i')
    for n in need(E(r'first_node_postorder\('), 'first_node_postorder'):
        node(n, V3, lambda I, D: addc(D.e, -3), pre=lambda I, D: I.add_lin(addc(sub(D.e, D.b), -3)), what='the first node')
    for n in need(N(r'next_postorder\('), 'next_postorder'):
        node(n, V3, lambda I, D: addc(I1, -1), this='node', pre=lambda I, D: (inside(I, D), I.add_lin(addc(sub(I1, D.b), -1))), what='the next node')
    for f, x in (('lo', 'lo'), ('low', 'lo'), ('hi', 'hi'), ('high', 'hi')):
        for n in need(N(f + r'\('), f):
            node(n, V2, lambda I, D, x=x: D.word(I1, x), this='node', pre=inside, what='the %s successor' % x)

    # predicates and labels
    def scen_kind(kd):
        def s(I, D):
            inside(I, D)
            if kd == 'inner':
                inner(I, D, I1)
                I.assume(eq(I.norm(D.word(I1, 'lo')), I.norm(D.word(I1, 'hi'))), False)
            else:
                labels(I, D, I1, kd)
        return s
    for kd in ('inner', 'bot', 'top'):
        for f, yes in (('is_botsink', ('bot',)), ('is_topsink', ('top',)), ('is_terminal', ('bot', 'top'))):
            for n in need(N(f + r'\('), f):
                X = Run(P, R, K, L, n, V2, props, scen_kind(kd), lambda I, D: [put_node(I, L, 'this', I1)])
                for o in X.paths():
                    r = truthof(X.I, o.value)
                    X.ob(o, V2, r is (kd in yes), r is not None, '%s for a node of kind %s' % (r, kd))
                    pure(X, o)
    for n in need(N(r'variable\('), 'variable'):
        X = Run(P, R, K, L, n, V2, props, scen_kind('inner'), lambda I, D: [put_node(I, L, 'this', I1)])
        for o in X.paths():
            X.value(o, V2, o.value, o.S.user['D'].word(I1, 'index'), 'the label')
            pure(X, o)
    for f, eqv in (('operator==', True), ('operator!=', False)):
        for n in need(N(re_escape(f) + r'\('), f):
            for same in (True, False):
                def scen(I, D, same=same):
                    inside(I, D)
                    I.assume(eq(I1, I2), same)
                X = Run(P, R, K, L, n, V6, props, scen, lambda I, D: [put_node(I, L, 'this', I1), put_node(I, L, 'o', I2)])
                for o in X.paths():
                    r = truthof(X.I, o.value)
                    parts = {t.args[0] for t in subterms(I_(X).norm(o.value)) if t.op == 'fld'} if isinstance(o.value, T) else set()
                    X.ob(o, V6, r is (same is eqv), r is not None or len(parts & {'lo', 'hi', 'index'}) == 1, '%s for %s positions' % (r, 'equal' if same else 'different'))
                    pure(X, o)
    for n in need(N(r'operator=\('), 'operator='):
        X = Run(P, R, K, L, n, V6, props, None, lambda I, D: [slot(I, 'ret', BN), put_node(I, L, 'this', I1), put_node(I, L, 'o', I2)])
        for o in X.paths():
            for w in ('this', 'ret'):
                i, nr, col = got_node(X.I, L, slot(X.I, w, BN))
                X.value(o, V6, i, I2, 'position of the assigned node')
                X.value(o, V6, nr, NR, 'diagram of the assigned node')
                X.value(o, V6, col, C, 'collection of the assigned node')
            pure(X, o)

    for n in need(P.find(r'vdriver::cn_hash\('), 'hash'):
        X = Run(P, R, K, L, n, V6, props, None, lambda I, D: [put_node(I, L, 'this', I1)])
        for o in X.paths():
            v = X.I.norm(o.value)
            ok = not any(t.op in ('slot', 'undef') for t in subterms(v))
            X.ob(o, V6, ok, any(t.op == 'slot' for t in subterms(v)), 'equal nodes %s' % ('have equal hashes' if ok else 'have different hashes: ' + show(v, 5)))
            pure(X, o)

    # numbers
    for n in need(Cc(r'nr_bdd_nodes\(unsigned long\)'), 'nr_bdd_nodes') + need(E(r'nr_nodes\(\)'), 'nr_nodes'):
        own = COL in P.func(n).dem.split('(')[0] + '::' and not BE in P.func(n).dem
        X = Run(P, R, K, L, n, V4, props, None, (lambda I, D: [C, NR]) if own else (lambda I, D: [entry(I, D)]))
        for o in X.paths():
            D = o.S.user['D']
            X.value(o, V4, o.value, sub(D.e, D.b), 'the number of nodes')
            pure(X, o)
    for n in need(Cc(r'nr_bdd_nodes\(unsigned long, unsigned long\)'), 'nr_bdd_nodes of a variable') + need(E(r'nr_nodes\(unsigned long\)'), 'nr_nodes of a variable'):
        own = not BE in P.func(n).dem
        for z in SIZES:
            count_label(Run(P, R, K, L, n, V4, props, z, (lambda I, D: [C, NR, VAR]) if own else (lambda I, D: [entry(I, D), VAR])), pure)
    for n in need(Cc(r'variables\('), 'variables') + need(E(r'variables\('), 'variables of an entry'):
        own = not BE in P.func(n).dem
        for z in SIZES:
            list_labels(Run(P, R, K, L, n, V5, props, z, (lambda I, D: [slot(I, 'ret', 'VEC'), C, NR]) if own else (lambda I, D: [slot(I, 'ret', 'VEC'), entry(I, D)])), pure)
    for n in need(P.find(r'vdriver::coll_size\('), 'size'):
        X = Run(P, R, K, L, n, V4, props, None, lambda I, D: [C])
        for o in X.paths():
            X.value(o, V4, o.value, addc(scale(o.S.user['nd0'], 2), -2), 'twice the number of diagrams')
            pure(X, o)
    for n in need(Cc(r'nr_bdds\('), 'nr_bdds') if Cc(r'nr_bdds\(') else []:
        X = Run(P, R, K, L, n, V4, props, None, lambda I, D: [C])
        for o in X.paths():
            X.value(o, V4, o.value, addc(o.S.user['nd0'], -1), 'the number of diagrams')
            pure(X, o)
    for n in need(P.find(r'vdriver::coll_instr\('), 'get_bdd_instructions') + need(P.find(r'vdriver::coll_rinstr\('), 'get_reverse_bdd_instructions'):
        X = Run(P, R, K, L, n, V1, props, None, lambda I, D: [C, NR])
        for o in X.paths():
            D = o.S.user['D']
            v = o.value
            v = v if isinstance(v, (list, tuple)) else None
            if v is None or len(v) != 2:
                X.ob(o, V1, False, False, 'range of instructions unknown')
                continue
            for t, q, w in ((v[0], D.b, 'begin'), (v[1], D.e, 'end')):
                X.value(o, V1, I_(X).norm(sub(I_(X).norm(t), D.data)), scale(q, K.size), 'the %s of the instructions' % w)
            pure(X, o)
    R.ob(props, V1, None if missing else True, None, 'functions that read stored diagrams: %s' % ('not found: ' + ', '.join(missing) if missing else 'all found'))


def re_escape(s):
    import re
    return re.escape(s)


def truthof(I, v):
    if isinstance(v, bool):
        return v
    v = I.norm(v)
    if is_const(v):
        return cval(v) not in (0,)
    d = I.decide(v)
    return d


def iteration(X, o):
    """(loop, number of the iteration, events, instruction whose label is looked at)"""
    I, S = X.I, o.S
    be = S.events[-1]
    loop, seg = segment(S, be)
    if loop is None:
        return None
    return loop, ZERO if be.mode == 'first' else I.norm(loop.K), seg


def witness(I, t, v):
    """do all facts about t hold for the given value?"""
    fs = [c for c in I.S.facts if t in subterms(c)]
    return bool(fs) and all(I.decide(I.norm(subst(c, {t: v}, {}))) is True for c in fs)


def count_label(X, pure):
    """number of instructions with a label"""
    I, K, R = X.I, X.K, X.R
    rets = []
    for o in X.paths(('ret', 'backedge')):
        pure(X, o)
        if o.kind == 'ret':
            rets.append(o)
    # the counter: what is returned
    acc = None
    for o in rets:
        I.S = o.S
        v = I.norm(o.value)
        loops = [e for e in o.S.events if e.k == 'loop']
        if len(loops) != 1:
            X.ob(o, V4, False, not loops, '%d loops over the instructions' % len(loops))
            return
        e = loops[0]
        D = o.S.user['D']
        if e.first:
            continue        # there are two constants at least
        for r, c in e.info['phi'].items():
            if v is I.norm(mk('phi', 'phi', e.info['sig'], r)):
                acc = r
        left = I.norm(sub(sub(D.e, D.b), e.K))
        ok = left is ZERO or equal(I, left, const(2)) is True and False or equal(I, left, ZERO) is True
        # constants need not be looked at: no variable has their label
        ok2 = left is const(2) or equal(I, left, const(2)) is True
        X.ob(o, V4, ok or ok2, is_const(left) or gives_up(I, o, left, 3), 'the loop ends with %s instructions left' % show(left, 4))
        if acc is None:
            X.ob(o, V4, False, is_const(v), 'the result is ' + show(v, 4))
    if acc is None:
        return
    n = 0
    for o in X.outs:
        I.S = o.S
        if o.kind != 'backedge':
            continue
        it = iteration(X, o)
        if it is None:
            continue
        loop, k, seg = it
        D = o.S.user['D']
        be = o.S.events[-1]
        a, b = be.at.get(acc), be.phi.get(acc)
        if not isinstance(a, T) or not isinstance(b, T):
            X.ob(o, V4, False, False, 'counter unknown')
            continue
        n += 1
        d = I.norm(sub(b, a))
        for q in (I.norm(add(D.b, k)), I.norm(sub(addc(D.e, -1), k))):
            ix = I.norm(D.word(q, 'index'))
            lab = I.decide(eq(ix, VAR))
            if lab is not None or mentions(I, ix):
                break
        if lab is None:
            wit = d is ONE and witness(I, ix, addc(VAR, 1)) or d is ZERO and witness(I, ix, VAR)
            X.ob(o, V4, False, wit, 'whether instruction %s has the label is not decided, it is counted %s times' % (show(k, 3), show(d, 3)))
            continue
        ok = d is (ONE if lab else ZERO)
        X.ob(o, V4, ok, is_const(d), 'instruction %s label: counted %s times' % ('with the' if lab else 'with another', show(d, 3)))
        if be.mode == 'first':
            X.ob(o, V4, I.norm(a) is ZERO, is_const(I.norm(a)), 'counting begins with ' + show(I.norm(a), 3))
    if not n:
        R.ob(X.props, V4, None, None, X.name + ': no iteration')


def list_labels(X, pure):
    I, K = X.I, X.K
    res = None
    for o in X.paths(('ret', 'backedge')):
        D = o.S.user['D']
        pure(X, o)
        ret = slot(I, 'ret', 'VEC')
        data = I.norm(I.load(ret, 8, 'ptr'))
        if o.kind == 'backedge':
            it = iteration(X, o)
            if it is None:
                continue
            loop, k, seg = it
            q = I.norm(add(D.b, k))
            ix = I.norm(D.word(q, 'index'))
            ps = [e for e in seg if e.k == 'push']
            if not ps:
                # the label must be in the list already
                old = [I.norm(x[1]) for off, x in o.S.mem.get(data, {}).items()]
                ok = any(equal(I, x, ix) is True for x in old)
                if not ok and I.decide(eq(D.word(q, 'lo'), D.word(q, 'hi'))) is True:
                    continue        # no inner node of a reduced diagram
                X.ob(o, V5, ok, not mentions(I, ix) or witness(I, ix, ZERO), 'label of an instruction is %s' % ('listed already' if ok else 'not listed'))
                continue
            for e in ps:
                v = I.norm(I.load(e.at, 8, 'i64'))
                X.value(o, V5, v, ix, 'the listed value')
            continue
        loops = [e for e in o.S.events if e.k == 'loop']
        if len(loops) != 1:
            X.ob(o, V5, False, not loops, '%d loops over the instructions' % len(loops))
            continue
        e = loops[0]
        k = ZERO if e.first else I.norm(e.K)
        left = I.norm(sub(sub(addc(D.e, -2), D.b), k))
        ok = equal(I, left, ZERO) is True or e.first and I.prove_ge0(sub(D.b, addc(D.e, -2)))
        X.ob(o, V5, ok, is_const(left) or gives_up(I, o, left, 3), 'the loop ends with %s instructions left' % show(left, 4))
        algos = [(a.name, [I.norm(x) if isinstance(x, T) else x for x in a.args]) for a in o.S.events if a.k == 'algo']
        i = [next((j for j, a in enumerate(algos) if s in a[0]), None) for s in ('std::sort', 'std::unique', '::erase(')]
        good = all(x is not None for x in i) and i == sorted(i)
        wrong = not algos and data.op == 'heap' or (i[1] is not None and i[0] is not None and i[0] > i[1]) or i[1] is not None and not any('sort' in a[0] for a in algos)
        X.ob(o, V5, good, wrong, 'sort, unique, erase in this order' if good else '%d algorithms on the list' % len(algos))
        for a, (nm, args) in enumerate(algos):
            if a in i[:2] and len(args) >= 2:
                h = [x for x, c in lin(args[0])[1] if x.op == 'heap'] if isinstance(args[0], T) else []
                ok = isinstance(args[0], T) and args[0].op == 'heap'
                X.ob(o, V5, ok, len(h) == 1 and is_const(I.norm(sub(args[0], h[0]))), 'begins with the first element')


# ------------------------------------------------------------------ other ways to call the product
W1 = 'the product is that of the two given diagrams'
RES = sym('res', small=True)
LIM = sym('limit')


def lemma_wrap(P, R):
    K, L = Coll(P), Lay(P)
    props = ('C14',)
    prod = [n for n in P.find(r'(^|\s)' + COL + r'::bdd_and\(unsigned long, unsigned long, unsigned long\)')]
    fs = P.find(r'(^|\s)' + BE + r'::operator&\(') + P.find(r'vdriver::coll_and_int\(') + P.find(r'vdriver::coll_and_size\(')
    if not prod or len(fs) < 3 or not K.ok or not L.ok:
        R.ob(props, W1, None, None, 'ways to compute the product of two stored diagrams not found')
        return
    for n in fs:
        root = P.func(n)
        ent = BE in root.dem
        name = root.dem.split('(')[0].replace('BDD::', '').replace('vdriver::', 'bdd_and through ')
        I = mkinterp(P)

        def impl(I, a, nm):
            I.event('product', args=[I.normv(x) for x in a])
            return RES
        for p in prod:
            I.contracts[p] = impl

        def start(I):
            setup_mgr(I)
            wf(I, K)
            I.S.facts.clear()
            I.S.events.clear()
            if ent:
                a, b = slot(I, 'this', BE), slot(I, 'o', BE)
                put_entry(I, L, a, NR)
                put_entry(I, L, b, I2)
                return I.run(root, [a, b])
            return I.run(root, [C, NR, I2, LIM])
        try:
            outs = I.explore(start, 100)
        except Budget:
            outs = []
        R.absorb(I, outs)
        for o in outs:
            I.S = o.S
            check_common(I, R, o, root, name, props)
            w = locof(None, o, root)
            if o.kind != 'ret':
                continue
            ev = [e for e in o.S.events if e.k == 'product']
            if len(ev) != 1:
                R.ob(props, W1, False if clean(o) and not ev and not any(e.k == 'extern' for e in o.S.events) else None, w, '%s: %d products' % (name, len(ev)))
                continue
            got = [strip(x) for x in ev[0].args]
            want = [C, NR, I2] + ([LIM] if not ent else [MAX])
            for g, x, what in zip(got, want, ('collection', 'first diagram', 'second diagram', 'limit')):
                if what in ('first diagram', 'second diagram'):
                    ok = {got[1], got[2]} == {NR, I2}
                else:
                    ok = g is I.norm(x)
                R.ob(props, W1, True if ok else (False if clean(o) else None), w, '%s: %s is %s' % (name, what, show(g, 4)))
            v = o.value
            if ent:
                v = v[0] if isinstance(v, (list, tuple)) else None
            if isinstance(v, T):
                v = I.norm(v)
                R.ob(props, W1, True if v is RES else (False if clean(o) else None), w, '%s: %s' % (name, 'the number of the product is returned' if v is RES else 'returns ' + show(v, 4)))
            else:
                R.ob(props, W1, None, w, name + ': returned value unknown')
    if not fs:
        return


def strip(t):
    while isinstance(t, T) and t.op in ('sext', 'zext', 'trunc'):
        t = t.args[0]
    return t
