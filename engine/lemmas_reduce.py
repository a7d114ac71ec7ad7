"""Disjunction of a stored diagram with literals, and reducing the last stored diagram.

Reducing passes over the instructions three times.  Every pass is described by what one iteration does to its instruction:
upwards, every instruction gets a representative (itself, its only successor, or an equal instruction found before); downwards, the
successors of the instructions that are kept are kept; finally the kept instructions are moved together.  Representatives, flags and
counts of removed instructions are arrays of the function, which are recognised by what is stored in them."""
from .terms import *
from .interp import *
from .nodes import *
from .models import vget
from .lemmas_ops import setup_mgr, mkinterp, slot, locof, facts, clean, check_common
from .lemmas_coll import Coll, COL, C, MAX, BOTI, wf, reads
from .lemmas_store import Stored, equal, NR
from .lemmas_edit import segment

O1 = 'the diagram is copied completely'
O2 = 'arcs for which a listed literal holds lead to the top constant, others are kept'
O3 = 'the copy is reduced and its number returned'
O4 = 'the original is not changed'
O5 = 'listed variables count on paths that skip them'

Q1 = 'representatives of constants and of inner instructions'
Q2 = 'arcs lead to representatives'
Q3 = 'instructions that cannot be reached from the root are recognised'
Q4 = 'kept instructions are moved together with their arcs'
Q5 = 'the root comes first and the constants last'
Q6 = 'the reduced instructions replace the diagram'

POS = sym('POS', ptr=True, nonnull=True, cls='SET')
NEG = sym('NEG', ptr=True, nonnull=True, cls='SET')
PROPS = ('C17',)


def sigof(loop):
    return tuple(loop.info['sig'][1:3])


def same(I, a, b):
    return equal(I, a, b) is True


def reached(I, a, b):
    """do the facts say that a counter has arrived at a bound?"""
    a, b = I.norm(a), I.norm(b)
    return same(I, a, b) or I.decide(ult(b, a)) is False and I.decide(ult(b, addc(a, 1))) is True or I.decide(ult(a, b)) is False and I.decide(ult(a, addc(b, 1))) is True


def position(K, D, off):
    c, l = lin(off)
    return None if c % K.size else D.position(off)


def source(I, K, D, t):
    """position and part of a word that is read from the instructions"""
    if t.op != 'fld' or t.args[0] not in ('lo', 'hi', 'index'):
        return None
    d = I.norm(sub(t.args[1], D.data))
    if any(a is D.data for a, _ in lin(d)[1]):
        return None
    q = position(K, D, I.norm(d))
    return None if q is None else (I.norm(q), t.args[0])


def plain(t):
    """made of what was in the collection and of constants, loop counters and lengths"""
    return not any(x.op in ('phi', 'mval', 'undef', 'ambig', 'rmem', 'rcell', 'psum', 'entry') for x in subterms(t))


# ------------------------------------------------------------------ disjunction with literals
def lemma_or_var(P, R):
    K = Coll(P)
    fs = P.find(r'.*' + COL + r'::bdd_or_var<')
    red = P.find(COL + r'::reduce\(')
    if not fs or not red or not K.ok:
        R.ob(PROPS, O1, None, None, 'disjunction with literals not found')
        return
    for n in fs:
        or_var(P, R, K, n, red)


def or_var(P, R, K, n, red):
    root = P.func(n)
    name = 'bdd_collection::bdd_or_var'
    I = mkinterp(P)

    def reduced(I, a, nm):
        I.event('reduce', args=[I.normv(x) for x in a])
        return None
    for x in red:
        I.contracts[x] = reduced

    def start(I):
        setup_mgr(I)
        wf(I, K)
        D = Stored(I, K)
        D.wf()
        u = I.S.user
        u['D'] = D
        u['dd'] = I.norm(K.data(I, 'bdd_delimiters'))
        u['nd0'] = I.norm(K.length(I, 'bdd_delimiters'))
        u['len0'] = I.norm(K.length(I, 'bdd_instructions'))
        u['last'] = I.norm(I.load(addc(add(u['dd'], scale(u['nd0'], 8)), -8), 8, 'i64'))
        I.S.facts.clear()
        I.S.events.clear()
        return I.run(root, [C, NR, POS, NEG])
    try:
        outs = I.explore(start, 800)
    except Budget:
        outs = []
    R.absorb(I, outs)
    w0 = (root.file, root.line, root.dem)
    if not outs:
        R.ob(PROPS, O1, None, w0, name + ': too many paths')
        return
    Q = OrVar(R, K, I, root, name)
    for o in outs:
        I.S = o.S
        if o.kind == 'backedge':
            Q.asks(o)
    for o in outs:
        I.S = o.S
        if o.kind == 'unsupported':
            R.ob(PROPS, O1, None, locof(None, o, root), name + ': ' + str(o.info))
        check_common(I, R, o, root, name, ('C17', 'C08'))
        if o.kind == 'backedge':
            Q.iteration(o)
    for o in outs:
        I.S = o.S
        if o.kind == 'ret':
            Q.end(o)
    if Q.skips and not Q.inserts:
        R.ob(PROPS, O5, False, w0, name + ': an arc that skips a listed variable is kept as it is, and no instruction is added for the variable', ['label in none of the lists: both arcs unchanged'])
    elif Q.inserts:
        R.ob(PROPS, O5, None, w0, name + ': instructions are added')
    R.ob(PROPS, O4, True, w0, name + ': writes of all paths are looked at')


class OrVar:
    def __init__(self, R, K, I, root, name):
        self.R, self.K, self.I, self.root, self.name = R, K, I, root, name
        self.copy, self.redirect = set(), set()
        self.lists = {}     # loop -> lists of literals it asks
        self.skips = False
        self.inserts = False

    def ob(self, rule, ok, bad, x, o, msg):
        self.R.ob(PROPS, rule, True if ok else (False if bad and clean(o) else None), locof(x, o, self.root), self.name + ': ' + msg, None if ok else facts(self.I, o, 20))

    def asks(self, o):
        """which lists of literals does the loop of this iteration ask?"""
        loop, seg = segment(o.S, o.S.events[-1])
        if loop is not None:
            l = self.lists.setdefault(sigof(loop), set())
            l |= {self.I.norm(e.m) for e in seg if e.k in ('map_present', 'map_absent') and self.I.norm(e.m) in (POS, NEG)}

    def writes(self, o, evs):
        """writes to what was there before"""
        I, K, u = self.I, self.K, o.S.user
        D = u['D']
        for e in evs:
            if e.k != 'store' or e.base in o.S.fresh:
                continue
            b, off = I.norm(e.base), I.norm(e.off)
            first = {D.data: scale(u['last'], K.size), u['dd']: scale(u['nd0'], 8)}.get(b)
            if b is I.norm(C):
                continue
            if first is None:
                self.ob(O4, False, b in (POS, NEG), e, o, 'writes to %s' % show(add(b, off), 4))
            elif not I.prove_ge0(sub(off, first)):
                d = I.norm(sub(off, first))
                self.ob(O4, False, is_const(d) or plain(off), e, o, 'writes to %s at offset %s' % ('instructions' if b is D.data else 'delimiters', show(off, 5)))

    def iteration(self, o):
        I, K, S = self.I, self.K, o.S
        u = S.user
        D = u['D']
        if D.infeasible():
            return
        loop, seg = segment(S, S.events[-1])
        if loop is None:
            return
        self.writes(o, seg)
        k = ZERO if S.events[-1].mode == 'first' else I.norm(loop.K)
        ins = I.norm(K.a('bdd_instructions'))
        ps = [e for e in seg if e.k == 'push' and I.norm(e.v) is ins]
        inner = [e for e in seg if e.k == 'loop']
        if inner:
            self.ob(O1, False, False, None, o, 'nested loops')
            return
        last = u['last']
        if ps:
            self.copy.add(sigof(loop))
            if sigof(loop) in self.redirect:
                self.inserts = True
            if len(ps) != 1:
                self.ob(O1, False, False, ps[0], o, 'an iteration appends %d instructions' % len(ps))
                self.inserts = True
                return
            at = I.norm(udiv(sub(I.norm(ps[0].at), D.data), const(K.size)))
            f = {x: I.norm(I.load(addc(I.norm(ps[0].at), K.f['i.' + x]), 8, 'i64')) for x in ('lo', 'hi', 'index')}
            s = source(I, K, D, reads(I, f['index'], 'index'))
            if s is None or s[1] != 'index':
                self.ob(O1, False, is_const(f['index']) or s is not None, ps[0], o, 'label of the copy is ' + show(f['index'], 4))
                return
            q = s[0]
            self.ob(O1, True, False, ps[0], o, 'label is copied')
            self.ob(O1, same(I, q, add(D.b, k)), plain(I.norm(sub(sub(q, D.b), k))), ps[0], o, 'iteration %s copies instruction %s' % (show(k, 3), show(q, 4)))
            self.ob(O1, same(I, at, add(last, k)), plain(I.norm(sub(sub(at, last), k))), ps[0], o, 'iteration %s appends at %s' % (show(k, 3), show(at, 4)))
            lo, hi = (I.norm(D.word(q, x)) for x in ('lo', 'hi'))
            kind = self.kind(D, q)
            for x, old in (('lo', lo), ('hi', hi)):
                moved = I.norm(add(old, sub(last, D.b)))
                got = f[x]
                if kind == 'inner':
                    self.ob(O1, same(I, got, moved), plain(got) and not same(I, last, D.b), ps[0], o, '%s arc of an inner instruction is %s' % (x, 'moved along' if same(I, got, moved) else show(got, 5)))
                elif kind == 'const':
                    self.ob(O1, same(I, got, old), plain(got), ps[0], o, '%s arc of a constant is %s' % (x, 'kept' if same(I, got, old) else show(got, 5)))
                else:
                    # arcs of constants must be kept and those of inner instructions moved, but the instruction is not looked at
                    self.ob(O1, False, got is old or same(I, got, moved), ps[0], o, '%s arc is treated alike for constants and inner instructions' % x)
            return
        # positions of instructions that are written, or else read
        st = [e for e in seg if e.k == 'store' and I.norm(e.base) is D.data]
        qs = set()
        for e in st:
            c, l = lin(I.norm(e.off))
            for x in ('lo', 'hi', 'index'):
                p = position(K, D, I.norm(addc(e.off, -K.f['i.' + x])))
                if p is not None:
                    qs.add((I.norm(p), x))
        pos = {p for p, _ in qs}
        if not st:
            pos = {I.norm(udiv(a, const(K.size))) for a in self.read(D, k, loop)}
            pos = {p for p in pos if p is not None}
        if not st and sigof(loop) in self.copy:
            self.ob(O1, False, True, None, o, 'an instruction is not copied')
            return
        if len(pos) != 1:
            if st or pos:
                self.ob(O2, False, False, st[0] if st else None, o, 'iteration looks at %d instructions' % len(pos))
            return
        self.redirect.add(sigof(loop))
        if self.impossible(D):
            return
        q = pos.pop()
        old = {}
        for x in ('lo', 'hi', 'index'):
            off = I.norm(addc(scale(q, K.size), K.f['i.' + x]))
            first = next((e for e in st if same(I, e.off, off)), None)
            old[x] = I.norm(first.old) if first is not None and isinstance(first.old, T) else I.norm(K.word(I, D.data, q, x))
        new = {x: I.norm(K.word(I, D.data, q, x)) for x in ('lo', 'hi', 'index')}
        self.ob(O2, same(I, q, add(last, k)), plain(I.norm(sub(sub(q, last), k))), st[0] if st else None, o, 'iteration %s changes instruction %s' % (show(k, 3), show(q, 4)))
        self.ob(O2, new['index'] is old['index'], True, st[0] if st else None, o, 'label is ' + ('kept' if new['index'] is old['index'] else show(new['index'], 4)))
        d = {x: I.decide(eq(old['index'], v)) for x, v in (('bot', BOTI), ('top', MAX))}
        eqa = I.decide(eq(old['lo'], old['hi']))
        const_ = True in d.values() or eqa is True
        mem = {}
        for e in seg:
            if e.k in ('map_present', 'map_absent') and I.norm(e.m) in (POS, NEG) and len(e.key) == 1 and I.norm(e.key[0]) is old['index']:
                mem[I.norm(e.m)] = e.k == 'map_present'
        asked = [e for e in seg if e.k in ('map_present', 'map_absent') and I.norm(e.m) in (POS, NEG)]
        strange = [e for e in asked if I.norm(e.key[0]) is not old['index']]
        for e in strange:
            self.ob(O2, False, plain(I.norm(e.key[0])), e, o, 'looks for %s instead of the label' % show(I.norm(e.key[0]), 4))
        if const_:
            for x in ('lo', 'hi'):
                self.ob(O2, new[x] is old[x] or same(I, new[x], old[x]), True, st[0] if st else None, o, '%s arc of a constant is %s' % (x, 'kept' if new[x] is old[x] else show(new[x], 4)))
            return
        if strange:
            return
        settled = False in d.values() or eqa is False
        mine = self.lists.get(sigof(loop), set())
        others = set().union(*[l for g, l in self.lists.items() if g != sigof(loop)], set())
        for x, l, what in (('hi', POS, 'positive'), ('lo', NEG, 'negative')):
            kept = new[x] is old[x]
            if mine and l not in mine and l in others:
                # another pass over the copy looks at these literals
                self.ob(O2, kept, plain(new[x]), st[0] if st else None, o, '%s arc is %s by the pass for the other literals' % (x, 'kept' if kept else 'set to ' + show(new[x], 5)))
                if kept and all(mem.get(m) is False for m in mine):
                    self.skips = True
                continue
            if mem.get(l) is True:
                t = self.top(o, new[x])
                self.ob(O2, t is True, kept or t is False, st[0] if st else None, o, '%s arc of a label with a %s literal %s' % (x, what, 'leads to the top constant' if t else 'is kept' if kept else 'leads to ' + show(new[x], 5)))
                if not settled:
                    self.ob(O2, False, False, None, o, 'constants are not set apart')
            elif mem.get(l) is False:
                self.ob(O2, kept, True, st[0] if st else None, o, '%s arc of a label without a %s literal is %s' % (x, what, 'kept' if kept else show(new[x], 5)))
                if kept and x == 'hi' and mem.get(NEG) is False and new['lo'] is old['lo']:
                    self.skips = True
            else:
                # the list has not been asked: both answers are possible
                self.ob(O2, False, settled, st[0] if st else None, o, '%s arc does not depend on the %s literals' % (x, what))

    def read(self, D, k, loop):
        """offsets of the labels read by this iteration"""
        I = self.I
        out = set()
        for off in list(I.S.mem.get(D.data, {})):
            o = I.norm(addc(off, -self.K.f['i.index']))
            if position(self.K, D, o) is None:
                continue
            ts = subterms(o)
            if k is not ZERO and k in ts or k is ZERO and same(I, o, scale(I.S.user['last'], self.K.size)):
                out.add(o)
        return out

    def kind(self, D, q):
        k = D.kind(q)
        if k in ('bot', 'top', 'const'):
            return 'const'
        if k == 'inner':
            return k
        return {'inner': 'inner', 'const': 'const'}.get(D.region(q))

    def top(self, o, t):
        """is t the position of the top constant of the copy?  The constants are the last two instructions."""
        I, K, S = self.I, self.K, o.S
        D = S.user['D']
        n = I.norm(K.length(I, 'bdd_instructions'))
        d = I.norm(sub(n, t))
        if not is_const(d):
            return None
        c = cval(d)
        if c not in (1, 2):
            return False
        a, b = self.label(D, addc(n, -c)), self.label(D, addc(n, c - 3))
        if a == 'top' or b == 'bot':
            return True
        if a == 'bot' or b == 'top':
            return False
        return None

    def label(self, D, q):
        """what the path knows about the label of a constant of the copy; labels of the copy do not change"""
        I, K = self.I, self.K
        out = set()
        for t in {t for f in I.S.facts for t in subterms(f)}:
            s = source(I, K, D, t)
            if s is not None and s[1] == 'index' and same(I, s[0], q):
                for v, w, x in ((BOTI, 'bot', 'top'), (MAX, 'top', 'bot')):
                    d = I.decide(eq(I.norm(t), v))
                    if d is not None:
                        out.add(w if d else x)
        return out.pop() if len(out) == 1 else 'none' if out else None

    def impossible(self, D):
        n = self.I.norm(self.K.length(self.I, 'bdd_instructions'))
        a, b = self.label(D, addc(n, -1)), self.label(D, addc(n, -2))
        return 'none' in (a, b) or a is not None and a == b

    def end(self, o):
        I, K, S = self.I, self.K, o.S
        u = S.user
        D = u['D']
        if D.infeasible():
            return
        evs = S.events
        self.writes(o, evs)
        loops = [e for e in evs if e.k == 'loop']
        for e in loops:
            s = sigof(e)
            if e.first:
                if s in self.redirect:
                    self.ob(O2, False, False, e, o, 'no instruction is passed')
                return
            if s in self.copy:
                d = I.norm(sub(sub(D.e, D.b), e.K))
                self.ob(O1, same(I, d, ZERO), is_const(d), e, o, 'all instructions are copied' if same(I, d, ZERO) else 'copying ends %s instructions before the end' % show(d, 4))
            elif s in self.redirect:
                n = I.norm(K.length(I, 'bdd_instructions'))
                d = I.norm(sub(sub(n, u['last']), e.K))
                ok = any(same(I, d, const(x)) for x in (0, 2))
                self.ob(O2, ok, is_const(d), e, o, 'all instructions are passed' if ok else 'the pass ends %s instructions before the end' % show(d, 4))
            else:
                self.ob(O2, False, False, e, o, 'a loop of unknown effect')
        if not any(sigof(e) in self.redirect for e in loops):
            self.ob(O2, False, not any(e.k == 'loop' and sigof(e) not in self.copy for e in evs), None, o, 'no pass over the arcs of the copy')
        # instructions appended outside of loops
        ins = I.norm(K.a('bdd_instructions'))
        lk = [i for i, e in enumerate(evs) if e.k == 'loop' and sigof(e) in self.copy]
        nd = I.norm(K.length(I, 'bdd_delimiters'))
        self.ob(O3, same(I, nd, addc(u['nd0'], 1)), is_const(sub(nd, u['nd0'])), None, o, 'number of diagrams grows by %s' % show(I.norm(sub(nd, u['nd0'])), 3))
        dl = [e for e in evs if e.k == 'push' and I.norm(e.v) is I.norm(K.a('bdd_delimiters'))]
        rd = [e for e in evs if e.k == 'reduce']
        if len(dl) == 1:
            v = I.norm(I.load(I.norm(dl[0].at), 8, 'i64'))
            n = I.norm(K.length(I, 'bdd_instructions'))
            self.ob(O3, same(I, v, n), plain(I.norm(sub(v, n))), dl[0], o, 'the new delimiter is %s' % ('the number of instructions' if same(I, v, n) else show(v, 4)))
        if not rd:
            self.ob(O3, False, not any(e.k == 'extern' for e in evs), None, o, 'the copy is not reduced')
        else:
            i = max(j for j, e in enumerate(evs) if e.k == 'reduce')
            late = [e for e in evs[i:] if e.k == 'loop' or e.k == 'store' and I.norm(e.base) is D.data]
            self.ob(O3, not late, any(e.k == 'loop' and sigof(e) in self.redirect for e in late), rd[0], o, 'arcs change %s reducing' % ('before' if not late else 'after'))
            ok = bool(rd[-1].args) and rd[-1].args[0] is C
            self.ob(O3, ok, False, rd[-1], o, 'the collection is reduced')
        v = o.value[0] if isinstance(o.value, (list, tuple)) else o.value
        if isinstance(v, T):
            want = addc(u['nd0'], -1)
            v = I.norm(v)
            self.ob(O3, same(I, v, want), plain(v), None, o, 'returns %s' % ('the number of the copy' if same(I, v, want) else show(v, 4)))


# ------------------------------------------------------------------ reducing
def lemma_reduce(P, R):
    K = Coll(P)
    fs = P.find(COL + r'::reduce\(')
    if not fs or not K.ok:
        R.ob(PROPS, Q1, None, None, 'reduce not found')
        return
    for n in fs:
        reduce(P, R, K, n)


def reduce(P, R, K, n):
    root = P.func(n)
    name = 'bdd_collection::reduce'
    I = mkinterp(P)

    def start(I):
        setup_mgr(I)
        wf(I, K)
        I.add_lin(addc(K.length(I, 'bdd_delimiters'), -2))
        D = Stored(I, K, I.norm(addc(K.length(I, 'bdd_delimiters'), -2)))
        I.add_lin(addc(sub(D.e, D.b), -2))
        I.S.user['D'] = D
        I.S.user['dd'] = I.norm(K.data(I, 'bdd_delimiters'))
        I.S.user['nd0'] = I.norm(K.length(I, 'bdd_delimiters'))
        I.S.facts.clear()
        I.S.events.clear()
        return I.run(root, [C])
    try:
        outs = I.explore(start, 1800)
    except Budget:
        outs = []
    R.absorb(I, outs)
    w0 = (root.file, root.line, root.dem)
    if not outs:
        R.ob(PROPS, Q1, None, w0, name + ': too many paths')
        return
    Q = Reduce(R, K, I, root, name, outs)
    for o in outs:
        I.S = o.S
        for e in o.S.events:
            if e.k == 'narrow_sum':
                R.ob(PROPS, Q4, False if clean(o) else None, locof(e, o, root), '%s: numbers of removed instructions are added up in a %s' % (name, e.typ))
        if o.kind == 'unsupported':
            R.ob(PROPS, Q1, None, locof(None, o, root), name + ': ' + str(o.info))
        check_common(I, R, o, root, name, ('C17', 'C08'))
    Q.run()
    R.ob(PROPS, Q6, True, w0, name + ': writes of all paths are looked at')


class Reduce:
    def __init__(self, R, K, I, root, name, outs):
        self.R, self.K, self.I, self.root, self.name, self.outs = R, K, I, root, name, outs
        self.rep = self.flag = self.new = None
        self.LA, self.LB, self.LC, self.LD = set(), set(), set(), set()
        self.enc = None         # what is added to a position when it is stored as representative
        self.ver = None

    def ob(self, rule, ok, bad, x, o, msg):
        self.R.ob(PROPS, rule, True if ok else (False if bad and clean(o) else None), locof(x, o, self.root), self.name + ': ' + msg, None if ok else facts(self.I, o, 20))

    # -------------------------------------------------------------- roles of loops and arrays
    def roles(self):
        I, K = self.I, self.K
        segs = []
        for o in self.outs:
            if o.kind != 'backedge':
                continue
            I.S = o.S
            loop, seg = segment(o.S, o.S.events[-1])
            if loop is None:
                continue
            D = o.S.user['D']
            hs = [e for e in seg if e.k == 'store' and I.norm(e.base).op == 'heap' and getattr(e, 'k') == 'store']
            ds = [e for e in seg if e.k == 'store' and I.norm(e.base) is D.data]
            ps = [e for e in seg if e.k == 'push']
            ms = [e for e in seg if e.k.startswith('map_')]
            segs.append((o, loop, seg, hs, ds, ps, ms))
        self.segs = segs
        reps, flags, news = set(), set(), set()
        cp = I.norm(K.a('bdd_instructions'))
        for o, loop, seg, hs, ds, ps, ms in segs:
            I.S = o.S
            mem = {I.norm(I.split(I.norm(e.at))[0]) for e in ps}
            bases = {I.norm(e.base) for e in hs} - mem
            if ps:
                if any(I.norm(e.v) is cp for e in ps):
                    self.LD.add(sigof(loop))
                else:
                    self.LC.add(sigof(loop))
                    news |= {I.norm(e.v) for e in ps}
            elif ds or ms:
                self.LA.add(sigof(loop))
                reps |= bases
        for o, loop, seg, hs, ds, ps, ms in segs:
            I.S = o.S
            s = sigof(loop)
            if s in self.LA | self.LC | self.LD:
                continue
            bases = {I.norm(e.base) for e in hs}
            if bases:
                self.LB.add(s)
                flags |= bases
        if len(reps) != 1 or len(flags) != 1 or len(news) != 1 or reps & flags or not (len(self.LA) == len(self.LB) == len(self.LC) == 1) or len(self.LD) != 1:
            return False
        self.rep, self.flag, self.new = reps.pop(), flags.pop(), news.pop()
        return True

    def run(self):
        I = self.I
        w0 = (self.root.file, self.root.line, self.root.dem)
        if not self.roles():
            self.R.ob(PROPS, Q1, None, w0, '%s: the passes are not recognised (%d, %d, %d, %d)' % (self.name, len(self.LA), len(self.LB), len(self.LC), len(self.LD)))
            return
        A = [s for s in self.segs if sigof(s[1]) in self.LA]
        self.encoding(A)
        for s in A:
            I.S = s[0].S
            self.upwards(*s)
        for s in self.segs:
            I.S = s[0].S
            if sigof(s[1]) in self.LB:
                self.downwards(*s)
            elif sigof(s[1]) in self.LC:
                self.compact(*s)
            elif sigof(s[1]) in self.LD:
                self.back(*s)
            elif sigof(s[1]) not in self.LA:
                self.ob(Q3, False, False, s[1], s[0], 'a loop of unknown effect')
        for o in self.outs:
            I.S = o.S
            if o.kind == 'ret':
                self.end(o)

    def at(self, e):
        """offset of a store to an array of words, in words"""
        c, l = lin(self.I.norm(e.off))
        if c % 8 or any(k % 8 for _, k in l):
            return None
        r = const(c // 8)
        for a, k in l:
            r = add(r, scale(a, k // 8))
        return self.I.norm(r)

    def count(self, o, loop):
        return ZERO if o.S.events[-1].mode == 'first' else self.I.norm(loop.K)

    # -------------------------------------------------------------- representatives
    def encoding(self, A):
        I = self.I
        cs = {}
        for o, loop, seg, hs, ds, ps, ms in A:
            I.S = o.S
            D = o.S.user['D']
            q = I.norm(addc(sub(D.e, self.count(o, loop)), -1))
            for e in hs:
                if I.norm(e.base) is self.rep and same(I, self.at(e) or ZERO, sub(q, D.b)):
                    d = I.norm(sub(e.val, q))
                    if d is ZERO:
                        cs['position'] = cs.get('position', 0) + 1
                    elif same(I, d, scale(D.b, -1)):
                        cs['offset'] = cs.get('offset', 0) + 1
        if len(cs) == 1:
            self.enc = next(iter(cs))

    def code(self, D, q):
        return self.I.norm(q if self.enc == 'position' else sub(q, D.b))

    def decoded(self, D, t):
        return self.I.norm(t if self.enc == 'position' else add(t, D.b))

    def repcell(self, D, t):
        """offset of the representative that is read, if t is one (as a position)"""
        t = self.I.norm(t if self.enc == 'position' else sub(t, D.b))
        if t.op == 'rcell' and t.args[1] is self.rep:
            return self.I.norm(t.args[2])
        return None

    def orig(self, D, st, q, x):
        I, K = self.I, self.K
        off = I.norm(addc(scale(q, K.size), K.f['i.' + x]))
        e = next((e for e in st if same(I, e.off, off)), None)
        return I.norm(e.old) if e is not None and isinstance(e.old, T) else I.norm(K.word(I, D.data, q, x))

    def impossible(self, D, q, old):
        """does the path assume that an arc, or a representative of a successor, leads to the instruction itself or to one before?"""
        I = self.I
        for x in ('lo', 'hi'):
            if I.decide(eq(I.norm(old[x]), q)) is True:
                return True
            for t in [y for f in I.S.facts for y in subterms(f)]:
                if t.op == 'rcell' and t.args[1] is self.rep and I.norm(t.args[2]) is I.norm(scale(sub(old[x], D.b), 8)) and I.decide(eq(I.norm(t), self.code(D, q))) is True:
                    return True
            if I.decide(eq(I.norm(old[x]), D.b)) is True:
                return True
        return False

    def upwards(self, o, loop, seg, hs, ds, ps, ms):
        I, K, S = self.I, self.K, o.S
        D = S.user['D']
        if D.infeasible():
            return
        if [e for e in seg if e.k == 'loop']:
            self.ob(Q1, False, False, None, o, 'nested loops')
            return
        k = self.count(o, loop)
        q = I.norm(addc(sub(D.e, k), -1))
        rs = [e for e in hs if I.norm(e.base) is self.rep]
        where = {self.at(e) for e in rs}
        if None in where or len(where) > 1 or self.enc is None:
            self.ob(Q1, False, False, rs[0] if rs else None, o, 'representatives are stored in an unknown way')
            return
        if rs:
            x = where.pop()
            d = I.norm(sub(x, sub(q, D.b)))
            self.ob(Q1, same(I, d, ZERO), is_const(d), rs[0], o, 'iteration %s gives the representative of instruction %s' % (show(k, 3), show(I.norm(add(x, D.b)), 4)))
            if not same(I, d, ZERO):
                return
        old = {x: self.orig(D, ds, q, x) for x in ('lo', 'hi', 'index')}
        new = {x: I.norm(K.word(I, D.data, q, x)) for x in ('lo', 'hi', 'index')}
        if self.impossible(D, q, old):
            return
        for e in ds:
            p = [x for x in ('lo', 'hi', 'index') if same(I, e.off, addc(scale(q, K.size), K.f['i.' + x]))]
            if not p:
                self.ob(Q2, False, False, e, o, 'another instruction is changed')
                return
        self.ob(Q2, new['index'] is old['index'], True, None, o, 'the label is ' + ('kept' if new['index'] is old['index'] else show(new['index'], 4)))
        kind = D.kind(q)
        r = I.norm(rs[-1].val) if rs else None
        if kind in ('bot', 'top', 'const'):
            before = [e for e in S.events[:S.events.index(loop)] if e.k == 'store' and I.norm(e.base) is self.rep or e.k in ('fill', 'algo') and mentions(e, self.rep)]
            ok = r is not None and same(I, r, self.code(D, q))
            self.ob(Q1, ok, not before and (r is None or plain(r)), rs[0] if rs else None, o, 'a constant %s' % ('represents itself' if ok else 'has no representative' if r is None else 'is represented by ' + show(self.decoded(D, r), 4)))
            for x in ('lo', 'hi'):
                ok = new[x] is old[x] or same(I, new[x], old[x])
                self.ob(Q2, ok, True, ds[0] if ds else None, o, '%s arc of a constant is %s' % (x, 'kept' if ok else 'changed to ' + show(new[x], 4)))
            return
        if kind != 'inner':
            self.ob(Q1, False, False, None, o, 'the instruction is not looked at')
            return
        good = True
        for x in ('lo', 'hi'):
            c = self.repcell(D, new[x])
            want = scale(sub(old[x], D.b), 8)
            ok = c is not None and same(I, c, want)
            if c is not None and not ok:
                t = I.norm(new[x] if self.enc == 'position' else sub(new[x], D.b))
                ok = same(I, t, mk('rcell', t.args[0], self.rep, I.norm(want)))
            other = scale(sub(old['hi' if x == 'lo' else 'lo'], D.b), 8)
            bad = new[x] is old[x] or c is not None and (same(I, c, other) or is_const(I.norm(sub(c, want)))) or is_const(new[x])
            self.ob(Q2, ok, bad, ds[0] if ds else None, o, '%s arc %s' % (x, 'leads to the representative of the successor' if ok else 'is not led to the representative' if new[x] is old[x] else 'leads to ' + show(new[x], 5)))
            good = good and ok
        if not good:
            return
        if r is None:
            self.ob(Q1, False, not any(e.k in ('store', 'fill') and mentions(e, self.rep) for e in S.events[:S.events.index(loop)]), None, o, 'an inner instruction has no representative')
            return
        eqa = I.decide(eq(new['lo'], new['hi']))
        ins = [e for e in ms if e.k == 'map_insert']
        ask = [e for e in ms if e.k in ('map_present', 'map_absent')]
        self_ = same(I, r, self.code(D, q))
        if eqa is True:
            ok = same(I, self.decoded(D, r), new['lo'])
            self.ob(Q1, ok, self_ or plain(r), rs[0], o, 'an instruction with equal arcs is represented by %s' % ('its successor' if ok else 'itself' if self_ else show(r, 5)))
            if ok and ins:
                self.ob(Q1, False, False, ins[0], o, 'an instruction with equal arcs is remembered')
            return
        if eqa is None:
            blind = not any(x is new['lo'] or x is new['hi'] for f in S.facts for x in subterms(I.norm(f)))
            # reading the other arcs afterwards may be ambiguous, those of this instruction are known
            S.taint = [t for t in S.taint if t != ('ambiguous', None)]
            self.ob(Q1, False, self_ or r.op == 'mval' or blind and bool(ask), rs[0], o, 'an instruction %s whether or not its arcs are equal' % ('is kept' if self_ else 'is treated alike'))
            return
        if not ask:
            hasmap = any(e.k == 'map_ctor' for e in S.events)
            self.ob(Q1, False, self_ and hasmap, rs[0], o, 'an inner instruction is not compared with those below')
            return
        key = [I.norm(x) for x in ask[-1].key]
        known = {new['lo'], new['hi'], new['index'], old['lo'], old['hi']}
        ok = len(key) == 3 and all(any(w is x for x in key) for w in (new['lo'], new['hi'], new['index']))
        self.ob(Q1, ok, all(w in known or is_const(w) for w in key), ask[-1], o, 'instructions are compared by %s' % ('label and representatives of the successors' if ok else ', '.join(show(w, 4) for w in key)))
        if not ok:
            return
        if ask[-1].k == 'map_present':
            v = I.norm(r)
            ok = v.op == 'mval' and v.args[1] is I.norm(ask[-1].entry)
            self.ob(Q1, ok, self_ or plain(v), rs[-1], o, 'an instruction equal to one below is represented by %s' % ('that one' if ok else 'itself' if self_ else show(v, 4)))
        else:
            st = [e for e in ins if not e.present]
            self.ob(Q1, self_, plain(r) or r.op == 'rcell', rs[-1], o, 'an instruction that differs from all below is represented by %s' % ('itself' if self_ else show(self.decoded(D, r), 4)))
            if not st:
                self.ob(Q1, False, not any(e.k == 'map_set' for e in ms), rs[-1], o, 'an instruction that differs from all below is not remembered')
            else:
                v = st[-1].val
                ok = len(v) == 1 and same(I, v[0], self.code(D, q))
                self.ob(Q1, ok, len(v) == 1 and (plain(v[0]) or v[0].op == 'rcell'), st[-1], o, 'it is remembered as %s' % ('itself' if ok else ', '.join(show(x, 4) for x in v)))

    # -------------------------------------------------------------- reachability
    def root_(self, D):
        """position of the representative of the first instruction, from the terms of the path"""
        I = self.I
        for f in list(I.S.facts) + [e.entry[x] for e in I.S.events if e.k == 'loop' and getattr(e, 'entry', None) for x in e.entry]:
            if not isinstance(f, T):
                continue
            for t in subterms(f):
                if t.op == 'rcell' and t.args[1] is self.rep and I.norm(t.args[2]) is ZERO:
                    return self.decoded(D, t)
        return None

    def flagged(self, o, p, since=None):
        """what the path knows about the flag of p: 'zero', 'nonzero' or None; flags of other instructions it has looked at"""
        I = self.I
        D = o.S.user['D']
        res, others = None, False
        seen = set()
        for f in o.S.facts[since or 0:]:
            for t in subterms(f):
                if t.op == 'rcell' and t.args[1] is self.flag and t not in seen:
                    seen.add(t)
                    d = I.decide(eq(I.norm(t), ZERO))
                    if d is None:
                        continue
                    if same(I, t.args[2], scale(sub(p, D.b), 8)):
                        res = 'zero' if d else 'nonzero'
                    else:
                        others = True
        if res is None:
            off = I.norm(scale(sub(p, D.b), 8))
            hit = o.S.mem.get(self.flag, {}).get(off)
            v = hit[1] if hit is not None else I.fill_value(self.flag, off, 8)
            if isinstance(v, T) and is_const(I.norm(v)):
                res = 'zero' if I.norm(v) is ZERO else 'nonzero'
        return res, others

    def setup(self, o):
        """(value of removed, value of kept) from what happens before the pass downwards, or None"""
        I, S = self.I, o.S
        D = S.user['D']
        fl = [e for e in S.events if e.k == 'fill' and I.norm(e.base) is self.flag] if any(e.k == 'fill' for e in S.events) else []
        if len(fl) != 1:
            return None
        return I.norm(fl[0].value), fl[0]

    def downwards(self, o, loop, seg, hs, ds, ps, ms):
        I, K, S = self.I, self.K, o.S
        D = S.user['D']
        if D.infeasible():
            return
        fl = self.setup(o)
        root = self.root_(D)
        if fl is not None and root is None:
            pre = [e for e in S.events[S.events.index(fl[1]):S.events.index(loop)] if e.k == 'store' and I.norm(e.base) is self.flag]
            if len(pre) == 1 and self.at(pre[0]) is ZERO:
                self.ob(Q3, False, True, pre[0], o, 'the first instruction is taken for the root, whatever represents it')
                return
        if fl is None or not is_const(fl[0]) or root is None:
            self.ob(Q3, False, False, None, o, 'flags are set up in an unknown way')
            return
        gone, fill = fl
        n = I.norm(sub(D.e, D.b))
        d = I.norm(sub(fill.off2, scale(addc(n, -2), 8)))
        self.ob(Q3, I.norm(fill.off) is ZERO and same(I, d, ZERO), is_const(I.norm(fill.off)) and is_const(d), fill, o, 'all inner instructions and no constants are marked at first' if d is ZERO and I.norm(fill.off) is ZERO else 'marked at first: from %s to %s' % (show(I.norm(fill.off), 3), show(I.norm(fill.off2), 4)))
        if not same(I, d, ZERO):
            return
        i, j = S.events.index(fill), S.events.index(loop)
        pre = [e for e in S.events[i:j] if e.k == 'store' and I.norm(e.base) is self.flag]
        extra = [e for e in pre if self.at(e) is ZERO and is_const(I.norm(e.val)) and I.norm(e.val) is not gone and not same(I, D.b, root)]
        if len(pre) > 1 and extra and I.decide(eq(D.b, root)) is not True:
            self.ob(Q3, False, True, extra[0], o, 'the first instruction is kept even if it is not the root')
            return
        if len(pre) != 1 or self.at(pre[0]) is None or not is_const(I.norm(pre[0].val)):
            self.ob(Q3, False, not pre, pre[0] if pre else fill, o, 'the root is not marked' if not pre else 'marks before the pass are unknown')
            return
        kept = I.norm(pre[0].val)
        x = I.norm(add(self.at(pre[0]), D.b))
        ok = same(I, x, root)
        self.ob(Q3, ok, is_const(I.norm(sub(x, root))) or x is D.b, pre[0], o, 'the root is %s' % ('kept' if ok else 'taken for ' + show(x, 4)))
        self.ob(Q3, kept is not gone, True, pre[0], o, 'the root is set apart by %s' % show(kept))
        if kept is not ZERO or gone is ZERO or not ok:
            self.ob(Q3, False, False, None, o, 'flags have an unknown meaning')
            return
        k = self.count(o, loop)
        p0 = self.first(D, loop, root)
        if p0 is None:
            self.ob(Q3, False, False, None, o, 'the instruction of the iteration is not recognised')
            return
        p = I.norm(add(p0, k))
        fs, others = self.flagged(o, p)
        lo, hi = (self.arc(D, p, x) for x in ('lo', 'hi'))
        for a in (lo, hi):
            if I.decide(eq(a, p)) is True or I.decide(eq(a, D.b)) is True:
                return
        if fs is None and k is ZERO and p is root:
            fs = 'zero'
        wrote = []
        for e in hs:
            if I.norm(e.base) is not self.flag:
                continue
            x = self.at(e)
            wrote.append((I.norm(add(x, D.b)) if x is not None else None, I.norm(e.val), e))
        ok_lo = any(x is not None and same(I, x, lo) and v is kept for x, v, _ in wrote)
        ok_hi = any(x is not None and same(I, x, hi) and v is kept for x, v, _ in wrote)
        extra = [e for x, v, e in wrote if x is None or not (same(I, x, lo) or same(I, x, hi)) or v is not kept]
        if fs == 'zero':
            for ok, what in ((ok_lo, 'lo'), (ok_hi, 'hi')):
                self.ob(Q3, ok, not extra or all(x is not None for x, _, _ in wrote) and len(wrote) <= 2, wrote[0][2] if wrote else None, o, '%s successor of a kept instruction is %s' % (what, 'kept' if ok else 'not kept'))
            for e in extra:
                self.ob(Q3, False, False, e, o, 'another flag is set')
        elif fs == 'nonzero':
            self.ob(Q3, not wrote, True, wrote[0][2] if wrote else None, o, 'successors of a removed instruction are %s' % ('passed over' if not wrote else 'marked'))
        else:
            self.ob(Q3, False, not others and bool(wrote), wrote[0][2] if wrote else None, o, 'successors are marked whether or not the instruction is kept')

    def first(self, D, loop, root):
        """the instruction a pass begins with"""
        I = self.I
        ent = [I.norm(x) for x in loop.entry.values()] if getattr(loop, 'entry', None) else []
        for p0 in (root, D.b):
            if p0 is not None and any(same(I, p0, x) for x in ent):
                return p0
        return None

    def about(self, t, D, q):
        """is t made from an arc of the instruction q?"""
        I = self.I
        for x in subterms(t):
            if x.op == 'fld' and x.args[0] in ('lo', 'hi'):
                d = I.norm(sub(x.args[1], D.data))
                if any(a is D.data for a, _ in lin(d)[1]):
                    continue
                if same(I, d, addc(scale(q, self.K.size), self.K.f['i.' + x.args[0]])) or same(I, d, scale(q, self.K.size)):
                    return True
        return False

    def arc(self, D, q, x):
        return self.I.norm(self.K.word(self.I, D.data, q, x))

    # -------------------------------------------------------------- moving together
    def source(self, D, t):
        return source(self.I, self.K, D, t)

    def compact(self, o, loop, seg, hs, ds, ps, ms):
        I, K, S = self.I, self.K, o.S
        D = S.user['D']
        if D.infeasible():
            return
        if [e for e in seg if e.k == 'loop'] or ds:
            self.ob(Q4, False, False, None, o, 'an iteration of unknown effect')
            return
        k = self.count(o, loop)
        ps = [e for e in ps if I.norm(e.v) is self.new]
        root = self.root_(D)
        p0 = self.first(D, loop, root)
        p = I.norm(add(D.b if p0 is None else p0, k))
        fs, others = self.flagged(o, p)
        if len(ps) > 1:
            self.ob(Q4, False, False, ps[0], o, 'an iteration appends %d instructions' % len(ps))
            return
        if not ps:
            lab = self.read(D, p)
            self.ob(Q4, fs == 'nonzero', fs == 'zero', None, o, 'an instruction that is %s' % ('not kept is left out' if fs == 'nonzero' else 'kept is left out' if fs == 'zero' else 'perhaps kept is left out'))
            return
        at = I.norm(ps[0].at)
        f = {x: I.norm(I.load(addc(at, K.f['i.' + x]), 8, 'i64')) for x in ('lo', 'hi', 'index')}
        s = self.source(D, f['index'])
        if s is None:
            self.ob(Q4, False, is_const(f['index']), ps[0], o, 'label of a moved instruction is ' + show(f['index'], 4))
            return
        ok = s[1] == 'index' and same(I, s[0], p)
        self.ob(Q4, ok, s[1] != 'index' or is_const(I.norm(sub(s[0], p))), ps[0], o, 'iteration %s moves instruction %s' % (show(k, 3), show(s[0], 4)))
        if not ok:
            return
        if fs is None:
            # the root is kept: nothing to ask when it is the first instruction
            if root is not None and I.decide(eq(root, p)) is True or any(same(I, self.at(e) or ZERO, sub(p, D.b)) for e in S.events if e.k == 'store' and I.norm(e.base) is self.flag and self.at(e) is not None and I.norm(e.val) is ZERO):
                fs = 'zero'
        self.ob(Q4, fs == 'zero', fs == 'nonzero' or not others, ps[0], o, 'an instruction that is %s is moved' % {'zero': 'kept', 'nonzero': 'not kept', None: 'perhaps not kept'}[fs])
        old = {x: self.arc(D, p, x) for x in ('lo', 'hi')}
        for x in ('lo', 'hi'):
            if I.decide(eq(old[x], D.b)) is True or I.decide(eq(old[x], p)) is True:
                return
        sums = [e for e in S.events if e.k == 'partial_sum' and I.norm(e.src) is self.flag]
        for x in ('lo', 'hi'):
            d = I.norm(sub(old[x], f[x]))
            other = I.norm(sub(old['hi' if x == 'lo' else 'lo'], f[x]))
            ok = bad = False
            if d is ZERO:
                bad = True
            elif d.op == 'psum' and len(sums) == 1 and d.args[1] == sums[0].ver:
                # number of removed instructions up to and including the given one
                off = I.norm(add(sums[0].begin, d.args[2]))
                w = I.norm(scale(addc(sub(old[x], D.b), -1), 8))
                ok = same(I, off, w)
                bad = is_const(I.norm(sub(off, w))) or self.about(off, D, p)
                late = [e for e in S.events[S.events.index(sums[0]):] if e.k == 'store' and I.norm(e.base) is self.flag]
                if late:
                    ok = bad = False
            elif other is ZERO or other.op == 'psum' and self.about(f[x], D, p):
                bad = not any(y.op == 'fld' and y.args[0] == x for y in subterms(f[x]) if y is not f['index'])
            self.ob(Q4, ok, bad, ps[0], o, '%s arc of a moved instruction is %s' % (x, 'reduced by the number of instructions removed before' if ok else show(f[x], 5)))
        for e in sums:
            c = I.norm(sub(add(e.at, e.count), sub(D.e, D.b)))
            self.ob(Q4, I.prove_ge0(c), is_const(c), e, o, 'numbers of removed instructions cover all but %s instructions' % show(I.norm(scale(c, -1)), 3))

    def read(self, D, p):
        return [x for x in D.labels() if same(self.I, x, p)]

    # -------------------------------------------------------------- replacing the diagram
    def back(self, o, loop, seg, hs, ds, ps, ms):
        I, K, S = self.I, self.K, o.S
        D = S.user['D']
        k = self.count(o, loop)
        if S.events[-1].mode == 'first' and not D.infeasible():
            self.constants(o)
        cp = I.norm(K.a('bdd_instructions'))
        if any(e.k == 'store' and I.norm(e.base) is self.newbase(o) for e in seg):
            self.ob(Q6, False, False, None, o, 'instructions change while they are put back')
            return
        ps = [e for e in ps if I.norm(e.v) is cp]
        if len(ps) != 1:
            self.ob(Q6, False, not ps and any(sigof(loop) in self.LD for _ in (0,)), None, o, 'an iteration puts back %d instructions' % len(ps))
            return
        at = I.norm(ps[0].at)
        d = I.norm(sub(sub(at, D.data), scale(add(D.b, k), K.size)))
        self.ob(Q6, same(I, d, ZERO), plain(d), ps[0], o, 'iteration %s puts back instruction %s' % (show(k, 3), show(I.norm(udiv(sub(at, D.data), const(K.size))), 4)))
        nb = self.newbase(o)
        for x in ('lo', 'hi', 'index'):
            v = I.norm(I.load(addc(at, K.f['i.' + x]), 8, 'i64'))
            want = None
            if nb is not None:
                want = I.norm(I.load(addc(add(nb, scale(k, K.size)), K.f['i.' + x]), 8, 'i64'))
            ok = want is not None and v is want
            bad = want is not None and (is_const(v) or v.op == 'rcell' and v.args[1] is nb and is_const(I.norm(sub(v.args[2], add(scale(k, K.size), const(K.f['i.' + x]))))))
            self.ob(Q6, ok, bad, ps[0], o, '%s of the instruction is %s' % (x, 'put back' if ok else show(v, 4)))

    def left(self, D, p):
        for c in range(5):
            if reached(self.I, p, addc(D.e, -c)):
                return c
        return None

    def appended(self, o):
        """instructions appended after the last pass over the diagram"""
        evs = o.S.events
        lc = [i for i, e in enumerate(evs) if e.k == 'loop' and sigof(e) in self.LC]
        return [e for e in evs[lc[-1]:] if e.k == 'push' and self.I.norm(e.v) is self.new] if lc else []

    def constants(self, o):
        I, K, S = self.I, self.K, o.S
        D = S.user['D']
        evs = S.events
        root = self.root_(D)
        lc = [i for i, e in enumerate(evs) if e.k == 'loop' and sigof(e) in self.LC]
        np = self.appended(o)
        src = [self.source(D, I.norm(I.load(addc(I.norm(e.at), K.f['i.index']), 8, 'i64'))) for e in np]
        if len(np) != 2 or None in src or root is None or any(x[1] != 'index' for x in src):
            self.ob(Q5, False, len(np) < 2 and bool(lc) and all(x is not None for x in src), np[0] if np else None, o, '%d instructions are appended after the inner ones' % len(np))
        else:
            ds = [I.norm(sub(D.e, x[0])) for x in src]
            got = [cval(d) if is_const(d) else None for d in ds]
            isl = I.decide(eq(root, addc(D.e, -1)))
            if isl is None and any(e.k == 'loop' and sigof(e) in self.LB and not e.first for e in evs):
                isl = False
            if isl is None and I.decide(ult(root, addc(D.e, -2))) is True:
                isl = False
            for e, x in zip(np, src):
                for y in ('lo', 'hi'):
                    z = self.source(D, I.norm(I.load(addc(I.norm(e.at), K.f['i.' + y]), 8, 'i64')))
                    ok = z is not None and z == (x[0], y)
                    self.ob(Q5, ok, z is not None, e, o, '%s arc of a constant is %s' % (y, 'kept' if ok else 'changed'))
            two = sorted(got, key=str) == [1, 2]
            self.ob(Q5, two, None not in got, np[0], o, 'the last two instructions are %s' % ('the two constants' if two else ' and '.join(show(d, 3) for d in ds) + ' from the end'))
            if two and isl is not None:
                ok = got == ([1, 2] if isl else [2, 1])
                # the order of the constants matters only when one of them is the root
                inner = isl is False and I.decide(eq(root, addc(D.e, -2))) is not True
                self.ob(Q5, ok, isl or I.decide(eq(root, addc(D.e, -2))) is True, np[0], o, 'the constants are %s' % ('in order' if ok else 'in an order that puts the root last')) if ok or not inner else None
                if not ok and inner and I.decide(eq(root, addc(D.e, -2))) is None:
                    self.ob(Q5, False, False, np[0], o, 'order of the constants')
            elif two:
                self.ob(Q5, False, True, np[0], o, 'the root may be the last instruction, and the order of the constants does not depend on it')

    def inside(self, D, off):
        I, K = self.I, self.K
        for x in ('lo', 'hi', 'index'):
            p = position(K, D, I.norm(addc(off, -K.f['i.' + x])))
            if p is not None:
                return I.prove_ge0(I.norm(sub(p, D.b))) or I.prove_ge0(I.norm(sub(p, addc(D.e, -2))))
        return False

    def newbase(self, o):
        I = self.I
        for e in o.S.events:
            if e.k == 'push' and I.norm(e.v) is self.new:
                return I.norm(I.split(I.norm(e.at))[0])
        return None

    def end(self, o):
        I, K, S = self.I, self.K, o.S
        u = S.user
        D = u['D']
        if D.infeasible():
            return
        evs = S.events
        loops = [e for e in evs if e.k == 'loop']
        n = sub(D.e, D.b)
        root = self.root_(D)
        cp = I.norm(K.a('bdd_instructions'))
        for e in loops:
            s = sigof(e)
            if s in self.LA:
                if e.first:
                    return
                d = I.norm(sub(n, e.K))
                ok = reached(I, sub(D.e, e.K), D.b)
                self.ob(Q1, ok, is_const(d), e, o, 'all instructions get a representative' if ok else '%s instructions get no representative' % show(d, 4))
            elif s in self.LB and not e.first and root is not None:
                ent = [I.norm(x) for x in e.entry.values()]
                p0 = self.first(D, e, root)
                if p0 is None:
                    self.ob(Q3, False, len(ent) == 1 and is_const(I.norm(sub(ent[0], root))), e, o, 'the pass begins at ' + ', '.join(show(x, 4) for x in ent))
                    continue
                c = self.left(D, add(p0, e.K))
                self.ob(Q3, c == 2, c is not None, e, o, 'the pass visits all inner instructions' if c == 2 else 'the pass ends %s instructions before the end' % c)
            elif s in self.LC and not e.first:
                p0 = self.first(D, e, root)
                c = self.left(D, add(p0, e.K)) if p0 is not None else None
                self.ob(Q4, c == 2, c is not None, e, o, 'all inner instructions are looked at' if c == 2 else 'moving ends %s instructions before the end' % c)
        if not any(sigof(e) in self.LB for e in loops):
            self.ob(Q3, False, False, None, o, 'no pass over the instructions')
        np = self.appended(o)
        if not any(e.k == 'loop' and sigof(e) in self.LD and not e.first for e in evs):
            self.constants(o)
        # replacing
        rz = [e for e in evs if e.k == 'resize' and I.norm(e.v) is cp]
        cps = [e for e in evs if e.k == 'push' and I.norm(e.v) is cp]
        if len(rz) == 1:
            self.ob(Q6, same(I, rz[0].n, D.b), plain(I.norm(sub(rz[0].n, D.b))), rz[0], o, 'instructions before the diagram stay' if same(I, rz[0].n, D.b) else '%s instructions stay' % show(I.norm(rz[0].n), 4))
        else:
            self.ob(Q6, False, not rz and bool(cps or self.LD) and not any(e.k in ('erase', 'algo') for e in evs), None, o, 'the old instructions are not removed')
            return
        try:
            nb, ne, nl = vget(I, self.new, 'BDD::bdd_instruction')
        except Exception:
            nl = None
        bl = None
        for i, e in enumerate(cps):
            at = I.norm(e.at)
            d = I.norm(sub(sub(at, D.data), scale(add(D.b, const(i)), K.size)))
            ld = [x for x in loops if sigof(x) in self.LD]
            if ld:
                self.ob(Q6, False, False, e, o, 'an instruction is added to those put back')
                continue
            self.ob(Q6, same(I, d, ZERO), plain(d), e, o, 'instruction %d is put back' % i)
            if self.newbase(o) is not None:
                for x in ('lo', 'hi', 'index'):
                    v = I.norm(I.load(addc(at, K.f['i.' + x]), 8, 'i64'))
                    w = I.norm(I.load(addc(add(self.newbase(o), const(i * K.size)), K.f['i.' + x]), 8, 'i64'))
                    self.ob(Q6, v is w, is_const(v) or v.op == 'fld', e, o, '%s of instruction %d' % (x, i))
        for e in loops:
            if sigof(e) in self.LD and not e.first and np:
                # as many as there are
                last = np[-1]
                m = addc(last.n, 1)
                d = I.norm(sub(m, e.K))
                self.ob(Q6, same(I, d, ZERO), is_const(d), e, o, 'all instructions are put back' if same(I, d, ZERO) else '%s instructions are not put back' % show(d, 4))
        ld = [e for e in loops if sigof(e) in self.LD]
        if not ld and np:
            d = I.norm(sub(addc(np[-1].n, 1), const(len(cps))))
            self.ob(Q6, same(I, d, ZERO), is_const(d), cps[-1] if cps else None, o, 'all instructions are put back' if same(I, d, ZERO) else '%s instructions are not put back' % show(d, 4))
        v = I.norm(I.load(addc(add(u['dd'], scale(u['nd0'], 8)), -8), 8, 'i64'))
        m = I.norm(K.length(I, 'bdd_instructions'))
        self.ob(Q6, same(I, v, m), v is D.e or plain(I.norm(sub(v, m))) or is_const(I.norm(sub(v, m))), None, o, 'the last delimiter is %s' % ('the number of instructions' if same(I, v, m) else show(v, 4)))
        nd = I.norm(K.length(I, 'bdd_delimiters'))
        self.ob(Q6, same(I, nd, u['nd0']), is_const(I.norm(sub(nd, u['nd0']))), None, o, 'the number of diagrams is %s' % ('kept' if same(I, nd, u['nd0']) else 'changed'))
        for e in evs:
            if e.k != 'store' or e.base in S.fresh:
                continue
            b, off = I.norm(e.base), I.norm(e.off)
            if b is u['dd'] and not same(I, off, addc(scale(u['nd0'], 8), -8)):
                self.ob(Q6, False, plain(off), e, o, 'delimiter at %s is changed' % show(off, 4))
            elif b is D.data and not self.inside(D, off):
                d = I.norm(sub(off, scale(D.b, K.size)))
                self.ob(Q6, False, is_const(d), e, o, 'an instruction before the diagram may be changed')


def mentions(e, t):
    for v in e.d.values():
        if isinstance(v, T) and any(x is t for x in subterms(v)):
            return True
    return False
