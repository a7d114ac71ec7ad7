"""Changing stored diagrams: renaming their variables, removing diagrams.

The form of stored diagrams is that of lemmas_store.  Removing is described by an invariant of the loop over the diagrams: the last of the
new delimiters is the number of new instructions, and the indices that have been passed are those below the number of the diagram."""
from .terms import *
from .interp import *
from .nodes import *
from .lemmas_ops import setup_mgr, mkinterp, locof, facts, clean, check_common
from .lemmas_coll import Coll, COL, C, MAX, BOTI, wf, reads
from .lemmas_store import Stored, NR, equal, sto
from .lemmas_rebase import RNG, CNT, VM

H1 = 'inner instructions are renamed by the map, constants keep their label'
H2 = 'all instructions of the diagram are renamed'
H3 = 'nothing else is written'

IDX = sym('INDICES', ptr=True, nonnull=True, cls='ARR')
M = sym('m', small=True)

D1 = 'a kept instruction is copied, its arcs are moved with it'
D2 = 'kept diagrams are copied completely'
D3 = 'delimiters of kept diagrams'
D4 = 'exactly the listed diagrams are left out'
D5 = 'the result replaces the collection'
D6 = 'instructions are not changed in place'


def image_of(I, byrange, old):
    return I.norm(I.load(add(RNG, scale(old, 8)), 8, 'i64')) if byrange else mk('vimg', old)


def segment(S, be):
    """events of the last iteration of the loop of a back edge, and the event of the loop"""
    loop = next((e for e in reversed(S.events) if e.k == 'loop' and e.key == be.key), None)
    if loop is None:
        return None, []
    i0 = next(i for i, e in enumerate(S.events) if e is loop)
    return loop, S.events[i0 + 1:]


def lemma_rebase_stored(P, R):
    K = Coll(P)
    fs = [(n, 'bdd_collection') for n in P.find(r'^void ' + COL + r'::rebase<[^{]*\)$') if 'lambda' not in P.demangled(n)] + [(n, 'bdd_collection_entry') for n in P.find(r'vdriver::entry_rebase')]
    if len(fs) < 4 or not K.ok:
        R.ob(('C16',), H1, None, None, 'rebase of stored diagrams not found')
    for n, c in fs:
        rebase(P, R, K, n, c)


def rebase(P, R, K, n, cname):
    root = P.func(n)
    byrange = len(root.args) == 4
    name = '%s::rebase with a %s' % (cname, 'range' if byrange else 'map')
    props = ('C16',)
    I = mkinterp(P)
    I.mappolicy = lambda I, Mp, m, key: (True, setmeta(mk('vimg', key[0]), small=True)) if Mp is VM else None

    def start(I):
        setup_mgr(I)
        wf(I, K)
        D = Stored(I, K)
        I.S.user['D'] = D
        D.wf()
        I.S.facts.clear()
        I.S.events.clear()
        I.S.mem.get(D.data, {}).clear()
        return I.run(root, [C, NR] + ([RNG, add(RNG, scale(CNT, 8))] if byrange else [VM]))
    try:
        outs = I.explore(start, 400)
    except Budget:
        outs = []
    R.absorb(I, outs)
    w0 = (root.file, root.line, root.dem)
    if not outs:
        R.ob(props, H1, None, w0, name + ': too many paths')
    starts = set()
    for o in outs:
        I.S = o.S
        D = o.S.user['D']
        S = o.S
        w = locof(None, o, root)
        cl = clean(o)
        check_common(I, R, o, root, name, ('C16', 'C08'))
        if o.kind == 'unsupported':
            R.ob(props, H1, None, w, name + ': ' + str(o.info))
            continue
        if o.kind not in ('ret', 'backedge'):
            continue
        st = [e for e in S.events if e.k == 'store' and e.base not in S.fresh]
        other = [e for e in st if I.norm(e.base) is not D.data]
        for e in other:
            R.ob(props, H3, False if cl else None, locof(e, o, root), '%s: writes to %s' % (name, show(add(e.base, e.off), 4)))
        if o.kind == 'ret':
            if [e for e in st if e not in other]:
                R.ob(props, H3, None, w, name + ': writes outside of a loop')
            loops = [e for e in S.events if e.k == 'loop']
            if len(loops) != 1:
                R.ob(props, H2, False if not loops and cl and not st else None, w, '%s: %d loops over the instructions' % (name, len(loops)))
                continue
            e = loops[0]
            if e.first:
                continue        # no instruction: not a stored diagram
            left = sub(sub(D.e, D.b), e.K)
            ok = any(equal(I, left, const(x)) is True for x in (0, 2))
            left = I.norm(left)
            R.ob(props, H2, True if ok else (False if cl and is_const(left) else None), w, '%s: %s' % (name, 'all instructions are visited' if ok else 'the loop ends %s instructions before the end' % show(left, 4)), None if ok else facts(I, o))
            continue
        be = S.events[-1]
        loop, seg = segment(S, be)
        if loop is None:
            continue
        k = ZERO if be.mode == 'first' else I.norm(loop.K)
        st = [e for e in seg if e.k == 'store' and I.norm(e.base) is D.data]
        # the instruction: what is written or read
        qs = {D.position(I.norm(addc(e.off, -K.f['i.index']))) for e in st}
        if not st:
            qs = set(D.labels())
        if len(qs) != 1 or None in qs:
            qs = {q for q in qs if q is not None}
            R.ob(props, H3, False if cl and st and not any(lin(I.norm(addc(e.off, -K.f['i.index'])))[0] % K.size == 0 for e in st) else None, w, '%s: iteration looks at %d instructions' % (name, len(qs)))
            continue
        q = I.norm(qs.pop())
        starts.add(I.norm(sub(q, k)))
        ok = equal(I, sub(q, k), D.b)
        d = I.norm(sub(sub(q, k), D.b))
        bad = cl and (ok is False or not is_const(d) and all(a.op == 'fld' and a.args[0] not in ('lo', 'hi', 'index') for a, _ in lin(d)[1]))
        R.ob(props, H2, True if ok else (False if bad else None), w, '%s: iteration %s takes instruction %s' % (name, show(k, 3), show(q, 4)), None if ok else facts(I, o))
        old = I.norm(st[0].old) if st and isinstance(st[0].old, T) else I.norm(D.word(q, 'index'))
        new = I.norm(D.word(q, 'index'))
        lo, hi = I.norm(D.word(q, 'lo')), I.norm(D.word(q, 'hi'))
        same = I.decide(eq(lo, hi))
        b, t = I.decide(eq(old, BOTI)), I.decide(eq(old, MAX))
        if same is True or b is True or t is True:
            kind = 'constant'
        elif same is False or b is False and t is False:
            kind = 'inner'
        else:
            kind = {'inner': 'inner', 'const': 'constant'}.get(D.region(q))
            if kind is None and old is not new:
                kind = 'constant'       # nothing distinguishes the constants from this instruction
        for e in st:
            d = I.norm(sub(e.off, scale(q, K.size)))
            if d is not const(K.f['i.index']):
                R.ob(props, H3, False if cl and is_const(d) else None, locof(e, o, root), '%s: writes to offset %s of an instruction' % (name, show(d, 3)))
        if kind == 'constant':
            ok = new is old or equal(I, new, old) is True
            bad = cl
        elif kind == 'inner':
            ok = new is image_of(I, byrange, old)
            bad = cl and (new is old or new.op in ('fld', 'vimg', 'lin') or is_const(new) or new.op == 'trunc' and cut(I, byrange, old, new))
        else:
            ok = bad = False
        r = 'keeps its label' if new is old else 'is renamed' if new is image_of(I, byrange, old) else 'gets the label ' + show(new, 4)
        R.ob(props, H1, True if ok else (False if bad else None), locof(st[0] if st else None, o, root), '%s: %s %s' % (name, {'constant': 'a constant', 'inner': 'an inner instruction'}.get(kind, 'an instruction'), r), None if ok else ['label was ' + show(old, 5)] + facts(I, o))
    R.ob(props, H3, True, w0, name + ': writes of all paths are looked at')


def cut(I, byrange, old, new):
    """is the label the right one reduced to fewer bits than labels have?"""
    w = new.args[1]
    w = cval(w) if isinstance(w, T) else w
    return w < 41 and I.norm(new.args[0]) is image_of(I, byrange, old)


# ------------------------------------------------------------------ removing
def lemma_remove(P, R):
    K = Coll(P)
    fs = P.find(r'void ' + COL + r'::remove<')
    if not fs or not K.ok:
        R.ob(('C16',), D1, None, None, 'remove not found')
    for n in fs:
        remove(P, R, K, n)


def remove(P, R, K, n):
    root = P.func(n)
    name = 'bdd_collection::remove'
    props = ('C16',)
    I = mkinterp(P)

    def start(I):
        setup_mgr(I)
        wf(I, K)
        u = I.S.user
        u['r0'] = setmeta(I.norm(I.load(IDX, 8, 'i64')), small=True)
        u['n0'] = addc(K.length(I, 'bdd_delimiters'), -1)
        u['old'] = I.norm(K.data(I, 'bdd_instructions'))
        u['oldd'] = I.norm(K.data(I, 'bdd_delimiters'))
        I.add_lin(addc(sub(u['n0'], u['r0']), -1))      # listed diagrams exist
        I.S.facts.clear()
        I.S.events.clear()
        return I.run(root, [C, IDX, add(IDX, scale(M, 8))])
    try:
        outs = I.explore(start, 800)
    except Budget:
        outs = []
    R.absorb(I, outs)
    w0 = (root.file, root.line, root.dem)
    if not outs:
        R.ob(props, D1, None, w0, name + ': too many paths')
        return
    # the new arrays
    HI, HD = set(), set()
    for o in outs:
        I.S = o.S
        if o.kind == 'unsupported':
            R.ob(props, D1, None, locof(None, o, root), name + ': ' + str(o.info))
        check_common(I, R, o, root, name, ('C16', 'C08'))
        if o.kind != 'ret':
            continue
        for x, out, old in (('bdd_instructions', HI, 'old'), ('bdd_delimiters', HD, 'oldd')):
            b = I.norm(K.data(I, x))
            if b is not I.norm(o.S.user[old]):
                out.add(b)
    if len(HI) != 1 or len(HD) != 1 or any(x.op != 'heap' for x in HI | HD):
        R.ob(props, D1, None, w0, name + ': the diagrams are not copied to new arrays')
        return
    HI, HD = HI.pop(), HD.pop()
    Q = Remove(P, R, K, I, root, name, HI, HD)
    for o in outs:
        I.S = o.S
        if o.kind == 'backedge':
            Q.inner(o)
    for o in outs:
        I.S = o.S
        if o.kind == 'backedge':
            loop, seg = segment(o.S, o.S.events[-1])
            if loop is not None and [e for e in seg if e.k == 'loop' and str(e.key) in Q.src]:
                Q.outers.add(loop.info['sig'][1:3])
    for o in outs:
        I.S = o.S
        if o.kind == 'backedge':
            Q.outer(o)
        elif o.kind == 'ret':
            Q.end(o)
    if not Q.moved:
        R.ob(props, D2, None, w0, name + ': no iteration copies a diagram')
    R.ob(props, D6, True, w0, name + ': writes of all paths are looked at')


class Remove:
    def __init__(self, P, R, K, I, root, name, HI, HD):
        self.P, self.R, self.K, self.I, self.root, self.name, self.HI, self.HD = P, R, K, I, root, name, HI, HD
        self.src = {}          # loop over instructions -> first instruction copied by it
        self.moved = {}        # loop over diagrams -> number of the first diagram
        self.outers = set()
        self.vecs = {}

    def ob(self, rule, ok, bad, x, o, msg):
        self.R.ob(('C16',), rule, True if ok else (False if bad else None), locof(x, o, self.root), self.name + ': ' + msg, None if ok else facts(self.I, o, 20))

    def base(self, e):
        return self.I.norm(self.I.split(self.I.norm(e.at))[0])

    def pushes(self, seg):
        a = [e for e in seg if e.k == 'push' and self.base(e) is self.HI]
        b = [e for e in seg if e.k == 'push' and self.base(e) is self.HD]
        for e in a:
            self.vecs['i'] = self.I.norm(e.v)
        for e in b:
            self.vecs['d'] = self.I.norm(e.v)
        return a, b

    def known(self, t):
        """is t made of lengths of the new arrays and of what is stored in the collection?"""
        ok = {self.vecs.get('i'), self.vecs.get('d'), None}
        for x in subterms(t):
            if x.op in ('mval', 'undef', 'ambig', 'rmem') or x.op == 'phi' and not (len(x.args) > 2 and x.args[0] == 'cell' and x.args[2] in ok):
                return False
        return True

    def delim(self, j):
        return self.I.norm(self.I.load(add(self.I.S.user['oldd'], scale(j, 8)), 8, 'i64'))

    def number(self, t):
        """j when t is the delimiter with number j"""
        oldd = self.I.norm(self.I.S.user['oldd'])
        if t.op == 'fld' and len(t.args) == 2 and any(a is oldd for a, _ in lin(t.args[1])[1]):
            c, l = lin(sub(t.args[1], oldd))
            if not any(a is oldd for a, _ in l) and c % 8 == 0 and all(k % 8 == 0 for _, k in l):
                r = const(c // 8)
                for a, k in l:
                    r = add(r, scale(a, k // 8))
                return self.I.norm(r)
        return None

    def inner(self, o):
        """instructions appended by an iteration of an innermost loop"""
        I, K, S = self.I, self.K, o.S
        loop, seg = segment(S, S.events[-1])
        if loop is None:
            return
        cl = clean(o)
        pi, pd = self.pushes(seg)
        if any(e.k == 'loop' for e in seg):
            return
        k = ZERO if S.events[-1].mode == 'first' else I.norm(loop.K)
        if pi and len(pi) != 1:
            self.ob(D1, False, False, pi[0], o, 'an iteration appends %d instructions' % len(pi))
            return
        for e in pi:
            q = I.norm(udiv(sub(I.norm(e.at), self.HI), const(K.size)))
            f = {x: I.norm(I.load(addc(I.norm(e.at), K.f['i.' + x]), 8, 'i64')) for x in ('lo', 'hi', 'index')}
            old = I.norm(S.user['old'])
            ix = reads(I, f['index'], 'index')
            s = None
            if ix.op == 'fld' and ix.args[0] == 'index' and len(ix.args) == 2:
                d = I.norm(sub(ix.args[1], old))
                if not any(a is old for a, _ in lin(d)[1]):
                    s = I.norm(udiv(d, const(K.size)))
            self.ob(D1, s is not None, cl and (ix.op in ('lin', 'fld') or is_const(ix)) and self.known(ix), e, o, 'label of the copy is %s' % ('that of the instruction' if s is not None else show(ix, 4)))
            if s is None:
                continue
            lo, hi = (I.norm(K.word(I, old, s, x)) for x in ('lo', 'hi'))
            same = True if f['index'] in (BOTI, MAX) else I.decide(eq(lo, hi))
            shift = sub(q, s)
            lens, back = self.invariant(o, loop, q, k)
            for x, a in (('lo', lo), ('hi', hi)):
                want = a if same is True else add(a, shift)
                d = I.norm(sub(f[x], want))
                ok = equal(I, f[x], want) is True
                if not ok and back is not None:
                    # the last new delimiter is the number of instructions copied so far
                    d2 = I.norm(subst(d, {back: lens}, {})) if back is not lens else d
                    ok = d2 is ZERO
                    d = d2
                self.ob(D1, ok, cl and self.known(d) and self.known(f[x]), e, o, '%s arc of %s is %s' % (x, 'a constant' if same is True else 'an inner instruction' if same is False else 'an instruction', 'kept' if ok and same is True else 'moved along' if ok else 'wrong by ' + show(d, 5)))
            if same is None:
                ok = equal(I, q, s) is True
                self.ob(D1, ok, False, e, o, 'instruction is copied to %s' % ('the same position' if ok else show(q, 4)))
            s0 = I.norm(sub(s, k))
            self.src.setdefault(str(loop.key), set()).add(s0)

    def invariant(self, o, loop, q, k):
        """(number of instructions, last delimiter) when the innermost loop is entered, if it belongs to an iteration over diagrams"""
        I, S = self.I, o.S
        i = next(i for i, e in enumerate(S.events) if e is loop)
        outer = [e for e in S.events[:i] if e.k == 'loop']
        if not outer:
            return None, None
        v = self.vecs.get('d') or self.vec_of(S, self.HD)
        if v is None:
            return None, None
        n = udiv(sub(I.norm(I.load(addc(v, 8), 8, 'ptr')), self.HD), const(8))
        back = I.norm(I.load(add(self.HD, scale(addc(n, -1), 8)), 8, 'i64'))
        return I.norm(sub(q, k)), back

    def vec_of(self, S, base):
        I = self.I
        for e in S.events:
            if e.k in ('push', 'vec_ctor'):
                v = I.norm(e.v)
                if I.norm(I.load(v, 8, 'ptr')) is base:
                    return v
        return None

    def length(self, S, base, size):
        v = self.vec_of(S, base)
        if v is None:
            return None
        return self.I.norm(udiv(sub(self.I.norm(self.I.load(addc(v, 8), 8, 'ptr')), base), const(size)))

    def outer(self, o):
        I, K, S = self.I, self.K, o.S
        be = S.events[-1]
        loop, seg = segment(S, be)
        if loop is None:
            return
        cl = clean(o)
        pi, pd = self.pushes(seg)
        k = ZERO if be.mode == 'first' else I.norm(loop.K)
        for e in [e for e in S.events if e.k == 'store' and e.base not in S.fresh]:
            b = I.norm(e.base)
            if b in (I.norm(S.user['old']), I.norm(S.user['oldd'])):
                self.ob(D6, False, cl, e, o, 'writes to ' + show(add(b, e.off), 4))
        inl = [e for e in seg if e.k == 'loop' and self.src.get(str(e.key))]
        r0 = I.norm(S.user['r0'])
        # delimiters
        for e in pd:
            n = I.norm(udiv(sub(I.norm(e.at), self.HD), const(8)))
            v = I.norm(I.load(e.at, 8, 'i64'))
            ni = self.length(S, self.HI, K.size)
            if self.number(v) is n:
                ok = I.prove_ge0(sub(r0, n))
                self.ob(D3, ok, cl and I.prove_ge0(addc(sub(n, r0), -1)), e, o, 'delimiter %s is kept' % show(n, 4))
            else:
                ok = ni is not None and equal(I, v, ni) is True
                self.ob(D3, ok, cl and self.known(v) and ni is not None and self.known(ni), e, o, 'new delimiter is %s' % ('the number of instructions copied so far' if ok else show(v, 4)))
        if loop.info['sig'][1:3] not in self.outers:
            return
        # an iteration over the diagrams
        if inl and all(e.first for e in inl) and self.empty(o, inl):
            return
        moved = bool(pd)
        j = None
        if be.mode == 'first' and not moved and not pi:
            ni, nd = self.length(S, self.HI, K.size), self.length(S, self.HD, 8)
            if ni is not None and nd is not None:
                ok = equal(I, nd, addc(r0, 1)) is True or equal(I, nd, ONE) is True
                d = I.norm(sub(nd, addc(r0, 1)))
                self.ob(D3, ok, cl and self.known(d), None, o, '%s delimiters before the first listed diagram is reached' % ('all' if ok else show(nd, 4)))
                back = I.norm(I.load(add(self.HD, scale(addc(nd, -1), 8)), 8, 'i64'))
                ok = equal(I, ni, back) is True
                if not ok and equal(I, nd, addc(r0, 1)) is True:
                    ok = equal(I, ni, self.delim(r0)) is True       # kept delimiters are the old ones
                d = I.norm(sub(ni, back))
                self.ob(D2, ok, cl and self.known(d), None, o, '%s instructions are copied before the first listed diagram is reached' % ('all' if ok else show(ni, 4)))
        if not moved:
            ok = not pi and not any(not e.first for e in inl)
            self.ob(D4, ok, cl, (pi or inl or [None])[0], o, 'a diagram without new delimiter is %s' % ('not copied' if ok else 'copied'))
        elif not inl and not pi:
            self.ob(D2, False, False, pd[0], o, 'a new delimiter without copying')
        if moved:
            js = set()
            for e in inl:
                s0 = self.src[str(e.key)]
                j = self.number(next(iter(s0))) if len(s0) == 1 else None
                if j is None:
                    self.ob(D2, False, cl and len(s0) == 1 and self.known(next(iter(s0))), e, o, 'copying begins at %s' % show(next(iter(s0)), 4))
                    continue
                js.add(j)
                n = sub(self.delim(addc(j, 1)), self.delim(j))
                kk = ZERO if e.first else I.norm(e.K)
                ok = equal(I, kk, n) is True
                d = I.norm(sub(kk, n))
                self.ob(D2, ok, cl and self.known(d), e, o, 'copying of a diagram %s' % ('is complete' if ok else 'ends %s instructions too late' % show(d, 4)))
            if len(js) == 1:
                j = js.pop()
                jb = I.norm(sub(j, k))
                self.moved.setdefault(str(loop.key), set()).add(jb)
        else:
            j = add(r0, k)
        self.listed(o, loop, be, seg, moved, I.norm(j) if j is not None else None, cl)

    def isprefix(self, pd):
        I = self.I
        return all(self.number(I.norm(I.load(e.at, 8, 'i64'))) is I.norm(udiv(sub(I.norm(e.at), self.HD), const(8))) for e in pd)

    def empty(self, o, inl):
        """a diagram without instructions"""
        for e in inl:
            for s0 in self.src[str(e.key)]:
                j = self.number(s0)
                if j is not None and self.I.decide(ult(self.delim(j), self.delim(addc(j, 1)))) is False:
                    return True
        return False

    def listed(self, o, loop, be, seg, moved, j, cl):
        """is the diagram left out exactly when it is the next one of the list?"""
        I, S = self.I, o.S
        head, new = self.counter(o, loop, be)
        if head is None or j is None:
            self.ob(D4, False, False, None, o, 'position in the list not found')
            return
        el = I.norm(I.load(add(IDX, scale(head, 8)), 8, 'i64'))
        hit = I.decide(eq(j, el))
        end = I.decide(eq(head, M))
        step = I.norm(sub(new, head))
        wit = None
        if not moved and hit is None:
            wit = self.possible(el, addc(j, 1))     # a listed number that has not been reached yet
        elif moved and hit is None:
            wit = self.possible(el, j)
        what = 'diagram %s is %s' % (show(j, 4), 'kept' if moved else 'left out')
        if moved:
            ok = hit is False or end is True
            self.ob(D4, ok, cl and end is not True and (hit is True or wit), None, o, what + (', it is not listed' if ok else ', it may be listed'))
            ok = step is ZERO
        else:
            ok = hit is True and end is not True
            self.ob(D4, ok, cl and (hit is False or end is True or wit), None, o, what + (', it is listed' if ok else ', it may not be listed'))
            ok = step is ONE
        self.ob(D4, ok, cl and is_const(step), None, o, '%s, the position in the list advances by %s' % (what, show(step, 3)))

    def possible(self, el, v):
        """may the element of the list have the given value?"""
        I = self.I
        for c in I.S.facts:
            c = c if c.op != 'not' else c
            if el in subterms(c):
                r = I.norm(subst(c, {el: v}, {}))
                if I.decide(r) is False:
                    return False
        return True

    def counter(self, o, loop, be):
        """position in the list at the head of the loop and at the back edge"""
        I, S = self.I, o.S
        info = loop.info
        cand = []
        for (b, off), c in info['cells'].items():
            new = I.norm(I.load(add(b, off), 8, 'i64')) if c[0][0] != 'drop' else None
            if new is not None and self.inidx(new):
                head = mk('phi', 'cell', info['sig'], b, off)
                cand.append((head, c[0], new))
        for r, c in info['phi'].items():
            new = o.info[1].get(r)
            if isinstance(new, T) and self.inidx(I.norm(new)):
                cand.append((mk('phi', 'phi', info['sig'], r), c, I.norm(new)))
        if len(cand) != 1:
            return None, None
        head, c, new = cand[0]
        if be.mode == 'first':
            h = ZERO
        elif c[0] == 'opq':
            h = udiv(scale(head, c[2]), const(8))
        elif c[0] == 'aff':
            h = I.norm(loop.K) if c[1] == 8 else None
        else:
            h = None
        if h is None:
            return None, None
        return I.norm(h), I.norm(udiv(sub(new, IDX), const(8)))

    def inidx(self, t):
        return any(a is IDX for a, _ in lin(t)[1])

    def end(self, o):
        I, K, S = self.I, self.K, o.S
        w = locof(None, o, self.root)
        cl = clean(o)
        if I.decide(eq(M, ZERO)) is True:
            st = [e for e in S.events if e.k == 'store' and e.base not in S.fresh]
            self.ob(D5, not st, cl, st[0] if st else None, o, 'nothing is listed, nothing is changed' if not st else 'writes to the collection although nothing is listed')
            return
        di, dd = K.data(I, 'bdd_instructions'), K.data(I, 'bdd_delimiters')
        for x, b, h in (('instructions', di, self.HI), ('delimiters', dd, self.HD)):
            ok = I.norm(b) is h
            self.ob(D5, ok, cl, None, o, 'the %s are %s' % (x, 'replaced' if ok else 'not replaced'))
        outer = [e for e in S.events if e.k == 'loop' and str(e.key) in self.moved]
        if not outer:
            self.ob(D2, False, False, None, o, 'no loop over the diagrams')
            return
        e = outer[-1]
        jb = self.moved[str(e.key)]
        if len(jb) != 1:
            return
        j = add(next(iter(jb)), ZERO if e.first else e.K)
        ok = equal(I, j, S.user['n0']) is True
        d = I.norm(sub(S.user['n0'], j))
        self.ob(D2, ok, cl and self.known(d), None, o, 'all diagrams are passed' if ok else 'the loop ends %s diagrams before the end' % show(d, 4))
        first = next(iter(jb))
        ok = first is I.norm(S.user['r0']) or first is ZERO
        self.ob(D2, ok, cl and self.known(first), None, o, 'the loop begins with diagram ' + show(first, 4))
        for x, h, n in (('bdd_instructions', self.HI, K.size), ('bdd_delimiters', self.HD, 8)):
            ln = I.norm(K.length(I, x))
            ph = [a for a in subterms(ln) if a.op == 'phi' and e.info['sig'] in a.args]
            ok = len(ph) == 1 and ln is ph[0]
            self.ob(D5, ok, cl and not ok and len(ph) == 1 and is_const(sub(ln, ph[0])), None, o, 'the new number of %s is %s' % (x, 'what has been copied' if ok else show(ln, 4)))
