"""Evaluation of diagrams under an assignment."""
from .terms import *
from .interp import *
from .nodes import *
from .lemmas_ops import nodesym, locof, facts, clean, check_common, mkinterp
from .lemmas_coll import COL, C, Coll, interp, explore, wf, MAX, BOTI, truth

E1 = 'evaluation follows the arc that the assignment selects'
E2 = 'evaluation starts at the root and ends at a constant'
E3 = 'evaluation changes nothing'
E4 = 'evaluation through a handle is that of its node'
props = ('C11',)
B = sym('ASSIGN', ptr=True, nonnull=True, cls='ARR')
cnt = sym('cnt', small=True)
END = add(B, cnt)


class OnNode:
    def idx(self, I, s):
        return I.norm(index_of(s))

    def arc(self, I, s, p):
        return I.norm((lo_of if p == 'lo' else hi_of)(s))

    def kinds(self, I, s):
        """kinds the node may have"""
        k = I.kind(s)
        if k:
            return {k}
        r = {'bot', 'top', 'inner'}
        for n, x in (('bot', BOT), ('top', TOP)):
            d = I.decide(eq(s, x))
            if d is False:
                r -= {n}
            elif d is True:
                r = {n}
        return r

    def eqkind(self, I, s, k):
        return eq(s, BOT if k == 'bot' else TOP)


class OnInstr:
    def __init__(self, P, K, end=None):
        self.K = K
        self.end = end

    def eqkind(self, I, s, k):
        return eq(self.idx(I, s), BOTI if k == 'bot' else MAX)

    def idx(self, I, s):
        return self.K.word(I, self.K.data(I, 'bdd_instructions'), s, 'index')

    def arc(self, I, s, p):
        return self.K.word(I, self.K.data(I, 'bdd_instructions'), s, p)

    def kinds(self, I, s):
        ix, l, h = self.idx(I, s), self.arc(I, s, 'lo'), self.arc(I, s, 'hi')
        t = I.decide(eq(ix, MAX))
        b = I.decide(eq(ix, BOTI))
        same = I.decide(eq(l, h))
        r = {'bot', 'top', 'inner'}
        if self.end is not None:        # the two constants come last
            far = I.decide(ult(addc(s, 2), self.end(I)))
            if far is None:
                m = I.decide(ult(s, addc(self.end(I), -2)))
                far = m
            if far is True:
                r = {'inner'}
            elif far is False:
                r -= {'inner'}
        if t is True:
            r &= {'top'}
        elif t is False:
            r -= {'top'}
        if b is True:
            r &= {'bot'}
        elif b is False:
            r -= {'bot'}
        if same is True:
            r -= {'inner'}
        elif same is False:
            r &= {'inner'}
        return r


def under(I, D, s, k, v):
    """value of the condition if the node is of the given kind"""
    S = I.S
    I.S = S.copy()
    try:
        I.assume(D.eqkind(I, s, k))
        return I.decide(v)
    except Infeasible:
        return k == 'top'
    finally:
        I.S = S


def loop_subject(I, outs, start, D):
    # loop registers that start at the root stand for the current node
    regs = set()
    for o in outs:
        for e in o.S.events:
            if e.k == 'backedge' and e.mode == 'first':
                I.S = o.S
                regs |= {(e.key, r) for r, v in e.at.items() if hasattr(v, 'op') and I.norm(v) is I.norm(start(I))}
    subj = {}
    for o in outs:
        for e in o.S.events:
            if e.k == 'backedge' and e.mode != 'first':
                for r, v in e.at.items():
                    if (e.key, r) in regs and r not in subj:
                        subj[r] = v
    # a loop whose test comes last is entered and repeated only at nodes that are no constants (by induction)
    inner = set(regs)
    for o in outs:
        I.S = o.S
        for e in o.S.events:
            if e.k == 'backedge':
                for kr in list(inner):
                    if kr[0] != e.key:
                        continue
                    at = e.at.get(kr[1])
                    if e.mode == 'first':
                        vs = [at, e.phi.get(kr[1])]
                    elif at is not None and 'inner' not in D.kinds(I, I.norm(at)):
                        continue
                    else:
                        vs = [e.phi.get(kr[1])]
                    if any(v is None or D.kinds(I, I.norm(v)) != {'inner'} for v in vs):
                        inner.discard(kr)
    return regs, subj, inner


def descent(P, R, n, name, args, start, D, setup=None):
    def rec(I, a, nm):
        t = I.newsym('val')
        I.event('rec', args=[I.norm(x) for x in a], val=t)
        return t
    I = interp(P, [([n], rec)])
    outs, root = explore(I, P, n, args, setup)
    R.absorb(I, outs)
    w0 = (root.file, root.line, root.dem)
    if not outs:
        R.ob(props, E1, None, w0, name + ': too many paths')
        return
    I.S = outs[0].S
    regs, subj, inner = loop_subject(I, outs, start, D)

    def bitof(I, s):
        S0 = I.S
        I.S = S0.copy()
        try:
            return I.decide(eq(I.norm(I.load(add(B, D.idx(I, s)), 1, 'i8')), ZERO))
        finally:
            I.S = S0

    def walk(I, s, inn, stop):
        """the node reached from s by the steps the path decides, and whether constants were passed"""
        for _ in range(6):
            ks = {'inner'} if inn else D.kinds(I, s)
            if ks != {'inner'}:
                return s, ks
            z = bitof(I, s)
            if z is None:
                return s, ks
            t = D.arc(I, s, 'lo' if z else 'hi')
            if stop is not None and t is stop:
                return s, ks
            s, inn = t, False
        return s, ({'inner'} if inn else D.kinds(I, s))
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, name)
        w = locof(None, o, root)
        cl = clean(o)
        if o.kind not in ('ret', 'backedge'):
            if o.kind not in ('throw', 'assert'):
                R.ob(props, E1, None, w, '%s: path ends with %s' % (name, o.kind))
            continue
        loops = [e for e in o.S.events if e.k == 'loop']
        gen = any(not e.first for e in loops)
        if gen and len(subj) != 1:
            R.ob(props, E1, None, w, name + ': no register of the loop stands for the current node')
            continue
        s = I.norm(list(subj.values())[0]) if gen else I.norm(start(I))
        inn = gen and bool(inner) and len(regs) == 1
        if inn and 'inner' not in D.kinds(I, s):
            continue        # excluded by the induction
        ws = [e for e in o.S.events if e.k == 'store' and e.base not in o.S.fresh]
        R.ob(props, E3, True if not ws else (False if cl else None), w, '%s: %s' % (name, 'nothing is written' if not ws else 'writes to %s' % show(add(ws[0].base, ws[0].off), 4)))
        nxt = None
        recs = [e for e in o.S.events if e.k == 'rec']
        if recs:
            e = recs[0]
            okr = len(recs) == 1 and o.kind == 'ret' and I.norm(o.value) is I.norm(e.val)
            R.ob(props, E1, True if okr else (False if cl else None), locof(e, o, root), '%s: the value of the successor is %s' % (name, 'returned' if okr else 'not returned'))
            same = [x for x in e.args[1:] if x is not I.norm(s)] == [I.norm(B), I.norm(END)] or e.args[1:] == [I.norm(B), I.norm(END)]
            R.ob(props, E1, True if same else (False if cl else None), locof(e, o, root), '%s: %s assignment' % (name, 'the same' if same else 'another'))
            nxt, ev = e.args[0], e
        elif o.kind == 'backedge':
            ev = next((e for e in reversed(o.S.events) if e.k == 'backedge'), None)
            rs = [r for (k2, r) in regs if ev and k2 == ev.key]
            if ev is None or len(rs) != 1:
                R.ob(props, E1, None, w, name + ': the loop does not step along the path')
                continue
            nxt = I.norm(ev.phi[rs[0]])
        s, ks = walk(I, s, inn, nxt)
        if nxt is not None:
            if 'inner' in ks:
                z = bitof(I, s)
                l, h = D.arc(I, s, 'lo'), D.arc(I, s, 'hi')
                if z is None:
                    ok = None
                    if cl and nxt in (l, h):
                        ok = False
                    msg = 'the successor does not depend on the value assigned to the variable'
                else:
                    ok = nxt is (l if z else h)
                    msg = 'proceeds to the %s successor' % ('low' if z else 'high') if ok else 'proceeds to %s where the variable is %s' % (show(nxt, 4), 'false' if z else 'true')
                R.ob(props, E1, True if ok else (False if cl and ok is False else None), locof(ev, o, root), '%s: %s' % (name, msg), None if ok else facts(I, o))
            bad = ks - {'inner'}
            R.ob(props, E2, True if not bad else (False if cl else None), locof(ev, o, root), '%s: %s' % (name, 'constants have no successors' if not bad else 'a constant (%s) is evaluated by the assignment' % sorted(bad)[0]), None if not bad else facts(I, o))
            continue
        v = truth(I.norm(o.value))
        for k in sorted(ks):
            if k == 'inner':
                R.ob(props, E2, False if cl else None, w, '%s: a value is returned at a node that is no constant' % name, facts(I, o))
            else:
                d = under(I, D, s, k, v)
                ok = d is (k == 'top')
                if d is None and getattr(D, 'end', None) is not None:
                    # stored diagrams have their constants in either order
                    S0 = I.S
                    I.S = S0.copy()
                    try:
                        I.assume(eq(s, addc(D.end(I), -1)))
                        x = I.decide(v)
                    except Infeasible:
                        x = None
                    I.S = S0
                    if x is not None and x is not (k == 'top'):
                        d = x
                R.ob(props, E2, True if ok else (False if cl and d is not None else None), w, '%s: %s evaluates to %s' % (name, {'top': 'the true constant', 'bot': 'the false constant'}[k], d))


def lemma_evaluate(P, R):
    K = Coll(P)
    ns = P.find(r'bool BDD::node_struct::evaluate<')
    cs = P.find(r'bool BDD::bdd_collection::evaluate<')
    if not ns or not cs:
        R.ob(props, E1, None, None, 'evaluation not found')
    p = nodesym('n')
    for n in ns:
        descent(P, R, n, 'node_struct::evaluate', [p, B, END], lambda I: p, OnNode())
    nr = sym('nr', small=True)
    for n in cs:
        def setup(I):
            wf(I, K)
            I.add_lin(addc(sub(K.length(I, 'bdd_delimiters'), nr), -2))
            I.S.written.clear()
        descent(P, R, n, 'bdd_collection::evaluate', [C, nr, B, END],
                lambda I: I.norm(I.load(add(K.data(I, 'bdd_delimiters'), scale(nr, 8)), 8, 'i64')), OnInstr(P, K, lambda I: I.norm(I.load(add(K.data(I, 'bdd_delimiters'), addc(scale(nr, 8), 8)), 8, 'i64'))), setup)
    h = sym('HANDLE', ptr=True, nonnull=True, cls=None)
    for n in P.find(r'bool BDD::node_ref::evaluate<'):
        def ev(I, a, nm):
            t = I.newsym('val')
            I.event('rec', args=[I.norm(x) for x in a], val=t)
            return t
        I = interp(P, [(ns, ev)])

        def setup(I):
            I.S.mem.setdefault(h, {})[ZERO] = (8, p)
        outs, root = explore(I, P, n, [h, B, END], setup)
        R.absorb(I, outs)
        for o in outs:
            I.S = o.S
            cl = clean(o)
            e = [x for x in o.S.events if x.k == 'rec']
            ok = o.kind == 'ret' and len(e) == 1 and e[0].args == [I.norm(p), I.norm(B), I.norm(END)] and I.norm(o.value) is I.norm(e[0].val)
            R.ob(props, E4, True if ok else (False if cl and o.kind == 'ret' and len(e) == 1 else None), locof(None, o, root), 'node_ref::evaluate: %s' % ('forwards' if ok else 'another node, assignment or value'))
