"""Stored diagrams and diagrams of a manager: export and import.

A stored diagram nr is the range [b, e) of instructions, b and e its delimiters: inner instructions first, each before its successors, the
two different constants at e-2 and e-1.  This form is what all functions that append a diagram are checked to produce; the lemmas here
assume it for the diagram they read."""
from .terms import *
from .interp import *
from .nodes import *
from .contracts import ret_ref, mknode
from .models import vec_init, vget, rule
from .maps import HMap
from .lemmas_ops import setup_mgr, mkinterp, slot, refarg, moved, nodesym, locof, facts, clean, rc_balance, sure, summarised, check_common
from .lemmas_coll import Coll, COL, INS, C, MAX, BOTI, wf, other_writes, pushed

E1 = 'every instruction is rebuilt from the images of its label and of its successors'
E2 = 'all instructions are rebuilt, successors first'
E3 = 'the result is the image of the first instruction'
E4 = 'reading a stored diagram does not change the collection'
E5 = 'temporary handles are balanced'
E6 = 'the label of a node that is created is a variable of the manager'

NR = sym('nr', small=True)


class Stored:
    """the stored diagram with number nr"""

    def __init__(self, I, K, nr=NR):
        self.I, self.K, self.nr = I, K, nr
        self.data = I.norm(K.data(I, 'bdd_instructions'))
        dd = K.data(I, 'bdd_delimiters')
        self.b = setmeta(I.norm(I.load(add(dd, scale(nr, 8)), 8, 'i64')), small=True)
        self.e = setmeta(I.norm(I.load(add(dd, scale(addc(nr, 1), 8)), 8, 'i64')), small=True)

    def wf(self):
        """conditions on the number of instructions that can be stated as inequalities"""
        I, K = self.I, self.K
        I.add_lin(addc(sub(K.length(I, 'bdd_delimiters'), self.nr), -2))
        I.add_lin(addc(sub(self.e, self.b), -2))
        I.add_lin(sub(K.length(I, 'bdd_instructions'), self.e))

    def split(self, t):
        """position and part of a word of an instruction"""
        if t.op != 'fld' or t.args[0] not in ('lo', 'hi', 'index') or len(t.args) > 2:
            return None
        d = sub(t.args[1], self.data)
        if any(a is self.data for a, _ in lin(d)[1]):
            return None
        q = udiv(d, const(self.K.size))
        return self.I.norm(q), t.args[0]

    def isarc(self, t):
        s = self.split(t)
        return s is not None and s[1] in ('lo', 'hi')

    def below(self, a, b):
        """is one of the positions a successor of the other one?"""
        for x, y in ((a, b), (b, a)):
            s = self.split(x)
            if s is not None and s[1] != 'index' and s[0] is self.I.norm(y):
                return True
        return False

    def word(self, q, part):
        return self.K.word(self.I, self.data, q, part)

    def region(self, q):
        """'inner', 'const' or None for a position inside of the diagram"""
        I = self.I
        q = I.norm(q)
        d = sub(self.e, q)
        if is_const(d):
            return 'const' if cval(d) in (1, 2) else 'inner'
        if I.prove_ge0(addc(d, -3)):
            return 'inner'
        if I.decide(ult(q, addc(self.e, -2))) is True:
            return 'inner'
        return None

    def kind(self, q):
        """what the facts say about the label of q"""
        I = self.I
        ix = I.norm(self.word(q, 'index'))
        if I.decide(eq(ix, BOTI)) is True:
            return 'bot'
        if I.decide(eq(ix, MAX)) is True:
            return 'top'
        d = I.decide(eq(I.norm(self.word(q, 'lo')), I.norm(self.word(q, 'hi'))))
        if I.decide(eq(ix, BOTI)) is False and I.decide(eq(ix, MAX)) is False or d is False:
            return 'inner'
        if d is True:
            if I.decide(eq(ix, BOTI)) is False:
                return 'top'
            return 'bot' if I.decide(eq(ix, MAX)) is False else 'const'
        return None

    def position(self, off):
        """position of the instruction with a member at the given offset"""
        c, l = lin(off)
        n = self.K.size
        if any(k % n for _, k in l):
            return None
        return linear(c // n, [(a, k // n) for a, k in l])

    def labels(self):
        """positions of which a word has been read"""
        out = []
        for off in list(self.I.S.mem.get(self.data, {})):
            q = self.position(self.I.norm(off))
            if q is not None and q not in out:
                out.append(q)
        return out

    def infeasible(self):
        """does the path contradict the form of stored diagrams?"""
        I = self.I
        con = {}
        for q in self.labels():
            r = self.region(q)
            k = self.kind(q)
            if r == 'inner' and k in ('bot', 'top', 'const'):
                return True
            if r == 'const' and k == 'inner':
                return True
            if r == 'const' and k in ('bot', 'top'):
                con[q] = k
            if self.isarc(q):
                p = self.split(q)[0]
                if k == 'inner' and is_const(sub(self.e, p)) and cval(sub(self.e, p)) <= 3:
                    return True
        if len(con) == 2 and len(set(con.values())) == 1:
            return True
        b = self.kind(self.b)
        n = sub(self.e, self.b)
        if b == 'inner' and I.decide(eq(n, const(2))) is True:
            return True
        if b in ('bot', 'top', 'const') and I.decide(ult(const(2), n)) is True:
            return True
        return False


def equal(I, a, b):
    a, b = I.norm(a), I.norm(b)
    if a is b:
        return True
    r = I.decide(eq(a, b))
    if r is None and I.prove_ge0(sub(a, b)) and I.prove_ge0(sub(b, a)):
        return True
    return r


def linear(c, l):
    r = const(c)
    for a, k in l:
        r = add(r, scale(a, k))
    return r


def imgs(I, D, q):
    """node that stands for the instruction at position q"""
    q = I.norm(q)
    k = D.kind(q)
    if k == 'bot':
        return BOT
    if k == 'top':
        return TOP
    return setmeta(mk('imgs', q), ptr=True, nonnull=True, cls=NODE)


def lemma_export(P, R):
    K = Coll(P)
    fs = P.find(COL + r'::export_bdd\([^()]*\)( const)?$') + P.find(r'BDD::bdd_mgr::add_bdd\([^()]*\)$')
    if len(fs) < 2 or not K.ok:
        R.ob(('C13',), E1, None, None, 'export of stored diagrams not found')
        return
    for n in fs:
        export(P, R, K, n)


def export(P, R, K, n):
    from .lemmas_rebase import c_add_variable
    root = P.func(n)
    own = COL + '::export_bdd' in root.dem
    name = 'bdd_collection::export_bdd' if own else 'bdd_mgr::add_bdd'
    props = ('C13',)
    I = mkinterp(P)

    def policy(I, M, m, key):
        if len(key) != 1:
            return None
        D = I.S.user['D']
        t = key[0]
        if t is D.b or D.isarc(t):
            ix = I.norm(D.word(t, 'index'))
            k = D.kind(t)
            if k in ('bot', 'top') or k != 'inner' and (I.branch(eq(ix, BOTI)) or I.branch(eq(I.norm(ix), MAX))):
                if D.region(t) == 'inner':
                    raise Infeasible()
                I.event('constant_looked_up', pos=t)
            return True, imgs(I, D, t)
        return False
    for f in P.find(r'BDD::bdd_mgr::add_variable\(\)$'):
        I.contracts[f] = c_add_variable
    I.mappolicy = policy
    I.mapdistinct = lambda I, M, a, b: len(a) == 1 and len(b) == 1 and I.S.user['D'].below(a[0], b[0])

    def start(I):
        setup_mgr(I)
        wf(I, K)
        D = Stored(I, K)
        I.S.user['D'] = D
        D.wf()
        I.S.facts.clear()
        I.S.events.clear()
        I.S.mem.get(D.data, {}).clear()
        s = slot(I, 'ret')
        I.run(root, [s, C, MGR, NR] if own else [s, MGR, C, NR])
        return I.load(s, 8, 'ptr')
    try:
        outs = I.explore(start, 2000)
    except Budget:
        outs = []
    R.absorb(I, outs)
    w0 = (root.file, root.line, root.dem)
    if not outs:
        R.ob(props, E1, None, w0, name + ': too many paths')
    needconst = None
    startpos = []
    inserted = []

    def iterins(o):
        """the loop that is repeated at the end of a path, and the images entered by its last iteration"""
        be = o.S.events[-1]
        loop = next((e for e in reversed(o.S.events) if e.k == 'loop' and e.key == be.key), None)
        if loop is None:
            return be, None, []
        i = o.S.events.index(loop)
        return be, loop, [e for e in o.S.events[i + 1:] if e.k == 'map_insert' and not e.present]
    entering = {iterins(o)[0].key for o in outs if o.kind == 'backedge' and o.S.events[-1].k == 'backedge' and iterins(o)[2]}
    # loops in which variables are created
    creating = {}
    for o in outs:
        at = None
        for e in o.S.events:
            if e.k == 'loop':
                at = e.key
            elif creates(e):
                creating.setdefault(at, set()).add(e.k)
    for o in outs:
        I.S = o.S
        D = o.S.user['D']
        S = o.S
        if D.infeasible():
            continue
        w = locof(None, o, root)
        cl = clean(o)
        check_common(I, R, o, root, name, ('C13', 'C08'))
        if not own:     # export_bdd asserts that the manager has the variables, add_bdd creates them
            variables_exist(I, R, o, root, name, cl, creating)
        if o.kind == 'unsupported':
            R.ob(props, E1, None, w, name + ': ' + str(o.info))
            continue
        if o.kind not in ('ret', 'backedge'):
            continue
        for e in S.events:
            if e.k == 'constant_looked_up' and needconst is None:
                needconst = (locof(e, o, root), cl)
        bad = writes_to(I, K, o)
        for e in bad:
            R.ob(props, E4, False if cl else None, locof(e, o, root), '%s: writes to %s' % (name, show(add(e.base, e.off), 4)))
        for e in S.events:
            if e.k == 'map_erase' and e.present:
                R.ob(props, E1, False if cl else None, locof(e, o, root), '%s: the image of position %s is removed again, an instruction further up may lead there' % (name, show(e.key[0], 4)))
        ins = [e for e in S.events if e.k == 'map_insert']
        le = [e for e in S.events if e.k == 'loop']
        if o.kind == 'backedge':
            be, loop, ins = iterins(o)
            if loop is None:
                R.ob(props, E2, None, w, '%s: loop not found' % name)
                continue
            if entering and be.key not in entering:     # another loop, that creates variables for instance
                continue
            k = ZERO if be.mode == 'first' else I.norm(loop.K)
            if len(ins) != 1:
                R.ob(props, E1, None if ins or not cl else False, w, '%s: the iteration enters %d images' % (name, len(ins)), facts(I, o))
                continue
            q = I.norm(ins[0].key[0])
            s = I.norm(add(q, k))
            startpos.append((s, locof(ins[0], o, root), cl))
            image(I, R, props, D, o, root, name, cl, q, ins[0])
            continue
        for e in ins:
            if not e.present and not any(S.events.index(x) < S.events.index(e) for x in le):
                inserted.append(I.norm(e.key[0]))
                image(I, R, props, D, o, root, name, cl, I.norm(e.key[0]), e)
        v = I.norm(o.value)
        want = imgs(I, D, D.b)
        loop = le[-1] if le else None
        if D.kind(D.b) not in ('bot', 'top') or loop is not None:
            if loop is not None and not loop.first:
                last = [e for e in ins if not e.present and S.events.index(e) > S.events.index(loop)]
                p = I.norm(addc(sub(startpos[0][0], I.norm(loop.K)), 1)) if startpos else None
                # position that has been entered last
                lastpos = I.norm(last[-1].key[0]) if last else p
                ok = p is not None and equal(I, lastpos, D.b) is True
                r = 'all positions are passed' if ok else 'the loop ends at position %s of a diagram that begins at %s' % (show(lastpos, 4) if p is not None else '?', show(D.b, 4))
                R.ob(props, E2, True if ok else (False if cl and p is not None and ends_early(I, p, D) else None), w, '%s: %s' % (name, r), None if ok else facts(I, o))
            elif D.kind(D.b) == 'inner':
                ok = any(q is I.norm(D.b) or I.decide(eq(q, D.b)) is True for q in [I.norm(e.key[0]) for e in ins if not e.present])
                R.ob(props, E2, True if ok else None, w, '%s: a diagram of a single inner instruction' % name)
        ok = v is want
        R.ob(props, E3, True if ok else (False if cl and v.op in ('imgs', 'sym', 'mk', 'fld', 'opres') else None), w, '%s: returns %s' % (name, show(v, 4)), None if ok else ['expected ' + show(want, 5)] + facts(I, o))
        bad = rc_balance(I, o, [], [v])
        R.ob(('C05',), E5, True if not bad else (False if cl and sure(bad) else None), w, '%s: %s' % (name, 'balanced' if not bad else 'counter of %s changes by %s, references by %s' % tuple(show(x, 4) for x in bad[0][:3])))
    # the loop begins at the last inner instruction or at the last instruction
    D = outs[0].S.user['D'] if outs else None
    for s, w, cl in startpos:
        d = sub(D.e, s)
        ok = is_const(d) and cval(d) in (1, 2, 3) and s is startpos[0][0]
        R.ob(props, E2, True if ok else (False if cl and is_const(d) else None), w, '%s: iteration k rebuilds position %s - k' % (name, show(s, 4)))
    if needconst:
        ok = any(is_const(sub(D.e, s)) and cval(sub(D.e, s)) == 1 for s, _, _ in startpos) or {1, 2} <= {cval(sub(D.e, q)) for q in inserted if is_const(sub(D.e, q))}
        R.ob(props, E2, True if ok else (False if needconst[1] and startpos else None), needconst[0], '%s: constants are %s' % (name, 'entered before they are looked up' if ok else 'looked up but not entered'))
    R.ob(props, E4, True, w0, name + ': writes of all paths are looked at')


def creates(e):
    return e.k == 'add_variable' or e.k == 'projection' and not e.neg


def variables_exist(I, R, o, root, name, cl, creating):
    """nodes are created for variables of the manager only"""
    from .lemmas_rebase import nvars
    S = o.S
    at, here, top, n = None, False, [], 0
    later = sum(1 for e in S.events if e.k == 'add_variable')
    for e in S.events:
        if e.k == 'loop':
            at, here = e.key, False
        elif creates(e):
            here = True
            if e.k == 'add_variable':
                n += 1
            else:
                top.append(I.norm(e.i))
        elif e.k == 'mk' and (e.var is None or getattr(e, 'own', None) is None) or e.k == 'projection' and e.neg:
            i = I.norm(e.i)
            nv = addc(nvars(I), n - later)
            ok = any(t is i or I.prove_ge0(sub(t, i)) for t in top) or I.prove_ge0(addc(sub(nv, i), -1))
            # variables that are created in earlier iterations or in other loops are not seen on this path
            unseen = any(k is not None and (k != at or not here) for k in creating) or summarised(nv) or any(summarised(t) or t.op != i.op for t in top)
            R.ob(('C13', 'C12', 'C08'), E6, True if ok else (False if cl and not unseen and not is_const(i) else None), locof(e, o, root),
                 '%s: variable %s %s' % (name, show(i, 4), 'exists' if ok else 'need not exist among %s, greatest one created: %s' % (show(nv, 4), ', '.join(show(t, 4) for t in top) or 'none')), None if ok else facts(I, o))


def ends_early(I, p, D):
    """is the first position that has not been passed surely another one?"""
    return I.decide(eq(I.norm(p), D.b)) is False or is_const(sub(p, D.b)) and p is not D.b


def image(I, R, props, D, o, root, name, cl, q, e):
    got = I.norm(I.load(addc(e.entry, 16), 8, 'ptr'))
    k = D.kind(q)
    if k in ('bot', 'top'):
        want = [BOT if k == 'bot' else TOP]
    else:
        i, lo, hi = (I.norm(D.word(q, x)) for x in ('index', 'lo', 'hi'))
        a, b = imgs(I, D, lo), imgs(I, D, hi)
        want = [I.norm(mknode(I, i, a, b))]
        want.append(mk('opres', 'ite', I.norm(mknode(I, i, BOT, TOP)), b, a))
    ok = got in want
    known = all(x.op not in ('phi', 'iter', 'mval') for x in subterms(got) if isinstance(x, T) and x.op != 'iter')
    R.ob(props, E1, True if ok else (False if cl and known and got.op in ('mk', 'imgs', 'sym', 'fld', 'opres') else None), locof(e, o, root), '%s: image of position %s is %s' % (name, show(q, 3), 'rebuilt' if ok else show(got, 6)), None if ok else ['expected ' + show(want[0], 6)] + facts(I, o))


def writes_to(I, K, o):
    """writes to the collection or its arrays"""
    bad = []
    arrays = {I.norm(mk('vdata', K.a(x))) for x in ('bdd_instructions', 'bdd_delimiters', 'stack')}
    for e in o.S.events:
        if e.k == 'store' and e.base not in o.S.fresh:
            b = I.norm(e.base)
            if b in arrays or b is C:
                bad.append(e)
        if e.k == 'push' and I.norm(e.v) in {I.norm(K.a(x)) for x in K.f if not x.startswith('i.')}:
            bad.append(e)
    return bad


# ------------------------------------------------------------------ storing a diagram of a manager
G1 = 'every node is appended with its label'
G2 = 'the root comes first, every node before its successors'
G3 = 'arcs lead to the positions of the successors'
G4 = 'both constants come last'
G5 = 'the appended diagram is delimited and its number is returned'
def below_end(I, K, x, len0):
    """does the write x hit one of the first len0 instructions? (a position counted from the end is only taken for one that is known to lie before it)"""
    d = sub(I.norm(x.off), scale(len0, K.size))
    return any(k < 0 and t.op not in ('iter', 'phi') for t, k in lin(d)[1]) or I.prove_ge0(addc(scale(d, -1), -1))


G6 = 'stored diagrams are not changed'
G7 = 'scratch memory is empty afterwards'

ROOT = nodesym('p')


def c_postorder(I, a, nm):
    from .lemmas_rebase import POST, NP
    vec_init(I, a[0], 'BDD::node_ref', begin=POST, n=NP)
    I.event('postorder', node=I.norm(I.load(a[1], 8, 'ptr')))


def sto(I, x):
    return setmeta(mk('sto', I.norm(x)), small=True)


def lemma_import(P, R):
    K = Coll(P)
    fs = P.find(COL + r'::add_bdd\([^()]*\)$')
    if len(fs) != 1 or not K.ok:
        R.ob(('C13',), G1, None, None, 'storing of diagrams not found')
        return
    from .lemmas_rebase import POST, NP, in_list, arc_of_list, cells_read
    root = P.func(fs[0])
    name = 'bdd_collection::add_bdd'
    props = ('C13',)
    I = mkinterp(P)
    for f in P.find(r'BDD::node_ref::nodes_postorder\(\)$'):
        I.contracts[f] = c_postorder
    HASH = K.a('node_ref_hash')

    def policy(I, M, m, key):
        if M is not I.norm(HASH):
            return None
        t = key[0]
        if arc_of_list(t):
            if I.branch(eq(t, BOT)) or I.branch(eq(t, TOP)):
                t = I.norm(t)
            else:
                return True, sto(I, t)
        if t is BOT or t is TOP:
            ins = [e for e in I.S.events if e.k == 'map_insert' and I.norm(e.key[0]) is t and not e.present]
            return (True, I.norm(ins[-1].val[0])) if ins else False
        if t is I.norm(ROOT):
            return True, sto(I, t)
        if in_list(t):
            n = K.length(I, 'bdd_instructions')
            if I.prove_ge0(addc(sub(sub(n, I.S.user['len0']), NP), -1)):
                return True, sto(I, t)
            return False
        # an element that is not understood: nothing is concluded
        I.taint('map key')
        return None
    I.mappolicy = policy

    def start(I):
        setup_mgr(I)
        wf(I, K)
        I.S.maps[HASH] = HMap(0, True)
        I.S.user['len0'] = K.length(I, 'bdd_instructions')
        I.S.user['nd0'] = K.length(I, 'bdd_delimiters')
        if I.branch(eq(ROOT, BOT)) or I.branch(eq(I.norm(ROOT), TOP)):
            I.assume(eq(NP, ZERO))
        else:
            I.add_lin(addc(NP, -1))
        I.S.facts.clear()
        I.S.events.clear()
        return I.run(root, [C, refarg(I, 'p', ROOT)])
    try:
        outs = I.explore(start, 3000)
    except Budget:
        outs = []
    R.absorb(I, outs)
    w0 = (root.file, root.line, root.dem)
    if not outs:
        R.ob(props, G1, None, w0, name + ': too many paths')
    consts = {}        # labels of the two last instructions, as the second loop and the end see them
    for o in outs:
        I.S = o.S
        S = o.S
        if contradicts(I, o, NP, POST):
            continue
        w = locof(None, o, root)
        # elements of copied lists are not known
        cl = clean(o) and not any(x.op == 'rcell' for f in S.facts for x in subterms(f))
        check_common(I, R, o, root, name, ('C13', 'C08'))
        if o.kind == 'unsupported':
            R.ob(props, G1, None, w, name + ': ' + str(o.info))
            continue
        if o.kind not in ('ret', 'backedge'):
            continue
        len0, nd0 = I.norm(S.user['len0']), I.norm(S.user['nd0'])
        data = K.data(I, 'bdd_instructions')
        post = [e for e in S.events if e.k == 'postorder']
        ok = len(post) == 1 and I.norm(post[0].node) is I.norm(ROOT)
        R.ob(props, G1, True if ok else (False if cl and post and I.norm(post[0].node) is not I.norm(ROOT) else None), w, '%s: list of the nodes of %s' % (name, show(post[0].node, 3) if post else 'nothing'))
        bad = other_writes(I, K, o, len0, nd0)
        for x in bad:
            R.ob(props, G6, False if cl and x.base.op == 'vdata' and below_end(I, K, x, len0) else None, locof(x, o, root), '%s: writes to %s' % (name, show(add(x.base, x.off), 4)))
        if not bad:
            R.ob(props, G6, True, w, name + ': existing diagrams are not written to')
        if o.kind == 'backedge':
            be = S.events[-1]
            loop = next((e for e in reversed(S.events) if e.k == 'loop' and e.key == be.key), None)
            if loop is None:
                continue
            i0 = next(i for i, e in enumerate(S.events) if e is loop)
            k = ZERO if be.mode == 'first' else I.norm(loop.K)
            ps = [e for e in S.events[i0:] if e.k == 'push' and I.norm(e.v) is I.norm(K.a('bdd_instructions'))]
            ins = [e for e in S.events[i0:] if e.k == 'map_insert' and e.m is I.norm(HASH) and not e.present]
            if ps or ins:
                offs = [x for x in cells_read(I, POST)]
                if len(ps) != 1 or len(ins) != 1:
                    R.ob(props, G1, None if not cl or ps and len(ps) > 1 else False, w, '%s: an iteration appends %d instructions and records %d positions' % (name, len(ps), len(ins)), facts(I, o))
                    continue
                pos = I.norm(udiv(sub(I.norm(ps[0].at), data), const(K.size)))
                cur = I.norm(ins[0].key[0])
                ix = I.norm(K.word(I, data, pos, 'index'))
                want = elem(I, addc(sub(sub(NP, ONE), sub(pos, len0)), 0))
                ok = cur is want
                R.ob(props, G2, True if ok else (False if cl and in_list(cur) else None), locof(ins[0], o, root), '%s: element %s of the list is stored at %s + %s' % (name, show(udiv(lin_of(cur, POST), const(8)), 4) if in_list(cur) else show(cur, 3), show(len0, 3), show(sub(pos, len0), 4)))
                ok = I.norm(ins[0].val[0]) is pos
                R.ob(props, G3, True if ok else (False if cl else None), locof(ins[0], o, root), '%s: recorded position is %s' % (name, 'that of the instruction' if ok else show(ins[0].val[0], 4)), None if ok else ['appended at ' + show(pos, 5)])
                ok = ix is I.norm(index_of(cur))
                R.ob(props, G1, True if ok else (False if cl and (ix.op in ('fld', 'lin') or is_const(ix)) and not any(x.op in ('phi', 'mval') for x in subterms(ix)) else None), locof(ps[0], o, root), '%s: label is %s' % (name, 'that of the node' if ok else show(ix, 4)))
                ok = equal(I, pos, add(len0, k))
                R.ob(props, G1, True if ok else (False if ok is False and cl else None), locof(ps[0], o, root), '%s: iteration %s appends instruction %s' % (name, show(k, 3), show(sub(pos, len0), 4)))
                continue
            # arcs
            st = [e for e in S.events[i0:] if e.k == 'store' and I.norm(e.base) is data]
            if not st:
                continue
            q = add(len0, k)
            cur = elem(I, sub(sub(NP, ONE), k))
            cpos = constants(I, K, data, len0, NP)
            for e in st:
                d = I.norm(sub(I.norm(e.off), scale(q, K.size)))
                ok = is_const(d) and cval(d) in (K.f['i.lo'], K.f['i.hi'])
                R.ob(props, G3, True if ok else None, locof(e, o, root), '%s: iteration %s writes to %s' % (name, show(k, 3), 'its own arcs' if ok else 'offset %s' % show(d, 3)))
            consts.setdefault('loop', set()).add(cpos)
            for part, arc in (('lo', lo_of(cur)), ('hi', hi_of(cur))):
                got = I.norm(K.word(I, data, q, part))
                a = I.norm(arc)
                written = any(I.norm(e.off) is I.norm(addc(scale(q, K.size), K.f['i.' + part])) for e in st)
                if a in (BOT, TOP):
                    want = [add(add(len0, NP), const(j)) for j in range(2) if cpos and cpos[j] == ('bot' if a is BOT else 'top')]
                else:
                    want = [sto(I, a)]
                ok = any(equal(I, got, x) is True for x in want)
                bad = cl and want and (got.op in ('sto', 'fld', 'lin') or is_const(got)) and not any(x.op in ('phi', 'mval') for x in subterms(got))
                R.ob(props, G3, True if ok else (False if bad else None), w, '%s: %s arc of instruction %s is %s' % (name, part, show(k, 3), 'set' if ok else show(got, 4) if written else 'not set'), None if ok else ['expected ' + ', '.join(show(x, 5) for x in want)] + facts(I, o))
            continue
        kind = I.kind(I.norm(ROOT))
        len1 = K.length(I, 'bdd_instructions')
        n = sub(len1, len0)
        ok = equal(I, n, addc(NP, 2))
        R.ob(props, G1, True if ok else (False if ok is False and cl else None), w, '%s: %s instructions are appended for %s inner nodes' % (name, show(n, 4), show(I.norm(NP), 3)), None if ok else facts(I, o))
        cp = constants(I, K, data, len0, NP)
        ok = cp is not None and set(cp) == {'bot', 'top'}
        R.ob(props, G4, True if ok else (False if cl and cp is not None and None not in cp else None), w, '%s: last instructions are %s' % (name, cp))
        if kind in ('bot', 'top') and cp:
            ok = cp[0] == kind
            R.ob(props, G2, True if ok else (False if cl and cp[0] else None), w, '%s: the root is constant, first instruction is %s' % (name, cp[0]))
        loops = [e for e in S.events if e.k == 'loop']
        if kind not in ('bot', 'top'):
            consts.setdefault('end', set()).add(cp)
            for e in loops:
                ok = not e.first and equal(I, e.K, NP)
                R.ob(props, G3, True if ok else (False if ok is False and not e.first and cl and not summ(e.K, e) else None), w, '%s: loop in line %s ends after %s of %s nodes' % (name, e.loc and e.loc[1], show(I.norm(e.K), 3) if not e.first else 0, show(I.norm(NP), 3)))
            if len(loops) < 2:
                R.ob(props, G3, None, w, name + ': arcs are not set by a loop of their own')
        v = I.norm(o.value)
        nb = addc(nd0, -1)
        nd1 = K.length(I, 'bdd_delimiters')
        ok = v is nb or I.decide(eq(v, nb)) is True
        R.ob(props, G5, True if ok else (False if cl else None), w, '%s: returns %s of %s' % (name, show(v, 4), show(nb, 4)))
        back = I.norm(I.load(add(K.data(I, 'bdd_delimiters'), scale(addc(nd1, -1), 8)), 8, 'i64'))
        ok = I.norm(nd1) is I.norm(addc(nd0, 1)) and equal(I, back, len1) is True
        R.ob(props, G5, True if ok else (False if cl else None), w, '%s: the end of the diagram is recorded: %s' % (name, show(back, 4)))
        m = S.maps[I.norm(HASH)]
        ok = m.empty and not m.ents
        R.ob(props, G7, True if ok else (False if cl else None), w, '%s: table of positions is %s' % (name, 'empty' if ok else 'not empty'))
        if kind in ('bot', 'top'):
            bad = rc_balance(I, o, [ROOT], moved(I, o, 'p'))
            R.ob(('C05',), E5, True if not bad else (False if cl and sure(bad) else None), w, '%s: %s' % (name, 'balanced' if not bad else 'counter of %s changes by %s, references by %s' % tuple(show(x, 4) for x in bad[0][:3])))
    if consts.get('loop') and consts.get('end'):
        ok = len(consts['loop'] | consts['end']) == 1
        R.ob(props, G4, True if ok else None, w0, '%s: constants %s' % (name, 'are not moved after arcs have been set' if ok else 'may be moved after arcs have been set'))


def summ(t, e):
    return False


def elem(I, j):
    from .lemmas_rebase import POST
    return I.norm(I.load(add(POST, scale(I.norm(j), 8)) if ('flip', POST) not in I.S.user else add(POST, sub(I.S.user[('flip', POST)], scale(I.norm(j), 8))), 8, 'ptr'))


def lin_of(cur, base):
    return sub(cur.args[1], base)


def constants(I, K, data, len0, n):
    """the kinds of the two instructions after the inner ones, by what has been written to them"""
    out = []
    st = [e for e in I.S.events if e.k == 'store' and I.norm(e.base) is data]
    for j in range(2):
        at = scale(addc(add(len0, n), j), K.size)
        v = {}
        for e in st:
            for x in ('lo', 'hi', 'index'):
                if equal(I, e.off, addc(at, K.f['i.' + x])) is True:
                    v[x] = I.norm(e.val)
        lo, hi, ix = (v.get(x) for x in ('lo', 'hi', 'index'))
        out.append(None if lo is None or lo is not hi else 'bot' if ix is BOTI else 'top' if ix is MAX else None)
    return tuple(out)


def contradicts(I, o, NP, POST):
    """paths that contradict the list of nodes: constants have no inner nodes, the root is the last one, the successors of the first one
    are constants, all nodes of the list are inner"""
    S = o.S
    k = I.kind(I.norm(ROOT))
    z = I.decide(eq(I.norm(NP), ZERO))
    if z is True and k == 'inner' or z is False and k in ('bot', 'top'):
        return True
    if z is None and k in ('bot', 'top'):
        return True if I.prove_ge0(addc(NP, -1)) else False
    if z is not True:
        first = None
        for off in list(S.mem.get(POST, {})):
            if I.norm(off) is ZERO:
                first = I.norm(S.mem[POST][off][1])
        if first is not None and any(I.kind(x(first)) == 'inner' for x in (lo_of, hi_of)):
            return True
    if z is None or z is False:
        # an inner root: paths that found out otherwise end here
        for e in S.events:
            pass
    return False
