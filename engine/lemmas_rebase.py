"""Renaming the variables of diagrams, adding variables.

The diagram is known to the analysis by the contract of nodes_postorder (checked by its own lemma): inner nodes, each once, successors
before predecessors, the root last.  The map from old to new nodes is described by an invariant: it holds the images of the constants and
of the nodes that have been passed; each iteration of the loop has to add exactly the image of its own node."""
from .terms import *
from .interp import *
from .nodes import *
from .contracts import ret_ref, mknode
from .models import vec_init, vget
from .maps import HMap
from .lemmas_ops import setup_mgr, mkinterp, slot, refarg, moved, nodesym, locof, facts, clean, rc_balance, sure, check_common

N1 = 'every node is rebuilt from the images of its label and of its successors'
N2 = 'all nodes are rebuilt in the order of the list'
N3 = 'variables exist before nodes are labelled with them'
N4 = 'the result is the image of the root'
N5 = 'existing nodes are not written to'
N6 = 'a new variable gets the next number'
N7 = 'temporary handles are balanced'

POST = sym('POSTORDER', ptr=True, nonnull=True, cls='ARR', elems='inner nodes')
NP = sym('npost', small=True)
VM = sym('VARMAP', ptr=True, nonnull=True, cls='VARMAP')
RNG = sym('RANGE', ptr=True, nonnull=True, cls='ARR')
CNT = sym('cnt', small=True)
ROOT = nodesym('p')
VARS = 'vars'


def img(I, t):
    t = I.norm(t)
    k = I.kind(t)
    if k == 'bot':
        return BOT
    if k == 'top':
        return TOP
    return setmeta(mk('img', t), ptr=True, nonnull=True, cls=NODE)


def c_postorder(I, a, nm):
    vec_init(I, a[0], NODE + '*', begin=POST, n=NP)
    I.event('postorder', node=I.norm(a[1]))


def c_add_variable(I, a, nm):
    v = addc(I.norm(a[0]), I.P.field('BDD::bdd_mgr', VARS) // 8)
    b, e, k = vget(I, v, 'BDD::var_struct')
    I.store(addc(v, 8), addc(e, I.L.size('BDD::var_struct')), 8)
    I.event('add_variable', n=k)
    return k


def nvars(I):
    return I.norm(vget(I, addc(MGR, I.P.field('BDD::bdd_mgr', VARS) // 8), 'BDD::var_struct')[2])


def arc_of_list(t):
    """is t an arc of a node of the list?"""
    return t.op == 'fld' and t.args[0] in ('lo', 'hi') and in_list(t.args[1])


def in_list(t):
    if t.op != 'fld' or t.args[0] != '@8':
        return False
    return any(a is POST for a, _ in lin(t.args[1])[1])


def policy(I, M, m, key):
    if M is VM:
        return True, setmeta(mk('vimg', key[0]), small=True)
    if len(key) != 1:
        return None
    t = key[0]
    if t is I.norm(ROOT) or arc_of_list(t):
        if I.branch(eq(t, BOT)):
            return True, BOT
        if I.branch(eq(t, TOP)):
            return True, TOP
        return True, img(I, t)
    if in_list(t):
        return False
    return None


def lemma_rebase(P, R):
    fs = P.find(r'BDD::node_ref BDD::bdd_mgr::rebase<')
    if len(fs) < 2:
        R.ob(('C12',), N1, None, None, 'rebase not found')
    for n in fs:
        rebase(P, R, n)
    add_variable(P, R)


def cells_read(I, base):
    return [I.norm(off) for off in I.S.mem.get(base, {})]


def rebase(P, R, n):
    root = P.func(n)
    byrange = len(root.args) == 5
    name = 'rebase with a %s' % ('range' if byrange else 'map')
    props = ('C12',)
    I = mkinterp(P)
    for f in P.find(r'BDD::node_struct::nodes_postorder\(\)$'):
        I.contracts[f] = c_postorder
    for f in P.find(r'BDD::bdd_mgr::add_variable\(\)$'):
        I.contracts[f] = c_add_variable
    I.mappolicy = policy

    def start(I):
        setup_mgr(I)
        I.S.facts.clear()
        I.S.events.clear()
        s = slot(I, 'ret')
        I.run(root, [s, MGR, refarg(I, 'p', ROOT)] + ([RNG, add(RNG, scale(CNT, 8))] if byrange else [VM]))
        return I.load(s, 8, 'ptr')
    try:
        outs = I.explore(start, 1500)
    except Budget:
        outs = []
    R.absorb(I, outs)
    w0 = (root.file, root.line, root.dem)
    if not outs:
        R.ob(props, N1, None, w0, name + ': too many paths')
    mono, plain = accumulators(I, outs)
    for o in outs:
        I.S = o.S
        w = locof(None, o, root)
        cl = clean(o)
        if infeasible(I, o, byrange):
            continue
        check_common(I, R, o, root, name, ('C08', 'C12'))
        if o.kind == 'unsupported':
            R.ob(props, N1, None, w, name + ': ' + str(o.info))
            continue
        if o.kind not in ('ret', 'backedge'):
            continue
        S = o.S
        mks = [e for e in S.events if e.k == 'mk']
        # variables exist
        for e in mks:
            i = I.norm(e.i)
            if byrange:
                for off in cells_read(I, RNG):
                    v = I.norm(I.load(add(RNG, off), 8, 'i64'))
                    for b in maxima(S):
                        I.add_lin(sub(I.norm(b), v))
            for a, low in mono.items():
                a2 = I.norm(a)
                for kind, d in low:
                    if kind == ('range' if byrange else 'map') and (byrange or i.op == 'vimg'):
                        I.add_lin(addc(sub(a2, i), -d))
            nv = nvars(I)
            ok = I.prove_ge0(addc(sub(nv, i), -1))
            bad = not ok and cl and i.op in ('vimg', 'fld') and not [a for a in subterms(nv) if a.op in ('phi', 'iter')] and all(x in plain for c in S.facts for x in subterms(I.norm(c)) if x.op == 'phi')
            R.ob(props, N3, True if ok else (False if bad else None), locof(e, o, root), '%s: %s variables exist, label is %s' % (name, show(nv, 4), show(i, 4)), None if ok else facts(I, o))
        for e in S.events:
            if e.k == 'store' and e.base not in S.fresh and I.is_node(e.base):
                R.ob(('C12', 'C05'), N5, False if cl else None, locof(e, o, root), '%s: writes to node %s' % (name, show(e.base, 4)))
        for e in S.events:
            if e.k == 'map_erase' and e.present:
                R.ob(props, N1, False if cl else None, locof(e, o, root), '%s: the image of node %s is removed again, a node further up may lead there' % (name, show(e.key[0], 4)))
        le = [e for e in S.events if e.k == 'loop']
        be = S.events[-1] if S.events and S.events[-1].k == 'backedge' else None
        ins = [e for e in S.events if e.k == 'map_insert' and in_list(I.norm(e.key[0]))]
        if o.kind == 'backedge':
            offs = cells_read(I, POST)
            if not offs:
                continue
            loop = next((e for e in reversed(le) if e.key == be.key), None)
            if loop is None or len(offs) != 1:
                R.ob(props, N2, None, w, '%s: %d elements of the list are read' % (name, len(offs)))
                continue
            k = ZERO if be.mode == 'first' else I.norm(loop.K)
            ok = I.decide(eq(offs[0], scale(k, 8)))
            R.ob(props, N2, True if ok else (False if ok is False and cl else None), w, '%s: iteration %s takes element %s' % (name, show(k, 3), show(udiv(offs[0], const(8)), 3)))
            cur = I.norm(I.load(add(POST, offs[0]), 8, 'ptr'))
            one = len(ins) == 1 and I.norm(ins[0].key[0]) is cur and not ins[0].present
            R.ob(props, N1, True if one else (False if cl and not ins else None), w, '%s: the iteration enters %s' % (name, 'the image of its node' if one else '%d images' % len(ins)))
            if not one:
                continue
            idx = I.norm(index_of(cur))
            i = I.norm(I.load(add(RNG, scale(idx, 8)), 8, 'i64')) if byrange else mk('vimg', idx)
            want = I.norm(mknode(I, i, img(I, lo_of(cur)), img(I, hi_of(cur))))
            got = I.norm(I.load(addc(ins[0].entry, 16), 8, 'ptr'))
            ok = got is want
            bad = cl and got.op in ('mk', 'img', 'sym', 'fld')
            R.ob(props, N1, True if ok else (False if bad else None), locof(ins[0], o, root), '%s: image of the node is %s' % (name, 'rebuilt' if ok else show(got, 6)), None if ok else ['expected ' + show(want, 6)] + facts(I, o))
            continue
        post = [e for e in S.events if e.k == 'postorder']
        ok = bool(post) and all(I.norm(e.node) is I.norm(ROOT) for e in post)
        cl2 = cl and post and not any(I.norm(e.node) is I.norm(ROOT) for e in post)
        if post or I.kind(ROOT) not in ('bot', 'top'):
            R.ob(props, N2, True if ok else (False if cl2 else None), w, '%s: the list of %s is taken' % (name, show(post[0].node, 3) if post else 'nothing'))
        loop = le[-1] if le else None
        if I.kind(ROOT) not in ('bot', 'top'):
            if loop is not None and not loop.first:
                k = I.norm(loop.K)
                ok = I.decide(eq(k, NP))
                R.ob(props, N2, True if ok else (False if ok is False and cl else None), w, '%s: the list is passed completely' % name if ok else '%s: the loop ends after %s of %s elements' % (name, show(k, 3), show(I.norm(NP), 3)), None if ok else facts(I, o))
            else:
                R.ob(props, N2, None, w, '%s: list of an inner node without an element' % name)
        v = I.norm(o.value)
        want = img(I, ROOT)
        ok = v is want
        R.ob(props, N4, True if ok else (False if cl and v.op in ('img', 'sym', 'mk', 'fld') else None), w, '%s: returns %s' % (name, show(v, 4)), None if ok else facts(I, o))
        bad = rc_balance(I, o, [ROOT], [v] + moved(I, o, 'p'))
        R.ob(('C05',), N7, True if not bad else (False if cl and sure(bad) else None), w, '%s: %s' % (name, 'balanced' if not bad else 'counter of %s changes by %s, references by %s' % tuple(show(x, 4) for x in bad[0][:3])))
    # the list of nodes before any write is the end: note that nothing is written
    R.ob(('C12', 'C05'), N5, True, w0, name + ': writes of all paths are looked at')


def infeasible(I, o, byrange):
    """paths that contradict the contract of the list, or the requirement that the map knows all variables"""
    S = o.S
    offs = cells_read(I, POST)
    p = I.norm(ROOT)
    if I.decide(eq(I.norm(NP), ZERO)) is True and I.kind(p) == 'inner':
        return True
    if I.decide(eq(I.norm(NP), ZERO)) is False and I.kind(p) in ('bot', 'top'):
        return True
    for off in offs:
        cur = I.norm(I.load(add(POST, off), 8, 'ptr'))
        if off is ZERO and any(I.kind(x(cur)) == 'inner' for x in (lo_of, hi_of)):
            return True          # the successors of the first node are constants
    if offs:
        if byrange and I.decide(eq(I.norm(CNT), ZERO)) is True:
            return True
        for e in S.events:
            if e.k == 'map_begin' and e.m is VM and I.decide(eq(I.norm(e.first), ZERO)) is True:
                return True
    return False


def maxima(S):
    return [e.val for e in S.events if e.k == 'maximum' and e.base is RNG]


def accumulators(I, outs):
    """values at the head of a loop that are at least as large as all values seen: {term: {('map' or 'range', how much larger)}}"""
    cand = {}
    for o in outs:
        if o.kind != 'backedge' or not o.S.events or o.S.events[-1].k != 'backedge':
            continue
        I.S = o.S
        be = o.S.events[-1]
        loop = next((e for e in reversed(o.S.events) if e.k == 'loop' and e.key == be.key), None)
        if loop is None or cells_read(I, POST):
            continue
        info = loop.info
        sig = info['sig']
        # values seen in this iteration
        seen = []
        for b, cells in list(I.S.mem.items()):
            for off, (sz, v) in list(cells.items()):
                if not isinstance(v, T) or v.op != 'fld' or v.args[0] != '@8':
                    continue
                c, l = lin(I.norm(v.args[1]))
                ats = [a for a, k in l]
                if any(a is RNG for a in ats):
                    seen.append(('range', v))
                elif c == 16 and len(ats) == 1 and (ats[0].op == 'hbegin' or ats[0].op == 'phi' and sig in ats[0].args):
                    seen.append(('map', v))
        for (b, off), c in info['cells'].items():
            if c[0][0] != 'opaque':
                continue
            t = mk('phi', 'cell', sig, b, off)
            new = I.norm(I.load(add(b, off), 8, 'i64'))
            head = t if be.mode == 'gen' else None
            mono = head is None or ge(I, new, head)
            good = frozenset((k, d) for k, v in seen for d in (0, 1) if ge(I, new, addc(v, d)))
            cand.setdefault(t, []).append((mono, good, flat(new)))
        for r_, c in info['phi'].items():
            if c[0] != 'opaque':
                continue
            t = mk('phi', 'phi', sig, r_)
            new = o.info[1].get(r_)
            if not isinstance(new, T):
                continue
            new = I.norm(new)
            mono = be.mode == 'first' or ge(I, new, t)
            good = frozenset((k, d) for k, v in seen for d in (0, 1) if ge(I, new, addc(v, d)))
            cand.setdefault(t, []).append((mono, good, flat(new)))
    res = {}
    for t, l in cand.items():
        if all(m for m, _, _ in l):
            res[t] = frozenset.intersection(*[x for _, x, _ in l])
    return res, {t for t, l in cand.items() if all(x for _, _, x in l)}


def flat(t):
    return isinstance(t, T) and all(a.op in ('phi', 'fld', 'sym') for a, _ in lin(t)[1])


def ge(I, a, b):
    a, b = I.norm(a), I.norm(b)
    return a is b or I.prove_ge0(sub(a, b)) or I.decide(ult(b, a)) is True or I.decide(ult(a, b)) is False


def add_variable(P, R):
    for n in P.find(r'BDD::bdd_mgr::add_variable\(\)$'):
        root = P.func(n)
        I = mkinterp(P)

        def start(I):
            setup_mgr(I)
            I.S.facts.clear()
            I.S.events.clear()
            I.S.user['n0'] = nvars(I)
            return I.run(root, [MGR])
        outs = I.explore(start, 20)
        R.absorb(I, outs)
        for o in outs:
            I.S = o.S
            if o.kind != 'ret':
                continue
            w = locof(None, o, root)
            cl = clean(o)
            n0 = I.norm(o.S.user['n0'])
            ev = [e for e in o.S.events if e.k == 'emplace_var']
            ok = len(ev) == 1 and I.norm(ev[0].index) is n0 and I.norm(ev[0].mgr) is MGR
            R.ob(('C02', 'C12', 'C20'), N6, True if ok else (False if cl and ev else None), w, 'add_variable: %s' % ('the variable gets the next number and this manager' if ok else 'number %s of manager %s' % (show(ev[0].index, 3), show(ev[0].mgr, 3)) if ev else 'no variable is made'))
            n1 = nvars(I)
            ok = I.decide(eq(n1, addc(n0, 1))) is True and I.norm(o.value) is n0
            R.ob(('C02', 'C12'), N6, True if ok else (False if cl else None), w, 'add_variable: %s variables, returns %s' % (show(n1, 3), show(o.value, 3)))
