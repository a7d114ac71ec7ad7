"""Handles and structure queries of diagrams in a manager."""
from .terms import *
from .numeric import nev, Unknown
from . import terms as TT
from .interp import *
from .nodes import *
from .models import Models, vec_init, vget
from . import contracts as C
from .lemmas_ops import (setup_mgr, refarg, nodesym, slot, mkinterp, locof, facts, clean, rc_balance, check_common)

NS = r'BDD::node_struct::'
NRF = r'BDD::node_ref::'


# ------------------------------------------------------------------ marks
def mark_of(I, p):
    """current mark of a node as a term"""
    w = I.load(addc(p, 16), 8)
    return lshr(I.norm(w), const(63))


def havoc_marks(I):
    """the marks of all nodes become unknown"""
    I.havoc_marks(('M', len(I.S.user.get('marks', ())) + 1))


def mark_known(I, p, val):
    """was the mark of p known to be val at some moment of the path (any version)?"""
    p = I.norm(p)
    c = I.S.mem.get(p, {}).get(const(16))
    if c is not None and c[0] == 8:
        b = lshr(I.norm(c[1]), const(63))
        if is_const(b) and cval(b) == val:
            return True
    for ep in (0,) + I.S.user.get('marks', ()):
        t = fld('marked_', p, 'unsigned long', ep, width=1)
        d = I.norm(t)
        if is_const(d):
            if cval(d) == val:
                return True
            continue
        if I.decide(eq(d, const(val))) is True or I.decide(eq(d, const(1 - val))) is False:
            return True
    return False


class Trav:
    """one recursive function of a traversal"""

    def __init__(self, P, name):
        self.P, self.name = P, name
        self.fn = P.func(name)


def rec_contract(kind):
    def c(I, a, name):
        p = I.norm(a[0])
        ev = I.event('rec', fn=name, node=p, args=[I.normv(x) for x in a], mark=None, inner=I.kind(p))
        if I.kind(p) not in ('bot', 'top'):
            ev.d['mark'] = mark_of(I, p)
        havoc_marks(I)
        f = I.P.func(name)
        t = mk('rec', kind, name, p)
        if f is not None and f.ret not in ('void',):
            if f.ret == 'ptr':
                setmeta(t, ptr=True, nonnull=True)
            return t
        return None
    return c


VISITS = [
    # entry, kind
    (NS + r'nr_nodes\(\)$', 'count'),
    (NS + r'nodes_postorder\(\)$', 'postorder'),
    (NS + r'variables\(\)$', 'variables'),
    (r'void ' + NS + r'print<', 'print'),
    (NS + r'mark\(\)$', 'mark'),
    (NS + r'unmark\(\)$', 'unmark'),
]


def is_marking(P, f):
    """does the function itself (not its callees) write node marks?  decided in exploration; here: candidate by parameter type"""
    return P.demangled(f).find('BDD::node_struct::') >= 0


def opaque_string_contracts(I):
    pass


def explore_trav(P, R, f, kind):
    root = P.func(f)
    I = Interp(P, Models())
    for g in P.recursive(f):
        I.contracts[g] = rec_contract(kind)
    I.no_generic_peel = True
    node = nodesym('p')

    def start(I):
        setup_mgr(I)
        args = [node]
        I.S.user['entry'] = fld('marked_', node, 'unsigned long', 0, width=1)
        for a in root.args[1:]:
            if kind in ('postorder', 'variables'):
                t = sym('outvec', ptr=True, nonnull=True, cls='std::vector<BDD::node_struct*>' if kind == 'postorder' else 'std::vector<unsigned long>')
            else:
                t = sym('outarg', ptr=True, nonnull=True)
            args.append(t)
        I.S.events.clear()
        saved = I.contracts.pop(f, None)
        try:
            # the body itself is analysed, recursive calls use the contract
            I.S.user['body'] = True
            I.contracts[f] = saved
            return I.run(root, args)
        finally:
            pass
    try:
        outs = I.explore(start, 400)
    except Budget:
        outs = None
    R.absorb(I, outs or ())
    return I, root, node, outs


def child_events(I, o, p):
    lo, hi = I.norm(lo_of(p)), I.norm(hi_of(p))
    return lo, hi


def lemma_traversal(P, R):
    done = set()
    for pat, kind in VISITS:
        e = P.find(pat)
        if not e:
            R.errors.append('query %s not found' % kind)
            continue
        entry = e[0]
        reck = P.recursive(entry)
        for f in reck:
            d = P.demangled(f)
            if 'node_struct' not in d:
                continue
            k = 'unmark' if is_unmark(P, f) else kind
            if f in done:
                continue
            done.add(f)
            check_trav(P, R, f, k)
        if entry not in reck:
            check_entry(P, R, entry, kind, reck)


_unm = {}


def is_unmark(P, f):
    """a traversal is the resetting one when every store it makes to the mark clears it"""
    if f in _unm:
        return _unm[f]
    I, root, node, outs = explore_trav(P, _Null(), f, '?')
    val = set()
    for o in outs or ():
        I.S = o.S
        for e in o.S.events:
            if e.k == 'store' and e.off is const(16) and I.is_node(I.norm(e.base)):
                b = lshr(I.norm(e.val), const(63))
                val.add(cval(b) if is_const(b) else None)
    _unm[f] = val == {0}
    return _unm[f]


class _Null:
    def __init__(self):
        self.functions = set()
        self.paths = 0

    def absorb(self, *a):
        pass


def check_trav(P, R, f, kind):
    I, root, p, outs = explore_trav(P, R, f, kind)
    name = root.dem.split('(')[0].replace('void ', '').replace('BDD::', '')
    W = (root.file, root.line, root.dem)
    pr = ('C07',)
    if outs is None:
        R.ob(pr, 'paths of a traversal', None, W, 'too many paths in ' + name)
        return
    target = 0 if kind == 'unmark' else 1
    for o in outs:
        I.S = o.S
        ok = clean(o) or kind == 'print'
        check_common(I, R, o, root, name, ('C07', 'C08'))
        if o.kind == 'unsupported':
            R.ob(pr, 'path of a traversal', None, locof(None, o, root), '%s: %s' % (name, o.info))
            continue
        if o.kind != 'ret':
            continue
        pn = I.norm(p)
        kd = I.kind(pn)
        recs = [e for e in o.S.events if e.k == 'rec']
        pushes = [e for e in o.S.events if e.k == 'push']
        stores = [e for e in o.S.events if e.k == 'store' and I.is_node(I.norm(e.base)) and e.base not in o.S.fresh]
        prints = [e for e in o.S.events if e.k == 'string']

        def ob(rule, st, msg, ev=None):
            if st is False and not ok:
                st = None
            R.ob(pr, rule, st, locof(ev, o, root), '%s: %s' % (name, msg), facts(I, o) if st is not True else None)
        for e in o.S.events:
            if e.k == 'termarc' and e.loc and ('C08',):
                R.ob(('C08', 'C07'), 'arcs are followed at inner nodes only', False if ok and I.kind(e.node) in ('bot', 'top') else None, locof(e, o, root),
                     '%s follows an arc of a terminal' % name, facts(I, o))
        # stores change the mark of the visited node only
        for e in stores:
            b = I.norm(e.base)
            if b is not pn:
                ob('a traversal writes the mark of the visited node only', None if not is_child(I, b, pn) else None, 'writes %s' % show(b, 4), e)
                continue
            if e.off is not const(16):
                ob('a traversal writes the mark of the visited node only', False, 'changes field at offset %s of the visited node' % show(e.off), e)
                continue
            old = e.old
            v = I.norm(e.val)
            rest = bit_xor(bit_and(v, const((1 << 63) - 1)), bit_and(I.norm(old), const((1 << 63) - 1))) if old is not None else None
            ob('a traversal writes the mark of the visited node only', True if rest is not None and rest is ZERO else None, 'mark is written', e)
        if kd in ('bot', 'top'):
            bad = recs or pushes or prints or [e for e in stores if True]
            st = not bad and (not isinstance(o.value, T) or kind != 'count' or I.norm(o.value) is ZERO)
            ob('terminals are not visited', bool(st), 'terminal is %svisited' % ('not ' if st else ''))
            continue
        if kd is None:
            # the path does not distinguish terminals: acceptable when it does nothing
            if not recs and not pushes and not stores:
                em = I.norm(o.S.user['entry'])
                ob('every unvisited node is visited', True if mark_skip(I, pn, target) else None, 'nothing is done')
            else:
                ob('terminals are not visited', None, 'terminal nodes are not told apart')
            continue
        lo, hi = child_events(I, o, pn)
        # already visited: nothing to be done
        if not recs and not pushes and not stores and not prints:
            ob('every unvisited node is visited', True if mark_skip(I, pn, target) else False, 'an inner node is skipped')
            continue
        # mark at the end
        w = o.S.mem.get(pn, {}).get(const(16))
        written = [e for e in stores if I.norm(e.base) is pn and e.off is const(16)]
        if written:
            b = lshr(I.norm(written[-1].val), const(63))
            ob('the visited node is marked as visited', is_const(b) and cval(b) == target, 'mark is set to %s' % show(b, 3), written[-1])
        else:
            ob('the visited node is marked as visited', False, 'the mark of the visited node is not %s' % ('set' if target else 'cleared'))
        # children
        for c, nm in ((lo, 'low'), (hi, 'high')):
            k = I.kind(c)
            rc = [e for e in recs if I.norm(e.node) is c]
            if rc:
                pre = True
                for e in rc:
                    if kind in ('mark', 'unmark'):
                        continue
                    m = e.mark
                    if k in ('bot', 'top') or m is None:
                        continue
                    m = I.norm(m)
                    if not (is_const(m) and cval(m) == 0) and not self_guarded(P, f, kind):
                        pre = False
                ob('successors are visited unless visited before', pre, '%s successor is visited%s' % (nm, '' if pre else ' although it may have been visited before'), rc[0])
                if len(rc) > 1:
                    ob('successors are visited unless visited before', None, '%s successor is visited repeatedly' % nm, rc[1])
            else:
                just = k in ('bot', 'top') or mark_known(I, c, target)
                st = True if just else False
                if not just and any(is_opaque_rec(I, e, pn) for e in recs):
                    st = None
                ob('successors are visited unless visited before', st, '%s successor is %s' % (nm, 'skipped as terminal or visited' if just else 'not visited'))
        for e in recs:
            n = I.norm(e.node)
            if n is not lo and n is not hi:
                ob('successors are visited unless visited before', None if n is not pn else False, 'recursion on %s' % show(n, 4), e)
        # record
        if kind == 'count':
            exp = ONE
            for e in recs:
                exp = add(exp, mk('rec', kind, e.fn, I.norm(e.node)))
            v = I.norm(o.value)
            ob('every node is counted once', True if v is exp else (False if is_const(sub(v, exp)) or lin_diff(v, exp) else None), 'returns %s, visits %s' % (show(v, 5), show(exp, 5)))
        elif kind in ('postorder', 'variables'):
            mine = []
            for e in pushes:
                x = I.norm(I.load(e.at, 8)) if e.at is not None else None
                mine.append((e, x))
            want = pn if kind == 'postorder' else I.norm(index_of(pn))
            hits = [e for e, x in mine if x is want]
            vecs = {I.norm(e.v) for e, _ in mine}
            ob('every node is listed once', len(hits) == 1 and len(mine) == 1, 'lists %s' % (', '.join(show(x, 3) for _, x in mine) or 'nothing'))
            if kind == 'postorder' and len(hits) == 1 and recs:
                i = o.S.events.index(hits[0])
                later = [e for e in recs if o.S.events.index(e) > i]
                ob('successors are listed before a node', not later, 'the node is listed %s its successors' % ('before' if later else 'after'), hits[0])
            for e in recs:
                if len(e.args) > 1 and vecs and I.norm(e.args[1]) not in vecs:
                    ob('every node is listed once', None, 'another list is passed on', e)
        elif kind == 'print':
            ob('every node is printed', True if prints else False, '%d stream operations' % len(prints))


def lin_diff(a, b):
    d = sub(a, b)
    return all(x.op == 'rec' for x, _ in lin(d)[1])


def is_child(I, a, p):
    return a is I.norm(lo_of(p)) or a is I.norm(hi_of(p))


def is_opaque_rec(I, e, p):
    n = I.norm(e.node)
    return not is_child(I, n, p)


def mark_skip(I, p, target):
    """the path is only taken when p has the final mark already (or is a terminal)"""
    return mark_known(I, p, target)


_guard = {}


def self_guarded(P, f, kind):
    """the function does nothing for a node that is marked already"""
    if f in _guard:
        return _guard[f]
    _guard[f] = False
    I, root, p, outs = explore_trav(P, _Null(), f, kind)
    g = False
    for o in outs or ():
        I.S = o.S
        if o.kind == 'ret' and mark_known(I, I.norm(p), 1) and not [e for e in o.S.events if e.k in ('rec', 'push', 'store')]:
            g = True
    _guard[f] = g
    return g


def entry_contract(kind, unm):
    def c(I, a, name):
        p = I.norm(a[0])
        I.event('visit', fn=name, node=p, unmark=unm, args=[I.normv(x) for x in a])
        havoc_marks(I)
        if kind == 'postorder' and not unm and len(a) > 1:
            # the list has been filled with the nodes that were visited
            vec_init(I, I.norm(a[1]), 'BDD::node_struct*', begin=setmeta(mk('listed', name, p), ptr=True, nonnull=True), n=setmeta(mk('visits', name, p), small=True))
        f = I.P.func(name)
        if f is not None and f.ret != 'void':
            return mk('visits', name, p)
        return None
    return c


def mark_stores(I, evs):
    """writes that change the mark of a node: (event, node, new mark)"""
    r = []
    for e in evs:
        if e.k != 'store' or not is_const(e.off) or cval(e.off) != 16 or not I.is_node(I.norm(e.base)):
            continue
        r.append((e, I.norm(e.base), lshr(I.norm(e.val), const(63))))
    return r


def clears_list(I, outs, o, t, vec):
    """are the marks cleared by going over the list of the nodes?  True / False / None (unknown) / 'none' (nothing of that kind)"""
    ev = o.S.events
    L = [e for e in ev[t + 1:] if e.k == 'loop']
    if not L:
        return None if mark_stores(I, ev[t + 1:]) else 'none'
    hdr = L[-1].fn, L[-1].header
    bes = [x for x in outs if x.kind == 'backedge' and x.S.events[-1].k == 'backedge' and (x.S.events[-1].fn, x.S.events[-1].header) == hdr]
    if not any(mark_stores(I, x.S.events[max(i for i, e in enumerate(x.S.events) if e.k == 'loop') + 1:]) for x in bes):
        return 'none' if all(clean(x) for x in bes) else None
    save, res = I.S, True
    try:
        for x in bes:
            I.S = x.S
            xe = x.S.events
            i = max(i for i, e in enumerate(xe) if e.k == 'loop')
            ms = mark_stores(I, xe[i + 1:])
            vb = I.load(vec, 8, 'ptr')
            k = ZERO if xe[i].first else xe[i].K
            want = I.norm(I.load(add(vb, scale(k, 8)), 8, 'ptr'))
            if not ms or any(b is not ZERO for _, _, b in ms) or all(n is not want for _, n, _ in ms):
                if not ms or len(ms) > 1 or not clean(x) or not is_const(ms[0][2]):
                    return None
                if ms[0][2] is ONE:
                    return False
                nxt = [I.norm(I.load(add(vb, scale(addc(k, j), 8)), 8, 'ptr')) for j in (1, 2)]
                return False if ms[0][1] in nxt else None
        I.S = o.S
        vb, ve = I.load(vec, 8, 'ptr'), I.load(addc(vec, 8), 8, 'ptr')
        k = ZERO if L[-1].first else L[-1].K
        d = I.norm(sub(I.norm(sub(ve, vb)), scale(k, 8)))
        if d is ZERO:
            return True
        return False if is_const(d) and clean(o) and not L[-1].first else None
    finally:
        I.S = save


def check_entry(P, R, entry, kind, reck):
    """a query visits the diagram once and resets the marks afterwards"""
    root = P.func(entry)
    name = root.dem.split('(')[0].replace('void ', '').replace('BDD::', '')
    name = name.split(' ')[-1] if '>' not in name else name
    I = Interp(P, Models())
    for g in reck:
        if 'node_struct' in P.demangled(g):
            I.contracts[g] = entry_contract(kind, is_unmark(P, g))
    node = nodesym('p')

    def start(I):
        setup_mgr(I)
        args = []
        for a in root.args:
            if a['n'] == 'this':
                args.append(node)
            elif a['n'] in ('agg.result',) or a['n'].endswith('result'):
                args.append(slot(I, 'ret', 'std::vector<BDD::node_struct*>' if kind == 'postorder' else 'std::vector<unsigned long>'))
            else:
                args.append(sym('outarg', ptr=True, nonnull=True))
        I.S.events.clear()
        return I.run(root, args)
    try:
        outs = I.explore(start, 200)
    except Budget:
        outs = None
    R.absorb(I, outs or ())
    if outs is None:
        R.ob('C07', 'a query leaves all marks cleared', None, (root.file, root.line, root.dem), name)
        return
    for o in outs:
        I.S = o.S
        if o.kind == 'unsupported':
            R.ob('C07', 'a query leaves all marks cleared', None, locof(None, o, root), '%s: %s' % (name, o.info))
            continue
        if o.kind != 'ret':
            continue
        vis = [e for e in o.S.events if e.k == 'visit']
        v = [e for e in vis if not e.unmark]
        u = [e for e in vis if e.unmark]
        k = I.kind(I.norm(node))
        pn = I.norm(node)

        def ob(rule, st, msg, ev=None):
            R.ob('C07', rule, st, locof(ev, o, root), '%s: %s' % (name, msg), facts(I, o) if st is not True else None)
        if k in ('bot', 'top') and not vis:
            ob('a query leaves all marks cleared', True, 'terminal: nothing to visit')
            continue
        on = [e for e in v if I.norm(e.node) is pn]
        if len(on) == 1 and len(v) == 1:
            ob('the whole diagram is visited', True, 'one traversal from the root', on[0])
        elif not v:
            ob('the whole diagram is visited', False if not recognisable(o) and all(x.kind != 'unsupported' for x in outs) else None, 'no traversal from the root')
            continue
        else:
            ob('the whole diagram is visited', None, 'traversals from %s' % ', '.join(show(e.node, 3) for e in v))
        last = o.S.events.index(v[-1])
        good = [e for e in u if I.norm(e.node) is pn and o.S.events.index(e) > last]
        st = True if good else False
        if not good:
            c = clears_list(I, outs, o, last, slot(I, 'ret')) if kind == 'postorder' else 'none' if not mark_stores(I, o.S.events[last + 1:]) and not any(e.k == 'loop' for e in o.S.events[last + 1:]) else None
            st = False if c == 'none' else c
        ob('a query leaves all marks cleared', st, 'marks are %sreset after the traversal' % ('' if st else 'not '), (good or v)[0])
        early = [e for e in u if o.S.events.index(e) < last]
        if early:
            ob('a query leaves all marks cleared', None, 'marks are reset before the traversal', early[0])
        if kind == 'count':
            r = I.norm(o.value)
            want = mk('visits', v[0].fn, pn)
            ob('the number of visited nodes is returned', True if r is want else (False if is_const(sub(r, want)) else None), 'returns ' + show(r, 4))
        if kind in ('postorder', 'variables'):
            # the list that was filled is the one returned
            lst = I.norm(v[0].args[1]) if len(v[0].args) > 1 else None
            res = slot(I, 'ret')
            ob('the collected list is returned', True if lst is I.norm(res) else None, 'list %s' % (show(lst, 3) if lst is not None else '?'))
        if kind == 'variables':
            algos = [e.name for e in o.S.events if e.k == 'algo']
            st = any('std::sort' in a for a in algos), any('std::unique' in a for a in algos), any('::erase(' in a for a in algos)
            i = [next((j for j, a in enumerate(algos) if s in a), None) for s in ('std::sort', 'std::unique', '::erase(')]
            good = all(x is not None for x in i) and i == sorted(i)
            plain = lst is I.norm(res) and not any(e.k == 'loop' for e in o.S.events[last + 1:])
            ob('variables are listed once each, sorted', True if good else (False if plain and (not any('std::' in a for a in algos) or (i[1] is not None and (i[0] is None or i[0] > i[1]))) else None), 'sort, unique, erase in this order' if good else 'algorithms: %d' % len(algos))


def recognisable(o):
    """the body does something the abstraction does not follow (loops, deque, stack)"""
    return any(e.k in ('loop', 'extern') for e in o.S.events) or bool(o.S.taint)


# ------------------------------------------------------------------ single results by recursion
def lemma_exactly_one(P, R):
    fs = P.find(NS + r'exactly_one_solution\(\)$')
    if not fs:
        R.errors.append('exactly_one_solution not found')
        return
    root = P.func(fs[0])
    I = Interp(P, Models())

    def rec(I, a, name):
        p = I.norm(a[0])
        I.event('rec', node=p)
        if p is BOT:
            return ZERO
        if p is TOP:
            return ONE
        t = mk('eos', p)
        setmeta(t, width=1)
        return t
    for g in P.recursive(fs[0]):
        I.contracts[g] = lambda I, a, n: ite_bool(rec(I, a, n))
    node = nodesym('p')

    def start(I):
        setup_mgr(I)
        I.S.events.clear()
        return I.run(root, [node])
    outs = I.explore(start, 400)
    R.absorb(I, outs)
    W = 'exactly one solution is decided by the arcs of each node'
    if any(o.kind == 'backedge' for o in outs):
        eos_loop(P, R, I, outs, root, node, W)
        return
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, 'exactly_one_solution', ('C27', 'C08'))
        if o.kind == 'unsupported':
            R.ob('C27', W, None, locof(None, o, root), o.info)
        if o.kind != 'ret':
            continue
        p = I.norm(node)
        k = I.kind(p)
        v = o.value
        v = I.norm(v) if isinstance(v, T) else v
        vb = boolval(I, v)
        for e in o.S.events:
            if e.k == 'rec':
                n = I.norm(e.node)
                good = k not in ('bot', 'top') and n in (I.norm(lo_of(p)), I.norm(hi_of(p)))
                R.ob('C23', 'recursion is well founded', True if good else (False if n is p else None), locof(e, o, root), 'exactly_one_solution recurses on %s' % show(n, 3))
            if e.k == 'termarc':
                R.ob(('C08', 'C27'), 'arcs are followed at inner nodes only', False if clean(o) else None, locof(e, o, root), 'arc of a terminal is followed', facts(I, o))
        if k == 'top' or k == 'bot':
            want = 1 if k == 'top' else 0
            R.ob('C27', W, True if vb == want else (False if vb in (0, 1) else None), locof(None, o, root), 'value at the constant %s: %s' % (k, show(v, 3)))
            continue
        lo, hi = I.norm(lo_of(p)), I.norm(hi_of(p))
        if k is None:
            R.ob('C27', W, None, locof(None, o, root), 'terminals are not told apart')
            continue
        bad = None
        und = False
        olo, ohi = lo_of(node), hi_of(node)
        for kl in ('bot', 'top', 'inner'):
            for kh in ('bot', 'top', 'inner'):
                if kl == kh and kl != 'inner':
                    continue
                if not possible(I, lo, kl) or not possible(I, hi, kh):
                    continue
                for el in ((0, 1) if kl == 'inner' else ((1,) if kl == 'top' else (0,))):
                    for eh in ((0, 1) if kh == 'inner' else ((1,) if kh == 'top' else (0,))):
                        want = eh if kl == 'bot' else el if kh == 'bot' else 0
                        env = {mk('eos', lo): el, mk('eos', hi): eh}
                        if not consistent(I, env):
                            continue
                        # the path is not taken with arcs of these kinds
                        num = {BOT: 1000, TOP: 2000, node: 3000, p: 3000, index_of(node): 1, index_of(p): 1}
                        for a, b, k, v0 in ((olo, lo, kl, 4000), (ohi, hi, kh, 5000)):
                            n = {'bot': 1000, 'top': 2000, 'inner': v0}[k]
                            for q in (a, b):
                                num[q] = num.get(q, n)
                                if q not in (BOT, TOP):
                                    num[index_of(q)] = cval(index_of({"bot": BOT, "top": TOP}[k])) % (1 << 64) if k != 'inner' else 2
                                    num[mk('eos', q)] = el if a is olo else eh
                        try:
                            if not all(nev(f, num) for f in o.S.facts):
                                continue
                            sure = True
                        except (Unknown, KeyError, TypeError):
                            sure = False
                        got = vb if vb in (0, 1) else env.get(v if isinstance(v, T) else None)
                        if got is None and isinstance(v, T):
                            x = subst(v, {a: const(b) for a, b in env.items()}, {})
                            got = boolval(I, x)
                        if got is None:
                            try:
                                got = int(bool(nev(v, num)))
                            except (Unknown, KeyError, TypeError):
                                pass
                        if got is None or (got != want and not sure):
                            und = True
                        elif got != want:
                            bad = (kl, kh, el, eh, got)
        und = und and bad is None
        R.ob('C27', W, None if und else (True if bad is None else (False if clean(o) else None)), locof(None, o, root),
             'returns %s%s' % (show(v, 4) if isinstance(v, T) else v, '' if bad is None else ', wrong when low is %s and high is %s' % bad[:2]), facts(I, o))


def mentions(t, q):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x is q:
            return True
        if isinstance(x, T) and x not in seen:
            seen.add(x)
            st += [y for y in x.args]
        elif isinstance(x, tuple):
            st += list(x)
    return False


def eos_loop(P, R, I, outs, root, node, W):
    """the same rule where the function steps along the diagram in a loop"""
    from .lemmas_eval import OnNode, loop_subject
    D = OnNode()
    regs, subj, inner = loop_subject(I, outs, lambda I: I.norm(node), D)
    for o in outs:
        I.S = o.S
        w = locof(None, o, root)
        cl = clean(o)
        check_common(I, R, o, root, 'exactly_one_solution', ('C27', 'C08'))
        if o.kind == 'unsupported':
            R.ob('C27', W, None, w, o.info)
        if o.kind not in ('ret', 'backedge'):
            continue
        gen = any(e.k == 'loop' and not e.first for e in o.S.events)
        if gen and len(subj) != 1:
            R.ob('C27', W, None, w, 'no register of the loop stands for the current node')
            continue
        s = I.norm(list(subj.values())[0]) if gen else I.norm(node)
        inn = gen and bool(inner)
        if inn and 'inner' not in D.kinds(I, s):
            continue        # excluded by the induction
        nxt = ret = None
        recs = [e for e in o.S.events if e.k == 'rec']
        if o.kind == 'backedge':
            ev = next((e for e in reversed(o.S.events) if e.k == 'backedge'), None)
            rs = [r for (k2, r) in regs if ev and k2 == ev.key]
            if ev is None or len(rs) != 1:
                R.ob('C27', W, None, w, 'the loop does not step along the diagram')
                continue
            nxt = I.norm(ev.phi[rs[0]])
        else:
            v = I.norm(o.value) if isinstance(o.value, T) else o.value
            ret = boolval(I, v)
            if ret is None:
                q = [e for e in recs if v is ite_bool(mk('eos', I.norm(e.node))) or v is mk('eos', I.norm(e.node))]
                if len(q) != 1:
                    R.ob('C27', W, None, w, 'returns %s' % show(v, 4))
                    continue
                nxt = I.norm(q[0].node)
        ok, msg = None, 'the arcs are not told apart'
        for step in range(6):
            if nxt is not None and s is nxt and step:
                ok, msg = True, 'steps along the arc that is not the false constant'
                break
            ks = {'inner'} if inn else D.kinds(I, s)
            inn = False
            if ks <= {'top', 'bot'}:
                if len(ks) == 1 and ret is not None:
                    ok = ret == (1 if ks == {'top'} else 0)
                    msg = 'value at the constant %s: %s' % (sorted(ks)[0], ret)
                elif nxt is not None:
                    ok, msg = False, 'steps from a constant'
                break
            if ks != {'inner'}:
                if nxt is not None and not any(mentions(f, s) for f in o.S.facts):
                    ok, msg = False, 'steps from a node that may be a constant'
                break
            l, h = D.arc(I, s, 'lo'), D.arc(I, s, 'hi')
            lb = 'bot' in D.kinds(I, l), D.kinds(I, l) == {'bot'}
            hb = 'bot' in D.kinds(I, h), D.kinds(I, h) == {'bot'}
            if lb[1]:
                s = h
            elif hb[1]:
                s = l
            elif not lb[0] and not hb[0]:
                if ret is not None:
                    ok, msg = ret == 0, 'returns %s at a node with two arcs that are not the false constant' % ret
                elif nxt is not None:
                    ok, msg = False, 'proceeds at a node with two arcs that are not the false constant'
                break
            else:
                free = [q for q in (l, h) if D.kinds(I, q) == {'bot', 'top', 'inner'} and not any(mentions(f, q) for f in o.S.facts)]
                if nxt in (l, h) and (h if nxt is l else l) in free:
                    ok, msg = False, 'steps along one arc whatever the other one is'
                break
        R.ob('C27', W, True if ok else (False if cl and ok is False else None), w, msg, None if ok else facts(I, o))


def ite_bool(t):
    if t is ZERO:
        return FALSE
    if t is ONE:
        return TRUE
    return bnot(eq(t, ZERO))


def boolval(I, v):
    if v is TRUE or v is ONE:
        return 1
    if v is FALSE or v is ZERO:
        return 0
    if isinstance(v, T):
        if is_const(v):
            return 1 if cval(v) else 0
        if v.op in ('eq0', 'not', 'ult', 'slt', 'and'):
            d = I.decide(v)
            if d is not None:
                return 1 if d else 0
    return None


def consistent(I, env):
    for a, b in env.items():
        if a.args[0] in (BOT, TOP):
            continue
        if I.decide(eq(a, const(b))) is False:
            return False
    return True


def possible(I, p, k):
    q = I.kind(p)
    if q is not None:
        return q == k
    if k == 'bot':
        return I.decide(eq(p, BOT)) is not False
    if k == 'top':
        return I.decide(eq(p, TOP)) is not False
    return True


# ------------------------------------------------------------------ breadth first listing
def lemma_bfs(P, R):
    fs = P.find(NS + r'nodes_bfs\(\)$')
    if not fs:
        R.errors.append('nodes_bfs not found')
        return
    root = P.func(fs[0])
    I = Interp(P, Models())
    for g in P.recursive(fs[0]):
        if 'node_struct' in P.demangled(g):
            I.contracts[g] = entry_contract('bfs', is_unmark(P, g))
    node = nodesym('p')

    def start(I):
        setup_mgr(I)
        res = slot(I, 'ret', 'std::vector<BDD::node_struct*>')
        args = [node if a['n'] == 'this' else res for a in root.args]
        I.S.events.clear()
        return I.run(root, args)
    try:
        outs = I.explore(start, 1000)
    except Budget:
        outs = None
    R.absorb(I, outs or ())
    name = 'nodes_bfs'
    if outs is None:
        R.ob('C07', 'breadth first listing', None, (root.file, root.line, root.dem), 'too many paths')
        return
    queue_used = any(e.k.startswith('dq_') for o in outs for e in o.S.events)
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, name, ('C07', 'C08'))
        ok = clean(o)

        def ob(rule, st, msg, ev=None):
            if st is False and not ok:
                st = None
            R.ob('C07', rule, st, locof(ev, o, root), '%s: %s' % (name, msg), facts(I, o) if st is not True else None)
        if o.kind == 'unsupported':
            ob('breadth first listing', None, o.info)
            continue
        if o.kind not in ('ret', 'backedge'):
            continue
        p = I.norm(node)
        ev = o.S.events
        for e in ev:
            if e.k == 'termarc':
                R.ob(('C08', 'C07'), 'arcs are followed at inner nodes only', False if ok and I.kind(I.norm(e.node)) in ('bot', 'top') else None, locof(e, o, root),
                     '%s follows an arc of a terminal' % name, facts(I, o))
        gets = [e for e in ev if e.k == 'dq_get']
        dpush = [e for e in ev if e.k == 'dq_push']
        pushes = [e for e in ev if e.k == 'push']
        if not queue_used:
            ob('breadth first listing', None, 'no queue')
            continue
        loops = [i for i, e in enumerate(ev) if e.k == 'loop']
        if I.kind(p) in ('bot', 'top'):
            if o.kind == 'ret' and not loops:
                ob('terminals are not visited', not pushes and not dpush, 'constant lists %d nodes' % len(pushes))
            continue
        if not loops:
            if o.kind == 'ret' and not dpush and not pushes:
                ob('every unvisited node is visited', False if I.kind(p) == 'inner' else None, 'nothing is listed')
                continue
            ob('breadth first listing', None, 'loop is not recognised')
            continue
        i0 = loops[0]
        pre = ev[:i0]
        rp = [e for e in pre if e.k == 'dq_push']
        root_ok = [e for e in rp if I.norm(e.val) is p]
        ob('the listing starts at the root', True if len(root_ok) == 1 and len(rp) == 1 else (False if not root_ok else None), 'initial queue: %s' % ', '.join(show(e.val, 3) for e in rp))
        check_marked(I, ob, pre, p, root_ok[0] if root_ok else None)
        if o.kind == 'ret':
            vis = [e for e in ev[i0:] if e.k == 'visit' and e.unmark and I.norm(e.node) is p]
            st = True if vis else clears_list(I, outs, o, i0, slot(I, 'ret'))
            st = False if st == 'none' else st
            ob('a query leaves all marks cleared', st, 'marks are %sreset after the traversal' % ('' if st else 'not '), vis[0] if vis else None)
            if o.S.events[-1].k != 'never' and not [e for e in ev[i0:] if e.k == 'backedge']:
                pass
            continue
        # one iteration
        if len(loops) > 1 and (ev[-1].fn, ev[-1].header) != (ev[i0].fn, ev[i0].header):
            if any(e.k.startswith('dq_') for e in ev[loops[-1]:]):
                ob('breadth first listing', None, 'several loops')
            continue  # judged at the return
        body = ev[i0 + 1:]
        g = [e for e in body if e.k == 'dq_get']
        if not g:
            ob('breadth first listing', None, 'no element is taken from the queue')
            continue
        n = I.norm(g[0].val)
        if any(I.norm(x.val) is not n for x in g):
            ob('breadth first listing', None, 'several elements per iteration')
            continue
        pops = [e for e in body if e.k == 'dq_pop']
        ob('the listed element leaves the queue', len(pops) == 1, '%d elements are removed' % len(pops), g[0])
        hows = {e.how for e in dpush} | {e.how for e in gets} | {e.how for e in pops}
        fifo = hows <= {'push_back', 'emplace_back', 'front', 'pop_front'} or hows <= {'push_front', 'emplace_front', 'back', 'pop_back'} or hows <= {'push', 'front', 'pop', 'emplace'}
        lifo = hows <= {'push_back', 'back', 'pop_back', 'emplace_back'} or hows <= {'push_front', 'front', 'pop_front'} or hows <= {'push', 'top', 'pop'}
        mism = pops and {(x.how) for x in g} | {x.how for x in pops} in ({'front', 'pop_back'}, {'back', 'pop_front'})
        ob('nodes leave the queue in the order they were entered', True if fifo else (False if lifo or mism else None), 'queue operations ' + ', '.join(sorted(hows)), g[0])
        lp = [e for e in body if e.k == 'push']
        vals = [I.norm(I.load(e.at, 8)) for e in lp]
        ob('every node is listed once', len(vals) == 1 and vals[0] is n, 'lists %s per iteration' % (', '.join(show(v, 3) for v in vals) or 'nothing'))
        for c, nm in ((I.norm(lo_of(n)), 'low'), (I.norm(hi_of(n)), 'high')):
            k = I.kind(c)
            e = [x for x in body if x.k == 'dq_push' and I.norm(x.val) is c]
            if k in ('bot', 'top'):
                ob('terminals are not visited', not e, '%s successor is a constant' % nm, e[0] if e else None)
            elif e:
                ob('successors are entered once', len(e) == 1, '%s successor is entered' % nm, e[0])
                ob('successors are visited unless visited before', True if mark_known(I, c, 0) else (False if k == 'inner' else None), '%s successor is entered %s' % (nm, 'unvisited'), e[0])
                if k is None:
                    ob('terminals are not visited', False, '%s successor is entered even if it is a constant' % nm, e[0])
                check_marked(I, ob, body, c, e[0])
            else:
                just = mark_known(I, c, 1)
                ob('successors are visited unless visited before', True if just else False, '%s successor is %s' % (nm, 'skipped as visited' if just else 'not entered'))
        for x in body:
            if x.k == 'dq_push' and I.norm(x.val) not in (I.norm(lo_of(n)), I.norm(hi_of(n))):
                ob('successors are visited unless visited before', None, 'enters %s' % show(x.val, 4), x)


def check_marked(I, ob, evs, c, at):
    st = [e for e in evs if e.k == 'store' and I.norm(e.base) is c and e.off is const(16)]
    if not st:
        ob('entered nodes are marked', False, 'a node is entered into the queue without being marked', at)
        return
    b = lshr(I.norm(st[-1].val), const(63))
    ob('entered nodes are marked', True if b is ONE else (False if is_const(b) else None), 'mark %s' % show(b, 3), st[-1])
