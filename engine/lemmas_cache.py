"""Node store, memo table and garbage collection of a manager."""
import re
import itertools
from .terms import *
from .interp import *
from .nodes import *
from .models import Models
from .lemmas_ops import setup_mgr, nodesym, locof, facts, clean, check_common
from .lemmas_table import loop_of, node_alive, table_interp, VAR
from .lemmas_pools import run, initial_of
from .numeric import witness

NC = 'BDD::bdd_node_cache'
PAGE = 'BDD::bdd_node_page'
MC = 'BDD::memo_cache'
MS = 'BDD::memo_struct'
N1 = 'freed nodes are reused first'
N2 = 'a node handed out is not in use'
N3 = 'every slot of a page is handed out'
N4 = 'node pages stay allocated'
N5 = 'the number of nodes is exact'
N6 = 'a freed node becomes available'
N7 = 'freeing a node drops its references'
M1 = 'a remembered result is only used for its operands'
M2 = 'entries of the memo table are only changed as a whole'
M3 = 'lookup and insertion use the same slot'
M4 = 'index of the memo table is within the table'
M5 = 'results that mention freed nodes are removed'
G1 = 'remembered results are purged after nodes have been freed'
G2 = 'all variables are cleaned'
G3 = 'the nodes of all variables are released before the manager is gone'


def offs(P, cls, *names):
    out = {}
    for f in names:
        try:
            out[f] = P.field(cls, f) // 8
        except Exception:
            return None
    return out


def lemma_node_cache(P, R):
    F = offs(P, NC, 'mem_node', 'nodeavail', 'nodeptr', 'botsink_', 'topsink_', 'total_nodes')
    fs = P.find(NC + r'::reserve_node\(')
    if F is None or not fs:
        R.ob(('C19',), N2, None, None, 'members of the node store not found')
        return
    C = sym('NC', ptr=True, nonnull=True, cls=NC)
    n = fs[0]

    def rec(I, a, nm):
        t = I.newheap(NODE, tag='node')
        I.event('rec', node=t, this=I.norm(a[0]))
        x = I.norm(I.load(addc(C, F['total_nodes']), 8, 'i64'))
        I.S.user['at_rec'] = {f: I.norm(I.load(addc(C, F[f]), 8, 'ptr')) for f in F}
        I.store(addc(C, F['total_nodes']), addc(x, 1), 8)
        return t

    def setup(I):
        for f in ('nodeavail', 'nodeptr', 'mem_node'):
            t = I.norm(I.load(addc(C, F[f]), 8, 'ptr'))
            if f != 'mem_node':
                setmeta(t, inner=True)
    I, outs, root = run(P, n, C, [], [([n], rec)], setup)
    R.absorb(I, outs)
    S = I.L.size(NODE)
    slots = None
    doff = None
    d = P.dtypes.get(PAGE)
    try:
        doff = P.field(PAGE, 'data') // 8
    except Exception:
        pass
    psz = I.L.size(PAGE)
    noff = None
    try:
        noff = P.field(PAGE, 'next') // 8
    except Exception:
        pass
    if psz and S and doff is not None and noff is not None:
        slots = (noff - doff) // S if noff > doff else (psz - doff) // S
    name = 'reserve_node'
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, name)
        if o.kind == 'unsupported':
            R.ob('C19', 'path of ' + name, None, locof(None, o, root), o.info)
        if o.kind != 'ret':
            continue
        v = I.norm(o.value)
        cl = clean(o)
        init = {f: initial_of(I, C, F[f]) for f in F}
        init = {f: I.norm(x) for f, x in init.items()}
        fin = {f: I.norm(I.load(addc(C, F[f]), 8, 'ptr')) for f in F}
        w = locof(None, o, root)
        d = sub(fin['total_nodes'], init['total_nodes'])
        R.ob('C19', N5, True if d is ONE else (False if cl else None), w, '%s: the number of nodes changes by %s' % (name, show(d, 3)), None if d is ONE else facts(I, o))
        lost = [e for e in o.S.events if e.k == 'delete' and I.norm(e.ptr) is not ZERO]
        for e in lost:
            R.ob(('C19', 'C25'), N4, False if cl else None, locof(e, o, root), '%s: page %s is released' % (name, show(I.norm(e.ptr), 3)), facts(I, o))
        isnull = I.decide(eq(init['nodeavail'], ZERO))
        recs = [e for e in o.S.events if e.k == 'rec']
        news = [e for e in o.S.events if e.k == 'new']
        if v is init['nodeavail']:
            nx = I.norm(initial_of(I, v, 0))
            off = next_off(P)
            if off is not None:
                nx = I.norm(initial_of(I, v, off))
            ok = isnull is False and fin['nodeavail'] is nx and fin['nodeptr'] is init['nodeptr']
            R.ob(('C19',), N2, True if ok else (False if cl else None), w, '%s: a freed node is handed out, next available: %s, null: %s' % (name, show(fin['nodeavail'], 3), isnull), None if ok else facts(I, o))
            R.ob('C19', N4, True if fin['mem_node'] is init['mem_node'] else (False if cl else None), w, '%s: pages unchanged' % name)
            continue
        R.ob('C19', N1, True if isnull is True else (False if cl else None), w, '%s: new memory is used when %s' % (name, 'no freed node is available' if isnull else 'freed nodes may be available'), None if isnull else facts(I, o))
        x = sub(init['nodeptr'], addc(init['mem_node'], doff or 0))
        if v is init['nodeptr'] and not news:
            ok = fin['nodeptr'] is addc(v, S) and fin['nodeavail'] is init['nodeavail'] or fin['nodeptr'] is addc(v, S) and fin['nodeavail'] is ZERO
            R.ob('C19', N2, True if ok else (False if cl else None), w, '%s: next unused node is %s bytes further' % (name, show(sub(fin['nodeptr'], v), 3)), None if ok else facts(I, o))
            R.ob('C19', N4, True if fin['mem_node'] is init['mem_node'] else (False if cl else None), w, '%s: pages unchanged' % name)
            if slots:
                inb = within(I, init, x, S, slots, addc(init['mem_node'], doff))
                over = inb is not True and (place(I, o, init, S, doff, (slots, slots + 1)) or within(I, init, x, S, slots + 1, addc(init['mem_node'], doff)) is True or not mentions(o, x, init))
                R.ob('C19', N2, True if inb is True else (False if cl and over else None), w, '%s: the node handed out lies in the page' % name, None if inb else facts(I, o))
            continue
        if recs or news:
            a = o.S.user.get('at_rec', fin)
            if slots and not (news == []):
                inb = within(I, init, x, S, slots, addc(init['mem_node'], doff))
                bad = inb is not False and (place(I, o, init, S, doff, (0, 1, slots - 2, slots - 1)) or within(I, init, x, S, slots - 1, addc(init['mem_node'], doff)) is False or inb is True or not mentions(o, x, init))
                R.ob('C19', N3, True if inb is False else (False if cl and bad else None), w, '%s: a new page is allocated when the last one is %s' % (name, 'used up' if inb is False else 'possibly not used up'), None if inb is False else facts(I, o))
            if len(news) == 1:
                h = I.norm(news[0].ptr)
                nb = I.norm(news[0].size)
                R.ob('C19', N2, True if is_const(nb) and psz and cval(nb) >= psz else None, locof(news[0], o, root), '%s: %s bytes are allocated' % (name, show(nb, 3)))
                base = addc(h, doff or 0)
                ok = a['mem_node'] is h and a['nodeptr'] is base
                if not recs:
                    ok = a['mem_node'] is h and (v is base and fin['nodeptr'] is addc(base, S))
                R.ob('C19', N2, True if ok else (False if cl else None), locof(news[0], o, root), '%s: after allocating a page the next unused node is %s' % (name, 'its first' if ok else show(a['nodeptr'], 4)), None if ok else facts(I, o))
                if noff is not None:
                    nx = I.norm(I.load(addc(h, noff), 8, 'ptr'))
                    ok = nx is init['mem_node']
                    R.ob(('C19', 'C25'), N4, True if ok else (False if cl else None), locof(news[0], o, root), '%s: new page is followed by %s' % (name, show(nx, 3)), None if ok else facts(I, o))
            elif recs:
                R.ob(('C19', 'C23'), 'a retried request has made progress', False if cl and not news else None, locof(recs[0], o, root), '%s: retried after %d allocations' % (name, len(news)))
            continue
        R.ob('C19', N2, None, w, '%s: returns %s' % (name, show(v, 4)))
    free_node(P, R, C, F)
    ctor(P, R, C, F, S, doff, slots)
    for pat, what in ((NC + r'::nr_nodes\(\) const', C),):
        for m in P.find(pat):
            I, outs, root = run(P, m, C, [])
            for o in outs:
                I.S = o.S
                if o.kind == 'ret':
                    t = I.norm(I.load(addc(C, F['total_nodes']), 8, 'i64'))
                    ok = I.norm(o.value) is t
                    R.ob('C19', N5, True if ok else (False if clean(o) else None), locof(None, o, root), 'reported number of nodes: %s' % show(I.norm(o.value), 4))
    for m in P.find(r'BDD::bdd_mgr::nr_nodes\(\) const'):
        I, outs, root = run(P, m, MGR, [])
        for o in outs:
            I.S = o.S
            if o.kind == 'ret':
                nc = addc(MGR, P.field('BDD::bdd_mgr', 'node_cache_') // 8)
                t = I.norm(I.load(addc(nc, F['total_nodes']), 8, 'i64'))
                ok = I.norm(o.value) is t
                R.ob('C19', N5, True if ok else (False if clean(o) else None), locof(None, o, root), 'number of nodes reported by the manager: %s' % show(I.norm(o.value), 4))


def place(I, o, init, S, doff, at):
    """does the path run when the next unused node is one of the given ones, for some contents of the other fields?"""
    if not any(init['nodeptr'] in subterms(f) for f in o.S.facts):
        return False
    base = 1 << 20
    dom = {init['mem_node']: (base,), init['nodeptr']: tuple(base + (doff or 0) + S * k for k in at)}
    return bool(witness([I.norm(f) for f in o.S.facts], (0, 1, 50, 5000, 1 << 30), dom=dom))


def next_off(P):
    try:
        return P.field(NODE, 'next_available') // 8
    except Exception:
        return None


def mentions(o, x, init):
    """has the position of the next unused node been tested on this path?"""
    return any(any(y is init['nodeptr'] for y in subterms(f)) for f in o.S.facts)


def within(I, init, x, S, n, start):
    """is the next unused node one of the first n nodes of the page?"""
    q = sdiv(x, const(S), 64)
    for c, pos in ((ult(q, const(n)), True), (slt(q, const(n)), True), (ult(x, const(n * S)), True), (ult(init['nodeptr'], addc(start, n * S)), True),
                   (eq(q, const(n)), False), (eq(init['nodeptr'], addc(start, n * S)), False), (eq(x, const(n * S)), False)):
        try:
            d = I.decide(I.norm(c))
        except Exception:
            continue
        if d is not None:
            return d if pos else not d
    return None


def free_node(P, R, C, F):
    p = nodesym('p')
    for n in P.find(NC + r'::free_node\('):
        def setup(I):
            I.assume(bnot(eq(p, BOT)))
            I.assume(bnot(eq(p, TOP)))
        I, outs, root = run(P, n, C, [p], (), setup)
        I2 = Interp(P, Models())
        root = P.func(n)

        def start(I):
            setup_mgr(I)
            I.assume(bnot(eq(p, BOT)))
            I.assume(bnot(eq(p, TOP)))
            I.S.events.clear()
            return I.run(root, [C, p])
        outs = I2.explore(start, 200)
        I = I2
        R.absorb(I, outs)
        for o in outs:
            I.S = o.S
            check_common(I, R, o, root, 'free_node')
            if o.kind != 'ret':
                continue
            cl = clean(o)
            w = locof(None, o, root)
            init = {f: I.norm(initial_of(I, C, F[f])) for f in F}
            fin = {f: I.norm(I.load(addc(C, F[f]), 8, 'ptr')) for f in F}
            d = sub(fin['total_nodes'], init['total_nodes'])
            R.ob('C19', N5, True if d is const(-1) else (False if cl else None), w, 'free_node: the number of nodes changes by %s' % show(d, 3))
            off = next_off(P) or 0
            nx = I.norm(I.load(addc(p, off), 8, 'ptr'))
            ok = fin['nodeavail'] is p and nx is init['nodeavail']
            R.ob('C19', N6, True if ok else (False if cl else None), w, 'free_node: first available node is %s, followed by %s' % (show(fin['nodeavail'], 3), show(nx, 3)), None if ok else facts(I, o))
            l, h = I.norm(initial_of(I, p, 0)), I.norm(initial_of(I, p, 8))
            bad = []
            same = I.decide(eq(l, h))
            for x in (l, h):
                dx = I.norm(o.S.xd.get(x, ZERO))
                if dx is not const(-1) and not (same is True):
                    bad.append('%s by %s' % (show(x, 3), show(dx, 3)))
            for x, dx in o.S.xd.items():
                if I.norm(x) not in (l, h) and I.norm(dx) is not ZERO:
                    bad.append('%s by %s' % (show(I.norm(x), 3), show(I.norm(dx), 3)))
            R.ob(('C05', 'C06'), N7, True if not bad else (False if cl else None), w, 'free_node: the counters of both successors decrease by one' if not bad else 'free_node changes counters of ' + ', '.join(bad), facts(I, o) if bad else None)


def ctor(P, R, C, F, S, doff, slots):
    for n in P.find(NC + r'::bdd_node_cache\('):
        I = Interp(P, Models())
        root = P.func(n)

        def start(I):
            t = I.newheap(NC, tag='cache')
            I.S.user['obj'] = t
            I.S.events.clear()
            return I.run(root, [t, MGR])
        outs = I.explore(start, 200)
        R.absorb(I, outs)
        for o in outs:
            I.S = o.S
            if o.kind != 'ret':
                continue
            cl = clean(o)
            t = o.S.user['obj']
            w = locof(None, o, root)
            g = {f: I.norm(I.load(addc(t, F[f]), 8, 'ptr')) for f in F}
            news = [e for e in o.S.events if e.k == 'new']
            if not news or g['mem_node'] is not I.norm(news[-1].ptr):
                R.ob('C19', N2, None, w, 'first page: %s' % show(g['mem_node'], 3))
                continue
            h = g['mem_node']
            pos = {}
            for f in ('botsink_', 'topsink_', 'nodeptr'):
                d = sub(g[f], addc(h, doff or 0))
                pos[f] = cval(d) if is_const(d) else None
            if None in pos.values():
                R.ob(('C19', 'C29'), N2, None, w, 'positions of the constants are not recognised')
                continue
            a, b, c = pos['botsink_'], pos['topsink_'], pos['nodeptr']
            ok = a % S == 0 and b % S == 0 and c % S == 0 and a != b and 0 <= a < c and 0 <= b < c and (slots is None or c <= slots * S)
            R.ob(('C19', 'C29'), N2, True if ok else (False if cl else None), w, 'constants at %d and %d, next unused node at %d' % (a, b, c))
            R.ob('C19', N3, True if c == 2 * S else (False if cl and c > 2 * S else None), w, 'unused nodes start at %d' % c)
            R.ob(('C19',), N6, True if g['nodeavail'] is ZERO else (False if cl else None), w, 'available nodes of a new store: %s' % show(g['nodeavail'], 3))
            R.ob(('C19',), N5, True if g['total_nodes'] is const(2) else (False if cl else None), w, 'number of nodes of a new store: %s' % show(g['total_nodes'], 3))


# ------------------------------------------------------------------ memo table
def memo_slot(I, base, off, C):
    """address of the entry and field of a store into the memo table"""
    if base.op != 'vdata':
        return None
    c, l = lin(off)
    s = I.L.size(MS)
    if any(k % s for _, k in l):
        return None
    return addc(add(base, off), -(c % s)), c % s


def purge_excl(I):
    for n in I.P.find(r'BDD::node_struct::recursively_revive\('):
        def c(I, a, nm):
            raise PathEnd('excluded', 'negative reference counter')
        I.contracts[n] = c


def memo_run(P, n, C, args, setup=None, maxp=800):
    I = Interp(P, Models())
    purge_excl(I)
    root = P.func(n)

    def start(I):
        setup_mgr(I)
        if setup:
            setup(I)
        mv = find_field(P, MC, 'memos')
        if mv is not None:      # the constructor establishes a non-empty table, nothing shrinks it
            I.add_lin(addc(I.norm(mk('vlen', addc(C, mv))), -1))
        I.S.events.clear()
        I.S.facts.clear()
        return I.run(root, [C] + args)
    try:
        outs = I.explore(start, maxp)
    except Budget:
        outs = []
    return I, outs, root


def find_field(P, cls, *cands):
    for c in cands:
        try:
            return P.field(cls, c) // 8
        except Exception:
            pass
    return None


def lemma_memo(P, R):
    fo = offs(P, MS, 'f', 'g', 'h', 'r')
    mv = find_field(P, MC, 'memos')
    mm = find_field(P, MC, 'memos_mask')
    lk = P.find(MC + r'::cache_lookup\(')
    ins = P.find(MC + r'::cache_insert\(')
    if fo is None or mv is None or mm is None or not lk or not ins:
        R.ob(('C04',), M1, None, None, 'members of the memo table not found')
        return
    C = sym('MEMO', ptr=True, nonnull=True, cls=MC)
    a = [nodesym(x) for x in 'fgh']
    r = nodesym('r')
    href = None
    I, outs, root = memo_run(P, lk[0], C, a)
    R.absorb(I, outs)
    if not outs:
        R.ob('C04', M1, None, (root.file, root.line, root.dem), 'too many paths')
    msk0 = None
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, 'cache_lookup')
        if o.kind == 'unsupported':
            R.ob('C04', 'path of cache_lookup', None, locof(None, o, root), o.info)
        if o.kind != 'ret':
            continue
        v = I.norm(o.value)
        w = locof(None, o, root)
        cl = clean(o)
        msk0 = I.norm(initial_of(I, C, mm))
        if v is ZERO:
            R.ob('C04', M1, True, w, 'nothing is found')
            continue
        X = v.args[1] if v.op == 'fld' and v.args[0] == 'r' else None
        if X is None and v in a:
            # an operand that the path knows to be the result of an entry
            X = next((t.args[1] for c in o.S.facts for t in subterms(c) if t.op == 'fld' and t.args[0] == 'r' and I.norm(t) is v), None)
            if any(I.decide(eq(x, y)) for x, y in itertools.combinations(a, 2)):
                X = None
        if X is None:
            R.ob('C04', M1, None, w, 'cache_lookup returns %s' % show(v, 4))
            continue
        bad = []
        unk = False
        for t, f in zip(a, 'fgh'):
            x = I.norm(I.load(addc(X, fo[f]), 8, 'ptr'))
            if I.decide(eq(x, I.norm(t))) is not True:
                bad.append(f)
        R.ob('C04', M1, True if not bad else (False if cl else None), w, 'the entry found agrees with the operands%s' % ('' if not bad else ' except ' + ', '.join(bad)), facts(I, o) if bad else None)
        nn = I.decide(eq(v, ZERO))
        ix = slot_index(I, X)
        if ix is not None and msk0 is not None and href is None:
            href = ix
        if ix is not None:
            ok = ix.op == 'and' and msk0 in ix.args
            R.ob(('C04', 'C08'), M4, True if ok else (False if cl and not any(y is msk0 for y in subterms(ix)) else None), w, 'index %s, mask %s' % (show(ix, 3), show(msk0, 3)))
    I, outs, root = memo_run(P, ins[0], C, a + [r])
    R.absorb(I, outs)
    if not outs:
        R.ob('C04', M2, None, (root.file, root.line, root.dem), 'too many paths')
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, 'cache_insert')
        if o.kind == 'unsupported':
            R.ob('C04', 'path of cache_insert', None, locof(None, o, root), o.info)
            continue
        if o.kind not in ('ret', 'backedge'):
            continue
        cl = clean(o)
        whole(I, R, o, root, 'cache_insert', C, fo, [I.norm(x) for x in a + [r]] if o.kind == 'ret' else None)
        if o.kind == 'backedge':
            continue
        # position
        msk = I.norm(I.load(addc(C, mm), 8, 'i64'))
        ent = [e for e in o.S.events if e.k == 'store' and I.norm(e.val) is I.norm(r) and e.base.op == 'vdata']
        if not ent:
            R.ob(('C23',), 'results are remembered', False if cl and not any(e.k in ('extern',) for e in o.S.events) else None, locof(None, o, root), 'cache_insert stores nothing', facts(I, o))
            continue
        s = memo_slot(I, I.norm(ent[-1].base), I.norm(ent[-1].off), C)
        ix = slot_index(I, s[0]) if s else None
        if ix is not None and href is not None:
            want = hash_with(href, msk0)
            got = hash_with(ix, msk)
            ok = want is not None and got is want
            R.ob(('C23', 'C04'), M3, True if ok else (False if cl and want is not None and got is not None else None), locof(ent[-1], o, root), 'entry is stored at %s with mask %s' % (show(ix, 4), show(msk, 3)), None if ok else facts(I, o))
            ok = ix.op == 'and' and msk in ix.args
            R.ob(('C04', 'C08'), M4, True if ok else (False if cl and got is None and not any(y is msk for y in subterms(ix)) else None), locof(ent[-1], o, root), 'index %s, mask %s' % (show(ix, 3), show(msk, 3)))
        rs = [e for e in o.S.events if e.k == 'resize']
        if rs:
            n = I.norm(rs[-1].n)
            ok = msk is addc(n, -1)
            d = sub(addc(msk, 1), n)
            # the table must not be shorter than the mask allows
            R.ob(('C04', 'C08'), M4, True if ok else (False if cl else None), locof(rs[-1], o, root), 'table of %s entries with mask %s' % (show(n, 3), show(msk, 3)), None if ok else facts(I, o))
        else:
            R.ob(('C04', 'C08'), M4, True if msk is msk0 else (False if cl else None), locof(None, o, root), 'mask %s' % show(msk, 3))
    # initialisation
    for n in P.find(MC + r'::memo_cache\('):
        I = Interp(P, Models())
        root = P.func(n)

        def start(I):
            t = I.newheap(MC, tag='memo')
            I.S.user['obj'] = t
            I.S.events.clear()
            return I.run(root, [t, sym('NC', ptr=True, nonnull=True, cls=NC)])
        try:
            outs = I.explore(start, 200)
        except Budget:
            outs = []
        R.absorb(I, outs)
        for o in outs:
            I.S = o.S
            if o.kind != 'ret':
                continue
            t = o.S.user['obj']
            rs = [e for e in o.S.events if e.k == 'resize']
            msk = I.norm(I.load(addc(t, mm), 8, 'i64'))
            nn = I.norm(rs[-1].n) if rs else None
            ok = rs and msk is addc(nn, -1) and nn is not ZERO
            R.ob(('C04', 'C08', 'C29'), M4, True if ok else (False if clean(o) and (not rs or is_const(msk)) else None), locof(rs[-1] if rs else None, o, root), 'new table of %s entries with mask %s' % (show(nn, 3) if nn is not None else 'no', show(msk, 3)))
    purge(P, R, C, fo, mv)
    entry_default(P, R, fo)


def entry_default(P, R, fo):
    """new entries are empty"""
    for n in P.find(MS + r'::memo_struct\(\)'):
        I = Interp(P, Models())
        root = P.func(n)

        def start(I):
            t = I.newheap(MS, tag='entry')
            I.S.user['obj'] = t
            I.S.events.clear()
            return I.run(root, [t])
        for o in I.explore(start, 20):
            I.S = o.S
            if o.kind == 'ret':
                t = o.S.user['obj']
                v = I.norm(I.load(addc(t, fo['r']), 8, 'ptr'))
                R.ob(('C04', 'C08'), M1, True if v is ZERO else (False if clean(o) else None), locof(None, o, root), 'result of a new entry: %s' % show(v, 3))


def slot_index(I, X):
    c, l = lin(X)
    v = [(t, k) for t, k in l if t.op == 'vdata']
    if len(v) != 1 or v[0][1] != 1:
        return None
    s = I.L.size(MS)
    off = sub(X, v[0][0])
    c, l = lin(off)
    if c % s or any(k % s for _, k in l):
        return None
    return udiv(off, const(s))


def hash_with(ix, mask):
    """the hash of an index hash & mask"""
    if ix is not None and ix.op == 'and' and mask in ix.args:
        return ix.args[0] if ix.args[1] is mask else ix.args[1]
    return None


def whole(I, R, o, root, name, C, fo, args):
    """entries written on the path hold the operands and result of one computation"""
    slots = {}
    k0 = 0
    if o.kind == 'backedge':
        k0, e = loop_of(o)
        k0 = k0 or 0
    for e in o.S.events[k0:]:
        if e.k == 'store' and I.norm(e.base).op == 'vdata':
            m = memo_slot(I, I.norm(e.base), I.norm(e.off), C)
            if m is not None:
                slots[m[0]] = e
    for X, e in slots.items():
        f = {k: I.norm(I.load(addc(X, fo[k]), 8, 'ptr')) for k in fo}
        cl = clean(o)
        if f['r'] is ZERO or I.decide(eq(f['r'], ZERO)) is True:
            R.ob('C04', M2, True, locof(e, o, root), '%s: an entry is emptied' % name)
            continue
        ok = False
        if args is not None:
            ok = all(f[k] is x or I.decide(eq(f[k], x)) is True for k, x in zip('fghr', args))
        if not ok:
            # the same as some entry before
            src = f['r']
            if src.op == 'fld' and src.args[0] == 'r':
                Y = src.args[1]
                ok = all(same(I, f[k], I.norm(initial_of(I, Y, fo[k])), src, k) for k in 'fgh')
        R.ob('C04', M2, True if ok else (False if cl else None), locof(e, o, root), '%s: the entry becomes (%s)' % (name, ', '.join(show(f[k], 3) for k in 'fghr')), None if ok else facts(I, o))


def same(I, x, y, src, k):
    if x is y:
        return True
    if x.op == 'fld' and x.args[0] == k and x.args[1:] == src.args[1:]:
        return True
    return I.decide(eq(x, y)) is True


def purge(P, R, C, fo, mv):
    fs = P.find(MC + r'::purge\(')
    if not fs:
        R.ob('C06', M5, None, None, 'purge not found')
        return
    I, outs, root = memo_run(P, fs[0], C, [])
    R.absorb(I, outs)
    if not outs:
        R.ob('C06', M5, None, (root.file, root.line, root.dem), 'too many paths')
    symb = symbols(P)
    keys = set()
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, 'purge')
        if o.kind == 'unsupported':
            R.ob(('C06', 'C04'), 'path of purge', None, locof(None, o, root), o.info)
            continue
        if o.kind != 'backedge':
            continue
        k, e = loop_of(o)
        whole(I, R, o, root, 'purge', C, fo, None)
        cl = clean(o)
        # entry visited: the one whose fields are mentioned
        X = visited(I, o, k)
        if X is None:
            R.ob(('C06', 'C04'), M5, None, locof(e, o, root), 'the entry visited is not recognised')
            continue
        keys.add(e.key[1:4])
        r = I.norm(I.load(addc(X, fo['r']), 8, 'ptr'))
        if r is ZERO or I.decide(eq(r, ZERO)) is True:
            R.ob(('C06', 'C04'), M5, True, locof(e, o, root), 'an entry is removed or was empty')
            continue
        bad = []
        for f in 'fghr':
            x = I.norm(I.load(addc(X, fo[f]), 8, 'ptr'))
            al = True if I.kind(x) in ('bot', 'top') else node_alive(I, x)
            if f == 'h' and al is not True and any(I.decide(eq(x, s)) is True for s in symb):
                al = True
            if al is not True:
                bad.append((f, al))
        R.ob(('C06', 'C04'), M5, True if not bad else (False if cl else None), locof(e, o, root), 'an entry is kept whose nodes are alive%s' % ('' if not bad else ', except possibly ' + ', '.join(f for f, _ in bad)), facts(I, o) if bad else None)
    for o in outs:
        if o.kind != 'ret':
            continue
        I.S = o.S
        cl = clean(o)
        lp = [e for e in o.S.events if e.k == 'loop' and e.key[1:4] in keys]
        n = I.norm(mk('vlen', addc(C, mv)))
        if not lp:
            R.ob(('C06', 'C04'), M5, False if cl and not any(e.k in ('loop', 'extern', 'clear', 'call') for e in o.S.events) else None, locof(None, o, root), 'the table is not visited')
            continue
        e = lp[0]
        ok = None
        idx = visited_end(I, o, e)
        if e.first:
            ok = True if I.decide(eq(n, ZERO)) is True or n is ZERO else (False if not any(f for f in o.S.facts if any(x is n for x in subterms(f))) else None)
        else:
            for i in idx:
                if I.decide(eq(i, n)) is True or (I.prove_ge0(sub(i, n)) and I.prove_ge0(sub(n, i))):
                    ok = True
                elif I.prove_ge0(addc(sub(n, i), -1)):
                    ok = False if ok is None else ok
        R.ob(('C06', 'C04'), M5, True if ok else (False if ok is False and cl else None), locof(e, o, root), 'all entries are visited' if ok else 'entries may be left out')


def visited_end(I, o, e):
    """candidates for the number of entries visited when the loop is left"""
    res = []
    K = e.info['K']
    for r, v in e.entry.items():
        if e.info['phi'].get(r) == ('aff', 1) and v is ZERO:
            res.append(I.norm(K))
    s = I.L.size(MS)
    for (b, off), c in e.info['cells'].items():
        if c[0][0] in ('opq', 'aff'):
            v = I.norm(I.load(add(b, off), 8, 'ptr'))
            d = [t for t, k in lin(v)[1] if t.op == 'vdata']
            if len(d) == 1:
                res.append(udiv(sub(v, d[0]), const(s)))
            elif c[0] == ('aff', 1):
                res.append(v)
    for r in e.entry:
        if e.info['phi'].get(r, ('x',))[0] in ('opq', 'aff') and is_ptr(e.entry[r]):
            res.append(I.norm(K))
    return res


def visited(I, o, k):
    c = {}
    for f in o.S.facts:
        for x in subterms(f):
            if x.op == 'fld' and x.args[0] in ('f', 'g', 'h', 'r') and x.args[1].op in ('lin', 'vdata'):
                c[x.args[1]] = c.get(x.args[1], 0) + 1
    for e in o.S.events[k:]:
        if e.k == 'store' and I.norm(e.base).op == 'vdata':
            m = memo_slot(I, I.norm(e.base), I.norm(e.off), None)
            if m:
                c[m[0]] = c.get(m[0], 0) + 1
    if len(c) == 1:
        return list(c)[0]
    return None


def symbols(P):
    out = []
    for n in P.find(MS + r'::(and|or|xor)_symb\(\)'):
        I = Interp(P, Models())
        for o in I.explore(lambda I: I.run(P.func(n), []), 5):
            if o.kind == 'ret' and isinstance(o.value, T):
                out.append(o.value)
    return out


# ------------------------------------------------------------------ collection
def over_vars(P, I, R, outs, root, ev, props, rule, verb, name):
    """some loop of the function does ev for every variable of the manager"""
    S = I.L.size(VAR)
    vo = addc(MGR, P.field('BDD::bdd_mgr', 'vars') // 8)
    shape, skips, vague_ = {}, {}, set()
    for o in outs:
        if o.kind != 'backedge':
            continue
        k, e = loop_of(o)
        if e is None:
            continue
        I.S = o.S
        sw = [x for x in o.S.events[k:] if x.k == ev]
        it = ZERO if o.S.events[-1].mode == 'first' else I.norm(e.K)
        if not sw:
            skips.setdefault(e.key[1:4], o)
            continue
        for x in sw:
            d = I.norm(sub(x.var, I.load(vo, 8, 'ptr')))
            if S == 0 or any(t.op == 'vdata' for t, _ in lin(d)[1]):
                vague_.add(e.key[1:4])
                continue
            q = I.norm(udiv(d, const(S)))
            if q.op == 'udiv' or scale(q, S) is not d:
                vague_.add(e.key[1:4])
                continue
            shape.setdefault(e.key[1:4], []).append((q, it, x))
    done = False
    for o in outs:
        if o.kind != 'ret':
            continue
        I.S = o.S
        cl = clean(o)
        size = I.norm(sub(I.load(addc(vo, 8), 8, 'ptr'), I.load(vo, 8, 'ptr')))
        best, why = None, None
        for e in o.S.events:
            if e.k != 'loop' or e.key[1:4] not in shape or e.key[1:4] in vague_:
                continue
            fs = shape[e.key[1:4]]
            K = ZERO if e.first else I.norm(e.info['K'])
            for q, it, _ in fs:
                if it is not ZERO and abs(dict(lin(q)[1]).get(it, 1)) > 1:
                    best, why = False, 'steps of %d variables' % abs(dict(lin(q)[1])[it])
            for sign in (1, -1):
                a = {I.norm(sub(q, scale(it, sign))) for q, it, _ in fs}
                if len(a) != 1:
                    continue
                a = a.pop()
                if any(t.op == 'iter' for t in subterms(a)):
                    continue
                lo, hi = (a, add(a, K)) if sign > 0 else (addc(sub(a, K), 1), addc(a, 1))
                left, right = scale(lo, S), I.norm(sub(size, scale(hi, S)))
                if e.first and sign < 0:
                    continue
                g = (I.norm(lo) is ZERO or I.prove_ge0(scale(I.norm(lo), -1)), right is ZERO or I.prove_ge0(scale(right, -1)))
                if e.first:
                    g = (True, size is ZERO or I.prove_ge0(scale(size, -1)))
                if all(g):
                    sk = skips.get(e.key[1:4])
                    best = True if sk is None else best
                    why = why or ('some variables are passed over' if sk is not None else None)
                elif best is None:
                    if (is_const(lo) and cval(I.norm(lo)) > 0 if is_const(I.norm(lo)) else False) or I.prove_ge0(addc(right, -1)):
                        best, why = False, 'variables %s to %s' % (show(I.norm(lo), 3), show(I.norm(addc(hi, -1)), 3))
        if best is None and not shape:
            continue
        if best is None and (size is ZERO or I.prove_ge0(scale(size, -1))):
            best = True
        done = True
        R.ob(props, rule, True if best else (False if best is False and cl and ev == 'release' else None), locof(None, o, root), '%s: %s' % (name, 'all variables are ' + verb if best else 'not all variables are %s%s' % (verb, ': ' + why if why else '')), None if best else facts(I, o))
    if not done:
        R.ob(props, rule, None, (root.file, root.line, root.dem), '%s: no loop over the variables' % name)


def fresh_total(I, total):
    """number of nodes at the beginning"""
    b, off = I.split(I.norm(total))
    return I.initial(b, off, 8)


def lemma_collect(P, R):
    cg = P.find(r'BDD::bdd_mgr::collect_garbage\(')
    rd = P.find(VAR + r'::remove_dead_nodes\(')
    pg = P.find(MC + r'::purge\(')
    fr = P.find(NC + r'::free_node\(')
    rl = P.find(VAR + r'::release_nodes\(')
    if not cg or not rd or not pg:
        R.ob('C06', G1, None, None, 'functions of the garbage collection not found')
        return
    I = Interp(P, Models())

    total = addc(MGR, P.field('BDD::bdd_mgr', 'node_cache_') // 8)
    try:
        total = addc(total, P.field('BDD::bdd_node_cache', 'total_nodes') // 8)
    except Exception:
        total = None

    def c_rd(I, a, n):
        ev = I.event('sweep', var=I.norm(a[0]))
        if total is not None:
            # nodes are freed, their number drops
            I.store(total, mk('swept', I.norm(I.load(total, 8)), I.norm(a[0])), 8)

    def c_pg(I, a, n):
        I.event('purge', memo=I.norm(a[0]))
    for n in rd:
        I.contracts[n] = c_rd
    for n in pg:
        I.contracts[n] = c_pg
    root = P.func(cg[0])

    def start(I):
        setup_mgr(I)
        I.S.events.clear()
        I.S.facts.clear()
        return I.run(root, [MGR])
    outs = I.explore(start, 200)
    R.absorb(I, outs)
    memo = addc(MGR, P.field('BDD::bdd_mgr', 'memo_') // 8)
    vo = P.field('BDD::bdd_mgr', 'vars') // 8
    S = I.L.size(VAR)
    sweeps = {}
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, 'collect_garbage')
        if o.kind == 'unsupported':
            R.ob('C06', 'path of collect_garbage', None, locof(None, o, root), o.info)
            continue
        if o.kind != 'backedge':
            continue
        k, e = loop_of(o)
        sw = [x for x in o.S.events[k:] if x.k == 'sweep']
        for x in sw:
            sweeps.setdefault(e.key[1:4], []).append(x)
            d = [t for t, kk in lin(x.var)[1] if t.op == 'vdata']
            R.ob('C06', G2, True if len(d) == 1 else None, locof(x, o, root), 'a variable of the manager is cleaned')
    for o in outs:
        if o.kind != 'ret':
            continue
        I.S = o.S
        cl = clean(o)
        ev = o.S.events
        pu = [k for k, e in enumerate(ev) if e.k == 'purge']
        lp = [k for k, e in enumerate(ev) if e.k == 'loop' and e.key[1:4] in sweeps] + [k for k, e in enumerate(ev) if e.k == 'sweep']
        ok = bool(pu) and all(k < pu[-1] for k in lp)
        if not lp and not pu:
            R.ob('C06', G1, None, locof(None, o, root), 'nothing is cleaned')
            continue
        if not pu and lp and total is not None and I.norm(I.load(total, 8)) is I.norm(fresh_total(I, total)):
            R.ob(('C06', 'C04'), G1, True, locof(None, o, root), 'no node has been freed')
            continue
        R.ob(('C06', 'C04'), G1, True if ok else (False if cl else None), locof(ev[pu[-1]] if pu else None, o, root), 'the memo table is %s' % ('purged last' if ok else 'not purged after nodes have been freed'), None if ok else facts(I, o))
        for k in pu:
            R.ob(('C06', 'C04', 'C20'), G1, True if ev[k].memo is memo else (False if cl else None), locof(ev[k], o, root), 'the memo table of the manager is purged')
    over_vars(P, I, R, outs, root, 'sweep', ('C06',), G2, 'cleaned', 'collect_garbage')
    # who frees nodes?
    callers = {}
    for n in P.reachable(list(P.repo_functions())):
        if n in P.lines:
            for c in P.callees(n):
                callers.setdefault(c, set()).add(n)
    pset = set(pg)

    def purges(n):
        return bool(pset & set(P.reachable([n])))
    for n in rd:
        seen, st = set(), [(n, (P.demangled(n),))]
        while st:
            x, path = st.pop()
            if x in seen:
                continue
            seen.add(x)
            f = P.func(x)
            if x != n and purges(x):
                R.ob('C06', G1, True, (f.file, f.line, f.dem), 'nodes are freed and the memo table is purged')
                continue
            up = [c for c in callers.get(x, ()) if c not in seen and not driver(P, c)]
            if not up and x != n:
                R.ob(('C06', 'C04'), G1, None if any(x in l for m, l in P.lines.items() if m != x) else False, (f.file, f.line, f.dem), 'nodes are freed without purging the memo table', list(path))
            for c in up:
                st.append((c, path + (P.demangled(c),)))
    ok_callers = set(rd) | set(rl)
    for n in fr:
        for c in callers.get(n, ()):
            f = P.func(c)
            g = up_to(callers, c, ok_callers)
            R.ob(('C06', 'C05'), 'nodes are only freed by the tables', True if g else None, (f.file, f.line, f.dem), 'calls free_node')
    for n in rl:
        for c in callers.get(n, ()):
            if driver(P, c):
                continue
            f = P.func(c)
            d = P.demangled(c)
            top = '~' in d.split('(')[0]
            R.ob(('C06', 'C05', 'C25'), 'all nodes are only released when the manager is destroyed', True if top else None, (f.file, f.line, f.dem), 'calls release_nodes')


def lemma_teardown(P, R):
    """destroying a manager gives back the nodes of every variable first"""
    ds = P.find(r'BDD::bdd_mgr::~bdd_mgr\(')
    rl = P.find(VAR + r'::release_nodes\(')
    if not ds or not rl:
        R.ob(('C25',), G3, None, None, 'destructor of the manager not found')
        return
    I = Interp(P, Models())

    def c_rl(I, a, n):
        I.event('release', var=I.norm(a[0]))
    for n in rl:
        I.contracts[n] = c_rl
    root = P.func(ds[0])
    for n in P.callees(ds[0]):
        d = P.demangled(n)
        if '~' in d and n not in rl:
            I.contracts[n] = lambda I, a, n: None
    start = lambda I: (setup_mgr(I), I.S.events.clear(), I.S.facts.clear(), I.run(root, [MGR]))[-1]
    outs = I.explore(start, 100)
    R.absorb(I, outs)
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, '~bdd_mgr')
        if o.kind == 'unsupported':
            R.ob(('C25',), G3, None, locof(None, o, root), o.info)
    if not set(rl) & set(P.reachable([ds[0]])):
        fr = set(P.find(NC + r'::free_node\('))
        R.ob(('C25',), G3, None if fr & set(P.reachable([ds[0]])) else False, (root.file, root.line, root.dem), '~bdd_mgr: the nodes of the variables are not released')
        return
    over_vars(P, I, R, outs, root, 'release', ('C25',), G3, 'released', '~bdd_mgr')


def driver(P, n):
    l = P.lines.get(n, '')
    return 'tools/driver.cpp' in l


def up_to(callers, c, good):
    seen, st = set(), [c]
    while st:
        x = st.pop()
        if x in good:
            continue
        if x in seen:
            continue
        seen.add(x)
        u = callers.get(x, set())
        if not u:
            return False
        st += list(u)
    return True
