"""Hash tables of the variables: lookup, insertion, growth, clean-up, page pools, special members of var_struct."""
import re
from . import terms as TT
from .terms import *
from .interp import *
from .nodes import *
from .models import Models
from . import contracts as C
from .lemmas_ops import setup_mgr, nodesym, locof, facts, clean, check_common, slot

VAR = 'BDD::var_struct'
V = sym('V', ptr=True, nonnull=True, cls=VAR)
MASK0 = fld('mask', V, 'unsigned long')
POOL = r'BDD::unique_table_page_cache<(\d+)ul, \d+ul>::'


def page_helpers(P):
    """members of var_struct that choose a page pool by size: functions calling at least three pools"""
    res = {'reserve_page': [], 'free_page': []}
    for n in P.find(r'(BDD::node_struct\*\* |auto |void )?BDD::var_struct::'):
        for what in res:
            k = {m.group(1) for c in P.callees(n) for m in [re.search(POOL + what + r'\(', P.demangled(c))] if m}
            if len(k) >= 3:
                res[what].append(n)
    return res


def fields(P):
    out = {}
    for f in ('mask', 'free', 'base', 'var', 'timer'):
        try:
            out[f] = P.field(VAR, f) // 8
        except Exception:
            return None
    return out


def is_page(b):
    return b.op == 'page' or (b.op == 'fld' and b.args[0].startswith('base') and getmeta(b.args[1], 'cls') == VAR)


def table_interp(P, throwing=True, release=True):
    I = Interp(P, Models())
    I.weak = is_page
    I.weakmeta = {PTR: True, 'cls': NODE, 'inner': True}
    h = page_helpers(P)

    def c_new(I, a, n):
        m = I.norm(a[1])
        if I.choose(2) == 1:
            I.event('new_page_fails')
            raise PathEnd('throw', 'no page')
        t = I.newheap('BDD::node_struct*', tag='page', zero=True)
        I.event('new_page', page=t, mask=m)
        return t

    def c_free(I, a, n):
        I.event('free_page', page=I.norm(a[1]), mask=I.norm(a[2]) if len(a) > 2 else None)
        return None
    for n in h['reserve_page']:
        I.contracts[n] = c_new
    for n in h['free_page']:
        if len(P.func(n).args) == 3:
            I.contracts[n] = c_free

    def c_rsv(I, a, n):
        t = I.newheap(NODE, tag='newnode')
        I.event('reserve_node', node=t)
        return t

    def c_fr(I, a, n):
        p = I.norm(a[1])
        I.event('free_node', node=p)
        for x in (lo_of(p), hi_of(p)):
            I.xref_add(I.norm(x), -1)
        return None
    for pat, c in ((r'BDD::bdd_node_cache::reserve_node\(', c_rsv), (r'BDD::bdd_node_cache::free_node\(', c_fr)):
        for n in P.find(pat):
            I.contracts[n] = c
    return I


def setup_table(I):
    setup_mgr(I)
    setmeta(MASK0, lowmask=True, small=True)
    setmeta(fld('free', V, 'unsigned long'), small=True)
    # the smallest table has 64 slots
    I.add_lin(addc(MASK0, -63))


def index_of_off(off):
    """off == 8*index"""
    c, l = lin(off)
    if c % 8 or any(k % 8 for _, k in l):
        return None
    return udiv(off, const(8))


def probe(ix):
    """index -> (mask, start, coefficient of the iteration) or None"""
    if ix.op == 'bits' and len(ix.args[0]) == 1 and ix.args[0][0][0] == 0 and ix.args[0][0][3] == 0:
        x = ix.args[0][0][2]
        it = [(a, k) for a, k in lin(x)[1] if a.op == 'iter']
        if len(it) > 1:
            return None
        st = x
        for a, k in it:
            st = sub(st, scale(a, k))
        return const((1 << ix.args[0][0][1]) - 1), st, (it[0][1] if it else None)
    if ix.op != 'and':
        return None
    for m, x in ((ix.args[0], ix.args[1]), (ix.args[1], ix.args[0])):
        if lowmask(m):
            c, l = lin(x)
            it = [(a, k) for a, k in l if a.op == 'iter']
            if len(it) > 1:
                return None
            st = x
            for a, k in it:
                st = sub(st, scale(a, k))
            return m, st, (it[0][1] if it else None)
    return None


def linear(ix):
    """index of a scan over the whole table: (start, iteration atom or None)"""
    c, l = lin(ix)
    it = [(a, k) for a, k in l if a.op == 'iter' and k == 1]
    if len(l) == 1 and len(it) == 1:
        return c, it[0][0]
    if not l:
        return c, None
    return None


def final(I, F):
    return {f: I.norm(I.load(addc(V, F[f]), 8, 'ptr' if f == 'base' else 'i64')) for f in ('mask', 'free', 'base')}


def hash_ref(P, store={}):
    """hash of a pair of successors as used for lookups, as function of (l, h)"""
    key = id(P)
    if key not in store:
        store[key] = None
        fs = P.find(r'BDD::var_struct::unique_find\(unsigned long, ')
        if fs:
            I, outs = explore_find(P)
            for o in outs:
                for e in o.S.events:
                    if e.k == 'tload' and store[key] is None:
                        p = probe(index_of_off(e.off) or ZERO)
                        if p and p[2] is None:
                            store[key] = p[1]
    return store[key]


def hash_at(ref, l, h):
    a, b = sym('l'), sym('h')
    t1, t2 = sym('!tmp1'), sym('!tmp2')
    x = subst(subst(ref, {nodesym('l'): t1, nodesym('h'): t2}, {}), {t1: l, t2: h}, {})
    return x


_found = {}


def explore_find(P):
    if id(P) in _found:
        return _found[id(P)]
    fs = P.find(r'BDD::var_struct::unique_find\(unsigned long, ')
    root = P.func(fs[0])
    I = table_interp(P)
    l, h = nodesym('l'), nodesym('h')

    def rec(I, a, name):
        f = P.func(name)
        a = [I.norm(x) for x in a]
        i = a[1] if len(a) > 3 else I.norm(I.load(addc(V, fields(P)['var']), 8, 'i64'))
        t = mk('uf', i, a[-2], a[-1])
        setmeta(t, ptr=True, cls=NODE, nonnull=True)
        I.event('rec', i=i, lo=a[-2], hi=a[-1], this=a[0])
        return t
    for n in P.scc(fs[0]):
        I.contracts[n] = rec

    def start(I):
        setup_table(I)
        i = I.norm(fld('var', V, 'unsigned long'))
        for k in ('l', 'h'):
            I.kind(nodesym(k))
        I.S.events.clear()
        I.S.facts.clear()
        return I.run(root, [V, sym('index', small=True), l, h])
    try:
        outs = I.explore(start, 1500)
    except Budget:
        outs = []
    I.root = root
    remember_reads(I, outs)
    _found[id(P)] = (I, outs)
    return I, outs


RL = 'a node is looked up before it is created'
RP = 'lookup and insertion follow the same probe sequence'
RC = 'lookup compares both successors'
RN = 'a new node has the given label and successors'
RS = 'a node is stored in an empty slot'
RF = 'the number of free slots is kept'
RE = 'a slot stays empty'
RT = 'failing to create a node changes nothing'
RG = 'a grown table replaces the old one'
RH = 'all nodes are kept when a table is rehashed'
RX = 'table index is within the table'


def scan_loops(o):
    """loop keys of scans over whole tables: key -> (base, iteration atom) by the loads in the path"""
    res = {}
    for e in o.S.events:
        if e.k == 'tload':
            ix = index_of_off(e.off)
            p = linear(ix) if ix is not None else None
            if p and p[1] is not None:
                res[p[1]] = e.base
    return res


def mask_of(I, o, base, F, m0):
    """mask of a table page"""
    b0 = fld('base', V)
    for e in o.S.events:
        if e.k == 'new_page' and I.norm(e.page) is base:
            return I.norm(e.mask)
    if is_page(base) and base.op == 'fld':
        return I.norm(m0)
    return None


def check_index(I, R, o, root, F, name, props):
    """every access is inside of its page"""
    b = set()
    for e in o.S.events:
        if e.k not in ('tload', 'tstore'):
            continue
        m = mask_of(I, o, I.norm(e.base), F, MASK0)
        ix = index_of_off(I.norm(e.off))
        if m is None or ix is None or (ix, m) in b:
            continue
        b.add((ix, m))
        p = probe(ix)
        ok = None
        if p:
            if p[0] is m:
                ok = True
            elif I.prove_ge0(sub(m, p[0])):
                ok = True
            elif I.prove_ge0(addc(sub(p[0], m), -1)):
                ok = False if clean(o) else None
        elif I.prove_ge0(sub(m, ix)):
            ok = True
        else:
            d = I.decide(ult(m, ix))
            ok = True if d is False else None
            if ok is None and lin_is_hash(ix):
                ok = False if clean(o) else None
            if ok is None and linear(ix):
                # scan with a bound beyond the table
                ok = scan_bound(I, o, ix, m)
        R.ob(props, RX, ok, locof(e, o, root), '%s: index %s of a table with mask %s' % (name, show(ix, 4), show(m, 3)), facts(I, o) if ok is not True else None)


def lin_is_hash(ix):
    """an index computed from hash keys without mask"""
    return any(x.op == 'fld' and x.args[0] == 'hash_key' for x in subterms(ix)) and not any(x.op == 'and' for x in subterms(ix))


def scan_bound(I, o, ix, m):
    c, it = linear(ix)
    if it is None:
        return None
    # a bound of the form it <= m + 1 makes index m + 1 possible
    for f in o.S.lins:
        k, l = lin(f)
        d = dict(l)
        if d.get(it) == -1 and I.norm(add(f, it)) is addc(m, 1) and not c:
            return False if clean(o) else None
    return None


def lemma_unique_find(P, R):
    fs = P.find(r'BDD::var_struct::unique_find\(unsigned long, ')
    F = fields(P)
    if not fs or F is None:
        R.ob(('C03', 'C24'), 'the unique table is found', None, None, 'unique_find or the table fields are missing')
        return
    I, outs = explore_find(P)
    root = I.root
    R.absorb(I, outs)
    if not outs:
        R.ob(('C03', 'C24'), RL, None, (root.file, root.line, root.dem), 'too many paths')
    href = hash_ref(P)
    if href is not None:
        flds = {x.args[0] for x in subterms(href) if x.op == 'fld'}
        bad = sorted(flds & {'marked_', 'xref'})
        st = False if bad else True if flds <= {'hash_key', 'index', 'lo', 'hi', 'var'} else None
        R.ob(('C03', 'C23'), 'the slot of a node depends on what never changes', st, (root.file, root.line, root.dem), 'the hash value depends on %s' % ', '.join(bad or sorted(flds)))
    name = 'unique_find'
    step = None
    steps = {}
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, name)
        if o.kind == 'unsupported':
            R.ob(('C03', 'C24'), 'path of unique_find', None, locof(None, o, root), o.info)
            continue
        l, h, i = I.norm(nodesym('l')), I.norm(nodesym('h')), I.norm(sym('index'))
        ev = o.S.events
        check_index(I, R, o, root, F, name, ('C03', 'C18'))
        news = [e for e in ev if e.k == 'reserve_node']
        pages = [e for e in ev if e.k == 'new_page']
        tst = [e for e in ev if e.k == 'tstore']
        base0 = I.norm(fld('base', V))
        free0 = I.norm(fld('free', V))
        mask0 = I.norm(MASK0)
        if o.kind in ('ret', 'throw'):
            f = final(I, F)
            growth_ok(I, R, o, root, F, f, base0, mask0, free0, href)
        if o.kind == 'throw':
            bad = []
            if news:
                bad.append('a node has been taken')
            if f['base'] is base0 and (f['mask'] is not mask0 or f['free'] is not free0):
                bad.append('mask or free changed')
            if f['base'] is not base0 and f['free'] is not add(free0, sub(f['mask'], mask0)):
                bad.append('free slots changed')
            if any(v is not ZERO and n not in o.S.fresh for n, v in ((n, I.norm(v)) for n, v in o.S.xd.items())):
                bad.append('reference counters changed')
            if any(e.base is base0 for e in tst):
                bad.append('table changed')
            R.ob(('C24',), RT, True if not bad else (False if clean(o) else None), locof(None, o, root), '%s fails%s' % (name, ': ' + ', '.join(bad) if bad else ''), facts(I, o) if bad else None)
            continue
        if o.kind == 'backedge':
            check_backedge(I, R, o, root, F, name, href, base0, mask0, steps, l, h)
            continue
        if o.kind != 'ret':
            continue
        v = I.norm(o.value)
        recs = [e for e in ev if e.k == 'rec']
        if v.op == 'uf':
            good = v.args[1] is l and v.args[2] is h
            lab = v.args[0] is i or v.args[0] is I.norm(fld('var', V))
            R.ob(('C03', 'C01'), 'a retried lookup is for the same node', True if good and lab else (False if clean(o) else None), locof(recs[-1] if recs else None, o, root), '%s retries with (%s, %s, %s)' % (name, show(v.args[0], 3), show(v.args[1], 3), show(v.args[2], 3)))
            progress = any(e.k == 'store' for e in ev)
            R.ob('C23', 'a retried lookup has made progress', True if progress else (False if clean(o) else None), locof(recs[-1] if recs else None, o, root), name)
            continue
        if v is l and (v is h or I.decide(eq(l, h)) is True):
            R.ob(('C02', 'C01'), 'equal successors are returned instead of a node', True, locof(None, o, root), name)
            no_change(I, R, o, root, F, f, base0, mask0, free0, tst, news)
            continue
        if v.op == 'tab':
            gl, gh = I.norm(lo_of(v)), I.norm(hi_of(v))
            ok = gl is l and gh is h
            R.ob(('C03', 'C01'), RC, True if ok else (False if clean(o) else None), locof(None, o, root), 'a node with successors (%s, %s) is returned for (%s, %s)' % (show(gl, 3), show(gh, 3), show(l, 3), show(h, 3)), None if ok else facts(I, o))
            no_change(I, R, o, root, F, f, base0, mask0, free0, tst, news)
            continue
        if news and v is I.norm(news[-1].node):
            n = v
            if len(news) > 1:
                R.ob(('C03', 'C19'), RN, False if clean(o) else None, locof(news[-1], o, root), 'several nodes are taken')
            check_new(I, R, o, root, n, l, h, i)
            if I.decide(eq(l, h)) is not False:
                R.ob('C02', 'equal successors are returned instead of a node', False if clean(o) else None, locof(news[-1], o, root), 'a node is created although its successors may be equal', facts(I, o))
            else:
                R.ob('C02', 'equal successors are returned instead of a node', True, locof(news[-1], o, root), 'successors of a created node differ')
            # looked up before
            look = None
            for e in ev:
                if e.k == 'reserve_node':
                    break
                if e.k == 'tload' and I.norm(e.base) is base0:
                    p = probe(index_of_off(I.norm(e.off)) or ZERO)
                    if p and I.norm(e.val) is ZERO:
                        look = (e, p)
            R.ob('C03', RL, True if look else (False if clean(o) and not vague(o) else None), locof(news[-1], o, root), '%s creates a node%s' % (name, ' after an unsuccessful lookup' if look else ' without an unsuccessful lookup'), None if look else facts(I, o))
            # stored
            mine = [e for e in tst if I.norm(e.val) is n]
            if len(mine) != 1:
                R.ob(('C03', 'C05'), RS, False if clean(o) else None, locof(news[-1], o, root), 'the new node is stored %d times' % len(mine))
                continue
            s = mine[0]
            old = I.norm(s.old) if s.old is not None else None
            ok = I.norm(s.base) is f['base'] and old is ZERO
            R.ob(('C03', 'C05', 'C19'), RS, True if ok else (False if clean(o) else None), locof(s, o, root), 'new node is stored %s' % ('in an empty slot of the table' if ok else 'in a slot containing %s' % (show(old, 3) if old is not None else 'unknown')), None if ok else facts(I, o))
            p = probe(index_of_off(I.norm(s.off)) or ZERO)
            if look and p:
                a = hash_at(href, l, h) if href is not None else look[1][1]
                same_start = I.norm(p[1]) is I.norm(a) and I.norm(look[1][1]) is I.norm(a)
                okm = p[0] is f['mask'] and look[1][0] is mask0
                st = {x for x in (p[2], look[1][2]) if x is not None}
                good = same_start and okm and len(st) <= 1
                for x in st:
                    steps.setdefault(x, s)
                R.ob('C03', RP, True if good else (False if clean(o) else None), locof(s, o, root),
                     'lookup starts at %s, insertion at %s, masks %s and %s for tables with masks %s and %s' % (show(look[1][1], 4), show(p[1], 4), show(look[1][0], 3), show(p[0], 3), show(mask0, 3), show(f['mask'], 3)), None if good else facts(I, o))
            else:
                R.ob('C03', RP, None, locof(s, o, root), 'position %s' % show(s.off, 5))
            want = addc(add(free0, sub(f['mask'], mask0)), -1)
            R.ob(('C03', 'C24'), RF, True if f['free'] is want else (False if clean(o) and is_const(sub(f['free'], want)) else None), locof(s, o, root), 'free slots: %s, expected %s' % (show(f['free'], 4), show(want, 4)))
            room = I.prove_ge0(addc(want, -1))
            full = not room and satisfiable_zero(I, want)
            R.ob(('C24', 'C23'), RE, True if room else (False if clean(o) and full else None), locof(s, o, root), 'after the insertion %s slots are free' % show(want, 4), None if room else facts(I, o))
            continue
        R.ob(('C03', 'C01'), RC, None, locof(None, o, root), 'returns %s' % show(v, 4))
    if len(steps) > 1:
        a = list(steps.items())
        R.ob('C03', RP, False, locof(a[1][1], outs[0], root), 'steps %s' % ', '.join(str(x) for x, _ in a))


def satisfiable_zero(I, t):
    """t may be 0 on this path (the facts about t do not exclude it)"""
    return I.decide(eq(t, ZERO)) is not False


def no_change(I, R, o, root, F, f, base0, mask0, free0, tst, news):
    bad = []
    if f['base'] is not base0 or f['mask'] is not mask0 or f['free'] is not free0:
        bad.append('table fields')
    if tst:
        bad.append('table')
    if news:
        bad.append('a node is taken')
    if any(I.norm(v) is not ZERO for n, v in o.S.xd.items()):
        bad.append('reference counters')
    R.ob(('C03', 'C05'), 'finding a node changes nothing', True if not bad else (False if clean(o) else None), locof(None, o, root), 'changed: ' + ', '.join(bad) if bad else 'unchanged', facts(I, o) if bad else None)


def check_new(I, R, o, root, n, l, h, i):
    cells = o.S.mem.get(n, {})

    def get(off):
        c = cells.get(const(off))
        return I.norm(c[1]) if c and c[0] == 8 else None
    lo, hi, w = get(0), get(8), get(16)
    ok = lo is l and hi is h
    R.ob(('C01', 'C03', 'C02'), RN, True if ok else (False if clean(o) and lo is not None and hi is not None else None), locof(None, o, root), 'successors of the new node: (%s, %s) for (%s, %s)' % tuple(show(x, 3) if x is not None else '?' for x in (lo, hi, l, h)))
    if w is not None:
        ix = bit_and(w, const((1 << 41) - 1))
        want = bit_and(i, const((1 << 41) - 1))
        ok = ix is want or ix is I.norm(fld('var', V))
        R.ob(('C01', 'C02', 'C03'), RN, True if ok else (False if clean(o) else None), locof(None, o, root), 'label of the new node: %s' % show(ix, 4))
        mk_ = bit_and(lshr(w, const(63)), ONE)
        R.ob(('C07',), 'a new node carries no mark', True if mk_ is ZERO else (False if clean(o) else None), locof(None, o, root), 'mark of the new node: %s' % show(mk_, 3))
        hk = bit_and(lshr(w, const(41)), const((1 << 22) - 1))
        und = any(x.op == 'undef' for x in subterms(hk))
        R.ob(('C03',), 'the hash key of a node is initialised', not und if clean(o) or not und else None, locof(None, o, root), 'hash key of the new node: %s' % show(hk, 3))
    xr = o.S.xd.get(n)
    xr = I.norm(xr) if xr is not None else None
    R.ob('C05', 'a new node has no reference', True if xr is ZERO else (False if clean(o) and (xr is None or is_const(xr)) else None), locof(None, o, root), 'counter of the new node: %s' % (show(xr, 3) if xr is not None else 'uninitialised'))
    for x, nm in ((l, 'low'), (h, 'high')):
        d = I.norm(o.S.xd.get(x, ZERO))
        R.ob('C05', 'a new node counts as a reference to its successors', True if d is ONE else (False if clean(o) and is_const(d) else None), locof(None, o, root), 'counter of the %s successor changes by %s' % (nm, show(d, 3)))
    for x, d in o.S.xd.items():
        x = I.norm(x)
        if x is not l and x is not h and x is not n and I.norm(d) is not ZERO:
            R.ob('C05', 'a new node counts as a reference to its successors', False if clean(o) else None, locof(None, o, root), 'counter of %s changes by %s' % (show(x, 3), show(I.norm(d), 3)))


def growth_ok(I, R, o, root, F, f, base0, mask0, free0, href):
    """consistency of a replaced table at the end of a path"""
    ev = o.S.events
    if f['base'] is base0:
        if f['mask'] is not mask0:
            R.ob(('C03', 'C18'), RG, False if clean(o) else None, locof(None, o, root), 'mask changes from %s to %s without a new table' % (show(mask0, 3), show(f['mask'], 3)))
        for e in ev:
            if e.k == 'new_page':
                R.ob(('C18', 'C25'), RG, False if clean(o) and not any(x.k == 'free_page' and I.norm(x.page) is I.norm(e.page) for x in ev) else None, locof(e, o, root), 'a page is taken and not used')
        return
    pg = [e for e in ev if e.k == 'new_page' and I.norm(e.page) is f['base']]
    if not pg:
        R.ob(('C03', 'C18'), RG, None, locof(None, o, root), 'table %s' % show(f['base'], 3))
        return
    m = I.norm(pg[-1].mask)
    ok = m is f['mask']
    R.ob(('C03', 'C18'), RG, True if ok else (False if clean(o) else None), locof(pg[-1], o, root), 'new table has mask %s, mask is set to %s' % (show(m, 3), show(f['mask'], 3)))
    R.ob('C18', 'table sizes are powers of two', True if lowmask(m) or is_const(m) and cval(m) > 0 and cval(m) & (cval(m) + 1) == 0 else (False if clean(o) else None), locof(pg[-1], o, root), 'mask of the new table: %s' % show(m, 3))
    fr = [e for e in ev if e.k == 'free_page']
    mine = [e for e in fr if I.norm(e.page) is base0]
    ok = len(mine) == 1 and len(fr) == 1 and (mine[0].mask is None or I.norm(mine[0].mask) is mask0)
    R.ob(('C18', 'C25'), RG, True if ok else (False if clean(o) else None), locof(fr[-1] if fr else pg[-1], o, root),
         'the old table is returned to its pool' if ok else 'pages returned: %s' % (', '.join('%s with mask %s' % (show(I.norm(e.page), 3), show(I.norm(e.mask), 3) if e.mask is not None else '?') for e in fr) or 'none'), None if ok else facts(I, o))
    # no access of the old table after it has been returned
    seen = False
    for e in ev:
        if e.k == 'free_page' and I.norm(e.page) is base0:
            seen = True
        elif seen and e.k in ('tload', 'tstore') and I.norm(e.base) is base0:
            R.ob(('C18', 'C03'), 'a returned table is not accessed', False if clean(o) else None, locof(e, o, root), 'access after the page has been returned')
            break
    # complete scan of the old table
    scanned(I, R, o, root, base0, mask0, pg[-1])


def scanned(I, R, o, root, base0, mask0, where, props=('C03',), rule=RH, txt='old table'):
    """some loop has run over all positions of the table when it is left"""
    ok = None
    for e in o.S.events:
        if e.k == 'loop' and not e.first:
            K = e.info['K']
            for r, v in e.entry.items():
                c = e.info['phi'].get(r)
                if c == ('aff', 8) and isinstance(v, T):
                    # a cursor
                    d = index_of_off(sub(I.norm(v), base0))
                    if d is None or not is_const(d):
                        continue
                    c, v = ('aff', 1), d
                if c == ('aff', 1) and isinstance(v, T):
                    idx = I.norm(add(I.norm(v), K))
                    full = addc(mask0, 1)
                    if I.prove_ge0(sub(idx, full)) and I.prove_ge0(sub(full, idx)) and v is ZERO and loads_in(I, o, e, base0):
                        ok = True
                    elif ok is None and loads_in(I, o, e, base0):
                        # the loop is left at another position
                        if v is not ZERO and is_const(v):
                            ok = False
                        elif I.prove_ge0(sub(full, idx)) and I.prove_ge0(addc(sub(mask0, idx), 0)):
                            ok = False
    R.ob(props, rule, True if ok else (False if ok is False and clean(o) else None), locof(where, o, root), 'scan of the %s %s' % (txt, 'is complete' if ok else 'is not complete'), None if ok else facts(I, o))


def loads_in(I, o, e, base):
    """does the loop of event e read the table? Bodies have been seen as backedge outcomes; remembered in the loop info"""
    return e.info.get('reads', set()) and any(b is base or I.norm(b) is base for b in e.info['reads'])


def remember_reads(I, outs):
    """which tables do loop bodies read at linear positions"""
    for o in outs:
        if o.kind != 'backedge':
            continue
        key = o.info[0]
        loops = [e for e in o.S.events if e.k == 'loop' and e.key == key]
        if not loops:
            continue
        info = loops[-1].info
        start = o.S.events.index(loops[-1])
        I.S = o.S
        for e in o.S.events[start:]:
            if e.k == 'tload' and linear(index_of_off(e.off) or mk('x')) is not None:
                info.setdefault('reads', set()).add(I.norm(e.base))


def vague(o, k=None):
    """does a loop (the one starting at event k) carry values that are not understood?"""
    for j, e in enumerate(o.S.events):
        if e.k == 'loop' and (k is None or j == k):
            if any(c[0] == 'opaque' for c in e.info['phi'].values()):
                return True
    return False


def loop_of(o):
    key = o.info[0]
    for k, e in reversed(list(enumerate(o.S.events))):
        if e.k == 'loop' and e.key == key:
            return k, e
    return None, None


def check_backedge(I, R, o, root, F, name, href, base0, mask0, steps, l, h):
    k, e = loop_of(o)
    if e is None:
        return
    ev = o.S.events[k:]
    tl = [x for x in ev if x.k == 'tload']
    if not tl:
        return
    ix = index_of_off(I.norm(tl[0].off))
    p = probe(ix) if ix is not None else None
    if p is not None:
        # a search through the table
        v = I.norm(tl[0].val)
        if p[2] is not None:
            steps.setdefault(p[2], tl[0])
        nul = v is ZERO or I.decide(eq(v, ZERO))
        if nul is True:
            R.ob(('C03', 'C23'), 'a search ends at an empty slot', False if clean(o) and not vague(o, k) else None, locof(tl[0], o, root), '%s continues after an empty slot' % name, facts(I, o))
            return
        R.ob(('C03', 'C23'), 'a search ends at an empty slot', True if nul is False else None, locof(tl[0], o, root), '%s continues after an occupied slot' % name)
        lookup = not any(x.k in ('reserve_node', 'new_page') for x in o.S.events[:k]) and not inside_scan(o, k) and not searched(I, o, k)
        if lookup and l is not None:
            a, b = I.decide(eq(I.norm(lo_of(v)), l)), I.decide(eq(I.norm(hi_of(v)), h))
            skip = a is False or b is False
            R.ob('C03', 'a search ends at the node looked for', True if skip else (False if clean(o) and not vague(o, k) else None), locof(tl[0], o, root), '%s continues after %s' % (name, 'another node' if skip else 'a node that may be the right one'), None if skip else facts(I, o))
        return
    sc = linear(ix) if ix is not None else None
    if sc is None or not any(x.k == 'new_page' for x in o.S.events):
        return
    v = I.norm(tl[0].val)
    tst = [x for x in ev if x.k == 'tstore']
    rehash_step(I, R, o, root, F, name, href, tl[0], v, tst, ev)


def searched(I, o, k):
    """has a search that came to an empty slot gone before on this path? then this one looks for a place"""
    loops = [j for j, e in enumerate(o.S.events[:k]) if e.k == 'loop']
    for a, j in enumerate(loops):
        end = loops[a + 1] if a + 1 < len(loops) else k
        for x in o.S.events[j:end]:
            if x.k == 'tload':
                ix = index_of_off(I.norm(x.off))
                v = I.norm(x.val)
                if ix is not None and probe(ix) is not None and (v is ZERO or I.decide(eq(v, ZERO)) is True):
                    return True
    return False


def inside_scan(o, k):
    """is the loop starting at event k inside of a loop over a table? (the outer loop reads a table at a linear position)"""
    for x in o.S.events[:k]:
        if x.k == 'tload':
            ix = index_of_off(x.off)
            if ix is not None and probe(ix) is None:
                return True
    return False


def rehash_step(I, R, o, root, F, name, href, tl, v, tst, ev, props=('C03', 'C05')):
    if v is ZERO or I.decide(eq(v, ZERO)) is True:
        ok = not [x for x in tst if I.norm(x.val) is not ZERO]
        R.ob(props, RH, True if ok else None, locof(tl, o, root), '%s: empty slot' % name)
        return
    mine = [x for x in tst if I.norm(x.val) is v and I.norm(x.base) is not I.norm(tl.base)]
    if len(mine) != 1:
        R.ob(props, RH, False if clean(o) and I.decide(eq(v, ZERO)) is False else None, locof(tl, o, root), '%s: a node of the old table is stored %d times in the new one' % (name, len(mine)), facts(I, o))
        return
    s = mine[0]
    place(I, R, o, root, F, name, href, v, s, props)


def place(I, R, o, root, F, name, href, v, s, props=('C03',), base=None):
    """node v is put at a position of its probe sequence that was empty"""
    old = I.norm(s.old) if s.old is not None else None
    R.ob(props, RS, True if old is ZERO else (False if clean(o) else None), locof(s, o, root), '%s: rehashed node is stored %s' % (name, 'in an empty slot' if old is ZERO else 'in a slot that may be in use'), None if old is ZERO else facts(I, o))
    p = probe(index_of_off(I.norm(s.off)) or ZERO)
    m = mask_of(I, o, I.norm(s.base), F, MASK0)
    if p is None or href is None or m is None:
        ix = index_of_off(I.norm(s.off))
        R.ob('C03', RP, None, locof(s, o, root), '%s: position %s' % (name, show(s.off, 5)))
        return
    want = I.norm(hash_at(href, I.norm(lo_of(v)), I.norm(hi_of(v))))
    good = I.norm(p[1]) is want and p[0] is m
    R.ob('C03', RP, True if good else (False if clean(o) else None), locof(s, o, root), '%s: rehashed node is searched from %s, expected %s; mask %s of table mask %s' % (name, show(I.norm(p[1]), 5), show(want, 5), show(p[0], 3), show(m, 3)), None if good else facts(I, o))


RDF = 'only dead nodes of the table are freed'
RDC = 'every dead node is freed exactly once when it leaves the table'
RDK = 'every living node of the table is kept'
RDS = 'the table is cleared before nodes are put back'
RDP = 'every kept node is put back'


def collected(I, o, evs, v):
    """the containers v is appended to in these events, one entry each time"""
    n = []
    for e in evs:
        if e.k == 'store' and I.norm(e.val) is v and e.size == 8 and is_region(e.base):
            n.append(e.base)
        elif e.k in ('push_back', 'emplace_back') and isinstance(e.d.get('val'), T) and I.norm(e.val) is v:
            n.append(None)
    return n


def is_region(b):
    return b.op == 'heap'


RROOM = 'a smaller table has room for the nodes put back'


def room_left(I, R, outs, root):
    """decided by enumerating sizes: from a table of h+1 slots holding at most h nodes the next size, under the conditions of the path, must
    leave an empty slot"""
    from .numeric import nev, Unknown
    pr = ('C03', 'C06', 'C24')
    LV = set()
    vs = {e.v for o in outs for e in o.S.events if e.k == 'vec_dtor'}
    for o in outs:
        for f in o.S.facts:
            for x in subterms(f):
                if x.op == 'phi' and x.args[0] == 'cell' and x.args[2] in vs and x.args[3] is const(8):
                    LV.add(x)
    uses = [(o, e) for o in outs if o.kind == 'ret' for e in o.S.events if e.k == 'new_page']
    if not uses:
        return
    if len(LV) != 1:
        R.ob(pr, RROOM, None, (root.file, root.line, root.dem), 'the number of surviving nodes is not known')
        return
    LV = LV.pop()

    def transient(x):
        return x.op in ('iter', 'tab', 'xref', 'rcell')

    def judge(o, H, new, where, c=0):
        if not all(x.op in ('const', 'lin', 'udiv', 'lshr', 'shl', 'and', 'or', 'mul') or x in (H, MASK0) or not x.args for x in subterms(new) if x is not H and not under(x, H)):
            return R.ob(pr, RROOM, None, locof(where, o, root), 'size is %s' % show(new, 4))
        about = [f for f in o.S.facts if any(x in (H, MASK0, LV) for x in subterms(f)) and not any(transient(x) for x in subterms(f))]
        wit = None
        und = False
        for m in (63, 127, 1023, (1 << 20) - 1):
            hs = [m] if H is MASK0 else [x for x in (63, 127, 511, 1023, (1 << 20) - 1) if x <= m]
            for h in hs:
                env = {MASK0: m, H: h - c}
                try:
                    n1 = nev(new, env) + c
                except Unknown:
                    und = True
                    continue
                if n1 >= h:
                    continue
                for n in sorted({0, 1, n1 // 8, n1 // 2, n1 - 1, n1, n1 + 1, n1 + 2, h // 2, h - 1, h}):
                    if not 0 <= n <= h or n <= n1:
                        continue
                    env[LV] = n
                    ok = True
                    for f in about:
                        try:
                            if not nev(f, env):
                                ok = False
                                break
                        except (Unknown, TypeError, KeyError):
                            und = True
                    if ok:
                        wit = wit or (h, n1, n)
        st = True if wit is None else (False if clean(o) and not und else None)
        R.ob(pr, RROOM, st, locof(where, o, root), 'the table shrinks from %d to %d slots with %d nodes alive' % (wit[0] + 1, wit[1] + 1, wit[2]) if wit else 'an empty slot is left', facts(I, o) if wit else None)

    def under(x, H):
        return x in subterms(H)
    done = set()
    for o, e in uses:
        I.S = o.S
        m = I.norm(e.mask)
        c, l = lin(m)
        if len(l) == 1 and l[0][1] == 1 and l[0][0].op == 'phi' and l[0][0].args[0] == 'phi':
            m = l[0][0]         # the mask is c more than the variable of the loop
            key = (m.args[1][1:], m.args[2])
            if key in done:
                continue
            done.add(key)
            n = 0
            for b in outs:
                if b.kind != 'backedge':
                    continue
                k, L = loop_of(b)
                last = b.S.events[-1]
                if L is None or L.key[1:] != key[0][:len(L.key) - 1] or key[1] not in last.phi:
                    continue
                I.S = b.S
                new = I.norm(last.phi[key[1]])
                H = [x for x in subterms(new) if x.op == 'phi' and x.args[0] == 'phi' and (x.args[1][1:], x.args[2]) == key]
                n += 1
                judge(b, H[0] if H else MASK0, new, e, c if H else 0) if H or not c else judge(b, MASK0, addc(new, c), e)
            if not n:
                R.ob(pr, RROOM, None, locof(e, o, root), 'the size is found by an unknown loop')
        else:
            judge(o, MASK0, m, e)


def lemma_remove_dead(P, R):
    fs = P.find(r'BDD::var_struct::remove_dead_nodes\(')
    F = fields(P)
    if not fs or F is None:
        R.ob(('C06',), RDF, None, None, 'remove_dead_nodes or the table fields are missing')
        return
    root = P.func(fs[0])
    I = table_interp(P)

    def start(I):
        setup_table(I)
        I.S.events.clear()
        return I.run(root, [V])
    try:
        outs = I.explore(start, 2500)
    except Budget:
        outs = []
        R.ob(('C06', 'C03'), RDF, None, (root.file, root.line, root.dem), 'too many paths')
    remember_reads(I, outs)
    R.absorb(I, outs)
    href = hash_ref(P)
    name = 'remove_dead_nodes'
    groups = {}
    puts = {}
    steps = {}
    freed = []
    kept = set()
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, name)
        if o.kind == 'unsupported':
            R.ob(('C06', 'C03'), 'path of remove_dead_nodes', None, locof(None, o, root), o.info)
            continue
        base0 = I.norm(fld('base', V))
        mask0 = I.norm(MASK0)
        check_index(I, R, o, root, F, name, ('C03', 'C18', 'C06'))
        if o.kind != 'backedge':
            continue
        k, e = loop_of(o)
        if e is None:
            continue
        ev = o.S.events[k:]
        tl = [x for x in ev if x.k == 'tload']
        fr = [x for x in ev if x.k == 'free_node']
        for x in fr:
            n = I.norm(x.node)
            c = node_alive(I, n)
            nn = I.decide(eq(n, ZERO))
            fromtab = any(I.norm(y.val) is n for y in tl)
            bad = c is True or nn is True
            unk = c is not False or nn is not False or not fromtab
            st = False if bad else (True if not unk else (False if clean(o) and (c is None or nn is None) and fromtab else None))
            if st is None and n.op == 'rcell' and is_region(n.args[1]):
                freed.append((n.args[1], x, o))
                continue
            R.ob(('C06', 'C05'), RDF, st, locof(x, o, root), 'the freed node is %s' % ('dead' if c is False else 'alive' if c else 'not known to be dead'), None if st else facts(I, o))
        lin_tl = [x for x in tl if linear(index_of_off(I.norm(x.off)) or mk('x')) is not None and I.norm(x.base) is base0]
        gk = e.key[1:4]
        if lin_tl and not any(x.k == 'loop' for x in ev[1:]) and not any(x.k == 'tstore' and I.norm(x.val) is not ZERO for x in ev):
            v = I.norm(lin_tl[0].val)
            nul = v is ZERO or I.decide(eq(v, ZERO))
            live = None if nul is not False else node_alive(I, v)
            clears = [x for x in ev if x.k == 'tstore' and I.norm(x.base) is base0 and I.norm(x.off) is I.norm(lin_tl[0].off) and I.norm(x.val) is ZERO]
            groups.setdefault(gk, []).append((o, e, lin_tl[0], v, nul, live, len(fr), collected(I, o, ev, v), len(clears)))
            continue
        p = probe(index_of_off(I.norm(tl[0].off)) or ZERO) if tl else None
        tst = [x for x in ev if x.k == 'tstore' and I.norm(x.val) is not ZERO]
        if not tst and p is not None:
            v = I.norm(tl[0].val)
            if p[2] is not None:
                steps.setdefault(p[2], tl[0])
            nul = v is ZERO or I.decide(eq(v, ZERO))
            R.ob(('C03', 'C06', 'C23'), 'a search ends at an empty slot', True if nul is False else (False if nul is True and clean(o) else None), locof(tl[0], o, root), '%s continues after an %s slot' % (name, 'occupied' if nul is False else 'empty'))
            continue
        if tst:
            puts.setdefault(e.key, []).append((o, e, tst))
            if len(tst) != 1:
                R.ob(('C06', 'C03'), RDP, False if clean(o) else None, locof(tst[1], o, root), '%d nodes are stored per step' % len(tst), facts(I, o))
                continue
            v = I.norm(tst[0].val)
            place(I, R, o, root, F, name, href, v, tst[0], ('C03', 'C06'))
            fs_ = [x for x in ev if x.k == 'store' and x.base is V and I.norm(x.off) is const(F['free'])]
            if fs_:
                d = sub(I.norm(fs_[-1].val), I.norm(fs_[0].old)) if fs_[0].old is not None else None
                ok = d is not None and d is const(-1)
                R.ob(('C03', 'C06', 'C24'), RF, True if ok else (False if d is not None and is_const(d) and clean(o) else None), locof(fs_[-1], o, root), 'free slots change by %s when a node is put back' % (show(d, 3) if d is not None else '?'))
            else:
                R.ob(('C03', 'C06', 'C24'), RF, None, locof(tst[0], o, root), 'free slots are not updated in the step')
            # value from the collected nodes, at the position of the step
            if v.op == 'rcell':
                kept.add(v.args[1])
            if v.op == 'rcell' or v.op == 'phi':
                x = udiv(I.norm(v.args[2]), const(8)) if v.op == 'rcell' else None
                puts[e.key][-1] = (o, e, tst, x)
            tst[0].d['cell'] = v
    judge_scans(I, R, groups, root, kept, freed)
    room_left(I, R, outs, root)
    for o in outs:
        if o.kind not in ('ret', 'throw'):
            continue
        I.S = o.S
        base0 = I.norm(fld('base', V))
        mask0 = I.norm(MASK0)
        free0 = I.norm(fld('free', V))
        ev = o.S.events
        f = final(I, F)
        tst = [e for e in ev if e.k == 'tstore']
        fr = [e for e in ev if e.k == 'free_node']
        if o.kind == 'throw':
            bad = []
            if f['base'] is not base0 or f['mask'] is not mask0 or f['free'] is not free0:
                bad.append('table fields changed')
            if fr or any(e.k == 'loop' and e.key[1:4] in groups and any(g[6] or g[8] for g in groups[e.key[1:4]]) for e in ev):
                bad.append('nodes have been freed or removed')
            R.ob(('C24',), RT, True if not bad else (False if clean(o) else None), locof(None, o, root), '%s fails%s' % (name, ': ' + ', '.join(bad) if bad else ' before anything has been changed'), facts(I, o) if bad else None)
            continue
        growth_ok(I, R, o, root, F, f, base0, mask0, free0, href)
        for e in ev:
            if e.k == 'loop' and e.key[1:4] in groups:
                g = groups[e.key[1:4]]
                if not e.first:
                    complete(I, R, o, root, e, base0, mask0, ('C06', 'C03'), 'free' if g[0][6] else 'scan')
                else:
                    # left before the first step
                    R.ob(('C06', 'C03'), RH, False if clean(o) else None, locof(e, o, root), 'a scan of the table ends before the first slot', facts(I, o))
        # counter of free slots when nodes are put back
        for k, e in enumerate(ev):
            if e.k == 'loop' and e.key in puts:
                st = [x for x in ev[:k] if x.k == 'store' and x.base is V and I.norm(x.off) is const(F['free'])]
                if st:
                    ok = I.norm(st[-1].val) is addc(f['mask'], 1)
                    R.ob(('C03', 'C06', 'C24'), RF, True if ok else (False if clean(o) else None), locof(st[-1], o, root), 'free slots of the empty table: %s, mask %s' % (show(I.norm(st[-1].val), 4), show(f['mask'], 3)))
                if not e.first:
                    dt = [x for x in ev if x.k == 'vec_dtor']
                    xs = {p[3] for p in puts[e.key] if len(p) > 3 and p[3] is not None}
                    ok = None
                    for x in xs:
                        if not any(a.op in ('phi', 'iter') for a in subterms(x)):
                            continue
                        for d in dt:
                            if I.decide(eq(I.norm(x), I.norm(d.n))) is True:
                                ok = True
                    R.ob(('C06', 'C03'), RDP, ok, locof(e, o, root), 'the collected nodes are put back up to the last')
        if not any(e.k == 'loop' and e.key in puts for e in ev) and f['base'] is not base0 or any(g[0][7] for g in groups.values()) and not any(k[1:4] in {e.key[1:4] for e in ev if e.k == 'loop'} for k in puts):
            R.ob(('C06', 'C03'), RDP, None, locof(None, o, root), 'no loop that puts nodes back is run')
    for key, l in puts.items():
        entry_ok = None
        for t in l:
            o, e, tst = t[:3]
            I.S = o.S
            if e.first and len(t) <= 3:
                entry_ok = entry_ok
        # the first step takes the first node: peeled step reads the first element
        for t in l:
            o, e, tst = t[:3]
            I.S = o.S
            v = tst[0].d.get('cell')
            if e.first and v is not None and v.op in ('phi', 'rcell') and v.args[-1].op == 'const':
                ok = v.args[-1] is ZERO
                R.ob(('C06', 'C03'), RDP, True if ok else (False if clean(o) else None), locof(tst[0], o, root), 'the first step takes element %s' % show(v.args[-1], 3))
    if len(steps) > 1:
        a = list(steps.items())
        R.ob('C03', RP, False, locof(a[1][1], outs[0], root), 'steps %s' % ', '.join(str(x) for x, _ in a))


def node_alive(I, v):
    """is the reference counter of v positive on this path? (False: it is not)"""
    return I.decide(slt(ZERO, I.norm(I.xref_load(v))))


def judge_scans(I, R, groups, root, kept, freed):
    into = {}           # container -> is every node collected in it dead (True), is there a living one (False), or unknown (None)
    for g in groups.values():
        for o, e, tl, v, nul, live, nf, nc, ncl in g:
            for b in nc:
                into.setdefault(b, []).append((live is False and nul is False, live is True and clean(o)))
    allkept = not kept or None in into        # it is not known which container holds the surviving nodes
    iskept = lambda b: allkept or b in kept
    for b, x, o in freed:
        l = into.get(b)
        I.S = o.S
        st = None
        if l and all(d for d, _ in l):
            st = True
        elif l and any(a for _, a in l) and not allkept:
            st = False
        R.ob(('C06', 'C05'), RDF, st, locof(x, o, root), 'the freed node is taken from the collected %s nodes' % ('dead' if st else 'living' if st is False else 'unknown'))
    for gk, g in groups.items():
        frees = any(x[6] for x in g)
        keeps = any(iskept(b) for x in g for b in x[7])
        clears = any(x[8] for x in g)
        # two lists are filled and it is not known which one is put back
        vague_ = allkept and len({b for x in g for b in x[7]}) > 1
        for o, e, tl, v, nul, live, nf, nc, ncl in g:
            I.S = o.S
            w = locof(tl, o, root)
            cl = clean(o) and not vague_
            aside = {b for b, x, _ in freed} - kept
            nd = len([b for b in nc if b in aside])
            nc = len([b for b in nc if iskept(b)])
            if frees and nul is False and live is False:
                R.ob(('C06', 'C05'), RDC, True if nf == 1 else (False if cl else None), w, 'a dead node is freed %d times' % nf, None if nf == 1 else facts(I, o))
            elif aside and not frees and nul is False and live is False and keeps:
                R.ob(('C06', 'C05'), RDC, True if nd == 1 else (False if cl else None), w, 'a dead node is collected for removal %d times' % nd, None if nd == 1 else facts(I, o))
            if keeps and nul is False and live is True:
                R.ob(('C06', 'C03'), RDK, True if nc == 1 else (False if cl else None), w, 'a living node is collected %d times' % nc, None if nc == 1 else facts(I, o))
            if keeps and nul is False and live is not True:
                ok = nc == 0
                R.ob(('C06', 'C05'), RDK, True if ok else (False if cl and live is False else None), w, 'a dead node is collected %d times' % nc, None if ok else facts(I, o))
            if keeps and nul is not False:
                R.ob(('C06',), RDK, True if nc == 0 else (False if cl else None), w, 'an empty slot is collected %d times' % nc)
            if frees and not keeps and nul is False and live is None and nf == 0:
                R.ob(('C06', 'C05'), RDC, None, w, 'a node is neither known to be dead nor alive')
            if clears:
                ok = ncl == 1 or nul is True
                R.ob(('C06', 'C03'), RDS, True if ok else (False if cl else None), w, 'the slot is %s' % ('cleared' if ok else 'not cleared'), None if ok else facts(I, o))
    if groups and not freed and not any(x[6] for g in groups.values() for x in g):
        R.ob('C06', RDC, None, (root.file, root.line, root.dem), 'no loop that frees nodes was found')


def complete(I, R, o, root, e, base0, mask0, props, txt):
    """the generic loop e, left on this path, has run over all slots"""
    K = e.info['K']
    ok = None
    for r, v in e.entry.items():
        c = e.info['phi'].get(r)
        if c == ('aff', 1) and isinstance(v, T):
            idx = add(I.norm(v), K)
            full = addc(mask0, 1)
            if v is ZERO and I.prove_ge0(sub(idx, full)) and I.prove_ge0(sub(full, idx)):
                ok = True
            elif ok is None and (is_const(v) and v is not ZERO or I.prove_ge0(sub(mask0, idx))):
                ok = False
    R.ob(props, RH, True if ok else (False if ok is False and clean(o) else None), locof(e, o, root), '%s over the table %s' % (txt, 'is complete' if ok else 'is not complete'), None if ok else facts(I, o))
