"""Page pools of the hash tables and the choice of a pool by table size; special members of var_struct."""
import re
from .terms import *
from .interp import *
from .nodes import *
from .models import Models
from .lemmas_ops import setup_mgr, locof, facts, clean, check_common
from .lemmas_table import VAR, V, POOL, MASK0, page_helpers, fields, table_interp, setup_table, remember_reads, loop_of, linear, index_of_off, complete, locof

PL = r'BDD::unique_table_page_cache<(\d+)ul, (\d+)ul>::'
R1 = 'a page taken from a pool is the first available one'
R2 = 'a page taken from a pool is empty'
R3 = 'new pages are linked one after the other'
R4 = 'a returned page becomes available'
R5 = 'pages are released with their pool'
R6 = 'pages of a pool are large enough'
R7 = 'pages are taken from a pool of the size of the table'
R8 = 'pages are returned to the pool they came from'
R9 = 'table sizes without pool are rejected'
VI = 'a new table is empty and consistent'
VM = 'moving a variable transfers its table'
VD = 'destroying a variable returns its table'
VR = 'releasing the nodes of a variable frees each of them'


def pools(P):
    out = {}
    for n in P.find(PL):
        m = re.match(PL + r'(~?\w+)\(', P.demangled(n))
        if m:
            out.setdefault((int(m.group(1)), int(m.group(2))), {}).setdefault(m.group(3), n)
    return out


def lemma_pools(P, R):
    ps = pools(P)
    if not ps:
        R.ob(('C18', 'C25'), R1, None, None, 'no page pool found')
    for (size, count), fs in sorted(ps.items()):
        one_pool(P, R, size, count, fs)
    dispatch(P, R, ps)


def run(P, n, C, args, contracts=(), setup=None):
    I = Interp(P, Models())
    for names, c in contracts:
        for x in names:
            I.contracts[x] = c
    root = P.func(n)

    def start(I):
        setup_mgr(I)
        if setup:
            setup(I)
        I.S.events.clear()
        I.S.facts.clear()
        return I.run(root, [C] + args)
    try:
        outs = I.explore(start, 600)
    except Budget:
        outs = []
    return I, outs, root


def one_pool(P, R, size, count, fs):
    cls = 'BDD::unique_table_page_cache<%d, %d>' % (size, count)
    page = 'BDD::unique_table_page<%d>' % size
    for c in (cls, 'BDD::unique_table_page_cache<%dUL, %dUL>' % (size, count), 'BDD::unique_table_page_cache<%dul, %dul>' % (size, count)):
        if P.dtypes.get(c):
            cls = c
            break
    C = sym('POOL', ptr=True, nonnull=True, cls=cls)
    name = 'pool of %d slots' % size
    n = fs.get('reserve_page')
    if n is None:
        R.ob('C18', R1, None, None, name + ': no reserve_page')
        return

    def rec(I, a, nm):
        t = I.newheap(page, tag='page', zero=True)
        I.event('rec', page=t, this=I.norm(a[0]))
        return t
    I, outs, root = run(P, n, C, [], [([n], rec)])
    R.absorb(I, outs)
    if not outs:
        R.ob('C18', R1, None, (root.file, root.line, root.dem), name + ': too many paths')
    avail = None
    links = {}
    for o in outs:
        I.S = o.S
        if o.kind == 'ret' and isinstance(o.value, T):
            v = I.norm(o.value)
            if v.op == 'fld' and v.args[1] is C:
                avail = v
    S = None
    for o in outs:
        if o.kind != 'backedge':
            continue
        I.S = o.S
        k, e = loop_of(o)
        if e is None:
            continue
        for x in o.S.events[k:]:
            if x.k == 'store' and x.base.op == 'heap' and any(y.k == 'new' and I.norm(y.ptr) is x.base for y in o.S.events):
                links.setdefault(e.key, []).append((o, x, I.norm(x.off), I.norm(x.val), e))
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, name)
        if o.kind == 'unsupported':
            R.ob('C18', 'path of ' + name, None, locof(None, o, root), o.info)
            continue
        if o.kind == 'throw' and not any(e.k == 'extern' for e in o.S.events):
            continue
        if o.kind != 'ret':
            continue
        v = I.norm(o.value)
        ev = o.S.events
        cl = clean(o)
        news = [e for e in ev if e.k == 'new']
        if news:
            increased(P, I, R, o, root, name, C, size, count, page, news, links, avail, v)
        if v is avail:
            nul = I.decide(eq(v, ZERO))
            R.ob(('C18', 'C08'), R1, True if nul is False else (False if cl else None), locof(None, o, root), '%s: the page returned is %s' % (name, 'available' if nul is False else 'possibly null'))
            fin = I.norm(I.load(addr(I, avail), 8, 'ptr'))
            nxt = first_word(I, o, v)
            ok = fin is nxt
            R.ob('C18', R1, True if ok else (False if cl and fin is v else None), locof(None, o, root), '%s: afterwards the first available page is %s' % (name, show(fin, 3)), None if ok else facts(I, o))
            zeroed(I, R, o, root, name, v, size)
        elif any(e.k == 'rec' and I.norm(e.page) is v for e in ev):
            e = [e for e in ev if e.k == 'rec'][0]
            R.ob('C18', R1, True if e.this is C else (False if cl else None), locof(e, o, root), '%s: retried with the same pool' % name)
            R.ob(('C18', 'C23'), 'a retried request has made progress', True if news else (False if cl else None), locof(e, o, root), '%s: retried %s' % (name, 'after new pages have been added' if news else 'without change'))
        elif news and v is I.norm(news[0].ptr):
            R.ob(('C18', 'C08'), R1, True, locof(None, o, root), '%s: the page returned is new' % name)
        else:
            R.ob('C18', R1, None, locof(None, o, root), '%s: returns %s' % (name, show(v, 4)))
    n = fs.get('free_page')
    if n is not None:
        p = sym('page', ptr=True, nonnull=True, cls=page)
        I, outs, root = run(P, n, C, [p])
        R.absorb(I, outs)
        for o in outs:
            I.S = o.S
            check_common(I, R, o, root, name)
            if o.kind != 'ret':
                continue
            cl = clean(o)
            if avail is None:
                R.ob('C18', R4, None, locof(None, o, root), name)
                continue
            fin = I.norm(I.load(addr(I, avail), 8, 'ptr'))
            nx = I.norm(I.load(p, 8, 'ptr'))
            ok = fin is p and nx is avail
            R.ob('C18', R4, True if ok else (False if cl else None), locof(None, o, root), '%s: after returning a page the first available one is %s, followed by %s' % (name, show(fin, 3), show(nx, 3)), None if ok else facts(I, o))
    n = next((f for k, f in fs.items() if k.startswith('~')), None)
    if n is not None:
        pool_dtor(P, R, n, C, name)
    n = fs.get('unique_table_page_cache')
    if n is not None and avail is not None:
        I, outs, root = run(P, n, C, [])
        for o in outs:
            I.S = o.S
            if o.kind != 'ret':
                continue
            I.S.epoch = dict(I.S.epoch)
            w = I.S.mem.get(C, {}).get(const(avail_off(I, avail)))
            v = I.norm(w[1]) if w else None
            R.ob(('C18', 'C29'), 'a new pool has no page', True if v is ZERO else (False if clean(o) else None), locof(None, o, root), '%s: the first available page is %s' % (name, show(v, 3) if v is not None else 'not initialised'))
    sz = None
    try:
        sz = I.L.size(page)
    except Exception:
        pass
    if sz:
        R.ob('C18', R6, sz >= 8 * size, (root.file, root.line, root.dem), '%s: a page has %d bytes' % (name, sz))


def avail_off(I, avail):
    b, o = I.split(addr(I, avail))
    return cval(o)


def addr(I, f):
    """address of the field read as f"""
    for o in range(0, 64, 8):
        try:
            S = I.S
            I.S = S.copy()
            I.S.mem = {}
            v = I.initial(f.args[1], const(o), 8)
            I.S = S
            if v is f:
                return addc(f.args[1], o)
        except Exception:
            I.S = S
    return f.args[1]


def first_word(I, o, v):
    S = I.S
    I.S = S.copy()
    I.S.mem = {}
    I.S.fills = []
    try:
        for k in list(vars(I.S)) if hasattr(I.S, '__dict__') else ():
            pass
        t = I.L and mkinit(I, v)
    finally:
        I.S = S
    return t


def mkinit(I, v):
    r = I.objaddr(v, ZERO)
    if r is None:
        return None
    cls, obj, oo, inner = r
    m = I.L.at(cls, oo, 8)
    return fld(m[0], obj, m[1]) if m else None


def zeroed(I, R, o, root, name, v, size):
    ok = None
    for e in o.S.events:
        if e.k == 'fill' and I.norm(e.begin) is v:
            whole = I.norm(e.end) is addc(v, 8 * size)
            val = I.norm(e.val)
            z = I.norm(I.load(val, 8, 'ptr')) if is_ptr(val) else val
            ok = whole and z is ZERO
            R.ob(('C18', 'C03'), R2, True if ok else (False if clean(o) else None), locof(e, o, root), '%s: %s bytes are set to %s' % (name, show(sub(I.norm(e.end), v), 3), show(z, 3)))
            return
        if e.k == 'memset' and I.norm(e.d.get('ptr', ZERO)) is v:
            ok = e.d.get('size') is not None and I.norm(e.size) is const(8 * size) and I.norm(e.val) is ZERO
            R.ob(('C18', 'C03'), R2, True if ok else (False if clean(o) else None), locof(e, o, root), '%s: %s bytes are set to %s' % (name, show(I.norm(e.size), 3), show(I.norm(e.val), 3)))
            return
    wr = any(e.k == 'store' and e.base is v for e in o.S.events) or any(e.k == 'loop' and v in e.info['region'] for e in o.S.events)
    R.ob(('C18', 'C03'), R2, None if wr or not clean(o) else False, locof(None, o, root), '%s: the page is not cleared' % name)


def increased(P, I, R, o, root, name, C, size, count, page, news, links, avail, v):
    cl = clean(o)
    if len(news) != 1:
        R.ob('C18', R3, None, locof(news[0], o, root), '%s: %d allocations' % (name, len(news)))
        return
    h = I.norm(news[0].ptr)
    nb = I.norm(news[0].size)
    if not is_const(nb):
        R.ob('C18', R3, None, locof(news[0], o, root), '%s: allocation of %s bytes' % (name, show(nb, 3)))
        return
    nb = cval(nb)
    st = I.L.size(page) or 8 * size
    num = nb // st
    R.ob('C18', R6, True if nb % st == 0 and num >= 1 and st >= 8 * size else (False if cl else None), locof(news[0], o, root), '%s: %d bytes are allocated for %d pages' % (name, nb, num))
    pushed = [e for e in o.S.events if e.k == 'push']
    got = any(I.norm(x.val) is h for x in o.S.events if x.k == 'store' and x.base.op == 'vdata')
    R.ob(('C25', 'C18'), R5, True if got else (False if cl and not pushed else None), locof(news[0], o, root), '%s: new pages are %s' % (name, 'recorded' if got else 'not recorded'))
    if avail is not None:
        fin = I.norm(I.load(addr(I, avail), 8, 'ptr'))
        taken = v is h and (fin is I.norm(I.load(h, 8, 'ptr')) or fin is (addc(h, st) if num > 1 else ZERO))     # the first new page is returned, its successor is the next one
        ok = fin is h or taken
        if taken:
            zeroed(I, R, o, root, name, v, size)
        plain = fin is ZERO or fin is avail or h in dict(lin(fin)[1]) or v is h and fin is h
        R.ob('C18', R3, True if ok and not (v is h and fin is h) else (False if cl and plain else None), locof(news[0], o, root), '%s: first available page after growth: %s' % (name, show(sub(fin, h), 3) if h in dict(lin(fin)[1]) else show(fin, 3)), None if ok else facts(I, o))
    # value of the first word of each page
    zero, link = (0, 0), None
    und = []
    bad = None
    state = None
    unrolled = not any(e.k == 'loop' and h in e.info['region'] for e in o.S.events)
    if unrolled:
        for k in range(num):
            w = I.S.mem.get(h, {}).get(const(k * st))
            x = I.norm(w[1]) if w else None
            want = addc(h, (k + 1) * st) if k + 1 < num else ZERO
            if x is not want:
                bad = (k, x)
                break
        R.ob('C18', R3, True if bad is None else (False if cl else None), locof(news[0], o, root), '%s: %s' % (name, 'all %d pages are linked' % num if bad is None else 'page %d of %d is followed by %s' % (bad[0], num, show(bad[1], 3) if bad[1] is not None else 'an uninitialised pointer')))
        return
    cover = []
    for e in o.S.events:
        if e.k != 'loop' or h not in e.info['region']:
            continue
        l = [x for x in links.get(e.key, ()) if x[1].base is h]
        kinds = set()
        for o2, x, off, val, e2 in l:
            I.S = o2.S
            if val is ZERO:
                kinds.add(('zero', 0))
            elif val.op == 'lin' or val is h:
                d = sub(sub(val, h), off)
                kinds.add(('link', cval(d) if is_const(d) else None))
            else:
                kinds.add(('?', None))
        I.S = o.S
        starts = set()
        for o2, x, off, val, e2 in l:
            if is_const(off):
                starts.add(cval(off))
        # end of the loop on this path: positions covered
        if e.first:
            cover.append((kinds, 0, 0, starts))
            continue
        K = e.info['K']
        n = I.norm(K)
        cover.append((kinds, 0, cval(n) if is_const(n) else n, starts))
    zero_n = link_n = None
    for kinds, a, b, starts in cover:
        if kinds == {('zero', 0)}:
            # a page handed out is cleared by a loop of its own
            if zero_n is None or not isinstance(zero_n, int) or isinstance(b, int) and b > zero_n:
                zero_n = b
        elif len(kinds) == 1 and list(kinds)[0][0] == 'link':
            link_n = (b, list(kinds)[0][1], starts)
        elif kinds:
            und.append(str(kinds))
    # stores outside of loops
    if und or zero_n is None or link_n is None:
        late = None
        if not und and zero_n is None and link_n and isinstance(link_n[0], int):
            late = None
        R.ob('C18', R3, None, locof(news[0], o, root), '%s: links of new pages are not recognised' % name)
        return
    if not isinstance(zero_n, int) or not isinstance(link_n[0], int):
        R.ob('C18', R3, None, locof(news[0], o, root), '%s: number of linked pages is not constant' % name)
        return
    last = num - 1
    # one constructor call per page
    ok = zero_n + 1 >= num and link_n[0] == last and link_n[1] == st and link_n[2] <= {0}
    R.ob('C18', R3, True if ok else (False if cl else None), locof(news[0], o, root), '%s: %d of %d pages are linked to the page %s bytes behind' % (name, link_n[0], num, link_n[1]), None if ok else facts(I, o))


def pool_dtor(P, R, n, C, name):
    I, outs, root = run(P, n, C, [])
    R.absorb(I, outs)
    dels = {}
    for o in outs:
        if o.kind != 'backedge':
            continue
        I.S = o.S
        k, e = loop_of(o)
        ev = o.S.events[k:]
        d = [x for x in ev if x.k == 'delete']
        for x in d:
            p = I.norm(x.ptr)
            R.ob(('C25', 'C18'), R5, True if elem_of(p) else None, locof(x, o, root), '%s: deletes %s' % (name, 'a recorded allocation' if elem_of(p) else show(p, 4)))
        if len(d) > 1:
            R.ob(('C25', 'C18'), R5, False if clean(o) else None, locof(d[1], o, root), '%s: deleted twice' % name, facts(I, o))
        dels.setdefault(e.key, []).append((o, len(d)))
        if not d and not any(f.op != 'not' and any(x.op == 'fld' and elem_of(x) or x.op == 'fld' and x.args[0] == '*' for x in subterms(f)) for f in o.S.facts):
            R.ob(('C25', 'C18'), R5, None, locof(e, o, root), '%s: an element is skipped' % name)
        elif not d:
            # only a null pointer may be passed over
            cells = [I.norm(v) for b, m in o.S.mem.items() if b.op == 'vdata' for _, v in m.values()]
            if cells and not any(I.decide(eq(v, ZERO)) is True for v in cells):
                R.ob(('C25', 'C18'), R5, False if clean(o) else None, locof(e, o, root), '%s: an allocation is passed over' % name, facts(I, o))
    rets = [o for o in outs if o.kind == 'ret']
    for o in rets:
        I.S = o.S
        lp = [e for e in o.S.events if e.k == 'loop']
        if any(e.key in dels and any(c for _, c in dels[e.key]) for e in lp) or any(e.k == 'delete' for e in o.S.events):
            R.ob(('C25', 'C18'), R5, True, locof(None, o, root), '%s: allocations are released' % name)
        else:
            lens = [e for e in o.S.events if e.k == 'vec_dtor']
            empty = lens and I.norm(lens[0].n) is ZERO
            R.ob(('C25', 'C18'), R5, True if empty else (False if clean(o) and not lp and not any(e.k in ('call', 'extern') for e in o.S.events) else None), locof(None, o, root), '%s: allocations are %s' % (name, 'none' if empty else 'not released'))


def elem_of(p):
    return any(x.op == 'vdata' for x in subterms(p))


def dispatch(P, R, ps):
    h = page_helpers(P)
    if not h['reserve_page'] or not h['free_page']:
        R.ob('C18', R7, None, None, 'functions choosing a pool by size not found')
        return
    page = lambda size: 'BDD::unique_table_page<%d>' % size
    rp = [f['reserve_page'] for f in ps.values() if 'reserve_page' in f]
    fp = [f['free_page'] for f in ps.values() if 'free_page' in f]
    size_of = {}
    for (s, c), f in ps.items():
        for x in f.values():
            size_of[x] = s

    def c_r(I, a, n):
        t = I.newheap(page(size_of[n]), tag='page', zero=True)
        I.event('take', pool=I.norm(a[0]), slots=size_of[n], page=t)
        return t

    def c_f(I, a, n):
        I.event('give', pool=I.norm(a[0]), slots=size_of[n], page=I.norm(a[1]))
    cons = [(rp, c_r), (fp, c_f)]
    taken = {}
    for n in h['reserve_page']:
        for k in range(5, 24):
            m = (1 << k) - 1
            I, outs, root = run(P, n, V, [const(m)] + [sym('x%d' % j) for j in range(len(P.func(n).args) - 2)], cons)
            R.absorb(I, outs)
            for o in outs:
                I.S = o.S
                cl = clean(o)
                tk = [e for e in o.S.events if e.k == 'take']
                if o.kind == 'throw':
                    R.ob(('C18', 'C24'), R9, True if not tk else (False if cl else None), locof(None, o, root), 'no page for %d slots: exception' % (m + 1))
                    if 6 <= k and (m + 1) in size_of.values():
                        R.ob(('C18',), R7, False if cl else None, locof(None, o, root), 'no page for %d slots although there is such a pool' % (m + 1))
                    continue
                if o.kind != 'ret':
                    R.ob('C18', R7, None, locof(None, o, root), '%s %s' % (o.kind, o.info))
                    continue
                v = I.norm(o.value)
                if len(tk) != 1 or v is not I.norm(tk[0].page):
                    R.ob(('C18', 'C24'), R7, False if cl else None, locof(None, o, root), 'for %d slots %s is returned' % (m + 1, show(v, 3)))
                    continue
                e = tk[0]
                ok = e.slots >= m + 1
                R.ob(('C18', 'C03'), R7, True if ok else (False if cl else None), locof(e, o, root), 'for %d slots a page of %d slots is taken' % (m + 1, e.slots))
                taken[m] = (e.pool, e.slots)
    pg = sym('page', ptr=True, nonnull=True, cls='BDD::node_struct*')
    for n in h['free_page']:
        f = P.func(n)
        for m, (pool, slots) in sorted(taken.items()):
            for p in (pg, ZERO):
                if len(f.args) == 3:
                    args, setup = [p, const(m)], None
                elif len(f.args) == 1:
                    args = []

                    def setup(I, p=p, m=m):
                        F = fields(P)
                        I.store(addc(V, F['base']), p, 8)
                        I.store(addc(V, F['mask']), const(m), 8)
                else:
                    continue
                try:
                    I, outs, root = run(P, n, V, args, cons, setup)
                except Exception as e:
                    R.ob('C18', R8, None, (f.file, f.line, f.dem), repr(e))
                    continue
                R.absorb(I, outs)
                for o in outs:
                    I.S = o.S
                    g = [e for e in o.S.events if e.k == 'give']
                    cl = clean(o)
                    if p is ZERO:
                        R.ob(('C18', 'C25'), R8, True if not g else (False if cl else None), locof(g[0] if g else None, o, root), 'nothing is returned for a missing table of %d slots' % (m + 1))
                        continue
                    if o.kind == 'unreachable':
                        g = []
                    ok = len(g) == 1 and I.norm(g[0].page) is pg and g[0].slots == slots and g[0].pool is pool
                    R.ob(('C18', 'C25'), R8, True if ok else (False if cl else None), locof(g[0] if g else None, o, root), 'a page of %d slots is returned to %s' % (m + 1, 'its pool' if ok else 'the pool of %s slots' % ', '.join(str(e.slots) for e in g) if g else 'no pool'))


def lemma_var_members(P, R):
    F = fields(P)
    ps = pools(P)
    if F is None or not ps:
        R.ob(('C18', 'C25'), VI, None, None, 'fields of var_struct not found')
        return
    size_of = {}
    for (s, c), f in ps.items():
        for x in f.values():
            size_of[x] = s
    rp = [f['reserve_page'] for f in ps.values() if 'reserve_page' in f]
    fp = [f['free_page'] for f in ps.values() if 'free_page' in f]

    def c_r(I, a, n):
        t = I.newheap('BDD::unique_table_page<%d>' % size_of[n], tag='page', zero=True)
        I.event('take', pool=I.norm(a[0]), slots=size_of[n], page=t)
        return t

    def c_f(I, a, n):
        I.event('give', pool=I.norm(a[0]), slots=size_of[n], page=I.norm(a[1]))
    cons = [(rp, c_r), (fp, c_f)]
    from .nodes import MGR
    # constructor
    for n in P.find(r'BDD::var_struct::var_struct\(unsigned long'):
        idx = sym('index', small=True)
        I = Interp(P, Models())
        for names, c in cons:
            for x in names:
                I.contracts[x] = c
        root = P.func(n)

        def start(I):
            setup_mgr(I)
            t = I.newheap(VAR, tag='var')
            I.S.user['obj'] = t
            I.S.events.clear()
            return I.run(root, [t, idx, MGR])
        outs = I.explore(start, 200)
        R.absorb(I, outs)
        for o in outs:
            I.S = o.S
            check_common(I, R, o, root, 'var_struct')
            if o.kind != 'ret':
                continue
            cl = clean(o)
            t = I.S.user['obj']
            g = lambda f: I.norm(I.load(addc(t, F[f]), 8, 'i64'))
            tk = [e for e in o.S.events if e.k == 'take']
            mask, free, base, var = g('mask'), g('free'), g('base'), g('var')
            ok = len(tk) == 1 and base is I.norm(tk[0].page)
            R.ob(('C18', 'C03'), VI, True if ok else (False if cl else None), locof(tk[0] if tk else None, o, root), 'a new variable has %s' % ('a page of its own' if ok else 'table %s' % show(base, 3)))
            if ok and is_const(mask):
                m = cval(mask)
                good = m + 1 == tk[0].slots
                R.ob(('C18', 'C03', 'C24'), VI, True if good else (False if cl else None), locof(tk[0], o, root), 'mask %d for a page of %d slots' % (m, tk[0].slots))
                R.ob(('C18', 'C03', 'C24'), VI, True if free is const(m + 1) else (False if cl else None), locof(tk[0], o, root), '%s of %d slots are free' % (show(free, 3), m + 1))
                R.ob(('C18', 'C24'), VI, True if m >= 63 and m & (m + 1) == 0 else (False if cl else None), locof(tk[0], o, root), 'mask %d' % m)
            R.ob(('C02', 'C01', 'C20'), 'a variable knows its number', True if var is idx else (False if cl else None), locof(None, o, root), 'number of a new variable: %s' % show(var, 3))
            uninit(I, R, o, root, t, VAR, ('C18', 'C29', 'C20'))
    # move constructor
    for n in P.find(r'BDD::var_struct::var_struct\(BDD::var_struct&&\)'):
        I = Interp(P, Models())
        root = P.func(n)

        def start2(I):
            setup_mgr(I)
            t = I.newheap(VAR, tag='var')
            I.S.user['obj'] = t
            I.S.events.clear()
            return I.run(root, [t, V])
        outs = I.explore(start2, 200)
        R.absorb(I, outs)
        for o in outs:
            I.S = o.S
            check_common(I, R, o, root, 'var_struct')
            if o.kind != 'ret':
                continue
            cl = clean(o)
            t = I.S.user['obj']
            g = lambda f, x=t: I.norm(I.load(addc(x, F[f]), 8, 'i64'))
            for f, typ in (('mask', 'unsigned long'), ('free', 'unsigned long'), ('var', 'unsigned long'), ('base', None)):
                want = initial_of(I, V, F[f])
                x = g(f)
                R.ob(('C25', 'C18', 'C03'), VM, True if x is want else (False if cl else None), locof(None, o, root), '%s of the new object: %s' % (f, show(x, 3)))
            x = g('base', V)
            R.ob(('C25', 'C18'), VM, True if x is ZERO else (False if cl else None), locof(None, o, root), 'table of the moved object: %s' % show(x, 3))
            uninit(I, R, o, root, t, VAR, ('C25', 'C29'))
    # destructor
    for n in P.find(r'BDD::var_struct::~var_struct\('):
        root = P.func(n)
        for empty in (False, True):
            I = Interp(P, Models())
            for names, c in cons:
                for x in names:
                    I.contracts[x] = c
            h = page_helpers(P)['free_page']
            call = []

            def c_free(I, a, nm):
                I.event('free_page', page=I.norm(a[1]) if len(a) > 1 else None, mask=I.norm(a[2]) if len(a) > 2 else None)
            for x in h:
                if len(P.func(x).args) == 3:
                    I.contracts[x] = c_free

            def start3(I):
                setup_table(I) if False else setup_mgr(I)
                if empty:
                    I.store(addc(V, F['base']), ZERO, 8)
                    I.store(addc(V, F['mask']), ZERO, 8)
                I.S.events.clear()
                return I.run(root, [V])
            outs = I.explore(start3, 200)
            R.absorb(I, outs)
            for o in outs:
                I.S = o.S
                if o.kind != 'ret':
                    continue
                cl = clean(o)
                g = [e for e in o.S.events if e.k in ('free_page', 'give')]
                if empty:
                    bad = [e for e in g if not (e.k == 'free_page' and e.page is ZERO)]
                    R.ob(('C25',), VD, True if not bad else (False if cl else None), locof(bad[0] if bad else None, o, root), 'a moved variable returns %s' % ('nothing' if not bad else 'a page'))
                    continue
                b, m = initial_of(I, V, F['base']), initial_of(I, V, F['mask'])
                ok = len(g) == 1 and g[0].page is b and (g[0].mask is None or g[0].mask is m)
                R.ob(('C25', 'C18'), VD, True if ok else (False if cl and all(e.k == 'free_page' for e in g) else None), locof(g[0] if g else None, o, root), 'the destructor returns %s' % (', '.join('%s with mask %s' % (show(e.page, 3), show(e.mask, 3) if e.k == 'free_page' else '?') for e in g) or 'no page'))
    release(P, R, F)


def initial_of(I, obj, off):
    S = I.S
    I.S = S.copy()
    I.S.mem = {}
    try:
        return I.initial(obj, const(off), 8)
    finally:
        I.S = S


def uninit(I, R, o, root, t, cls, props):
    """every scalar member has been initialised"""
    d = I.P.dtypes.get(cls)
    cells = I.S.mem.get(t, {})
    size = I.L.size(cls) or 0
    cov = set()
    for off, (sz, v) in cells.items():
        if is_const(off):
            vv = I.norm(v) if isinstance(v, T) else None
            if vv is None or not any(x.op == 'undef' for x in subterms(vv)):
                cov.update(range(cval(off), cval(off) + sz))
    miss = []
    k = 0
    while k < size:
        m = None
        for s in (8, 4, 1):
            if k % s == 0:
                m = I.L.at(cls, k, s)
                if m:
                    break
        if m is None:
            k += 1
            continue
        if m[2] == 'scalar' and not all(j in cov for j in range(k, k + s)):
            miss.append(m[0])
        k += s
    R.ob(props, 'all members of an object are initialised', True if not miss else (False if clean(o) else None), locof(None, o, root), '%s: %s' % (cls, 'all members are initialised' if not miss else 'not initialised: ' + ', '.join(miss)))


def release(P, R, F):
    for n in P.find(r'BDD::var_struct::release_nodes\('):
        root = P.func(n)
        I = table_interp(P)

        def start(I):
            setup_table(I)
            I.S.events.clear()
            return I.run(root, [V])
        outs = I.explore(start, 400)
        remember_reads(I, outs)
        R.absorb(I, outs)
        scan = set()
        for o in outs:
            I.S = o.S
            check_common(I, R, o, root, 'release_nodes')
            if o.kind == 'unsupported':
                R.ob('C25', VR, None, locof(None, o, root), o.info)
            if o.kind != 'backedge':
                continue
            k, e = loop_of(o)
            ev = o.S.events[k:]
            tl = [x for x in ev if x.k == 'tload']
            if not tl or linear(index_of_off(I.norm(tl[0].off)) or mk('x')) is None:
                continue
            v = I.norm(tl[0].val)
            nul = v is ZERO or I.decide(eq(v, ZERO))
            fr = [x for x in ev if x.k == 'free_node']
            cl = clean(o)
            scan.add(e.key[1:4])
            if nul is True:
                R.ob('C25', VR, True if not fr else (False if cl else None), locof(tl[0], o, root), 'nothing is freed for an empty slot')
                continue
            ok = len(fr) == 1 and I.norm(fr[0].node) is v
            R.ob(('C25', 'C05'), VR, True if ok else (False if cl and nul is False else None), locof(tl[0], o, root), 'a node is freed %d times' % len(fr), None if ok else facts(I, o))
            z = [x for x in ev if x.k == 'tstore' and I.norm(x.off) is I.norm(tl[0].off) and I.norm(x.val) is ZERO]
            R.ob(('C25', 'C18'), VR, True if z else (False if cl else None), locof(tl[0], o, root), 'the slot is %s' % ('cleared' if z else 'not cleared'))
        for o in outs:
            if o.kind != 'ret':
                continue
            I.S = o.S
            for e in o.S.events:
                if e.k == 'loop' and e.key[1:4] in scan:
                    if e.first:
                        R.ob(('C25', 'C18'), VR, False if clean(o) else None, locof(e, o, root), 'no slot is visited', facts(I, o))
                    else:
                        complete(I, R, o, root, e, I.norm(fld('base', V)), I.norm(MASK0), ('C25', 'C18'), 'release')
