"""Recursive operations on diagrams: result, order, memo cache, termination, reference counts."""
from .terms import *
from .interp import *
from .nodes import *
from .models import Models
from . import contracts as C


def tuple_layout(I):
    """byte offsets of the two members of std::tuple<node_ref,size_t>"""
    return (8, 0)


def setup_mgr(I):
    """terminals of the manager"""
    S = I.S
    for acc, t in (('botsink', BOT), ('topsink', TOP)):
        f = I.P.find1(r'BDD::bdd_node_cache::%s\(\) const$' % acc)
        if f is None:
            raise Unsupported('no terminal accessor')
        nc = add(MGR, const(I.P.field('BDD::bdd_mgr', 'node_cache_') // 8))
        v = I.run(I.P.func(f), [nc])
        if v is t:
            continue
        if not (v.op == 'fld'):
            raise Unsupported('terminal accessor')
        S.sub[v] = t
        S.cache = {}
        for b, cells in S.mem.items():
            for o, (sz, x) in list(cells.items()):
                if x is v:
                    cells[o] = (sz, t)
    f = I.P.find1(C.MGRF + r'nr_variables\(\) const$')
    if f:
        n = I.run(I.P.func(f), [MGR])
        if isinstance(n, T) and n.op == 'vlen':
            I.nvars = n
            I.add_lin(addc(n, -1))


def refarg(I, name, node):
    """a node_ref passed by value: a temporary of the caller"""
    t = mk('arg', name)
    t.meta = {PTR: True, 'nonnull': True, 'cls': 'BDD::node_ref'}
    I.S.fresh[t] = 'undef'
    I.store(t, node, 8)
    return t


def moved(I, o, *names):
    """what the parameters of refarg hold at the end of a path: a parameter may have been moved from"""
    I.S = o.S
    return [I.norm(I.load(mk('arg', x), 8, 'ptr')) for x in names]


def nodesym(name):
    return sym(name, ptr=True, cls=NODE, nonnull=True)


def slot(I, name, cls='BDD::node_ref'):
    t = mk('slot', name)
    t.meta = {PTR: True, 'nonnull': True, 'cls': cls}
    I.S.fresh[t] = 'undef'
    return t


def mkinterp(P, *names, exclude=(), all_contracts=True):
    I = Interp(P, Models())
    if all_contracts or names:
        C.install(I, *names, exclude=exclude)
    return I


# ------------------------------------------------------------------ common path checks
def locof(x, o, root):
    w = None
    if x is not None:
        w = x.loc
    if w is None:
        w = o.where
    if w is None:
        w = (root.file, root.line, root.dem)
    return w


def facts(I, o, n=14):
    seen = []
    for c in o.S.facts:
        s = show(c, 5)
        if s not in seen:
            seen.append(s)
    return seen[:n]


def clean(o):
    return not o.S.taint


def rc_balance(I, o, before, after):
    """difference between the change of the reference counters on the path and the change of the number of references;
    returns list of (node, actual, expected) with actual != expected"""
    I.S = o.S
    exp = {}
    for sign, l in ((1, after), (-1, before)):
        for t in l:
            t = I.norm(t)
            if is_const(t):
                continue
            exp[t] = exp.get(t, 0) + sign
    bad = []
    act = {}
    for n, v in o.S.xd.items():
        n = I.norm(n)
        act[n] = add(act.get(n, ZERO), I.norm(v))
    for n in set(exp) | set(act):
        a = act.get(n, ZERO)
        e = exp.get(n, 0)
        if a is not const(e):
            bad.append((n, a, e))
    return bad


def summarised(t, seen=None):
    """does the term contain a value of a summarised loop?"""
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t.id in seen:
        return False
    seen.add(t.id)
    return t.op in ('phi', 'iter') or any(summarised(x, seen) for x in t.args)


def sure(bad):
    """is the imbalance definite: constant changes of counters of known nodes"""
    return all(is_const(a) and not summarised(n) for n, a, _ in bad)


def check_common(I, R, o, root, name, props_null=('C08',)):
    """null dereferences, failing library calls"""
    if o.kind == 'nullderef':
        R.ob(props_null, 'no dereference of a null pointer', False if clean(o) else None, locof(None, o, root),
             '%s dereferences a null pointer' % name, facts(I, o))


def throws_ok(o):
    return o.kind in ('throw', 'assert', 'unreachable')


class OpRun:
    def __init__(self, I, root, outs, op, args):
        self.I, self.root, self.outs, self.op, self.args = I, root, outs, op, args


OPFUN = [
    ('and', C.MGRF + 'and_rec' + C.NR2, 2, 'conjunction'),
    ('or', C.MGRF + 'or_rec' + C.NR2, 2, 'disjunction'),
    ('xor', C.MGRF + 'xor_rec' + C.NR2, 2, 'exclusive or'),
    ('not', C.MGRF + r'negate\(BDD::node_ref\)$', 1, 'negation'),
    ('ite', C.MGRF + r'ite_rec\(BDD::node_ref, BDD::node_ref, BDD::node_ref\)$', 3, 'if-then-else'),
]


def explore_op(P, R, pat, n, lim=False):
    f = P.find1(pat)
    if f is None:
        return None
    root = P.func(f)
    I = mkinterp(P)
    fl = [nodesym(x) for x in 'fgh'[:n]]

    def start(I):
        setup_mgr(I)
        rs = slot(I, 'ret', 'std::tuple<BDD::node_ref,unsigned long>' if lim else 'BDD::node_ref')
        args = [rs, MGR] + [refarg(I, 'a%d' % i, x) for i, x in enumerate(fl)]
        if lim:
            args.append(sym('limit', small=False))
        I.S.events.clear()
        I.run(root, args)
        off = tuple_layout(I)[0] if lim else 0
        v = I.norm(I.load(addc(rs, off), 8))
        if lim:
            I.S.user['size'] = I.norm(I.load(addc(rs, tuple_layout(I)[1]), 8))
            I.S.user['limit'] = I.norm(args[-1])
        I.S.user['after'] = [v] + [I.norm(I.load(a, 8)) for a in args[2:2 + n]]
        return v
    try:
        outs = I.explore(start)
    except Budget:
        outs = None
    R.absorb(I, outs or ())
    return OpRun(I, root, outs, None, fl)


def run_ops(P, R):
    runs = {}
    for op, pat, n, _ in OPFUN:
        r = explore_op(P, R, pat, n)
        if r is None:
            R.errors.append('operation %s not found' % op)
            continue
        r.op = op
        runs[op] = r
    r = explore_op(P, R, C.MGRF + r'and_rec_limited\([^)]*\)$', 2, lim=True)
    if r is None:
        R.errors.append('and_rec_limited not found')
    else:
        r.op = 'lim'
        runs['lim'] = r
    return runs


def spec(op, args):
    return C.opres('and' if op == 'lim' else op, *args)


def learn_symbols(runs):
    """meaning of the constants in the third component of memo keys: the operation all insertions are consistent with"""
    cand = {}
    uses = {}
    for r in runs.values():
        if not r.outs:
            continue
        for o in r.outs:
            r.I.S = o.S
            for e in o.S.events:
                if e.k == 'insert':
                    k2 = r.I.norm(e.key[2])
                    if is_const(k2):
                        uses.setdefault(cval(k2), []).append((r, o, e))
    for s, l in uses.items():
        for c in ('and', 'or', 'xor', 'not'):
            ok = True
            for r, o, e in l:
                if not clean(o):
                    continue
                r.I.S = o.S
                D = Denotation(r.I, {})
                D.symbols = {s: c}
                try:
                    k = [r.I.norm(x) for x in e.key]
                    sp = C.opres(c, *(k[:1] if c == 'not' else k[:2]))
                    if D.equal(r.I.norm(e.val), sp) is not None:
                        ok = False
                        break
                except Opaque:
                    pass
            if ok:
                cand[s] = c
                break
        else:
            cand[s] = None
    return cand, uses


def feasible_order(I, o):
    return True


def lemma_ops(P, R):
    runs = run_ops(P, R)
    symbols, uses = learn_symbols(runs)
    for s, c in symbols.items():
        locs = sorted({u[2].loc for u in uses[s] if u[2].loc})
        if c is None:
            for r, o, e in uses[s]:
                r.I.S = o.S
                own = {'lim': 'and'}.get(r.op, r.op)
                try:
                    k = [r.I.norm(x) for x in e.key]
                    D = Denotation(r.I, {s: own})
                    bad = D.equal(r.I.norm(e.val), C.opres(own, *(k[:1] if own == 'not' else k[:2])))
                except Opaque:
                    bad = None
            R.ob(('C04', 'C01'), 'memo symbol denotes one operation', False, locs[0],
                 'results of different operations (or wrong results) are memoised under the same key symbol %d' % s,
                 ['insertions at ' + '; '.join('%s:%d' % (l[0].split('/')[-1], l[1]) for l in locs)])
        else:
            R.ob(('C04', 'C01'), 'memo symbol denotes one operation', True, locs[0], 'symbol %d: %s' % (s, c))
            R.ob('C04', 'memo symbol is no node address', 0 < s < 4096 or None, locs[0], 'symbol %d' % s)
    for op, r in runs.items():
        I, root = r.I, r.root
        name = root.dem.split('(')[0].replace('BDD::', '')
        if r.outs is None:
            R.ob(('C01', 'C02', 'C04', 'C05'), 'paths of ' + name, None, (root.file, root.line, root.dem), 'too many paths')
            continue
        for o in r.outs:
            I.S = o.S
            check_path(I, R, o, r, op, name, symbols)


def check_path(I, R, o, r, op, name, symbols):
    root = r.root
    fl = r.args
    check_common(I, R, o, root, name)
    props_sem = ('C26',) if op == 'lim' else ('C01',)
    if o.kind == 'unsupported':
        R.ob(props_sem + ('C02', 'C04', 'C05', 'C08'), 'path of ' + name, None, locof(None, o, root), o.info)
        return
    if o.kind != 'ret':
        return
    ok = clean(o)
    D = Denotation(I, symbols)
    sp = spec(op, [I.norm(x) for x in fl])

    def verdict(bad):
        return True if bad is None else (False if ok else None)

    # result
    v = I.norm(o.value)
    null = op == 'lim' and v is ZERO
    if not null:
        try:
            bad = D.equal(v, sp)
            R.ob(props_sem, 'result of every path denotes the operation', verdict(bad), locof(None, o, root),
                 '%s returns %s' % (name, show(v, 5)) + ('' if bad is None else ', which differs from the %s of its arguments' % sp.args[0]),
                 None if bad is None else {'path': facts(I, o), 'valuation': bad})
        except Opaque as e:
            st = None
            if v is ZERO or (is_const(v)):
                st = False if ok else None
            R.ob(props_sem, 'result of every path denotes the operation', st, locof(None, o, root),
                 '%s returns %s' % (name, show(v, 5)), facts(I, o))
    if op == 'lim':
        limited(I, R, o, r, name, v, ok)
    # memo insertions
    for e in o.S.events:
        if e.k == 'insert':
            k = [I.norm(x) for x in e.key]
            try:
                o2, a2 = D.memo_op(mk('memo', *k))
                s2 = C.opres(o2, *(a2[:1] if o2 == 'not' else a2))
                bad = D.equal(I.norm(e.val), s2)
                if symbols.get(cval(k[2]) if is_const(k[2]) else None, 'x') is None:
                    continue
                R.ob(('C04', 'C01'), 'memoised result is the result for its key', verdict(bad), locof(e, o, root),
                     '%s memoises %s under (%s)' % (name, show(I.norm(e.val), 5), ', '.join(show(x, 3) for x in k)),
                     None if bad is None else {'path': facts(I, o), 'valuation': bad})
            except Opaque as x:
                R.ob(('C04', 'C01'), 'memoised result is the result for its key', None, locof(e, o, root), str(x))
        elif e.k == 'lookup':
            pass
        elif e.k == 'mk':
            i = I.norm(e.i)
            if e.lo is e.hi and I.norm(e.lo) is I.norm(e.hi):
                continue
            a, b = level_gt(I, i, e.lo), level_gt(I, i, e.hi)
            inner = None
            if i.op == 'fld' and i.args[0] == 'index':
                inner = I.kind(i.args[1]) == 'inner' or None
            elif is_const(i):
                inner = False
            st = True if a and b and inner else (False if ok and (a is False or b is False or inner is False) else None)
            R.ob('C02', 'label of a new node precedes the variables below it', st, locof(e, o, root),
                 '%s creates a node labelled %s above %s and %s' % (name, show(i, 4), show(I.norm(e.lo), 4), show(I.norm(e.hi), 4)), facts(I, o) if not st else None)
            own = e.d.get('own')
            if own is not None:
                own = I.norm(own)
                R.ob(('C02', 'C03'), 'nodes are stored in the table of their own variable', True if own is i else (False if ok and is_diff(I, own, i) else None), locof(e, o, root),
                     '%s stores a node labelled %s in the table of variable %s' % (name, show(i, 4), show(own, 4)))
        elif e.k == 'op':
            check_call(I, R, o, r, op, name, e, ok)
        elif e.k == 'termarc':
            # what has been read there is no node
            later = o.S.events[o.S.events.index(e):]
            used = [x for x in later if x.k == 'op' and any(I.norm(y) is C.MGR for y in x.args) or x.k == 'store' and I.norm(x.base) is C.MGR]
            if used:
                R.ob('C08', 'arcs are followed at inner nodes only', False if ok else None, locof(e, o, root),
                     '%s follows an arc of a constant' % name, facts(I, o))
    # every key that is looked up denotes this operation: implied by the result obligation of the hit path
    n2 = [e for e in o.S.events if e.k == 'op' and e.op == ('lim' if op == 'lim' else op) and decreasing(I, e.args, fl)]
    mk_ = [e for e in o.S.events if e.k == 'mk']
    if len(n2) >= 2 and mk_:
        ins = [e for e in o.S.events if e.k == 'insert']
        lk = [e for e in o.S.events if e.k == 'lookup']
        good = any(all(I.norm(x) is I.norm(y) for x, y in zip(a.key, b.key)) for a in ins for b in lk)
        st = True if good else (False if ok and (not ins or not lk or all(definitely_differ(I, a, b) for a in ins for b in lk)) else None)
        R.ob('C23', 'results of branching recursion are looked up and memoised under one key', st, locof(mk_[-1], o, root),
             '%s computes its result from two recursive calls%s' % (name, '' if good else ' without reusing an earlier result for the same arguments'), facts(I, o))
    # reference counts
    bad = rc_balance(I, o, [I.norm(x) for x in fl], o.S.user['after'])
    st = True if not bad else (False if ok and sure(bad) else None)
    R.ob('C05', 'reference counters change by the change of the number of references', st, locof(None, o, root),
         name + ('' if not bad else ': counter of %s changes by %s instead of %d' % (show(bad[0][0], 4), show(bad[0][1], 4), bad[0][2])),
         facts(I, o) if bad else None)
    for e in o.S.events:
        if e.k == 'maybe_null':
            R.ob('C08', 'dereferenced pointers are valid', None, locof(e, o, root), show(e.ptr, 4))
    R.ob('C08', 'arcs are followed at inner nodes only', True, locof(None, o, root), name)


L1 = 'the size that is returned is within the limit'
L2 = 'the size is the maximum exactly when nothing is returned'
L3 = 'a result is always returned when no limit is imposed'


def limited(I, R, o, r, name, v, ok):
    size, lim = o.S.user['size'], o.S.user['limit']
    w = locof(None, o, r.root)
    if v is ZERO:
        isx = I.decide(eq(size, const(-1)))
        R.ob('C26', L2, True if isx is True else (False if ok and isx is False else None), w, '%s returns nothing with size %s' % (name, show(size, 4)), None if isx is True else facts(I, o))
        # contradiction with limit == maximum?
        subs = [e for e in o.S.events if e.k == 'op' and e.op == 'lim' and e.null]
        if any(I.norm(e.lim) is lim for e in subs):
            st = True
        elif subs:
            st = None
        else:
            st = unlimited_feasible(I, o, lim)
            st = True if st is False else (False if ok and st is True else None)
        R.ob('C26', L3, st, w, '%s returns nothing on this path' % name, facts(I, o) if st is not True else None)
        return
    small = I.decide(eq(size, const(-1))) is False or smallterm(I, size)
    R.ob('C26', L2, True if small else (False if ok and size is const(-1) else None), w, '%s returns a result with size %s' % (name, show(size, 4)))
    over = I.decide(ult(lim, size))
    st = True if over is False else None
    if st is None and ok:
        # the path does not compare the size with the limit at all, or admits sizes above it
        st = False if over is True or not related(I, o, size, lim) else None
    R.ob('C26', L1, st, w, '%s returns size %s for limit %s' % (name, show(size, 4), show(lim, 3)), facts(I, o) if st is not True else None)


def smallterm(I, t):
    from .terms import lin
    t = I.norm(t)
    if is_const(t):
        return cval(t) != (1 << 64) - 1
    c, k = lin(t)
    return all(0 < w < 16 and (getmeta(x, 'small') or x.op == 'limn') for x, w in c.items()) and 0 <= k < 1 << 32


def related(I, o, size, lim):
    """does the path bound the size by the limit exactly (some fact lim >= size + k with k >= 0)?"""
    ts = set(subterms(size)) - {size}
    for c in o.S.facts:
        st = set(subterms(c))
        if lim in st and (size in st or (ts & {x for x in st if x.op in ('limn', 'nrnodes')})):
            # a bound that is off by a constant
            x = c.args[0] if c.op == 'not' else c
            if x.op == 'ult':
                a, b = x.args
                d = sub(sub(b, a), sub(size, lim)) if a is not lim else sub(sub(b, a), sub(size, lim))
                if is_const(d):
                    return False
            return True
    return False


def unlimited_feasible(I, o, lim):
    """can the path be taken with limit == maximum?  False when some condition on it excludes that"""
    undec = False
    for c in o.S.facts:
        n = subst(c, {lim: const(-1)})
        if n is FALSE or n is ZERO:
            return False
        if n.op == 'ult' and n.args[0] is const(-1):
            return False
        if n not in (TRUE, ONE) and lim in set(subterms(c)):
            undec = True
    return None if undec else True


def is_diff(I, a, b):
    return I.decide(eq(a, b)) is False or (is_const(a) != is_const(b)) or (a.op == 'fld' and b.op == 'fld')


def definitely_differ(I, a, b):
    return any(I.decide(eq(I.norm(x), I.norm(y))) is False or (I.norm(x) is not I.norm(y) and not is_const(sub(I.norm(x), I.norm(y)))) for x, y in zip(a.key, b.key))


def child_of(I, a, f):
    """a lies strictly below f"""
    a = I.norm(a)
    f = I.norm(f)
    return any(I.norm(z) is f for z in chain(a))


def decreasing(I, args, fl):
    """every argument is one of the parameters or lies below one, at least one is strictly below, positions matched one to one"""
    import itertools
    if len(args) > len(fl):
        return False
    a = [I.norm(x) for x in args]
    f = [I.norm(x) for x in fl]
    for p in itertools.permutations(range(len(f)), len(a)):
        strict = False
        for x, k in zip(a, p):
            y = f[k]
            if x is y or (x in (BOT, TOP)):
                if x in (BOT, TOP) and y not in (BOT, TOP):
                    strict = True
                continue
            if child_of(I, x, y):
                strict = True
                continue
            break
        else:
            if strict:
                return True
    return False


RANKOP = {'not': 0, 'and': 0, 'or': 0, 'lim': 0, 'xor': 1, 'ite': 2}


def check_call(I, R, o, r, op, name, e, ok):
    """recursion is well founded"""
    if e.op != op:
        st = True if RANKOP.get(e.op, 9) < RANKOP[op] else None
        if st is None and decreasing(I, e.args, r.args):
            st = True
        R.ob('C23', 'recursion is well founded', st, locof(e, o, r.root), '%s calls %s' % (name, e.op))
        return
    I.S = o.S
    if decreasing(I, e.args, r.args):
        R.ob('C23', 'recursion is well founded', True, locof(e, o, r.root), '%s calls itself with smaller arguments' % name)
        return
    a = [I.norm(x) for x in e.args]
    f = [I.norm(x) for x in r.args]
    if sorted(a, key=lambda t: t.id) == sorted(f, key=lambda t: t.id):
        if a != f:
            # exchange of the arguments, decided by the order of their addresses
            sw = [(x, y) for x, y in zip(a, f) if x is not y]
            if len(sw) == 2 and (I.decide(ult(sw[0][0], sw[0][1])) is True or I.decide(ult(sw[0][1], sw[0][0])) is True):
                R.ob('C23', 'recursion is well founded', True, locof(e, o, r.root), '%s exchanges its arguments by address' % name)
                return
            R.ob('C23', 'recursion is well founded', None, locof(e, o, r.root), '%s exchanges its arguments' % name)
            return
        R.ob('C23', 'recursion is well founded', False if ok else None, locof(e, o, r.root), '%s calls itself with the same arguments' % name, facts(I, o))
        return
    R.ob('C23', 'recursion is well founded', None, locof(e, o, r.root), '%s calls itself with %s' % (name, ', '.join(show(x, 4) for x in a)))
