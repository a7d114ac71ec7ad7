"""Handles: special members, accessors, operators; terminals; functions returning the manager."""
from .terms import *
from .interp import *
from .nodes import *
from .models import Models
from . import contracts as C
from .lemmas_ops import (setup_mgr, refarg, nodesym, slot, mkinterp, locof, facts, clean, rc_balance, sure, check_common)
from .numeric import witness

NRF = r'BDD::node_ref::'
RULE_RC = 'reference counters change by the change of the number of references'


def nullable(name):
    return sym(name, ptr=True, cls=NODE)


def refobj(I, name, val):
    """an existing node_ref object holding val"""
    t = mk('slot', name)
    t.meta = {PTR: True, 'nonnull': True, 'cls': 'BDD::node_ref'}
    I.S.fresh[t] = 'undef'
    if val is not None:
        I.store(t, val, 8)
    return t


def cell(I, a):
    return I.norm(I.load(a, 8, 'ptr'))


def report_rc(I, R, o, root, name, before, after, props=('C05',)):
    bad = rc_balance(I, o, before, after)
    st = True if not bad else (False if clean(o) and sure(bad) else None)
    R.ob(props, RULE_RC, st, locof(None, o, root), name + ('' if not bad else ': counter of %s changes by %s instead of %d' % (show(bad[0][0], 4), show(bad[0][1], 4), bad[0][2])),
         facts(I, o) if bad else None)


def run(P, R, pat, start, props, name, maxpath=300, contracts=(), exclude=()):
    fs = P.find(pat)
    if not fs:
        return None, None, []
    root = P.func(fs[0])
    I = mkinterp(P, *contracts, exclude=exclude) if contracts != () else Interp(P, Models())
    try:
        outs = I.explore(lambda I: start(I, root), maxpath)
    except Budget:
        R.ob(props, 'paths of ' + name, None, (root.file, root.line, root.dem), 'too many paths')
        outs = []
    R.absorb(I, outs)
    res = []
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, name)
        if o.kind == 'unsupported':
            R.ob(props, 'path of ' + name, None, locof(None, o, root), o.info)
        elif o.kind == 'ret':
            res.append(o)
    return I, root, res


def special(P, R, pat, name, setup, check, required=True):
    """setup(I) -> (args, before); check(I) -> (after, list of (ok, text))"""
    def start(I, root):
        setup_mgr(I)
        args, before, ctx = setup(I)
        I.S.user['before'] = before
        I.S.user['ctx'] = ctx
        I.S.events.clear()
        return I.run(root, args)
    I, root, outs = run(P, R, pat, start, ('C05',), name)
    if I is None:
        if required:
            R.errors.append('%s not found' % name)
        return
    for o in outs:
        I.S = o.S
        after, oks = check(I, o, o.S.user['ctx'])
        report_rc(I, R, o, root, name, o.S.user['before'], after)
        for ok, txt in oks:
            R.ob(('C05',), 'a handle refers to the node it was given', True if ok else (False if clean(o) else None), locof(None, o, root), '%s: %s' % (name, txt), facts(I, o))


def lemma_handles(P, R):
    x, y = nullable('x'), nullable('y')

    def s_copy(I):
        src = refobj(I, 'src', x)
        dst = refobj(I, 'dst', None)
        return [dst, src], [x], (dst, src)

    def c_copy(I, o, ctx):
        d, s = ctx
        return [cell(I, d), cell(I, s)], [(cell(I, d) is I.norm(x), 'copy refers to the same node'), (cell(I, s) is I.norm(x), 'source is unchanged')]
    special(P, R, NRF + r'node_ref\(BDD::node_ref const&\)$', 'copy constructor', s_copy, c_copy)

    def c_move(I, o, ctx):
        d, s = ctx
        return [cell(I, d), cell(I, s)], [(cell(I, d) is I.norm(x), 'moved handle refers to the node')]
    special(P, R, NRF + r'node_ref\(BDD::node_ref&&\)$', 'move constructor', s_copy, c_move, required=False)

    def s_ptr(I):
        dst = refobj(I, 'dst', None)
        return [dst, x], [], (dst,)

    def c_ptr(I, o, ctx):
        return [cell(I, ctx[0])], [(cell(I, ctx[0]) is I.norm(x), 'handle refers to the node')]
    special(P, R, NRF + r'node_ref\(BDD::node_struct\*\)$', 'constructor from node', s_ptr, c_ptr)

    def s_def(I):
        dst = refobj(I, 'dst', None)
        return [dst], [], (dst,)

    def c_def(I, o, ctx):
        v = cell(I, ctx[0])
        return [v], [(v is ZERO, 'default handle is empty')]
    special(P, R, NRF + r'node_ref\(\)$', 'default constructor', s_def, c_def)

    def s_dtor(I):
        dst = refobj(I, 'dst', x)
        return [dst], [x], (dst,)

    def c_dtor(I, o, ctx):
        return [], []
    special(P, R, NRF + r'~node_ref\(\)$', 'destructor', s_dtor, c_dtor)

    def s_assign(I):
        d, s = refobj(I, 'dst', x), refobj(I, 'src', y)
        return [d, s], [x, y], (d, s)

    def c_assign(I, o, ctx):
        d, s = ctx
        return [cell(I, d), cell(I, s)], [(cell(I, d) is I.norm(y), 'assigned handle refers to the node of the source'), (cell(I, s) is I.norm(y), 'source is unchanged'),
                                         (not isinstance(o.value, T) or I.norm(o.value) is d, 'assignment returns the assigned handle')]
    special(P, R, NRF + r'operator=\(BDD::node_ref const&\)$', 'assignment', s_assign, c_assign)

    def c_assignm(I, o, ctx):
        d, s = ctx
        return [cell(I, d), cell(I, s)], [(cell(I, d) is I.norm(y), 'assigned handle refers to the node of the source')]
    special(P, R, NRF + r'operator=\(BDD::node_ref&&\)$', 'move assignment', s_assign, c_assignm, required=False)

    def s_self(I):
        d = refobj(I, 'dst', x)
        return [d, d], [x], (d,)

    def c_self(I, o, ctx):
        d = ctx[0]
        return [cell(I, d)], [(cell(I, d) is I.norm(x), 'self assignment keeps the node')]
    special(P, R, NRF + r'operator=\(BDD::node_ref const&\)$', 'self assignment', s_self, c_self)
    special(P, R, NRF + r'operator=\(BDD::node_ref&&\)$', 'self move assignment', s_self, c_self, required=False)
    accessors(P, R)
    operators(P, R)
    mgr_refs(P, R)
    terminals(P, R)
    find_mgr(P, R)
    convert(P, R)
    forwards(P, R)


# ------------------------------------------------------------------ accessors of nodes
def accessors(P, R):
    p = nodesym('p')

    def st_ref(I, root):
        setup_mgr(I)
        src = refobj(I, 'src', p)
        res = slot(I, 'ret')
        I.S.events.clear()
        v = I.run(root, [res, src] if len(root.args) > 1 else [src])
        I.S.user['after'] = [cell(I, res)] if len(root.args) > 1 else []
        I.S.user['src'] = cell(I, src)
        return v
    for m, f in (('low', lo_of), ('high', hi_of)):
        I, root, outs = run(P, R, NRF + m + r'\(\)( const)?$', st_ref, ('C05', 'C08'), m, contracts=('find_bdd_mgr',))
        if I is None:
            R.errors.append(m + ' not found')
            continue
        for o in outs:
            I.S = o.S
            if I.kind(I.norm(p)) in ('bot', 'top'):
                continue          # precondition: an inner node
            r = o.S.user['after'][0]
            R.ob(('C01', 'C11'), 'successors are returned by name', True if r is I.norm(f(p)) else (False if clean(o) else None), locof(None, o, root), '%s returns %s' % (m, show(r, 4)))
            report_rc(I, R, o, root, m, [I.norm(p)], [r, o.S.user['src']])
    for m, t in (('botsink', BOT), ('topsink', TOP)):
        I, root, outs = run(P, R, NRF + m + r'\(\)( const)?$', st_ref, ('C05', 'C29'), m, contracts=('find_bdd_mgr',))
        if I is None:
            R.errors.append('node_ref::%s not found' % m)
            continue
        for o in outs:
            I.S = o.S
            r = o.S.user['after'][0]
            R.ob(('C29', 'C01'), 'constants are returned by name', True if r is t else (False if clean(o) else None), locof(None, o, root), 'node_ref::%s returns %s' % (m, show(r, 4)))
            report_rc(I, R, o, root, m, [I.norm(p)], [r, o.S.user['src']])
    # predicates
    for m, spec in (('is_botsink', lambda k: k == 'bot'), ('is_topsink', lambda k: k == 'top'), ('is_terminal', lambda k: k in ('bot', 'top'))):
        for cls in ('node_ref', 'node_struct'):
            def st(I, root):
                setup_mgr(I)
                src = refobj(I, 'src', p) if cls == 'node_ref' else p
                I.S.events.clear()
                return I.run(root, [src])
            I, root, outs = run(P, R, r'BDD::%s::%s\(\) const$' % (cls, m), st, ('C29', 'C08'), m)
            if I is None:
                R.errors.append('%s::%s not found' % (cls, m))
                continue
            for o in outs:
                I.S = o.S
                v = o.value
                for k, t in (('bot', BOT), ('top', TOP), ('inner', None)):
                    if t is not None:
                        if I.kind(I.norm(p)) not in (None, k):
                            continue
                        if I.decide(eq(I.norm(p), t)) is False:
                            continue
                    elif I.kind(I.norm(p)) not in (None, 'inner'):
                        continue
                    S = o.S.copy()
                    I.S = S
                    try:
                        if t is not None:
                            I.assume(eq(I.norm(p), t))
                        else:
                            I.assume(bnot(eq(I.norm(p), BOT)))
                            I.assume(bnot(eq(I.norm(p), TOP)))
                        c = I.norm(v) if isinstance(v, T) else v
                        b = 1 if c in (TRUE, ONE) else 0 if c in (FALSE, ZERO) else None
                        if b is None and isinstance(c, T):
                            d = I.decide(c) if c.op != 'lin' else None
                            b = None if d is None else int(d)
                            if b is None and t is None and c.op in ('eq0',):
                                # comparison of an inner node's label with a terminal label
                                b = 0 if eq_terminal_index(I, c, p) else None
                    except Infeasible:
                        continue
                    finally:
                        I.S = o.S
                    R.ob(('C29', 'C08'), 'constants are recognised', True if b == int(spec(k)) else (False if b is not None and clean(o) else None), locof(None, o, root),
                         '%s::%s for %s: %s' % (cls, m, {'bot': 'the constant 0', 'top': 'the constant 1', 'inner': 'an inner node'}[k], b))
    # comparison of handles
    for fn, want in (('vdriver::ref_eq', True), ('vdriver::ref_ne', False)):
        x, y = nullable('x'), nullable('y')

        def st(I, root):
            a, b = refobj(I, 'a', x), refobj(I, 'b', y)
            I.S.events.clear()
            return I.run(root, [a, b])
        I, root, outs = run(P, R, fn, st, ('C03',), fn)
        for o in outs:
            I.S = o.S
            v = I.norm(o.value) if isinstance(o.value, T) else o.value
            w = eq(I.norm(x), I.norm(y))
            w = w if want else bnot(w)
            same = v is w
            if not same and v in (TRUE, FALSE):
                d = I.decide(w)
                same = d is not None and d == (v is TRUE)
            R.ob('C03', 'handles are compared by node', True if same else (False if clean(o) and not I.S.events else None), locof(None, o, root), '%s is %s' % (fn, show(v, 4)))


def eq_terminal_index(I, c, p):
    d = c.args[0]
    k, l = lin(d)
    return len(l) == 1 and l[0][0].op == 'fld' and l[0][0].args[0] == 'index' and -k * l[0][1] in (IDX['bot'], IDX['top'])


def operators(P, R):
    for fn, op, n, pat in (('op_and', 'and', 2, r'BDD::operator&\('), ('op_or', 'or', 2, r'BDD::operator\|\|\('), ('op_xor', 'xor', 2, r'BDD::operator\^\('), ('op_not', 'not', 1, r'BDD::operator!\(')):
        fl = [nodesym('f'), nodesym('g')][:n]

        def st(I, root):
            setup_mgr(I)
            rs = slot(I, 'ret')
            args = [rs] + [refarg(I, 'a%d' % i, t) for i, t in enumerate(fl)]
            I.S.events.clear()
            I.run(root, args)
            I.S.user['after'] = [cell(I, rs)] + [cell(I, a) for a in args[1:]]
            return cell(I, rs)
        I, root, outs = run(P, R, pat, st, ('C01', 'C05'), fn, contracts=('and2', 'or2', 'xor2', 'negate', 'ite', 'find_bdd_mgr'))
        if I is None:
            R.errors.append('operator %s not found' % op)
            continue
        for o in outs:
            I.S = o.S
            D = Denotation(I, {})
            args = [I.norm(x) for x in fl]
            try:
                bad = D.equal(o.value, C.opres(op, *args))
                R.ob('C01', 'operators denote their operation', True if bad is None else (False if clean(o) else None), locof(None, o, root), 'operator for %s returns %s' % (op, show(I.norm(o.value), 4)),
                     {'valuation': bad} if bad else None)
            except Opaque as e:
                R.ob('C01', 'operators denote their operation', None, locof(None, o, root), str(e))
            report_rc(I, R, o, root, fn, args, o.S.user['after'])


def mgr_refs(P, R):
    """functions of the manager that return nodes"""
    cases = [
        (r'BDD::bdd_mgr::topsink\(\) const$', 'topsink', 0),
        (r'BDD::bdd_mgr::botsink\(\) const$', 'botsink', 0),
        (r'BDD::bdd_mgr::projection\(unsigned long\)$', 'projection', 1),
        (r'BDD::bdd_mgr::neg_projection\(unsigned long\)$', 'neg_projection', 1),
        (C.MGRF + r'unique_find\([^)]*\)$', 'unique_find', 3),
    ]
    for pat, name, n in cases:
        i = sym('var', small=True)
        lo, hi = nodesym('l'), nodesym('h')

        def st(I, root):
            setup_mgr(I)
            rs = slot(I, 'ret')
            args = [rs, MGR]
            if n >= 1:
                args.append(i)
            if n >= 3:
                args += [refarg(I, 'a0', lo), refarg(I, 'a1', hi)]
            if name == 'projection':
                # add_variable appends one variable
                def addv(I, a, nm):
                    v = addc(MGR, I.P.field('BDD::bdd_mgr', 'vars') // 8)
                    from .models import vget
                    b, e, k = vget(I, v, 'BDD::var_struct')
                    I.store(addc(v, 8), addc(e, I.L.size('BDD::var_struct')), 8)
                    I.event('add_variable')
                    return k
                f = I.P.find1(C.MGRF + r'add_variable\(\)$')
                if f:
                    I.contracts[f] = addv
            I.S.events.clear()
            I.run(root, args)
            I.S.user['after'] = [cell(I, rs)] + [cell(I, a) for a in args[3:]]
            return cell(I, rs)
        I, root, outs = run(P, R, pat, st, ('C01', 'C05'), name, contracts=('unique_find2', 'unique_find3', 'lookup', 'insert'))
        if I is None:
            R.errors.append(name + ' not found')
            continue
        for o in outs:
            I.S = o.S
            v = I.norm(o.value)
            ii = I.norm(i)
            want = {'topsink': TOP, 'botsink': BOT}.get(name)
            if want is None:
                l, h = {'projection': (BOT, TOP), 'neg_projection': (TOP, BOT), 'unique_find': (I.norm(lo), I.norm(hi))}[name]
                want = l if l is h else mk('mk', ii, l, h)
            same = v is want
            ref = not same and v.op in ('mk', 'sym') and want.op in ('mk', 'sym')
            R.ob(('C01',) if n else ('C01', 'C29'), 'functions creating nodes return the node they are asked for', True if same else (False if clean(o) and ref else None), locof(None, o, root),
                 '%s returns %s' % (name, show(v, 5)), facts(I, o) if not same else None)
            if name == 'projection':
                from .models import vget
                I.S = o.S
                nv = I.norm(vget(I, addc(MGR, P.field('BDD::bdd_mgr', 'vars') // 8), 'BDD::var_struct')[2])
                ok = I.prove_ge0(addc(sub(nv, ii), -1))
                bad = not ok and clean(o) and bool(witness([I.norm(f) for f in o.S.facts] + [bnot(ult(ii, nv))], (0, 1, 5, 1 << 20, (1 << 20) + 5)))
                R.ob(('C08', 'C12'), 'missing variables are created before they are used', True if ok else (False if bad else None), locof(None, o, root),
                     'projection: %s variables exist when variable %s is used' % (show(nv, 4), show(ii, 3)), None if ok else facts(I, o))
            for e in o.S.events:
                if e.k == 'mk':
                    own = e.d.get('own')
                    own = I.norm(own) if own is not None else I.norm(e.i)
                    R.ob(('C02', 'C03'), 'nodes are stored in the table of their own variable', True if own is I.norm(e.i) else None, locof(e, o, root), '%s stores a node labelled %s' % (name, show(I.norm(e.i), 3)))
            report_rc(I, R, o, root, name, [I.norm(x) for x in (lo, hi)][:max(0, n - 1)], o.S.user['after'])


# ------------------------------------------------------------------ terminals
def lemma_terminals(P, R):
    terminals(P, R)


def terminals(P, R):
    """the terminals are completely initialised and have different labels"""
    got = {}
    for m in ('init_botsink', 'init_topsink'):
        fs = P.find(r'BDD::node_struct::%s\(' % m)
        if not fs:
            R.ob('C29', 'constants are initialised', None, None, m + ' not found')
            continue
        root = P.func(fs[0])
        I = Interp(P, Models(), node_axioms=False)
        t = sym('T')
        t = mk('slot', 'terminal')
        t.meta = {PTR: True, 'nonnull': True, 'cls': NODE}

        def start(I):
            I.S.fresh[t] = 'undef'
            return I.run(root, [t] + [sym('mgr', ptr=True, nonnull=True, cls='BDD::bdd_mgr')] * (len(root.args) - 1))
        outs = I.explore(start, 20)
        R.absorb(I, outs)
        for o in outs:
            I.S = o.S
            if o.kind != 'ret':
                R.ob('C29', 'constants are initialised', None, locof(None, o, root), str(o.info))
                continue
            d = {}
            cells = o.S.mem.get(t, {})
            for nm, off, w in (('lo', 0, 8), ('hi', 8, 8), ('word', 16, 8)):
                c = cells.get(const(off))
                d[nm] = I.norm(c[1]) if c and c[0] == w else None
            xr = o.S.xd.get(t)
            und = [n for n, v in d.items() if v is None or any(x.op == 'undef' for x in subterms(v))]
            if d['word'] is not None:
                # which bits are undefined?
                w = d['word']
                und = [n for n in und if n != 'word']
                for nm, a, b in (('index', 0, 41), ('hash_key', 41, 63), ('marked_', 63, 64)):
                    s = bit_and(lshr(w, const(a)), const((1 << (b - a)) - 1))
                    if any(x.op == 'undef' for x in subterms(s)):
                        und.append(nm)
                    d[nm] = s
            if xr is None or any(x.op == 'undef' for x in subterms(xr)):
                und.append('xref')
            R.ob('C29', 'constants are initialised', not und, locof(None, o, root), m + (': uninitialised: ' + ', '.join(und) if und else ': all fields are set'))
            R.ob('C05', 'constants start with one reference', True if xr is ONE else (False if xr is not None and is_const(xr) else None), locof(None, o, root), '%s sets the counter to %s' % (m, show(xr, 3) if xr is not None else '?'))
            R.ob('C29', 'constants carry no mark', True if d.get('marked_') is ZERO else (False if d.get('marked_') is not None and is_const(d['marked_']) else None), locof(None, o, root), m)
            same = d['lo'] is not None and d['lo'] is d['hi'] and d['lo'] is sym('mgr')
            R.ob(('C29', 'C20'), 'constants know their manager', True if same else (False if d['lo'] is not None and is_const(d['lo']) else None), locof(None, o, root), m)
            got[m] = (d.get('index'), locof(None, o, root), d.get('hash_key'))
    if len(got) == 2:
        a, b = got['init_botsink'][0], got['init_topsink'][0]
        W = got['init_topsink'][1]
        if a is not None and b is not None and is_const(a) and is_const(b):
            R.ob('C29', 'labels of the constants differ', a is not b, W, 'labels %d and %d' % (cval(a), cval(b)))
            from . import nodes
            big = min(cval(a), cval(b))
            R.ob('C29', 'labels of the constants exceed all variables', True if big >= (1 << 41) - 2 else None, W, 'smallest label of a constant is %d' % big)
            R.ob('C29', 'recognition and initialisation of constants agree', (cval(a), cval(b)) == (IDX['bot'], IDX['top']), W, 'labels %d and %d' % (cval(a), cval(b)))


def index_constants(P):
    """labels of the terminals, read from the initialisation"""
    out = {}
    for m in ('init_botsink', 'init_topsink'):
        fs = P.find(r'BDD::node_struct::%s\(' % m)
        if not fs:
            return None
        root = P.func(fs[0])
        I = Interp(P, Models(), node_axioms=False)
        t = mk('slot', 'terminal')
        t.meta = {PTR: True, 'nonnull': True, 'cls': NODE}

        def start(I):
            I.S.fresh[t] = 'undef'
            return I.run(root, [t] + [sym('mgr', ptr=True, nonnull=True, cls='BDD::bdd_mgr')] * (len(root.args) - 1))
        for o in I.explore(start, 20):
            c = o.S.mem.get(t, {}).get(const(16))
            if o.kind == 'ret' and c and c[0] == 8:
                I.S = o.S
                v = bit_and(I.norm(c[1]), const((1 << 41) - 1))
                if is_const(v):
                    out[m] = cval(v)
    if len(out) == 2:
        return out['init_botsink'], out['init_topsink']
    return None


# ------------------------------------------------------------------ find_bdd_mgr
def find_mgr(P, R):
    fs = P.find(r'BDD::node_struct::find_bdd_mgr\(\)$')
    if not fs:
        return
    root = P.func(fs[0])
    I = Interp(P, Models())
    p = nodesym('p')

    def rec(I, a, name):
        q = I.norm(a[0])
        I.event('rec', node=q)
        return MGR
    for g in P.recursive(fs[0]):
        I.contracts[g] = rec

    def start(I):
        setup_mgr(I)
        I.S.events.clear()
        return I.run(root, [p])
    outs = I.explore(start, 100)
    R.absorb(I, outs)
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, 'find_bdd_mgr')
        if o.kind == 'unsupported':
            R.ob(('C20', 'C08'), 'the manager of a node is found', None, locof(None, o, root), o.info)
        if o.kind != 'ret':
            continue
        v = I.norm(o.value)
        R.ob(('C20', 'C01'), 'the manager of a node is found', True if v is MGR else (False if clean(o) else None), locof(None, o, root), 'find_bdd_mgr returns %s' % show(v, 4), facts(I, o))
        for e in o.S.events:
            if e.k == 'rec':
                q, pn = I.norm(e.node), I.norm(p)
                good = q in (I.norm(lo_of(pn)), I.norm(hi_of(pn))) and I.kind(pn) == 'inner'
                R.ob('C23', 'recursion is well founded', True if good else (False if q is pn else None), locof(e, o, root), 'find_bdd_mgr recurses on %s' % show(q, 3))


# ------------------------------------------------------------------ lists of handles from lists of nodes
def convert(P, R):
    for m in ('nodes_postorder', 'nodes_bfs'):
        fs = P.find(NRF + m + r'\(\)$')
        if not fs:
            R.errors.append('node_ref::%s not found' % m)
            continue
        root = P.func(fs[0])
        I = Interp(P, Models())
        p = nodesym('p')

        def listing(I, a, name):
            from .models import vec_init
            n = sym('count', small=True)
            d = sym('listdata', ptr=True, nonnull=True, cls=NODE + '*')
            I.S.epoch.setdefault(d, 0)
            I.event('listing', fn=name, node=I.norm(a[1]))
            setmeta(d, refsnonnull=True)
            d.meta['refsnonnull'] = True
            I.store(a[0], d, 8)
            I.store(addc(a[0], 8), add(d, scale(n, 8)), 8)
            I.store(addc(a[0], 16), add(d, scale(n, 8)), 8)
            return None
        for k in ('nodes_postorder', 'nodes_bfs'):
            for f in P.find(r'BDD::node_struct::%s\(\)$' % k):
                I.contracts[f] = listing

        def start(I):
            setup_mgr(I)
            src = refobj(I, 'src', p)
            res = slot(I, 'ret', 'std::vector<BDD::node_ref>')
            I.S.events.clear()
            I.run(root, [res, src])
            return None
        try:
            outs = I.explore(start, 60)
        except Budget:
            outs = []
        R.absorb(I, outs)
        I.outs = outs
        RULE = 'lists of nodes are turned into lists of handles with exact counts'
        for o in outs:
            I.S = o.S
            if o.kind == 'unsupported':
                R.ob(('C05', 'C07'), RULE, None, locof(None, o, root), o.info)
                continue
            ls = [e for e in o.S.events if e.k == 'listing']
            if ls:
                want = 'BDD::node_struct::' + m
                got = P.demangled(ls[0].fn).split('(')[0]
                R.ob('C07', 'handle queries list the nodes of the diagram', got == want and I.norm(ls[0].node) is I.norm(p), locof(ls[0], o, root), 'node_ref::%s uses %s' % (m, got))
            if o.kind == 'backedge':
                # one element: the handle stored counts once, nothing else changes
                tot = ZERO
                for nn, v in o.S.xd.items():
                    tot = add(tot, I.norm(v))
                R.ob(('C05',), RULE, True if tot is ONE else (False if is_const(tot) and clean(o) else None), locof(None, o, root), '%s: counters change by %s per listed node' % (m, show(tot, 4)))
            if o.kind == 'ret':
                dr = [e for e in o.S.events if e.k == 'destroy_refs']
                R.ob(('C05',), RULE, False if dr and clean(o) else True, locof(dr[0] if dr else None, o, root), '%s: the list of handles is handed over%s' % (m, ' and destroyed' if dr else ''))


# ------------------------------------------------------------------ queries through a handle
QF = 'a query through a handle is that of its node'
FORWARD = (
    # member, pattern of the query of the node, properties
    ('nr_nodes', r'BDD::node_struct::nr_nodes\(\)', ('C07',)),
    ('exactly_one_solution', r'BDD::node_struct::exactly_one_solution\(\)', ('C27',)),
    ('variables', r'BDD::node_struct::variables\(\)', ('C07',)),
    ('unmark_rec', r'BDD::node_struct::unmark\(\)', ('C07',)),
    ('print', r'BDD::node_struct::print<', ('C07',)),
    ('find_bdd_mgr', r'BDD::node_struct::find_bdd_mgr\(\)', ('C20',)),
    ('get_bdd_mgr', r'BDD::node_struct::find_bdd_mgr\(\)', ('C20',)),
    ('reference_count', None, ('C05',)),
    ('variable', None, ('C01', 'C11')),
    ('marked', None, ('C07',)),
    ('mark', None, ('C07',)),
    ('unmark', None, ('C07',)),
)


def forwards(P, R):
    p = nodesym('p')
    for m, target, props in FORWARD:
        for n in P.find(r'(\S+ )?' + NRF + m + r'(<.*>)?\('):
            root = P.func(n)
            if root is None or not P.in_repo(n) and 'node_ref' not in root.dem:
                continue
            forward(P, R, root, m, target, props, p)


def forward(P, R, root, m, target, props, p):
    void = root.ret == 'void'
    sret = m == 'variables' and len(root.args) > 1

    def c_query(I, a, name):
        f = I.P.func(name)
        k = 1 if f.ret == 'void' and len(f.args) > 1 and m == 'variables' else 0
        t = mk('query', m, I.norm(a[k]))
        I.event('query', node=I.norm(a[k]), args=[I.normv(x) for x in a], res=t)
        if f.ret == 'i1':
            setmeta(t, width=1)
            return bnot(eq(t, ZERO))
        if f.ret == 'ptr':
            setmeta(t, ptr=True, nonnull=True, cls='BDD::bdd_mgr')
        elif f.ret != 'void':
            setmeta(t, small=True)
        return None if f.ret == 'void' else t

    I = Interp(P, Models())
    if target:
        for x in P.find(r'(\S+ )?' + target):
            I.contracts[x] = c_query
    b = sym('out', ptr=True, nonnull=True)

    def start(I):
        setup_mgr(I)
        src = refobj(I, 'src', p)
        args = [src]
        if sret:
            args = [slot(I, 'ret'), src]
        args += [b] * (len(root.args) - len(args))
        I.S.events.clear()
        I.S.user['src'] = src
        I.S.user['args'] = args
        I.S.user['word'] = I.load(addc(I.norm(p), 16), 8)
        return I.run(root, args)
    try:
        outs = I.explore(start, 100)
    except Budget:
        R.ob(props, QF, None, (root.file, root.line, root.dem), 'too many paths')
        return
    R.absorb(I, outs)
    name = 'node_ref::' + m
    for o in outs:
        I.S = o.S
        check_common(I, R, o, root, name)
        if o.kind != 'ret':
            if o.kind == 'unsupported':
                R.ob(props, QF, None, locof(None, o, root), '%s: %s' % (name, o.info))
            continue
        cl = clean(o)
        q = [e for e in o.S.events if e.k == 'query']
        if cell(I, o.S.user['src']) is not I.norm(p):
            R.ob(props, QF, False if cl else None, locof(None, o, root), '%s changes the handle' % name)
            continue
        if any(I.norm(v) is not ZERO for v in o.S.xd.values()):
            R.ob('C05', RULE_RC, False if cl and all(is_const(I.norm(v)) for v in o.S.xd.values()) else None, locof(None, o, root), '%s changes counters' % name)
        v = I.norm(o.value) if isinstance(o.value, T) else None
        kind = I.kind(I.norm(p))
        w1 = I.norm(I.load(addc(I.norm(p), 16), 8))
        w0 = I.norm(o.S.user['word'])
        if m in ('mark', 'unmark'):
            bit = bit_and(lshr(w1, const(63)), ONE)
            rest = bit_and(w1, const((1 << 63) - 1)) is bit_and(w0, const((1 << 63) - 1))
            want = ONE if m == 'mark' else ZERO
            good = bit is want and rest
            R.ob(props, QF, True if good else (False if cl and (is_const(bit) and bit is not want or rest and bit is bit_and(lshr(w0, const(63)), ONE)) else None), locof(None, o, root), '%s sets the mark to %s%s' % (name, show(bit, 3), '' if rest else ' and changes more'))
            continue
        if w1 is not w0:
            R.ob(props, QF, False if cl and m != 'variables' and not q and not root.loops and kind not in ('bot', 'top') and len(o.S.events) == sum(e.k == 'store' for e in o.S.events) else None,
                 locof(None, o, root), '%s writes to the node%s' % (name, '' if q else ' only'))
            continue
        if target:
            good = len(q) == 1 and q[0].node is I.norm(p) and (void or m in ('variables', 'print') or v is not None and (v is q[0].res or v is bnot(eq(q[0].res, ZERO)) or boolean_of(I, v, q[0].res)))
            if good and sret:
                good = q[0].args[0] is I.norm(o.S.user['args'][0])
            bad = cl and (len(q) == 1 and q[0].node is not I.norm(p) and is_diff_node(I, q[0].node, p))
            if not q and kind in ('bot', 'top'):
                want = {'nr_nodes': ZERO, 'exactly_one_solution': ONE if kind == 'top' else ZERO}.get(m)
                if want is not None and v is not None:
                    c = {TRUE: ONE, FALSE: ZERO}.get(v, v)
                    good, bad = c is want, cl and is_const(c) and c is not want
                elif m in ('unmark_rec',):
                    good, bad = True, False
                else:
                    bad = False
            elif not q and kind == 'inner':
                c = {TRUE: ONE, FALSE: ZERO}.get(v, v)
                bad = cl and (void and m != 'variables' or c is not None and is_const(c) and m in ('nr_nodes', 'exactly_one_solution'))
            elif good is False and len(q) == 1 and q[0].node is I.norm(p) and v is not None:
                c = {TRUE: ONE, FALSE: ZERO}.get(v, v)
                bad = cl and (is_const(c) and not is_const(I.norm(q[0].res)) and I.decide(eq(q[0].res, c)) is None or c is not q[0].res and m == 'nr_nodes' and is_const(sub(c, q[0].res)) and sub(c, q[0].res) is not ZERO
                              or m == 'exactly_one_solution' and v is eq(q[0].res, ZERO))
            R.ob(props, QF, True if good else (False if bad else None), locof(None, o, root), '%s: %s' % (name, 'forwards' if good else 'returns %s' % (show(v, 4) if v is not None else 'something else')), facts(I, o) if not good else None)
            continue
        want = {'reference_count': lambda: I.norm(I.load(addc(I.norm(p), 24), 8)) if False else I.xref_load(I.norm(p)),
                'variable': lambda: index_of(I.norm(p)), 'marked': lambda: bit_and(lshr(w0, const(63)), ONE)}[m]()
        want = I.norm(want)
        good = v is want or v is bnot(eq(want, ZERO)) and m == 'marked' or boolean_of(I, v, want)
        bad = cl and v is not None and not good and (v is eq(want, ZERO) and m == 'marked' or is_const(sub(v, want)) if not v.op in ('eq0', 'not', 'band', 'ult', 'slt') else v is eq(want, ZERO))
        R.ob(props, QF, True if good else (False if bad else None), locof(None, o, root), '%s returns %s' % (name, show(v, 4) if v is not None else '?'))


def is_diff_node(I, a, b):
    try:
        return I.distinct(I.norm(a), I.norm(b))
    except Exception:
        return False


def boolean_of(I, v, t):
    """v is a constant that the path has determined to equal t"""
    if v is None:
        return False
    c = {TRUE: ONE, FALSE: ZERO}.get(v, v)
    return is_const(c) and I.decide(eq(I.norm(t), c)) is True
