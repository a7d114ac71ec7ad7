"""Facts about diagram nodes: terminals, variable order, denotation of node terms."""
from . import terms as TT
from .terms import *
from .interp import sym, setmeta, getmeta, fld

NODE = 'BDD::node_struct'
BOT = sym('BOT', ptr=True, cls=NODE, nonnull=True, keep=True)
TOP = sym('TOP', ptr=True, cls=NODE, nonnull=True, keep=True)
MGR = sym('MGR', ptr=True, cls='BDD::bdd_mgr', nonnull=True, keep=True)
IDX = {'bot': (1 << 41) - 1, 'top': (1 << 41) - 2}


def set_index_constants(b, t):
    IDX['bot'], IDX['top'] = b, t


def hook_fld(args):
    if args[0] == 'index':
        if args[1] is BOT:
            return const(IDX['bot'])
        if args[1] is TOP:
            return const(IDX['top'])
    return None


_rebuild = TT.rebuild


def rebuild(op, args):
    if op == 'fld':
        r = hook_fld(args)
        if r is not None:
            return r
    return _rebuild(op, args)


TT.rebuild = rebuild


def index_of(p):
    r = hook_fld(('index', p))
    if r is not None:
        return r
    t = fld('index', p, 'unsigned long', width=41)
    setmeta(t, width=41)
    return t


def lo_of(p):
    t = fld('lo', p, NODE + '*')
    return setmeta(t, nonnull=True)


def hi_of(p):
    t = fld('hi', p, NODE + '*')
    return setmeta(t, nonnull=True)


def node_index(I, obj, t):
    r = hook_fld(('index', obj))
    return r if r is not None else t


def node_eq0(I, d):
    c, l = lin(d)
    if len(l) != 1:
        return None
    a, k = l[0]
    if a.op == 'fld' and a.args[0] == 'index' and len(a.args) == 2 and abs(k) == 1:
        v = -c * k
        if v == IDX['bot']:
            return eq(a.args[1], BOT)
        if v == IDX['top']:
            return eq(a.args[1], TOP)
    return None


def chain(p):
    while p.op == 'fld' and p.args[0] in ('lo', 'hi'):
        p = p.args[1]
        yield p


def below_inner(I, x):
    """the label of x is known to be at most that of an inner node, hence x is none of the constants"""
    ix = I.norm(index_of(x))
    lim = min(IDX['bot'], IDX['top'])
    for c, v in list(I.S.conds.items()):
        if c.op != 'ult':
            continue
        p, q = c.args if v else (c.args[1], c.args[0])
        if I.norm(p) is not ix:
            continue
        q = I.norm(q)
        if is_const(q):
            if 0 <= cval(q) < lim or v and cval(q) == lim:
                return True
        elif q.op == 'fld' and q.args[0] == 'index' and I.kind(q.args[1]) == 'inner':
            return True
    return False


def nodes_distinct(I, a, b):
    ka, kb = I.kind(a), I.kind(b)
    if ka and kb and ka != kb:
        return True
    if ka in ('bot', 'top') and ka == kb:
        return False
    for x, y in ((a, b), (b, a)):
        if any(z is x for z in chain(y)):
            return True
    for k, y in ((ka, b), (kb, a)):
        if k in ('bot', 'top') and I.kind(y) is None and below_inner(I, y):
            return True
    if a.op == 'fld' and b.op == 'fld' and a.args[1] is b.args[1] and {a.args[0], b.args[0]} == {'lo', 'hi'}:
        if I.kind(a.args[1]) == 'inner':
            return True
    if ka == 'inner' and kb == 'inner':
        ia, ib = I.norm(index_of(a)), I.norm(index_of(b))
        if ia is not ib and (I.decide(ult(ia, ib)) is True or I.decide(ult(ib, ia)) is True):
            return True
        # a lies below a node whose variable is not smaller than that of b, or the other way round
        for x, y in ((a, b), (b, a)):
            iy = I.norm(index_of(y))
            for z in chain(x):
                iz = I.norm(index_of(z))
                if iz is iy or I.decide(ult(iy, iz)) is True:
                    return True
    return False


# ------------------------------------------------------------------ denotation
AND_S = 32
OPS = {
    'and': lambda a: int(all(a)), 'or': lambda a: int(any(a)), 'xor': lambda a: sum(a) & 1,
    'not': lambda a: 1 - a[0], 'ite': lambda a: a[1] if a[0] else a[2],
    'allfalse': lambda a: int(not any(a)),
}


class Opaque(Exception):
    pass


class Denotation:
    """pointwise evaluation of node terms over the free values of their leaves"""

    def __init__(self, I, symbols):
        self.I = I
        self.symbols = symbols   # constant -> operation of memo keys

    def collect(self, ts):
        """leaves and expanded nodes"""
        I = self.I
        ex = set()
        seen = set()
        st = [I.norm(t) for t in ts]
        # results that are known to equal something else on the path
        self.cons = []
        for x, y in I.S.sub.items():
            if x.op in ('opres', 'lim', 'memo', 'mk') and not is_const(I.norm(y)):
                try:
                    a = self.memo_op(x)[1] if x.op == 'memo' else [I.norm(z) for z in x.args[1:]]
                except Opaque:
                    continue
                self.cons.append((x, I.norm(y)))
                st.append(I.norm(y))
                st.extend(a[:2] if x.op == 'mk' else a)
        nodes = set()
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t in (BOT, TOP):
                continue
            if t.op in ('opres', 'lim'):
                st.extend(I.norm(x) for x in t.args[1:])
            elif t.op == 'mk':
                st.extend(I.norm(x) for x in t.args[1:3])
            elif t.op == 'memo':
                o = self.memo_op(t)
                st.extend(o[1])
            else:
                nodes.add(t)
                if t.op == 'fld' and t.args[0] in ('lo', 'hi') and len(t.args) == 2:
                    p = I.norm(t.args[1])
                    if p in (BOT, TOP):
                        raise Opaque('child of a terminal')
                    if I.is_node(p):
                        ex.add(p)
                        st.append(p)
        # complete: both children of expanded nodes
        more = True
        while more:
            more = False
            for p in list(ex):
                for c in (I.norm(lo_of(p)), I.norm(hi_of(p))):
                    if c not in nodes and c not in (BOT, TOP):
                        nodes.add(c)
        self.ex = ex
        self.leaves = sorted((n for n in nodes if n not in ex), key=lambda t: t.id)
        for n in self.leaves:
            if not self.I.is_node(n):
                raise Opaque(show(n))
        xs = set()
        for t in seen:
            if t.op == 'mk':
                xs.add(I.norm(t.args[0]))
        for t, _ in self.cons:
            if t.op == 'mk':
                xs.add(I.norm(t.args[0]))
        for p in ex:
            xs.add(I.norm(index_of(p)))
        self.xs = sorted(xs, key=lambda t: t.id)

    def memo_op(self, t):
        k0, k1, k2 = [self.I.norm(x) for x in t.args]
        if is_const(k2):
            o = self.symbols.get(cval(k2))
            if o is None:
                raise Opaque('memo symbol')
            return (o, [k0, k1])
        return ('ite', [k0, k1, k2])

    def val(self, t, env):
        return self.raw(self.I.norm(t), env)

    def raw(self, t, env):
        I = self.I
        if t is BOT:
            return 0
        if t is TOP:
            return 1
        if t.op in ('opres', 'lim'):
            return OPS[t.args[0]]([self.val(x, env) for x in t.args[1:]])
        if t.op == 'mk':
            return self.val(t.args[2], env) if env[I.norm(t.args[0])] else self.val(t.args[1], env)
        if t.op == 'memo':
            o, a = self.memo_op(t)
            return OPS[o]([self.val(x, env) for x in a])
        if t in self.ex:
            return self.val(hi_of(t), env) if env[I.norm(index_of(t))] else self.val(lo_of(t), env)
        return env[t]

    def equal(self, t, spec):
        """None when equal everywhere, else a distinguishing valuation"""
        import itertools
        self.collect([t, spec])
        atoms = self.xs + self.leaves
        if len(atoms) > 16:
            raise Opaque('too many atoms')
        for bits in itertools.product((0, 1), repeat=len(atoms)):
            env = dict(zip(atoms, bits))
            if self.val(t, env) != self.val(spec, env) and all(self.raw(x, env) == self.val(y, env) for x, y in self.cons):
                return {show(a): b for a, b in env.items()}
        return None


# ------------------------------------------------------------------ variable order
def level_gt(I, i, t, depth=12):
    """is variable i strictly above every variable node term t depends on / is labelled with?  True, False (refuted) or None"""
    t = I.norm(t)
    i = I.norm(i)
    if t in (BOT, TOP):
        return True
    if depth == 0:
        return None
    if t.op in ('opres', 'lim', 'memo'):
        args = t.args[1:] if t.op != 'memo' else [x for x in t.args if not is_const(I.norm(x))]
        rs = [level_gt(I, i, x, depth - 1) for x in args]
        if all(r is True for r in rs):
            return True
        return False if any(r is False for r in rs) and not any(r is None for r in rs) else None
    if t.op == 'mk':
        j = I.norm(t.args[0])
        c = I.decide(ult(i, j))
        return c
    ix = I.norm(index_of(t))
    if ix is i and I.kind(t) == 'inner':
        return False
    if t.op == 'fld' and t.args[0] in ('lo', 'hi') and len(t.args) == 2:
        p = I.norm(t.args[1])
        ip = I.norm(index_of(p))
        if ip is i or I.decide(ult(i, ip)) is True:
            return True
    c = I.decide(ult(i, ix)) if ix is not i else False
    if c is True:
        return True
    if I.kind(t) == 'inner' and c is False:
        return False
    # every inner node's label is at least i, and it is not i
    k = I.kind(t)
    return None if k is None or c is None else c
