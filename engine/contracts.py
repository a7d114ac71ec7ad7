"""Contracts: what a call of a function of the repository means.  Every contract is itself the subject of a lemma."""
import re
from .terms import *
from .interp import PTR, Unsupported, PathEnd, setmeta, getmeta, is_ptr, sym
from .nodes import *

R = 'BDD::node_ref'


def ret_ref(I, slot, t):
    """construct a node_ref in slot"""
    I.store(slot, t, 8)
    I.xref_add(t, 1)


def opres(op, *args):
    t = mk('opres', op, *args)
    setmeta(t, ptr=True, cls=NODE, nonnull=True)
    return t


def getref(I, p):
    return I.norm(I.load(p, 8, 'ptr'))


def c_op(op, n):
    def c(I, a, name):
        args = [getref(I, x) for x in a[2:2 + n]]
        t = opres(op, *args)
        I.event('op', op=op, args=args, res=t, mgr=I.norm(a[1]))
        ret_ref(I, a[0], t)
        return None
    return c


def c_limited(I, a, name):
    """std::tuple<node_ref,size_t>"""
    f, g = getref(I, a[2]), getref(I, a[3])
    lim = a[4]
    t = mk('lim', 'and', f, g)
    setmeta(t, ptr=True, cls=NODE)
    n = mk('limn', f, g, lim)
    setmeta(n, small=True)
    null = I.branch(eq(t, ZERO))
    I.event('op', op='lim', args=[f, g], res=t, lim=lim, null=null, n=n)
    from . import lemmas_ops
    off_ref, off_n = lemmas_ops.tuple_layout(I)
    I.store(addc(a[0], off_n), const(-1) if null else n, 8)
    I.store(addc(a[0], off_ref), ZERO if null else t, 8)
    if not null:
        I.assume(bnot(ult(lim, n)))
        I.xref_add(t, 1)
    return None


def var_index(I, v):
    """variable number of a var_struct given by address: element of the manager's vector, else its own field"""
    v = I.norm(v)
    base, off = I.split(v)
    s = I.L.size('BDD::var_struct')
    if getmeta(base, 'cls') == 'BDD::var_struct' and base.op == 'vdata':
        return udiv(off, const(s))
    return I.norm(fld('var', v, 'unsigned long'))


def mknode(I, i, l, h):
    if l is h:
        return l
    t = mk('mk', i, l, h)
    return setmeta(t, ptr=True, cls=NODE, nonnull=True)


def c_unique_find2(I, a, name):
    i = var_index(I, a[0])
    l, h = I.norm(a[1]), I.norm(a[2])
    t = mknode(I, i, l, h)
    I.event('mk', i=i, lo=l, hi=h, res=t, var=I.norm(a[0]))
    return t


def c_unique_find3(I, a, name):
    i = I.norm(a[1])
    own = var_index(I, a[0])
    l, h = I.norm(a[2]), I.norm(a[3])
    t = mknode(I, i, l, h)
    I.event('mk', i=i, lo=l, hi=h, res=t, var=I.norm(a[0]), own=own)
    return t


def c_mgr_unique_find(I, a, name):
    i = I.norm(a[2])
    l, h = getref(I, a[3]), getref(I, a[4])
    t = mknode(I, i, l, h)
    I.event('mk', i=i, lo=l, hi=h, res=t, var=None)
    ret_ref(I, a[0], t)
    return None


def c_lookup(I, a, name):
    k = [I.norm(x) for x in a[1:4]]
    t = mk('memo', *k)
    setmeta(t, ptr=True, cls=NODE)
    I.event('lookup', key=k, res=t, cache=I.norm(a[0]))
    return t


def c_insert(I, a, name):
    k = [I.norm(x) for x in a[1:4]]
    I.event('insert', key=k, val=I.norm(a[4]), cache=I.norm(a[0]))
    return None


def c_nrnodes(I, a, name):
    p = I.norm(a[0])
    t = mk('nrnodes', p)
    setmeta(t, small=True)
    I.event('nrnodes', node=p)
    return t


def c_find_mgr(I, a, name):
    return MGR


def c_sink(node):
    def c(I, a, name):
        ret_ref(I, a[0], node)
        return None
    return c


def c_projection(neg):
    def c(I, a, name):
        i = I.norm(a[2])
        t = mknode(I, i, TOP, BOT) if neg else mknode(I, i, BOT, TOP)
        I.event('projection', i=i, neg=neg)
        ret_ref(I, a[0], t)
        return None
    return c


MGRF = r'BDD::bdd_mgr::'
NR2 = r'\(BDD::node_ref, BDD::node_ref\)$'
TABLE = [
    ('and2', MGRF + r'and_rec' + NR2, c_op('and', 2)),
    ('or2', MGRF + r'or_rec' + NR2, c_op('or', 2)),
    ('xor2', MGRF + r'xor_rec' + NR2, c_op('xor', 2)),
    ('negate', MGRF + r'negate\(BDD::node_ref\)$', c_op('not', 1)),
    ('ite', MGRF + r'ite_rec\(BDD::node_ref, BDD::node_ref, BDD::node_ref\)$', c_op('ite', 3)),
    ('limited', MGRF + r'and_rec_limited\([^)]*\)$', c_limited),
    ('unique_find2', r'BDD::var_struct::unique_find\(BDD::node_struct\*, BDD::node_struct\*\)$', c_unique_find2),
    ('unique_find3', r'BDD::var_struct::unique_find\(unsigned long, BDD::node_struct\*, BDD::node_struct\*\)$', c_unique_find3),
    ('mgr_unique_find', MGRF + r'unique_find\([^)]*\)$', c_mgr_unique_find),
    ('lookup', r'BDD::memo_cache::cache_lookup\([^)]*\)$', c_lookup),
    ('insert', r'BDD::memo_cache::cache_insert\([^)]*\)$', c_insert),
    ('nr_nodes', r'BDD::node_struct::nr_nodes\(\)$', c_nrnodes),
    ('find_bdd_mgr', r'BDD::node_struct::find_bdd_mgr\(\)$', c_find_mgr),
    ('projection', MGRF + r'projection\(unsigned long\)$', c_projection(False)),
    ('neg_projection', MGRF + r'neg_projection\(unsigned long\)$', c_projection(True)),
]


def install(I, *names, exclude=()):
    """use the contracts with the given names (all when empty) in interpretation I"""
    for n, pat, c in TABLE:
        if (names and n not in names) or n in exclude:
            continue
        for f in cached_find(I.P, pat):
            I.contracts[f] = c


_found = {}


def cached_find(P, pat):
    k = (id(P), pat)
    if k not in _found:
        _found[k] = P.find(pat)
    return _found[k]
