"""Contracts of the hash containers of the standard library: std::unordered_map and std::unordered_set.

The state of a container is a version of unknown (or empty) content and a list of the entries that the analysed path has looked up or
inserted since.  Keys are compared word by word.  A lookup of a key that is not known to be present or absent splits the path, unless a
policy given by the analysis says what the container holds."""
import re
from .terms import *
from .ir import split_name, targs, norm_type
from .interp import PTR, Unsupported, PathEnd, setmeta, getmeta, is_ptr, sym
from .models import rule, RULES, NODE_REF
from .nodes import NODE


class HMap:
    def __init__(self, ver, empty):
        self.ver = ver
        self.empty = empty       # nothing but the listed entries
        self.ents = ()           # (key words, entry address or ZERO when absent), latest last
        self.dirty = 0           # number of insertions, for comparison

    def copy(self):
        m = HMap(self.ver, self.empty)
        m.ents = self.ents
        m.dirty = self.dirty
        return m

    def havoc(self, sig):
        m = HMap(('L', sig), False)
        m.dirty = self.dirty
        return m

    def differs(self, o):
        return self.dirty != o.dirty

    def renorm(self, I):
        self.ents = tuple((tuple(I.norm(w) for w in k), I.norm(e)) for k, e in self.ents)


def state(I, M):
    M = I.norm(M)
    m = I.S.maps.get(M)
    if m is None:
        m = I.S.maps[M] = HMap(0, M in I.S.fresh)
    return M, m


def types(cls):
    ta = targs(cls)
    k = norm_type(ta[0])
    v = norm_type(ta[1]) if 'unordered_map<' in cls.split('(')[0][:20] else None
    return k, v


def size_of(I, t):
    t = norm_type(t)
    if t in ('unsigned long', 'long', 'size_t') or t.endswith('*') or t == NODE_REF:
        return 8
    m = re.match(r'std::array<(?:unsigned )?long, (\d+)(?:ul)?>$', t)
    if m:
        return 8 * int(m.group(1))
    s = I.L.size(t)
    if not s or s % 8:
        raise Unsupported('element of a hash container: ' + t)
    return s


def read_key(I, p, t):
    n = size_of(I, t)
    ptr = norm_type(t) == NODE_REF or norm_type(t).endswith('*')
    return tuple(I.norm(I.load(addc(p, 8 * k), 8, 'ptr' if ptr else 'i64')) for k in range(n // 8))


def same_key(I, a, b):
    r = True
    for x, y in zip(a, b):
        if x is y:
            continue
        d = I.decide(eq(x, y))
        if d is False:
            return False
        if d is None:
            r = None
    return r


def lookup(I, M, m, key, vt):
    """address of the entry of the key, ZERO if there is none"""
    for k, e in reversed(m.ents):
        r = same_key(I, k, key)
        if r is None:
            pol = getattr(I, 'mapdistinct', None)
            if pol and pol(I, M, k, key):
                continue
            r = all(I.branch(eq(x, y)) for x, y in zip(k, key))
            if r is False:
                key2 = tuple(I.norm(w) for w in key)
                return lookup(I, M, I.S.maps[I.norm(M)], key2, vt) if key2 != key else lookup(I, M, I.S.maps[I.norm(M)], key, vt)
        if r:
            return e
    if m.empty:
        return ZERO
    pol = getattr(I, 'mappolicy', None)
    r = pol(I, M, m, key) if pol else None
    present = r
    val = None
    if isinstance(r, tuple):
        present, val = r
    if present is None:
        present = I.choose(2) == 0
    m = I.S.maps[I.norm(M)]
    key = tuple(I.norm(w) for w in key)
    if not present:
        m.ents = m.ents + ((key, ZERO),)
        I.event('map_absent', m=M, key=key)
        return ZERO
    e = mk('fld', 'entry', M, m.ver, *key)
    setmeta(e, ptr=True, nonnull=True)
    fill_entry(I, e, key, val, vt, m)
    m.ents = m.ents + ((key, e),)
    I.event('map_present', m=M, key=key, entry=e, val=I.S.user.get(('mapval', e)))
    return e


def fill_entry(I, e, key, val, vt, m):
    S = I.S
    for i, w in enumerate(key):
        S.mem.setdefault(e, {})[const(8 + 8 * i)] = (8, w)
    if vt is None:
        return
    o = 8 + 8 * len(key)
    n = size_of(I, vt)
    vs = val if isinstance(val, tuple) else (val,)
    for k in range(n // 8):
        t = vs[k] if k < len(vs) and vs[k] is not None else None
        if t is None:
            t = mk('mval', k, e)
            if norm_type(vt) == NODE_REF or norm_type(vt).endswith('*'):
                setmeta(t, ptr=True, nonnull=True, cls=NODE if norm_type(vt) == NODE_REF else norm_type(vt[:-1]))
        S.mem[e][const(o + 8 * k)] = (8, t)
        if k == 0:
            S.user[('mapval', e)] = t


def value_of(I, m_types, e, key):
    o = 8 + 8 * len(key)
    return I.norm(I.load(addc(e, o), 8, 'ptr'))


def insert(I, M, key, vals, kt, vt):
    M, m = state(I, M)
    e = lookup(I, M, m, key, vt)
    if e is not ZERO:
        I.event('map_insert', m=M, key=tuple(I.norm(w) for w in key), val=None, present=True, kept=e)
        return e, False
    M, m = state(I, M)
    e = I.newheap(None, tag='entry')
    for i, w in enumerate(key):
        I.store(addc(e, 8 + 8 * i), w, 8)
    if norm_type(kt) == NODE_REF and I.decide(eq(key[0], ZERO)) is not True:
        I.xref_add(key[0], 1)
    for k, v in enumerate(vals or ()):
        I.store(addc(e, 8 + 8 * len(key) + 8 * k), v, 8)
    if vt is not None and norm_type(vt) == NODE_REF and vals and I.decide(eq(vals[0], ZERO)) is not True:
        I.xref_add(vals[0], 1)
    M, m = state(I, M)
    key = tuple(I.norm(w) for w in key)
    m.ents = m.ents + ((key, e),)
    m.dirty += 1
    I.event('map_insert', m=M, key=key, val=tuple(I.norm(v) for v in vals or ()), present=False, entry=e)
    return e, True


def drop_refs(I, M, m, kt, vt):
    """destructors of the entries that hold references"""
    if m.empty:
        for k, e in m.ents:
            if e is ZERO:
                continue
            if norm_type(kt) == NODE_REF:
                I.xref_add(I.norm(I.load(addc(e, 8), 8, 'ptr')), -1)
            if vt is not None and norm_type(vt) == NODE_REF:
                I.xref_add(I.norm(I.load(addc(e, 8 + 8 * len(k)), 8, 'ptr')), -1)


@rule(r'(?:[^(]*? )?std::unordered_(map|set)<')
def m_hash(I, a, name, dem):
    i = dem.find('std::unordered_')
    cls, meth, params = split_name(dem[i:])
    if not cls.startswith('std::unordered_'):
        raise Unsupported(dem)
    kt, vt = types(cls)
    meth = meth.split('<')[0]
    if meth in ('unordered_map', 'unordered_set'):
        M = I.norm(a[0])
        if params.strip() in ('',) or params.startswith('unsigned long'):
            I.S.maps[M] = HMap(0, True)
            I.event('map_ctor', m=M)
            return None
        raise Unsupported('constructor ' + dem)
    if meth.startswith('~'):
        M, m = state(I, a[0])
        drop_refs(I, M, m, kt, vt)
        I.S.maps[M] = HMap(0, True)
        I.event('map_dtor', m=M)
        return None
    M, m = state(I, a[0])
    if meth == 'clear':
        drop_refs(I, M, m, kt, vt)
        n = HMap(0, True)
        n.dirty = m.dirty + 1
        I.S.maps[M] = n
        I.event('map_clear', m=M)
        return None
    if meth in ('reserve', 'rehash', 'max_load_factor'):
        return None
    if meth == 'count' or meth == 'contains':
        e = lookup(I, M, m, read_key(I, a[1], kt), vt)
        return ONE if e is not ZERO else ZERO
    if meth == 'find':
        return lookup(I, M, m, read_key(I, a[1], kt), vt)
    if meth in ('end', 'cend'):
        return ZERO
    if meth in ('begin', 'cbegin'):
        # the entries form a list; the first word of an entry leads to the next one
        t = mk('hbegin', M, m.ver, m.dirty)
        setmeta(t, ptr=True, cls='HENTRY')
        I.event('map_begin', m=M, first=t)
        return t
    if meth == 'at':
        key = read_key(I, a[1], kt)
        e = lookup(I, M, m, key, vt)
        if e is ZERO:
            raise PathEnd('throw', dem)
        return addc(e, 8 + 8 * len(key))
    if meth == 'operator[]':
        key = read_key(I, a[1], kt)
        n = size_of(I, vt)
        e, new = insert(I, M, key, (ZERO,) * (n // 8), kt, vt)
        if new:
            I.S.events[-1].d['later'] = True
        return addc(e, 8 + 8 * len(key))
    if meth in ('insert', 'try_emplace', 'emplace', 'insert_or_assign'):
        kn = size_of(I, kt)
        if meth == 'insert':
            if 'initializer_list' in params or 'const_iterator' in params.split(',')[0]:
                raise Unsupported(dem)
            key = read_key(I, a[1], kt)
            vals = tuple(I.norm(I.load(addc(a[1], kn + 8 * k), 8, 'ptr' if norm_type(vt) == NODE_REF else 'i64')) for k in range(size_of(I, vt) // 8)) if vt else ()
        elif len(a) == 3 and vt:
            key = read_key(I, a[1], kt)
            vals = tuple(I.norm(I.load(addc(a[2], 8 * k), 8, 'ptr' if norm_type(vt) == NODE_REF else 'i64')) for k in range(size_of(I, vt) // 8))
        elif len(a) == 2:
            key = read_key(I, a[1], kt)
            vals = tuple(I.norm(I.load(addc(a[1], kn + 8 * k), 8, 'ptr' if norm_type(vt) == NODE_REF else 'i64')) for k in range(size_of(I, vt) // 8)) if vt else ()
        else:
            raise Unsupported(dem)
        e, new = insert(I, M, key, vals, kt, vt)
        if meth == 'insert_or_assign' and not new:
            for k, v in enumerate(vals):
                I.store(addc(e, 8 + kn + 8 * k), v, 8)
            I.event('map_assign', m=M, key=key, val=vals)
        return (e, ONE if new else ZERO)
    if meth in ('empty', 'size'):
        if m.empty and not [1 for _, e in m.ents if e is not ZERO]:
            return TRUE if meth == 'empty' else ZERO
        if m.empty:
            return FALSE if meth == 'empty' else I.newsym('mapsize', small=True)
        t = I.newsym('mapsize', small=True)
        return eq(t, ZERO) if meth == 'empty' else t
    if meth == 'erase':
        ps = [x.strip() for x in params.split(',')]
        if len(ps) != 1:
            raise Unsupported(dem)
        if 'iterator' in ps[0]:
            e = I.norm(a[1])
            hit = [k for k, x in m.ents if x is not ZERO and I.norm(x) is e]
            if not hit:
                raise Unsupported(dem)
            key = hit[0]
        else:
            key = read_key(I, a[1], kt)
            e = lookup(I, M, m, key, vt)
        M, m = state(I, M)
        key = tuple(I.norm(w) for w in key)
        if e is not ZERO:
            if norm_type(kt) == NODE_REF:
                I.xref_add(key[0], -1)
            if vt is not None and norm_type(vt) == NODE_REF:
                I.xref_add(I.norm(I.load(addc(e, 8 + 8 * len(key)), 8, 'ptr')), -1)
            m.ents = m.ents + ((key, ZERO),)
            m.dirty += 1
        I.event('map_erase', m=M, key=key, present=e is not ZERO, entry=e)
        if 'iterator' in ps[0]:
            I.taint('iterator after an erased element')
            return I.newsym('hnext', ptr=True)
        return ONE if e is not ZERO else ZERO
    raise Unsupported(dem)

