"""Hash-consed terms: the Herbrand / linear part of the abstract domain.

Integers and pointers are linear expressions over atoms; everything the linear part cannot express is an
uninterpreted (but structurally shared) term, so that two values are equal in the abstract domain iff their
normal forms are the same object.
"""

_tab = {}
_next = [0]


class T:
    __slots__ = ('op', 'args', 'id', 'meta', 'subs')

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + args
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.meta = None
        t.subs = None
        t.id = _next[0]
        _next[0] += 1
        _tab[key] = t
    return t


M64 = 1 << 64


def wrap(c, w=64):
    c &= (1 << w) - 1
    if c >= 1 << (w - 1):
        c -= 1 << w
    return c


def const(c, w=64):
    return mk('lin', wrap(c, w), ())


ZERO = const(0)
ONE = const(1)
TRUE = mk('true')
FALSE = mk('false')


def is_const(t):
    return t.op == 'lin' and not t.args[1]


def cval(t):
    return t.args[0]


def lin(t):
    """-> (const, tuple of (atom, coef))"""
    if t.op == 'lin':
        return t.args
    return 0, ((t, 1),)


def mklin(c, d):
    items = [(a, k) for a, k in d.items() if k]
    c = wrap(c)
    if not items:
        return mk('lin', c, ())
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    return mk('lin', c, tuple(items))


def add(a, b, k=1):
    """a + k*b"""
    ca, la = lin(a)
    cb, lb = lin(b)
    if not lb:
        if not la:
            return const(ca + k * cb)
        if cb == 0:
            return a
    d = dict(la)
    for x, y in lb:
        d[x] = d.get(x, 0) + k * y
    return mklin(ca + k * cb, d)


def sub(a, b):
    return add(a, b, -1)


def addc(a, c):
    return add(a, const(c))


def scale(a, k):
    c, l = lin(a)
    return mklin(c * k, {x: y * k for x, y in l})


def mul(a, b):
    if is_const(a):
        return scale(b, cval(a))
    if is_const(b):
        return scale(a, cval(b))
    x, y = (a, b) if a.id <= b.id else (b, a)
    return mk('mul', x, y)


# ---------------------------------------------------------------- bit vectors
def _segs(t, w):
    if t.op == 'bits':
        return list(t.args[0])
    if t.op == 'lin' and t.args[0] == 0 and len(t.args[1]) == 1:
        a, k = t.args[1][0]
        wd = a.meta.get('width') if a.meta else None
        if wd and k > 1 and k & (k - 1) == 0:
            s = k.bit_length() - 1
            return [(s, min(wd, w - s), a, 0)]
    return [(0, w, t, 0)]


def _mkbits(segs, w):
    out = []
    csum = 0
    for lo, wd, v, vlo in sorted(segs, key=lambda s: s[0]):
        if lo >= w or wd <= 0:
            continue
        wd = min(wd, w - lo)
        if is_const(v):
            csum |= (((cval(v) % M64) >> vlo) & ((1 << wd) - 1)) << lo
            continue
        if v.op == 'b2i':
            if vlo > 0:
                continue
            wd = 1
        if out and out[-1][2] is v and out[-1][0] + out[-1][1] == lo and out[-1][3] + out[-1][1] == vlo:
            out[-1] = (out[-1][0], out[-1][1] + wd, v, out[-1][3])
        else:
            out.append((lo, wd, v, vlo))
    if not out:
        return const(csum, w)
    if csum:
        # constant pieces kept as segments
        bit = 0
        while bit < w:
            if csum >> bit & 1:
                e = bit
                while e < w and csum >> e & 1:
                    e += 1
                out.append((bit, e - bit, const((1 << (e - bit)) - 1), 0))
                bit = e
            bit += 1
        out.sort(key=lambda s: s[0])
    if len(out) == 1:
        lo, wd, v, vlo = out[0]
        if lo == 0 and vlo == 0:
            if wd == w or wd >= width_of(v):
                return v
    return mk('bits', tuple(out), w)


def width_of(v):
    """upper bound for the number of significant bits of v"""
    if v.op == 'b2i':
        return 1
    if v.op == 'bits':
        return max(lo + wd for lo, wd, _, _ in v.args[0])
    if is_const(v):
        return (cval(v) % M64).bit_length()
    if v.meta and 'width' in v.meta:
        return v.meta['width']
    return 64


def _flat(t, w):
    """segments of t with nested bits flattened"""
    res = []
    for lo, wd, v, vlo in _segs(t, w):
        if v.op == 'bits' and v is not t:
            for l2, w2, v2, vl2 in v.args[0]:
                # intersection of [vlo, vlo+wd) with [l2, l2+w2)
                a, b = max(vlo, l2), min(vlo + wd, l2 + w2)
                if a < b:
                    res.append((lo + a - vlo, b - a, v2, vl2 + a - l2))
        else:
            res.append((lo, wd, v, vlo))
    return res


def bit_and(a, b, w=64):
    if is_const(a) and is_const(b):
        return const(cval(a) & cval(b), w)
    if is_const(a):
        a, b = b, a
    if is_const(b):
        m = cval(b) & ((1 << w) - 1)
        if m == 0:
            return ZERO
        if m == (1 << w) - 1:
            return a
        if a.op == 'lin' and m & (m + 1) == 0 and all(k % (m + 1) == 0 for _, k in lin(a)[1]):
            return const(lin(a)[0] & m, w)
        runs = []
        bit = 0
        while bit < w:
            if m >> bit & 1:
                e = bit
                while e < w and m >> e & 1:
                    e += 1
                runs.append((bit, e))
                bit = e
            else:
                bit += 1
        if len(runs) <= 4:
            res = []
            for lo, wd, v, vlo in _flat(a, w):
                for x, y in runs:
                    s, e = max(lo, x), min(lo + wd, y)
                    if s < e:
                        res.append((s, e - s, v, vlo + s - lo))
            return _mkbits(res, w)
    if a is b:
        return a
    for m, v in ((a, b), (b, a)):
        if lowmask(m):
            # masks of all lower bits: drop the same mask inside
            c, l = lin(v)
            for x, k in l:
                if x.op == 'and' and m in x.args:
                    z = x.args[0] if x.args[1] is m else x.args[1]
                    return bit_and(m, add(v, sub(z, x), k), w)
    x, y = (a, b) if a.id <= b.id else (b, a)
    return mk('and', x, y)


def lowmask(m):
    """is m known to be 2^k-1 for some k?"""
    if is_const(m):
        return False
    c, l = lin(m)
    if len(l) != 1:
        return False
    a, k = l[0]
    if c == -1 and k == 1 and a.op == 'udiv' and is_const(a.args[1]) and cval(a.args[1]) & (cval(a.args[1]) - 1) == 0:
        return lowmask(addc(a.args[0], -1))
    if c == -1 and k > 0 and k & (k - 1) == 0 and pow2(a):
        return True
    if a.op == 'bits' and len(a.args[0]) == 1 and a.args[0][0][0] == 0 and c == 0 and k == 1:
        s = a.args[0][0]
        return s[1] + s[3] >= 64 and lowmask(s[2])
    if not (a.meta and a.meta.get('lowmask')):
        return False
    return k > 0 and k & (k - 1) == 0 and c == k - 1


def pow2(a):
    """is a known to be a power of two?"""
    if is_const(a):
        return cval(a) > 0 and cval(a) & (cval(a) - 1) == 0
    if a.meta and a.meta.get('pow2'):
        return True
    if a.op == 'udiv' and is_const(a.args[1]) and pow2(a.args[1]):
        return pow2(a.args[0])
    if a.op == 'bits' and len(a.args[0]) == 1 and a.args[0][0][0] == 0:
        s = a.args[0][0]
        return s[1] + s[3] >= 64 and pow2(s[2])
    if a.op == 'lin':
        return lowmask(addc(a, -1))
    return False


def is_low(m):
    if is_const(m):
        return cval(m) >= 0 and cval(m) & (cval(m) + 1) == 0
    return lowmask(m)


def bit_or(a, b, w=64):
    if is_const(a) and is_const(b):
        return const(cval(a) | cval(b), w)
    if is_const(a) and cval(a) == 0:
        return b
    if is_const(b) and cval(b) == 0:
        return a
    if a is b:
        return a
    if a.op in ('bits', 'b2i', 'lin') or b.op in ('bits', 'b2i', 'lin'):
        sa, sb = _flat(a, w), _flat(b, w)
        sa2 = _nz(sa, w)
        sb2 = _nz(sb, w)
        ok = all(x[0] + x[1] <= y[0] or y[0] + y[1] <= x[0] for x in sa2 for y in sb2)
        if ok:
            return _mkbits(sa2 + sb2, w)
    x, y = (a, b) if a.id <= b.id else (b, a)
    return mk('or', x, y)


def _nz(segs, w):
    """split constant segments into their runs of ones, cut segments to the significant bits of their value"""
    out = []
    for lo, wd, v, vlo in segs:
        if is_const(v):
            c = ((cval(v) % M64) >> vlo) & ((1 << wd) - 1)
            bit = 0
            while bit < wd:
                if c >> bit & 1:
                    e = bit
                    while e < wd and c >> e & 1:
                        e += 1
                    out.append((lo + bit, e - bit, const((1 << (e - bit)) - 1), 0))
                    bit = e
                else:
                    bit += 1
        elif v.op == 'b2i':
            if vlo == 0:
                out.append((lo, 1, v, 0))
        else:
            k = width_of(v) - vlo
            if k > 0:
                out.append((lo, min(wd, k), v, vlo))
    return out


def bit_xor(a, b, w=64):
    if is_const(a) and is_const(b):
        return const(cval(a) ^ cval(b), w)
    if is_const(a) and cval(a) == 0:
        return b
    if is_const(b) and cval(b) == 0:
        return a
    if a is b:
        return ZERO
    x, y = (a, b) if a.id <= b.id else (b, a)
    return mk('xor', x, y)


def shl(a, b, w=64):
    if is_const(b):
        k = cval(b)
        if is_const(a):
            return const(cval(a) << k, w)
        if a.op == 'bits' or a.op == 'b2i':
            return _mkbits([(lo + k, wd, v, vlo) for lo, wd, v, vlo in _flat(a, w)], w)
        return scale(a, 1 << k)
    return mk('shl', a, b)


def lshr(a, b, w=64):
    if is_const(b):
        k = cval(b)
        if is_const(a):
            return const((cval(a) & ((1 << w) - 1)) >> k, w)
        if a.op == 'lin':
            r = floordiv(a, 1 << k)
            if r is not None:
                return r
        res = []
        for lo, wd, v, vlo in _flat(a, w):
            if lo >= k:
                res.append((lo - k, wd, v, vlo))
            elif lo + wd > k:
                res.append((0, lo + wd - k, v, vlo + k - lo))
        return _mkbits(res, w)
    return mk('lshr', a, b)


def floordiv(a, k):
    """quotient of a sum of multiples of k of small numbers and a constant"""
    c, l = lin(a)
    if c >= 0 and all(y > 0 and y % k == 0 and x.meta and x.meta.get('small') for x, y in l):
        return mklin(c // k, {x: y // k for x, y in l})
    return None


def udiv(a, b, w=64):
    if is_const(b) and cval(b) > 0:
        k = cval(b)
        if is_const(a):
            return const((cval(a) % (1 << w)) // k, w)
        if k == 1:
            return a
        c, l = lin(a)
        if c % k == 0 and all(y % k == 0 for _, y in l):
            return mklin(c // k, {x: y // k for x, y in l})
        r = floordiv(a, k)
        if r is not None:
            return r
    return mk('udiv', a, b)


def sdiv(a, b, w=64):
    if is_const(b) and cval(b) > 0:
        k = cval(b)
        if is_const(a):
            q = abs(cval(a)) // k
            return const(q if cval(a) >= 0 else -q, w)
        if k == 1:
            return a
        c, l = lin(a)
        if c % k == 0 and all(y % k == 0 for _, y in l):
            return mklin(c // k, {x: y // k for x, y in l})
        r = floordiv(a, k)
        if r is not None:
            return r
    return mk('sdiv', a, b)


def urem(a, b, w=64):
    if is_const(a) and is_const(b) and cval(b) > 0:
        return const((cval(a) % (1 << w)) % cval(b), w)
    if is_const(b) and cval(b) > 0 and a.op == 'lin' and floordiv(a, cval(b)) is not None:
        return const(lin(a)[0] % cval(b), w)
    if is_const(b) and cval(b) > 0 and (cval(b) & (cval(b) - 1)) == 0:
        return bit_and(a, const(cval(b) - 1), w)
    if lowmask(addc(b, -1)):
        return bit_and(a, addc(b, -1), w)
    return mk('urem', a, b)


# ---------------------------------------------------------------- conditions
def eq(a, b):
    if a is b:
        return TRUE
    d = sub(a, b)
    return eq0(d)


def eq0(d):
    if is_const(d):
        return TRUE if cval(d) == 0 else FALSE
    if d.op == 'b2i':
        return bnot(d.args[0])
    c, l = lin(d)
    if len(l) == 1 and l[0][0].op == 'b2i':
        b, k = l[0]
        # c + k*b == 0
        if c == 0:
            return bnot(b.args[0])
        if c == -k:
            return b.args[0]
        return FALSE
    if l[0][1] < 0:
        d = scale(d, -1)
        c, l = lin(d)
    # common divisor
    from math import gcd
    g = 0
    for _, y in l:
        g = gcd(g, abs(y))
    if g > 1:
        if c % g:
            return FALSE
        d = mklin(c // g, {x: y // g for x, y in l})
    return mk('eq0', d)


def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    return mk('not', c)


def ult(a, b):
    if is_const(a) and is_const(b):
        return TRUE if cval(a) % M64 < cval(b) % M64 else FALSE
    if a is b:
        return FALSE
    if is_const(b) and cval(b) == 0:
        return FALSE
    return mk('ult', a, b)


def slt(a, b):
    if is_const(a) and is_const(b):
        return TRUE if cval(a) < cval(b) else FALSE
    if a is b:
        return FALSE
    return mk('slt', a, b)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    return mk('band', a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def b2i(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    return mk('b2i', c)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return mk('ite', c.args[0], b, a)
    return mk('ite', c, a, b)


# ---------------------------------------------------------------- substitution
def rebuild(op, args):
    if op == 'lin':
        r = const(args[0])
        for a, k in args[1]:
            r = add(r, a, k)
        return r
    if op == 'eq0':
        return eq0(args[0])
    if op == 'ult':
        return ult(*args)
    if op == 'slt':
        return slt(*args)
    if op == 'not':
        return bnot(args[0])
    if op == 'band':
        return band(*args)
    if op == 'b2i':
        return b2i(args[0])
    if op == 'ite':
        return ite(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'and':
        return bit_and(*args)
    if op == 'or':
        return bit_or(*args)
    if op == 'xor':
        return bit_xor(*args)
    if op == 'udiv':
        return udiv(*args)
    if op == 'sdiv':
        return sdiv(*args)
    if op == 'urem':
        return urem(*args)
    if op == 'lshr':
        return lshr(*args)
    if op == 'shl':
        return shl(*args)
    if op == 'bits':
        segs = []
        for lo, wd, v, vlo in args[0]:
            if v.op == 'bits':
                for l2, w2, v2, vl2 in v.args[0]:
                    a, b = max(vlo, l2), min(vlo + wd, l2 + w2)
                    if a < b:
                        segs.append((lo + a - vlo, b - a, v2, vl2 + a - l2))
            else:
                segs.append((lo, wd, v, vlo))
        return _mkbits(segs, args[1])
    return mk(op, *args)


def subst(t, m, cache=None):
    """replace atoms of t according to dict m (recursively inside uninterpreted terms as well)"""
    if not m:
        return t
    if cache is None:
        cache = {}
    return _subst(t, m, cache)


def _subst_arg(a, m, cache):
    if isinstance(a, T):
        return _subst(a, m, cache)
    if isinstance(a, tuple):
        return tuple(_subst_arg(x, m, cache) for x in a)
    return a


def allsubs(t):
    """set of all proper subterms, cached"""
    if t.subs is None:
        s = set()
        st = list(t.args)
        while st:
            x = st.pop()
            if isinstance(x, T):
                if x not in s:
                    s.add(x)
                    if x.args:
                        s |= x.subs if x.subs is not None else allsubs(x)
            elif isinstance(x, tuple):
                st.extend(x)
        t.subs = frozenset(s)
    return t.subs


def _subst(t, m, cache):
    r = cache.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
        if r is not t:
            r = _subst(r, m, cache)
        cache[t] = r
        return r
    if not t.args or m.keys().isdisjoint(t.subs or allsubs(t)):
        cache[t] = t
        return t
    args = tuple(_subst_arg(a, m, cache) for a in t.args)
    if all(x is y for x, y in zip(args, t.args)):
        r = t
    else:
        r = rebuild(t.op, args)
        if r in m and m[r] is not r:
            r = _subst(m[r], m, cache)
        if t.meta and r.meta is None and r.op == t.op:
            r.meta = t.meta
    cache[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def contains_op(t, ops):
    return any(x.op in ops for x in subterms(t))


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return '..'
    if t.op == 'lin':
        c, l = t.args
        parts = []
        for a, k in l:
            s = show(a, depth - 1)
            parts.append(s if k == 1 else '-' + s if k == -1 else '%d*%s' % (k, s))
        if c or not parts:
            parts.append(str(c))
        return '+'.join(parts).replace('+-', '-')
    if t.op == 'eq0':
        return show(t.args[0], depth - 1) + '==0'
    if t.op == 'not':
        return '!(' + show(t.args[0], depth - 1) + ')'
    if t.op in ('ult', 'slt'):
        return '%s <%s %s' % (show(t.args[0], depth - 1), t.op[0], show(t.args[1], depth - 1))
    if t.op == 'sym':
        return str(t.args[0])
    if t.op == 'fld':
        return '%s(%s)' % (t.args[0], show(t.args[1], depth - 1)) 
    if t.op == 'bits':
        return 'bits[' + ','.join('%d+%d:%s@%d' % (lo, wd, show(v, depth - 1), vlo) for lo, wd, v, vlo in t.args[0]) + ']'
    if not t.args:
        return t.op
    return t.op + '(' + ', '.join(show(a, depth - 1) for a in t.args) + ')'
