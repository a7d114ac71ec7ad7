"""Contracts of library functions and of functions of the repository."""
import re
from .terms import *
from .ir import split_name, targs, norm_type
from .interp import PTR, Unsupported, PathEnd, setmeta, getmeta, is_ptr, sym
from .nodes import BOT, TOP, MGR, NODE, index_of

NODE_REF = 'BDD::node_ref'


class Models:
    def __init__(self):
        self.cache = {}
        self.rules = []       # (regex on demangled name, handler)
        self.extra = []

    def add(self, pattern, fn):
        self.extra.insert(0, (re.compile(pattern), fn))
        self.cache = {}

    def lookup(self, I, name, dem):
        if name in self.cache:
            return self.cache[name]
        r = None
        for rx, fn in self.extra + RULES:
            if rx.match(dem):
                r = fn
                break
        self.cache[name] = r
        return r


RULES = []


def rule(pattern):
    def deco(f):
        RULES.append((re.compile(pattern), f))
        return f
    return deco


# ------------------------------------------------------------------ memory management, randomness, output
@rule(r'operator new(\[\])?\(')
def m_new(I, a, name, dem):
    t = I.newheap()
    I.event('new', ptr=t, size=a[0])
    return t


@rule(r'operator delete(\[\])?\(')
def m_delete(I, a, name, dem):
    I.event('delete', ptr=I.norm(a[0]))
    return None


@rule(r'std::random_device::|std::mersenne_twister_engine<|std::uniform_int_distribution<[^>]*>::(uniform_int_distribution|param_type)|__cxa_guard|__cxa_thread_atexit|__cxa_atexit|__tls_init')
def m_random(I, a, name, dem):
    if 'operator()' in dem:
        return I.newsym('random', width=64)
    if '__cxa_guard_acquire' in dem:
        return ZERO
    return ZERO


@rule(r'(unsigned long )?std::uniform_int_distribution<unsigned long>::operator\(\)')
def m_dist(I, a, name, dem):
    t = I.newsym('random', width=22)
    I.event('random', val=t, dist=I.norm(a[0]))
    return t


@rule(r'(std::basic_ostream|std::ostream|std::basic_string|std::__cxx11::basic_string|std::allocator|std::(__cxx11::)?to_string|std::basic_ostream.* std::operator<<|std::operator\+)')
def m_string(I, a, name, dem):
    if dem.startswith('std::allocator'):
        return ZERO
    I.event('string', name=dem, args=[I.norm(x) if isinstance(x, T) else x for x in a])
    return a[0] if a else ZERO


@rule(r'std::runtime_error::|__cxa_allocate_exception|__cxa_free_exception')
def m_exc(I, a, name, dem):
    return I.newheap() if 'allocate' in dem else ZERO


@rule(r'__cxa_throw|std::__throw|__assert_fail|std::terminate|abort$')
def m_throw(I, a, name, dem):
    if '__assert_fail' in dem:
        raise PathEnd('assert')
    raise PathEnd('throw', dem)


# ------------------------------------------------------------------ vectors
def vec_et(dem):
    i = dem.find('std::vector<')
    return norm_type(targs(dem[i:])[0])


def vsize(I, et):
    s = I.L.size(et)
    if not s:
        raise Unsupported('element size of ' + et)
    return s


def vec_init(I, v, et, begin=None, n=ZERO, fill=None):
    d = begin or I.newheap(et)
    setmeta(d, cls=et)
    s = vsize(I, et)
    I.store(v, d, 8)
    I.store(addc(v, 8), add(d, scale(n, s)), 8)
    I.store(addc(v, 16), add(d, scale(n, s)), 8)
    if fill is not None:
        I.S.user[('fill', d)] = ((ZERO, None, fill),)
    return d


def vget(I, v, et):
    b = I.load(v, 8, 'ptr')
    e = I.load(addc(v, 8), 8, 'ptr')
    n = udiv(sub(e, b), const(vsize(I, et)))
    for a, _ in lin(n)[1]:
        setmeta(a, small=True)
    return b, e, n


def copy_obj(I, dst, src, et):
    """copy an element (trivially or by the copy constructor)"""
    et = norm_type(et)
    if et == NODE_REF:
        p = I.load(src, 8, 'ptr')
        I.store(dst, p, 8)
        if I.decide(eq(p, ZERO)) is not True:
            I.xref_add(p, 1)
        return
    s = vsize(I, et)
    I.memcpy(dst, src, const(s))


def move_obj(I, dst, src, et):
    if norm_type(et) == NODE_REF:
        p = I.load(src, 8, 'ptr')
        I.store(dst, p, 8)
        I.store(src, ZERO, 8)
        return
    copy_obj(I, dst, src, et)


@rule(r'std::vector<.*>::vector\(')
def v_ctor(I, a, name, dem):
    cls, meth, params = split_name(dem)
    if not cls.startswith('std::vector<'):
        return None
    et = vec_et(cls)
    p = params.strip()
    if p in ('', 'std::allocator<%s> const&' % et):
        vec_init(I, a[0], et)
        I.event('vec_ctor', v=I.norm(a[0]), et=et)
        return None
    if '&&' in p and 'std::vector' in p.split('&&')[0]:
        b, e, n = vget(I, a[1], et)
        I.store(a[0], b, 8)
        I.store(addc(a[0], 8), e, 8)
        I.store(addc(a[0], 16), I.load(addc(a[1], 16), 8, 'ptr'), 8)
        vec_init(I, a[1], et)
        return None
    if p.startswith('unsigned long'):
        n = a[1]
        s = vsize(I, et)
        d = vec_init(I, a[0], et, n=n)
        if 'const&' in p and p.count(',') >= 1 and not p.split(',')[1].strip().startswith('std::allocator'):
            if s == 8 and et != NODE_REF:
                val = I.load(a[2], s, 'i64')
                I.S.user[('fill', d)] = ((ZERO, scale(n, s), val),)
                I.event('vec_ctor_n', v=I.norm(a[0]), et=et, n=n, val=val, data=d)
            else:
                I.event('vec_ctor_n', v=I.norm(a[0]), et=et, n=n, val=None, data=d)
        else:
            I.S.user[('fill', d)] = ((ZERO, scale(n, s), ZERO),)
            I.event('vec_ctor_n', v=I.norm(a[0]), et=et, n=n, val=ZERO, data=d)
        return None
    if p.startswith('std::initializer_list'):
        b, n = a[1], a[2]
        s = vsize(I, et)
        d = vec_init(I, a[0], et, n=n)
        if not is_const(n):
            raise Unsupported('initializer list')
        for k in range(cval(n)):
            copy_obj(I, addc(d, k * s), addc(b, k * s), et)
        return None
    raise Unsupported('vector constructor ' + dem)


@rule(r'std::vector<.*>::~vector\(')
def v_dtor(I, a, name, dem):
    et = vec_et(dem)
    b, e, n = vget(I, a[0], et)
    if et == NODE_REF:
        destroy_refs(I, b, n)
    I.event('vec_dtor', v=I.norm(a[0]), et=et, n=n, data=b)
    return None


def destroy_refs(I, b, n):
    """destructors of the node references in a vector"""
    if is_const(n) and 0 <= cval(n) <= 64:
        for k in range(cval(n)):
            p = I.load(addc(b, 8 * k), 8, 'ptr')
            if I.decide(eq(p, ZERO)) is True:
                continue
            I.xref_add(p, -1)
        return
    I.event('destroy_refs', data=b, n=n)


@rule(r'(void |.*& )?std::vector<.*>::(push_back|emplace_back)(<.*>)?\(')
def v_push(I, a, name, dem):
    cls, meth, params = split_name(dem)
    if not cls.startswith('std::vector<'):
        raise Unsupported(dem)
    et = vec_et(cls)
    b, e, n = vget(I, a[0], et)
    s = vsize(I, et)
    if meth.startswith('emplace_back') and et == 'BDD::var_struct':
        I.store(addc(a[0], 8), addc(e, s), 8)
        vals = [I.load(a[1], 8, 'i64'), a[2]]
        I.event('emplace_var', v=I.norm(a[0]), index=vals[0], mgr=I.norm(vals[1]), n=n)
        return e
    rv = params.strip().endswith('&&')
    if rv:
        move_obj(I, e, a[1], et)
    else:
        copy_obj(I, e, a[1], et)
    I.store(addc(a[0], 8), addc(e, s), 8)
    I.event('push', v=I.norm(a[0]), et=et, at=e, n=n)
    return e


@rule(r'(void )?std::vector<.*>::pop_back\(')
def v_pop(I, a, name, dem):
    et = vec_et(dem)
    b, e, n = vget(I, a[0], et)
    I.store(addc(a[0], 8), addc(e, -vsize(I, et)), 8)
    I.event('pop', v=I.norm(a[0]))
    return None


@rule(r'(void )?std::vector<.*>::reserve\(')
def v_reserve(I, a, name, dem):
    I.event('reserve', v=I.norm(a[0]), n=a[1])
    return None


@rule(r'(void )?std::vector<.*>::clear\(')
def v_clear(I, a, name, dem):
    et = vec_et(dem)
    b, e, n = vget(I, a[0], et)
    if et == NODE_REF:
        destroy_refs(I, b, n)
    I.store(addc(a[0], 8), b, 8)
    I.event('clear', v=I.norm(a[0]))
    return None


@rule(r'(void )?std::vector<.*>::(resize|assign)\(')
def v_resize(I, a, name, dem):
    et = vec_et(dem)
    b, e, n = vget(I, a[0], et)
    s = vsize(I, et)
    I.event('resize', v=I.norm(a[0]), n=a[1], old=n, et=et)
    if '::assign(' in dem:
        raise Unsupported('vector::assign')
    I.store(addc(a[0], 8), add(b, scale(a[1], s)), 8)
    grow = I.decide(ult(a[1], n))
    key = ('fill', b)
    zero = ZERO if et != NODE_REF else ZERO
    if I.decide(ult(n, a[1])) is not False:
        I.S.user[key] = I.S.user.get(key, ()) + ((sub(e, b), None, zero),)
        # lazily read cells beyond the old end are overwritten
        for o in list(I.S.mem.get(b, {})):
            if not I.prove_ge0(addc(sub(sub(e, b), o), -1)):
                if I.prove_ge0(sub(o, sub(e, b))):
                    del I.S.mem[b][o]
    return None


@rule(r'(void )?std::vector<.*>::swap\(')
def v_swap(I, a, name, dem):
    return swap_words(I, a[0], a[1], 3)


def swap_words(I, x, y, k):
    for j in range(k):
        p = I.load(addc(x, 8 * j), 8, 'ptr')
        q = I.load(addc(y, 8 * j), 8, 'ptr')
        I.store(addc(x, 8 * j), q, 8)
        I.store(addc(y, 8 * j), p, 8)


@rule(r'.*std::swap<(unsigned long|.*\*), std::allocator|.*std::swap<.*>\(std::vector<')
def v_stdswap(I, a, name, dem):
    return swap_words(I, a[0], a[1], 3)


@rule(r'std::vector<.*>::operator=\(')
def v_assign(I, a, name, dem):
    et = vec_et(dem)
    _, _, params = split_name(dem)
    if '&&' in params:
        b, e, n = vget(I, a[1], et)
        ob, oe, on = vget(I, a[0], et)
        if et == NODE_REF:
            destroy_refs(I, ob, on)
        c = I.load(addc(a[1], 16), 8, 'ptr')
        vec_init(I, a[1], et)
        I.store(a[0], b, 8)
        I.store(addc(a[0], 8), e, 8)
        I.store(addc(a[0], 16), c, 8)
        return a[0]
    raise Unsupported('vector copy assignment')


# ------------------------------------------------------------------ algorithms
@rule(r'.*std::max_element<[^(]*>\(__gnu_cxx::__normal_iterator<unsigned long[^(]*\)$')
def m_maxel(I, a, name, dem):
    b, e = I.norm(a[0]), I.norm(a[1])
    if I.branch(eq(b, e)):
        return e
    t = mk('maxel', b, e)
    setmeta(t, ptr=True, nonnull=True)
    v = I.norm(I.load(t, 8, 'i64'))
    setmeta(v, small=True)
    I.event('maximum', base=I.split(b)[0], first=b, last=e, val=v)
    return t


@rule(r'(void )?std::sort<|.*std::unique<|(void )?std::reverse<|.*std::vector<.*>::erase\(|.*std::is_sorted<|(void )?std::stable_sort<|.*std::remove_if<|.*std::remove<')
def m_algo(I, a, name, dem):
    I.event('algo', name=dem, args=[I.normv(x) for x in a])
    if re.match(r'(void )?std::reverse<', dem):
        b, off = I.split(I.norm(a[0]))
        e, end = I.split(I.norm(a[1]))
        if b is e and off is ZERO and is_ptr(b) and ('flip', b) not in I.S.user and (getmeta(b, 'elems') or re.search(r'(\*|unsigned long|BDD::node_ref) ?\*?, std::vector<', dem)):
            # the element at position k is found at n-1-k from now on
            I.S.user[('flip', b)] = I.norm(addc(sub(end, ZERO), -8))
            return None
    # contents of the range become arbitrary
    for x in a[:1]:
        try:
            b, o = I.split(I.norm(x))
        except Unsupported:
            continue
        if is_ptr(b):
            I.S.mem.pop(b, None)
            I.S.user.pop(('fill', b), None)
            I.S.epoch[b] = ('A', len(I.S.events))
            I.S.user[('region', b)] = ('A', len(I.S.events))
    t = I.newsym('algo', **{PTR: True, 'nonnull': True})
    return t


@rule(r'.*std::partial_sum<__gnu_cxx::__normal_iterator<unsigned long(?: const)?\*.*std::back_insert_iterator<std::vector<unsigned long,')
def m_partial_sum(I, a, name, dem):
    """the sums of the beginnings of a range are appended to a list"""
    src, off = I.split(I.norm(a[0]))
    src2, off2 = I.split(I.norm(a[1]))
    if src is not src2 or len(a) != 3:
        raise Unsupported('partial_sum')
    v = I.norm(a[2])
    b, e, n = vget(I, v, 'unsigned long')
    ver = ('P', len(I.S.events))
    m = udiv(sub(off2, off), const(8))
    I.event('partial_sum', src=src, begin=off, end=off2, v=v, data=b, at=n, ver=ver, count=m)
    at = sub(e, b)
    for o in list(I.S.mem.get(b, {})):
        if not I.prove_ge0(addc(sub(at, o), -1)):
            del I.S.mem[b][o]
    I.S.user[('fill', b)] = I.S.user.get(('fill', b), ()) + ((at, None, ('psum', src, ver)),)
    I.store(addc(v, 8), add(e, scale(m, 8)), 8)
    return v


@rule(r'.*std::partial_sum<')
def m_partial_sum_other(I, a, name, dem):
    m = re.search(r'std::partial_sum<__gnu_cxx::__normal_iterator<(?:const )?(unsigned char|signed char|char|bool|short|unsigned short)\b', dem)
    if m or 'std::partial_sum<std::_Bit_iterator' in dem:
        I.event('narrow_sum', typ=m.group(1) if m else 'bool')
    raise Unsupported('partial_sum')


@rule(r'.*std::count<__gnu_cxx::__normal_iterator<unsigned long(?: const)?\*')
def m_count(I, a, name, dem):
    src, off = I.split(I.norm(a[0]))
    src2, off2 = I.split(I.norm(a[1]))
    t = I.newsym('count', small=True)
    I.event('count', src=src, begin=off, end=off2, res=t, val=I.normv(I.load(a[2], 4 if ', int>(' in dem else 8, 'i64')))
    return t


@rule(r'(void )?std::fill<')
def m_fill(I, a, name, dem):
    b, e, v = a[0], a[1], a[2]
    et = targs(dem[dem.find('std::fill'):])[1]
    ev = I.event('fill', begin=I.norm(b), end=I.norm(e), val=v, dem=dem)
    base, off = I.split(I.norm(b))
    base2, off2 = I.split(I.norm(e))
    et = norm_type(et)
    if et == 'decltype(nullptr)' or 'nullptr' in et:
        val = ZERO
    else:
        w = I.L.size(et) or 8
        val = I.load(v, w, 'i64')
    if base is not base2:
        raise Unsupported('fill')
    for o in list(I.S.mem.get(base, {})):
        if I.prove_ge0(sub(o, off)) and I.prove_ge0(addc(sub(off2, o), -1)):
            del I.S.mem[base][o]
            I.S.written.pop((base, o), None)
        elif I.prove_ge0(addc(sub(off, o), -1)) or I.prove_ge0(sub(o, off2)):
            pass
        else:
            del I.S.mem[base][o]
    I.S.user[('fill', base)] = I.S.user.get(('fill', base), ()) + ((off, off2, val),)
    ev.d.update(base=base, off=off, off2=off2, value=I.normv(val))
    return None


# ------------------------------------------------------------------ queues: order of elements is not tracked, operations are logged
@rule(r'(.*& |void |bool )?(std::deque<|std::(__cxx11::)?list<|std::stack<|std::queue<)')
def m_deque(I, a, name, dem):
    cls, meth, params = split_name(dem)
    et = norm_type(targs(cls)[0])
    q = I.norm(a[0])
    if meth in ('push_back', 'push_front', 'push', 'emplace_back', 'emplace', 'emplace_front') or meth.startswith('emplace'):
        v = I.norm(I.load(a[1], 8, 'ptr'))
        I.event('dq_push', q=q, val=v, how=meth)
        I.S.user[('dq', q)] = 'nonempty'
        return ZERO
    if meth in ('front', 'back', 'top'):
        t = I.S.user.get(('dqel', q, meth))
        if t is None:
            cell = I.newheap(None)
            el = mk('fld', 'element', cell)
            if et.endswith('*'):
                setmeta(el, ptr=True, nonnull=True, cls=norm_type(et[:-1]), inner=True)
            I.store(cell, el, 8)
            I.event('dq_get', q=q, val=el, how=meth)
            t = cell
            I.S.user[('dqel', q, meth)] = cell
        return t
    if meth in ('pop_front', 'pop_back', 'pop'):
        I.event('dq_pop', q=q, how=meth)
        for k in [k for k in I.S.user if isinstance(k, tuple) and k[0] == 'dqel' and k[1] is q]:
            del I.S.user[k]
        I.S.user.pop(('dq', q), None)
        return None
    if meth == 'empty':
        if I.S.user.get(('dq', q)) == 'nonempty':
            return FALSE
        return bnot(eq(I.newsym('queue', width=1), ZERO))
    if meth == 'size':
        return I.newsym('queuesize', small=True)
    if meth in ('deque', 'list', 'stack', 'queue') or meth.startswith('~'):
        return None
    raise Unsupported(dem)
