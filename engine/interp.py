"""Abstract interpretation of the intermediate representation.

The abstract state maps memory locations to terms (Herbrand terms over the initial values, linear arithmetic), records
the branch conditions that hold (equalities, disequalities, linear inequalities) and the log of effects.  States are
kept apart per control flow path (trace partitioning); loops are either unfolded, when their exit test is a constant in
the abstract domain, or summarised: values are classified as invariant / affine in an iteration counter / arbitrary by
a fixpoint over the loop body, and the body is analysed for one arbitrary iteration.  Calls of functions with a
contract are replaced by the contract, other calls are analysed in place.
"""
import math
import re
from .terms import *
from . import terms as TT
from .ir import norm_type, targs, split_name
from .layout import Layout

PTR = 'ptr'


class PathEnd(Exception):
    def __init__(self, kind, info=None):
        self.kind = kind
        self.info = info


class Ambiguous(Exception):
    pass


class NeedGeneric(Exception):
    def __init__(self, key, pos):
        self.key = key
        self.pos = pos


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Budget(Exception):
    pass


# ------------------------------------------------------------------ atoms
def sym(name, *args, **meta):
    t = mk('sym', name, *args)
    if meta and t.meta is None:
        t.meta = dict(meta)
    return t


def setmeta(t, **kw):
    if t.meta is None:
        t.meta = {}
    for k, v in kw.items():
        t.meta.setdefault(k, v)
    return t


def getmeta(t, k):
    return t.meta.get(k) if t.meta else None


def is_ptr(t):
    return bool(t.meta and t.meta.get(PTR))


NODEPTR = re.compile(r'(const )?(BDD::)?node(_struct)? ?\*$')


def fld(path, obj, typ=None, ep=0, lay=None, **kw):
    """initial value of a data member"""
    t = mk('fld', path, obj) if not ep else mk('fld', path, obj, ep)
    if typ is not None and t.meta is None:
        typ = norm_type(typ)
        m = {'typ': typ}
        if typ.endswith('*') or typ.endswith('&'):
            m[PTR] = True
            m['cls'] = norm_type(typ[:-1])
            if typ.endswith('&'):
                m['nonnull'] = True
        elif typ == 'int' or typ == 'long' or typ == 'ptrdiff_t':
            m['signed'] = True
        elif typ == 'bool':
            m['width'] = 1
        m.update(kw)
        t.meta = m
    return t


class Frame:
    __slots__ = ('fn', 'regs', 'loops', 'args', 'pending', 'iters', 'chentry')

    def __init__(self, fn):
        self.fn = fn
        self.regs = {}
        self.loops = {}
        self.pending = {}
        self.iters = {}
        self.chentry = {}

    def copy(self):
        f = Frame(self.fn)
        f.regs = dict(self.regs)
        f.loops = dict(self.loops)
        f.pending = dict(self.pending)
        f.iters = dict(self.iters)
        f.chentry = dict(self.chentry)
        return f


class State:
    def __init__(self):
        self.mem = {}      # base -> {offset: (size, value)}
        self.epoch = {}    # base -> epoch of initial values
        self.clsep = {}    # class -> epoch
        self.fresh = {}    # base -> info
        self.written = {}  # (base, offset) written
        self.sub = {}
        self.cache = {}
        self.ne = set()
        self.conds = {}
        self.lins = []
        self.xd = {}
        self.events = []
        self.maps = {}
        self.taint = []
        self.facts = []    # conditions assumed, in order
        self.nheap = 0
        self.user = {}

    def copy(self):
        s = State()
        s.mem = {b: dict(c) for b, c in self.mem.items()}
        s.epoch = dict(self.epoch)
        s.clsep = dict(self.clsep)
        s.fresh = dict(self.fresh)
        s.written = dict(self.written)
        s.sub = dict(self.sub)
        s.ne = set(self.ne)
        s.conds = dict(self.conds)
        s.lins = list(self.lins)
        s.xd = dict(self.xd)
        s.events = list(self.events)
        s.maps = {k: v.copy() for k, v in self.maps.items()}
        s.taint = list(self.taint)
        s.facts = list(self.facts)
        s.nheap = self.nheap
        s.user = dict(self.user)
        return s


class Outcome:
    def __init__(self, kind, state, value=None, info=None, choices=()):
        self.kind = kind      # ret, throw, backedge, stop, unsupported
        self.S = state
        self.value = value
        self.info = info
        self.choices = choices
        self.where = None


class Event:
    __slots__ = ('k', 'd', 'loc', 'nf')

    def __init__(self, k, loc, nf=0, **d):
        self.k = k
        self.loc = loc
        self.d = d
        self.nf = nf

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return '%s%s@%s' % (self.k, {a: b for a, b in self.d.items()}, self.loc)


class Interp:
    MAXPATH = 4000
    MAXSTEP = 60000
    UNROLL = 64

    def __init__(self, prog, models=None, node_axioms=True):
        self.P = prog
        self.L = Layout(prog)
        self.models = models
        self.nested_cache = {}
        self.finished = False      # paths are being judged: nothing may be assumed any more
        self.contracts = {}        # mangled name -> callable(I, frame, inst, args) -> value
        self.depth = 0
        self.node_axioms = node_axioms
        self.root_fn = None
        self.no_generic_peel = False
        self.functions_seen = set()
        self.sites = set()
        self.npaths = 0
        self.weak = None           # predicate on bases: arrays accessed at hashed positions; reads yield a value per position and version
        self.weakmeta = {}         # meta data of values read from such arrays
        self.nvars = None          # number of variables of the manager, an upper bound for the labels of inner nodes

    # -------------------------------------------------------------- exploration
    def explore(self, start, maxpath=None):
        """start(I) builds the initial state in self.S and runs; returns list of Outcomes"""
        out = []
        prefix = []
        generic = {}
        self.finished = False
        self.generic = generic
        self.prefix_generic = generic
        n = 0
        while True:
            n += 1
            self.npaths += 1
            if n > (maxpath or self.MAXPATH):
                raise Budget('too many paths')
            self.S = State()
            self.choices = []
            self.prefix = prefix
            self.steps = 0
            self.stack = []
            self.nsym = 0
            self.loopcount = 0
            self.loopinst = {}
            o = None
            try:
                v = start(self)
                o = Outcome('ret', self.S, v)
            except PathEnd as e:
                o = Outcome(e.kind, self.S, None, e.info)
            except Infeasible:
                o = None
            except NeedGeneric as e:
                generic[e.key] = True
                prefix = list(e.key[0])
                continue
            except Unsupported as e:
                o = Outcome('unsupported', self.S, None, str(e))
            if o is not None:
                o.choices = tuple(c for c, _ in self.choices)
                o.where = self.where()
                for e in o.S.events:
                    if e.k == 'map_insert' and e.d.get('later'):
                        # the value is assigned after the entry has been made
                        cells = o.S.mem.get(e.entry, {})
                        v = [cells.get(const(8 + 8 * len(e.key) + 8 * k)) for k in range(len(e.val))]
                        e.d['val'] = tuple(self.norm(c[1]) if c and isinstance(c[1], T) else x for c, x in zip(v, e.val))
                out.append(o)
            ch = self.choices
            while ch and ch[-1][0] + 1 >= ch[-1][1]:
                ch.pop()
            if not ch:
                self.finished = True
                return out
            prefix = [c for c, _ in ch]
            prefix[-1] += 1

    def choose(self, n, why=None):
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.choices.append((c, n))
        return c

    def where(self):
        """innermost location in the analysed repository"""
        for fr, loc in reversed(self.stack):
            if loc and '/repo/' in (loc[0] or ''):
                return (loc[0], loc[1], fr.fn.dem)
        if self.stack:
            fr, loc = self.stack[-1]
            return ((loc or ['?', 0])[0], (loc or ['?', 0])[1], fr.fn.dem)
        return None

    def event(self, k, **d):
        e = Event(k, self.where(), len(self.S.facts), **d)
        self.S.events.append(e)
        return e

    def taint(self, why):
        self.S.taint.append((why, self.where()))

    # -------------------------------------------------------------- facts
    def norm(self, t):
        S = self.S
        if not S.sub:
            return t
        return subst(t, S.sub, S.cache)

    def normv(self, v):
        if isinstance(v, tuple):
            return tuple(self.normv(x) for x in v)
        return self.norm(v)

    def is_node(self, t):
        return bool(t.meta and t.meta.get('cls') == 'BDD::node_struct' and t.meta.get(PTR)) or t.op in ('opres', 'mk', 'memo')

    def kind(self, p):
        """bot / top / inner / None for a node pointer"""
        from .nodes import BOT, TOP
        p = self.norm(p)
        if p is BOT:
            return 'bot'
        if p is TOP:
            return 'top'
        if getmeta(p, 'inner'):
            return 'inner'
        if self.S.conds.get(mk('inner', p)) is True:
            return 'inner'
        if eq(p, BOT) in self.S.ne and eq(p, TOP) in self.S.ne:
            return 'inner'
        return None

    def nonneg(self, a):
        if is_const(a):
            return cval(a) >= 0
        if a.op == 'sub':
            return False
        return not (a.meta and a.meta.get('signed'))

    def prove_ge0(self, t, depth=3):
        """is the linear expression t >= 0 (over the integers)?"""
        c, l = lin(t)
        if l:
            g = math.gcd(*[k for _, k in l])
            if g > 1:
                # over the integers the common divisor can be taken out
                q = const(c // g)
                for a, k in l:
                    q = add(q, a, k // g)
                t = q
                c, l = lin(t)
        neg = [a for a, k in l if k < 0 or not self.nonneg(a)]
        if not neg:
            if c >= 0:
                return True
            if depth <= 0 or not l:
                return False
            for f in self.S.lins:
                fc, fl = lin(f)
                if fc < 0 and any(k > 0 and any(a is x and k <= y for x, y in l) for a, k in fl):
                    if self.prove_ge0(sub(t, f), depth - 1):
                        return True
            return False
        if any(k > 0 and not self.nonneg(a) for a, k in l) and depth <= 0:
            return False
        if depth <= 0:
            return False
        seen = 0
        for f in self.S.lins:
            fc, fl = lin(f)
            for a, k in fl:
                if a in neg and k < 0:
                    kk = next(y for x, y in l if x is a)
                    if kk < 0 and kk % k == 0:
                        m = kk // k
                        if self.prove_ge0(add(t, f, -m), depth - 1):
                            return True
                    elif kk < 0 and k % kk == 0:
                        m = k // kk
                        if self.prove_ge0(sub(scale(t, m), f), depth - 1):
                            return True
                    break
        for a in neg:
            ub = self.upper(a)
            if ub is not None:
                kk = next(y for x, y in l if x is a)
                if kk < 0 and self.prove_ge0(add(t, sub(const(ub), a), kk), depth - 1):
                    return True
            if self.nvars is not None and a.op == 'fld' and a.args[0] == 'index' and len(a.args) == 2 and self.kind(a.args[1]) == 'inner':
                # inner nodes are labelled with existing variables
                kk = next(y for x, y in l if x is a)
                if kk < 0 and self.prove_ge0(add(t, sub(addc(self.norm(self.nvars), -1), a), kk), depth - 1):
                    return True
        return False

    def upper(self, a):
        w = getmeta(a, 'width')
        if w and w < 62:
            return (1 << w) - 1
        if a.op == 'bits':
            return (1 << width_of(a)) - 1
        return None

    def add_lin(self, t):
        if is_const(t):
            return
        c, l = lin(t)
        g = 0
        for _, k in l:
            g = math.gcd(g, abs(k))
        if g > 1:
            t = mklin(c // g, {a: k // g for a, k in l})     # integers: round down
        if t not in self.S.lins:
            self.S.lins.append(t)

    def decide(self, c):
        """truth value of a condition in the current state: True, False or None"""
        c = self.norm(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == 'not':
            r = self.decide(c.args[0])
            return None if r is None else not r
        if c.op == 'band':
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        v = self.S.conds.get(c)
        if v is not None:
            return v
        if c.op == 'eq0':
            return self.decide_eq0(c)
        if c.op in ('ult', 'slt'):
            a, b = c.args
            r = self.decide_lt(a, b, c.op)
            return r
        return None

    def ufix(self, t):
        """constant interpreted as unsigned"""
        if is_const(t) and cval(t) < 0:
            return mk('lin', cval(t) + M64, ())
        return t

    def decide_lt(self, a, b, op):
        sg = op == 'slt'
        a2, b2 = self.reduce_pair(a, b)
        if not sg:
            if is_const(b2) and cval(b2) < 0:
                # comparison with a huge constant: only decided for terms with a known upper bound
                u = self.upper(a2)
                if u is not None:
                    return True
                if self.small(a2):
                    return True
                lo, hi = self.urange(a2)
                k = cval(b2) + M64
                return True if hi < k else False if lo >= k else None
            if is_const(a2) and cval(a2) < 0:
                u = self.upper(b2)
                if u is not None:
                    return False
                if self.small(b2):
                    return False
                lo, hi = self.urange(b2)
                k = cval(a2) + M64
                return True if k < lo else False if k >= hi else None
            if not (self.prove_ge0(a2) and self.prove_ge0(b2)):
                return None
        if self.prove_ge0(addc(sub(b2, a2), -1)):
            return True
        if self.prove_ge0(sub(a2, b2)):
            return False
        return None

    def urange(self, t):
        """range of an unsigned number as far as comparisons with constants tell"""
        lo, hi = 0, M64 - 1
        for c, v in self.S.conds.items():
            if c.op != 'ult':
                continue
            a, b = c.args
            if a is t and is_const(b):
                k = cval(b) % M64
                if v:
                    hi = min(hi, k - 1)
                else:
                    lo = max(lo, k)
            elif b is t and is_const(a):
                k = cval(a) % M64
                if v:
                    lo = max(lo, k + 1)
                else:
                    hi = min(hi, k)
        return lo, hi

    def small(self, t):
        """sizes, positions, iteration counts: far below the largest 64 bit number"""
        c, l = lin(t)
        return all(getmeta(a, 'small') for a, _ in l) and self.prove_ge0(t)

    def reduce_pair(self, a, b):
        """cancel a common pointer base and a common factor"""
        _, la = lin(a)
        _, lb = lin(b)
        pa = [x for x, k in la if is_ptr(x)]
        pb = [x for x, k in lb if is_ptr(x)]
        if len(pa) == 1 and pa == pb:
            a, b = sub(a, pa[0]), sub(b, pb[0])
            from math import gcd
            ca, la = lin(a)
            cb, lb = lin(b)
            g = gcd(ca, cb)
            for _, k in la + lb:
                g = gcd(g, k)
            if g > 1:
                a, b = udiv(a, const(g)), udiv(b, const(g))
        return a, b

    def decide_eq0(self, c):
        S = self.S
        if c in S.ne:
            return False
        d = c.args[0]
        cst, l = lin(d)
        # pointers
        if len(l) == 1:
            a, k = l[0]
            if is_ptr(a) and cst == 0 and (getmeta(a, 'nonnull') or a.op in ('opres', 'mk')):
                return False
            if is_ptr(a) and getmeta(a, 'nonnull') and cst != 0:
                if a in S.fresh or abs(cst) < 1 << 20:
                    return False
            if cst:
                # a == -cst/k
                u = self.upper(a)
                q = -cst // k if cst % k == 0 else None
                if q is None:
                    return False
                if u is not None and (q < 0 or q > u):
                    return False
                if q < 0 and self.small(a):
                    return False
                if q < 0 and not is_ptr(a) and u is None and self.nonneg(a) and -cst // k >= -16:
                    # comparison of an unsigned number with one of the largest values
                    lo, hi = self.urange(a)
                    return False if not lo <= q + M64 <= hi else None
        if len(l) == 2 and is_ptr(l[0][0]) and is_ptr(l[1][0]) and l[0][1] == -l[1][1]:
            if cst == 0:
                if self.distinct(l[0][0], l[1][0]):
                    return False
            else:
                if self.sep(l[0][0], l[1][0]):
                    return False
        else:
            ps = [a for a, k in l if is_ptr(a)]
            if len(ps) == 2 and self.sep(ps[0], ps[1]):
                return False
        if self.node_axioms and len(l) == 1:
            from .nodes import node_eq0
            r = node_eq0(self, d)
            if r is not None:
                return self.decide(r)
        if not any(is_ptr(a) for a, _ in l):
            if self.prove_ge0(addc(d, -1)) or self.prove_ge0(addc(scale(d, -1), -1)):
                return False
            if len(l) == 2 and self.prove_ge0(d) and self.prove_ge0(scale(d, -1)):
                return True
        return None

    def distinct(self, a, b):
        S = self.S
        if a is b:
            return False
        if eq(a, b) in S.ne:
            return True
        if self.sep(a, b):
            return True
        if getmeta(a, 'distinct') and getmeta(b, 'distinct'):
            return True
        ca, cb = getmeta(a, 'cls'), getmeta(b, 'cls')
        if self.is_node(a) and self.is_node(b):
            from .nodes import nodes_distinct
            return nodes_distinct(self, a, b)
        if ca and cb and ca != cb and not self.related(ca, cb):
            return True
        return False

    def sep(self, a, b):
        """is one of the pointers to an object that the other one cannot point into?"""
        S = self.S
        for x, y in ((a, b), (b, a)):
            if x in S.fresh and (y in S.fresh or y.op not in ('phi', 'rcell', 'undef')):
                return x is not y
        return False

    def related(self, ca, cb):
        if ca == 'char' or cb == 'char' or ca == 'void' or cb == 'void':
            return True
        return False

    def assume(self, c, val=True):
        """add a condition to the state; raises Infeasible"""
        c = self.norm(c)
        if not val:
            c = bnot(c)
        r = self.decide(c)
        if r is True:
            self.S.facts.append(c)
            return
        if r is False:
            raise Infeasible()
        S = self.S
        S.facts.append(c)
        if c.op == 'not':
            self._assume_not(c.args[0])
            return
        if c.op == 'band':
            self.assume(c.args[0])
            self.assume(c.args[1])
            return
        if c.op == 'eq0':
            self._assume_eq0(c)
            return
        S.conds[c] = True
        if c.op in ('ult', 'slt'):
            self._assume_lt(c.args[0], c.args[1], c.op)

    def _assume_not(self, c):
        S = self.S
        S.conds[c] = False
        if c.op == 'eq0':
            d = c.args[0]
            if self.node_axioms:
                from .nodes import node_eq0
                r = node_eq0(self, d)
                if r is not None:
                    self.assume(r, False)
            S.ne.add(c)
            # d != 0 together with d >= 0 gives d >= 1
            if not any(is_ptr(a) for a, _ in lin(d)[1]):
                if self.prove_ge0(d):
                    self.add_lin(addc(d, -1))
                elif self.prove_ge0(scale(d, -1)):
                    self.add_lin(addc(scale(d, -1), -1))
            self.check_nodes()
            return
        if c.op == 'band':
            # not (a and b): usable when one of them is known
            if self.decide(c.args[0]) is True:
                self.assume(c.args[1], False)
            elif self.decide(c.args[1]) is True:
                self.assume(c.args[0], False)
            return
        if c.op in ('ult', 'slt'):
            a, b = c.args
            if c.op == 'slt':
                a2, b2 = self.reduce_pair(a, b)
                self.add_lin(sub(a2, b2))
                return
            a2, b2 = self.reduce_pair(a, b)
            if (is_const(b2) and cval(b2) < 0):
                if b2 is const(-1):
                    self.assume(eq(a2, b2))
                return
            if self.prove_ge0(a2) and self.prove_ge0(b2):
                self.add_lin(sub(a2, b2))
                if self.decide(eq0(sub(a2, b2))) is False if not is_const(sub(a2, b2)) else False:
                    self.add_lin(addc(sub(a2, b2), -1))
                elif self.prove_ge0(sub(b2, a2)):
                    self.assume(eq(a2, b2))

    def _assume_lt(self, a, b, op):
        a2, b2 = self.reduce_pair(a, b)
        if op == 'slt':
            self.add_lin(addc(sub(b2, a2), -1))
            return
        if is_const(b2) and cval(b2) < 0:
            return
        if is_const(a2) and cval(a2) < 0:
            return
        if self.prove_ge0(a2) and self.prove_ge0(b2):
            self.add_lin(addc(sub(b2, a2), -1))

    def _assume_eq0(self, c):
        S = self.S
        d = c.args[0]
        if self.node_axioms:
            from .nodes import node_eq0
            r = node_eq0(self, d)
            if r is not None:
                self.assume(r)
                return
        cst, l = lin(d)
        cand = [(a, k) for a, k in l if abs(k) == 1]
        # do not eliminate an atom that occurs inside another term of the equation
        def occurs(a):
            return any(a in subterms(x) for x, _ in l if x is not a)
        cand = [(a, k) for a, k in cand if not getmeta(a, 'keep') and not occurs(a)]
        if not cand:
            S.conds[c] = True
            if not any(is_ptr(a) for a, _ in l):
                self.add_lin(d)
                self.add_lin(scale(d, -1))
            return
        a, k = max(cand, key=lambda x: (rank(x[0]), x[0].id))
        rest = scale(sub(d, scale(a, k)), -k)
        self.substitute(a, rest)

    def substitute(self, a, t):
        S = self.S
        # class information survives
        if is_ptr(a) and t.op != 'lin':
            if t.meta is None:
                t.meta = {}
            for k in ('cls', PTR, 'nonnull', 'inner'):
                if a.meta.get(k) and k != 'nonnull':
                    t.meta.setdefault(k, a.meta[k])
        S.sub[a] = t
        S.cache = {}
        # congruence: terms that were replaced before are now known under another name, too
        cong = []
        for k, v in S.sub.items():
            if k is not a and k.op in ('fld', 'vdata', 'vlen', 'at'):
                k2 = subst(k, {a: t}, {})
                if k2 is not k:
                    cong.append((k2, v))
        # re-normalise the state
        ne = S.ne
        S.ne = set()
        for c in ne:
            c2 = self.norm(c)
            if c2 is TRUE:
                raise Infeasible()
            if c2 is not FALSE:
                S.ne.add(c2)
        conds = S.conds
        S.conds = {}
        for c, v in conds.items():
            c2 = self.norm(c)
            if c2 is TRUE or c2 is FALSE:
                if (c2 is TRUE) != v:
                    raise Infeasible()
                continue
            if c2.op == 'not':
                S.conds[c2.args[0]] = not v
            else:
                S.conds[c2] = v
        lins = S.lins
        S.lins = []
        for t2 in lins:
            t1, t2 = t2, self.norm(t2)
            if t1 is not t2:
                # an unsigned number that turns out to be one of the largest ones: the inequality
                # either holds trivially or cannot hold for sizes and positions
                big = 0
                for x, k in lin(t1)[1]:
                    nx = self.norm(x)
                    if is_const(nx) and cval(nx) < 0 and self.nonneg(x):
                        big += k
                        t1 = sub(t1, scale(x, k))
                if big:
                    if big < 0:
                        r = self.norm(t1)
                        if all(k < 0 or getmeta(x, 'small') for x, k in lin(r)[1]):
                            raise Infeasible()
                    continue
            if is_const(t2):
                if cval(t2) < 0:
                    raise Infeasible()
                continue
            S.lins.append(t2)
        mem = S.mem
        S.mem = {}
        for b, cells in mem.items():
            b2 = self.norm(b)
            same = b2 is b
            own = S.mem.get(b) if same else None
            for o, (sz, v) in cells.items():
                if same and self.norm(o) is o:
                    if own is None:
                        own = S.mem.setdefault(b, {})
                    if o not in own:
                        own[o] = (sz, v)
                        continue
                p = add(b2, o)
                bb, oo = self.split(self.norm(p))
                tgt = S.mem.setdefault(bb, {})
                if oo in tgt:
                    # two names of one location: the cell written last wins; lazily read values are equal
                    if (b, o) in S.written and (bb, oo) not in S.written:
                        tgt[oo] = (sz, v)
                else:
                    tgt[oo] = (sz, v)
        w = {}
        for (b, o), x in S.written.items():
            if self.norm(b) is b and self.norm(o) is o:
                w[(b, o)] = x
                continue
            bb, oo = self.split(self.norm(add(b, o)))
            w[(bb, oo)] = x
        S.written = w
        S.epoch = {self.norm(b): e for b, e in S.epoch.items()}
        xd = {}
        for n, v in S.xd.items():
            n2 = self.norm(n)
            xd[n2] = add(xd[n2], v) if n2 in xd else v
        S.xd = xd
        for m in S.maps.values():
            m.renorm(self)
        for k, v in cong:
            x, y = self.norm(k), self.norm(v)
            if x is not y:
                self.assume(eq(x, y))
        self.check_nodes()

    def check_nodes(self):
        """contradictions between equalities and disequalities that involve node atoms"""
        for c in self.S.ne:
            c2 = self.norm(c)
            if c2 is TRUE:
                raise Infeasible()
        # the arcs of an inner node differ
        from .nodes import lo_of, hi_of
        for a in list(self.S.sub):
            if a.op == 'fld' and len(a.args) == 2 and a.args[0] in ('lo', 'hi') and self.node_axioms and self.is_node(a.args[1]):
                if self.kind(a.args[1]) == 'inner' and self.norm(lo_of(a.args[1])) is self.norm(hi_of(a.args[1])):
                    raise Infeasible()

    def branch(self, c, why=None):
        c = self.norm(c)
        r = self.decide(c)
        if r is not None:
            if r and c.op == 'eq0':
                # an equality that follows from inequalities
                self._assume_eq0(c)
            return r
        if self.finished:
            raise Ambiguous()
        k = self.choose(2, why)
        self.assume(c, k == 0)
        return k == 0

    # -------------------------------------------------------------- memory
    def split(self, addr):
        """address -> (base atom, offset term)"""
        if addr.op != 'lin':
            return addr, ZERO
        c, l = addr.args
        ps = [(a, k) for a, k in l if k == 1 and is_ptr(a)]
        if len(ps) != 1:
            if not l:
                return const(0), addr
            raise Unsupported('address ' + show(addr))
        return ps[0][0], sub(addr, ps[0][0])

    def objaddr(self, base, off):
        """-> (object address, offset in object, inner index terms) by the class of the base"""
        cls = getmeta(base, 'cls')
        if not cls:
            return None
        s = self.L.size(cls)
        if not s:
            return None
        c, l = lin(off)
        q, o = divmod(c, s)
        outer = {a: k for a, k in l if k % s == 0}
        inner = {a: k for a, k in l if k % s}
        obj = add(base, mklin(q * s, outer))
        return cls, obj, o, mklin(0, inner)

    def initial(self, base, off, size):
        """value of a location that has not been written"""
        S = self.S
        if base in S.fresh:
            info = S.fresh[base]
            if info == 'zero':
                return ZERO
            f = self.fill_value(base, off, size)
            if f is not None:
                return f
            rg = S.user.get(('region', base))
            if rg is not None:
                return self.typed_cell(mk('rcell', rg, base, off), base, off, size, S.user.get(('regmeta', base)))
            return mk('undef', base, off)
        f = self.fill_value(base, off, size)
        if f is not None:
            return f
        r = self.objaddr(base, off)
        ep = S.epoch.get(base, 0)
        if r is None:
            t = mk('fld', '@%d' % size, add(base, off), ep) if ep else mk('fld', '@%d' % size, add(base, off))
            el = getmeta(base, 'elems')
            if el and size == 8:
                setmeta(t, ptr=True, nonnull=True, cls='BDD::node_struct')
                if el == 'inner nodes':
                    setmeta(t, inner=True)
            return t
        cls, obj, o, inner = r
        if self.node_axioms and cls == 'BDD::node_struct' and o in (0, 8) and self.kind(obj) in ('bot', 'top'):
            from .nodes import MGR
            return MGR
        ep = ep or S.clsep.get(cls, 0)
        if not is_const(inner):
            ia = self.L.inner_array(cls, o)
            if ia is None:
                raise Unsupported('indexed access into ' + cls)
            path, et, es, ao, cnt = ia
            q, oo = divmod(o - ao, es)
            idx = addc(udiv(inner, const(es)), q)
            m = self.L.at(et, oo, size)
            if m is None:
                raise Unsupported('access into ' + et)
            return fld(path + '[]' + ('.' + m[0] if m[0] not in ('', '*') else ''), mk('at', obj, idx), m[1], ep)
        m = self.L.at(cls, o, size)
        if m is None:
            return mk('fld', '@%d.%d' % (o, size), obj, ep)
        path, typ, kind = m
        if kind == 'bits':
            segs = []
            for lo, w, n in typ:
                t = fld(n, obj, 'unsigned long', (ep or S.user.get('markep', 0)) if n == 'marked_' else ep, width=w)
                setmeta(t, width=w)
                if n == 'index':
                    t = self.norm(t)
                    from .nodes import node_index
                    t = node_index(self, obj, t)
                segs.append((lo, w, t, 0))
            return TT._mkbits(segs, size * 8)
        if kind.startswith('vec:'):
            v = add(obj, const(o - {'begin': 0, 'end': 8, 'cap': 16}[kind[4:]]))
            return self.vec_init(v, typ, kind[4:], ep)
        t = fld(path, obj, typ, ep)
        if size == 8 and cls in ('BDD::bdd_mgr', 'BDD::var_struct', 'BDD::memo_cache') and NODEPTR.match(typ or '') and re.match(r'(memo_\.)?\w+$', path):
            self.taint('member pointing to a node')
        if self.node_axioms and cls == 'BDD::node_struct' and path in ('lo', 'hi'):
            setmeta(t, nonnull=True)
        if getmeta(base, 'refsnonnull') and typ.endswith('*'):
            setmeta(t, nonnull=True)
        return self.norm(t)

    def typed_cell(self, t, base, off, size, meta=None):
        """give an unknown value the type of the place it is read from"""
        if meta is not None:
            t.meta = dict(meta)
            if meta.get(PTR):
                return t
        elif t.meta is None:
            t.meta = {}
        if not t.meta:
            r = None
            try:
                r = self.objaddr(base, off)
            except Unsupported:
                pass
            if r is not None and is_const(r[3]):
                m = self.L.at(r[0], r[2], size)
                if m and m[2] == 'scalar' and m[1].endswith('*'):
                    t.meta.update({PTR: True, 'cls': norm_type(m[1][:-1])})
        return t

    def vec_init(self, v, et, which, ep=0):
        et = norm_type(et)
        d = mk('vdata', v, ep) if ep else mk('vdata', v)
        setmeta(d, cls=et, nonnull=True, **{PTR: True})
        if which == 'begin':
            return d
        n = mk('vlen', v, ep) if ep else mk('vlen', v)
        setmeta(n, small=True)
        s = self.L.size(et)
        if which == 'end':
            return add(d, scale(n, s))
        c = mk('vcap', v, ep) if ep else mk('vcap', v)
        setmeta(c, small=True)
        return add(d, scale(c, s))

    def fill_value(self, base, off, size):
        fills = self.S.user.get(('fill', base))
        if not fills:
            return None
        # latest first: (lo, hi, value) byte ranges; hi None = unbounded
        for lo, hi, val in reversed(fills):
            if isinstance(val, tuple):
                # sums of the beginnings of a list, all elements that are not stored separately
                return mk('psum', val[1], val[2], sub(off, lo))
            inlo = self.prove_ge0(sub(off, lo))
            if not inlo:
                if self.prove_ge0(addc(sub(lo, off), -1)):
                    continue
                return None
            if hi is not None and not self.prove_ge0(addc(sub(hi, off), -1)):
                return None
            return val
        return None

    def load(self, addr, size, typ='i64'):
        if not self.finished:
            return self.load_(addr, size, typ)
        try:
            return self.load_(addr, size, typ)
        except Ambiguous:
            # depends on questions that the path leaves open
            self.taint('ambiguous')
            return mk('ambig', self.norm(addr), size)

    def load_(self, addr, size, typ='i64'):
        S = self.S
        addr = self.norm(addr)
        base, off = self.split(addr)
        if S.user.get(('flip', base)) is not None:
            off = self.norm(sub(S.user[('flip', base)], off))
        if is_const(base):
            self.event('nullderef', addr=addr)
            raise PathEnd('nullderef')
        if not getmeta(base, 'nonnull') and base not in S.fresh and self.decide(eq(base, ZERO)) is not False:
            self.event('maybe_null', ptr=base)
        if self.is_node(base):
            if off is const(24):
                return self.xref_load(base)
            if self.node_axioms and base not in S.fresh and is_const(off) and cval(off) < 16:
                # arcs exist at inner nodes only
                if self.kind(base) is None:
                    from .nodes import BOT, TOP
                    if self.branch(eq(base, BOT)) or self.branch(eq(base, TOP)):
                        base, off = self.split(self.norm(addr))
                if self.kind(base) in ('bot', 'top'):
                    self.event('termarc', node=base, off=off)
        S = self.S
        if self.weak and self.weak(base):
            return self.weak_load(base, off, size)
        cells = S.mem.setdefault(base, {})
        hit = cells.get(off)
        if hit is not None and hit[0] == size:
            v = hit[1]
            if off not in S.user.get(('amb', base), ()):
                self.check_alias(base, off, size, False)
                hit = S.mem[base].get(off)
                return self.norm(hit[1]) if isinstance(hit[1], T) else hit[1]
        # overlapping / possibly equal offsets
        v = self._lookup(base, off, size)
        return v

    def weak_load(self, base, off, size):
        S = self.S
        cells = S.mem.setdefault(base, {})
        hit = cells.get(off)
        if hit is not None and hit[0] == size:
            v = self.normv(hit[1])
        else:
            ver = S.user.get(('ver', base), 0)
            if hit is None and ver == 0 and S.fresh.get(base) == 'zero':
                v = ZERO
            else:
                v = mk('tab', base, off, ver)
                m = self.weakmeta
                if callable(m):
                    m = m(self, base, off, size)
                if v.meta is None:
                    v.meta = dict(m)
                v = self.norm(v)
            cells[off] = (size, v)
        self.event('tload', base=base, off=off, val=v)
        return v

    def weak_store(self, base, off, val, size):
        S = self.S
        cells = S.mem.setdefault(base, {})
        for o in list(cells):
            if o is not off:
                d = sub(off, o)
                if is_const(d):
                    if -size < cval(d) < cells[o][0]:
                        del cells[o]
                elif not self.disjoint(d, cells[o][0], size):
                    del cells[o]
        old = cells.get(off)
        cells[off] = (size, val)
        S.written[(base, off)] = True
        S.user[('ver', base)] = ('S', len(S.events))
        self.event('tstore', base=base, off=off, val=val, old=old[1] if old else None)

    def _lookup(self, base, off, size):
        S = self.S
        self.check_alias(base, off, size, False)
        base, off = self.split(self.norm(add(base, off)))
        cells = S.mem.setdefault(base, {})
        for o in list(cells):
            sz, val = cells[o]
            if o is off:
                if sz == size:
                    return self.normv(val)
                if isinstance(val, T) and size < sz:
                    return bit_and(self.norm(val), const((1 << (8 * size)) - 1)) if size < 8 else val
                raise Unsupported('partial load')
            d = sub(off, o)
            if is_const(d):
                k = cval(d)
                if k >= sz or -k >= size:
                    continue
                if k >= 0 and k + size <= sz and isinstance(val, T):
                    r = lshr(self.norm(val), const(8 * k))
                    return bit_and(r, const((1 << (8 * size)) - 1)) if size < 8 else r
                raise Unsupported('overlapping load')
            # symbolic distance
            dis = self.disjoint(d, sz, size)
            if dis:
                continue
            if (base, o) not in S.written and (base, off) not in S.written:
                # both are initial values of possibly the same location: terms agree by congruence once equal
                continue
            e = self.eq_offset(d, sz, size)
            if e is None:
                raise Unsupported('offset distance ' + show(d))
            if self.branch(e):
                return self.load(add(base, off), size)
            base2, off2 = self.split(self.norm(add(base, off)))
            if base2 is not base or off2 is not off or S.mem.get(base) is not cells:
                return self._lookup(base2, off2, size)
        v = self.initial(base, off, size)
        cells[off] = (size, v)
        return v

    def disjoint(self, d, sz, size):
        """is [0,size)+d disjoint from [0,sz) for certain?"""
        if self.prove_ge0(sub(d, const(sz))) or self.prove_ge0(sub(scale(d, -1), const(size))):
            return True
        # congruence: all coefficients multiples of g
        from math import gcd
        c, l = lin(d)
        g = 0
        for _, k in l:
            g = gcd(g, k)
        r = c % g
        # possible distances: r + g*z
        if r >= sz and g - r >= size:
            return True
        if r == 0 or (r < sz and r + size <= g) or True:
            if r and not (r < sz or g - r < size):
                return True
        dd = self.decide(eq0(add(d, const(-r)) if r < sz else add(d, const(g - r)))) if True else None
        if dd is False:
            # the only overlapping distance is excluded
            if sz <= g and size <= g:
                return True
        return False

    def eq_offset(self, d, sz, size):
        from math import gcd
        c, l = lin(d)
        g = 0
        for _, k in l:
            g = gcd(g, k)
        r = c % g
        if r == 0 and sz <= g and size <= g:
            return eq0(d)
        return None

    def check_alias(self, base, off, size, write):
        """locations of other nodes that may be the same one"""
        S = self.S
        if base in S.fresh or not self.is_node(base):
            return
        for (b2, o2) in list(S.written):
            if o2 is not off or b2 is base or b2 in S.fresh or not self.is_node(b2):
                continue
            if self.decide(eq(base, b2)) is None:
                self.branch(eq(base, b2))
                base2, _ = self.split(self.norm(add(base, off)))
                if base2 is not base:
                    return

    def store(self, addr, val, size):
        S = self.S
        addr = self.norm(addr)
        base, off = self.split(addr)
        if S.user.get(('flip', base)) is not None:
            off = self.norm(sub(S.user[('flip', base)], off))
        if is_const(base):
            self.event('nullderef', addr=addr)
            raise PathEnd('nullderef')
        if not getmeta(base, 'nonnull') and base not in S.fresh and self.decide(eq(base, ZERO)) is not False:
            self.event('maybe_null', ptr=base)
        if self.weak and self.weak(base):
            return self.weak_store(base, off, val, size)
        if self.is_node(base) and off is const(24):
            self.xref_store(base, val)
            return
        if self.is_node(base) and base not in S.fresh:
            # other nodes that may be this one
            cells = S.mem.setdefault(base, {})
            for b2 in list(S.mem):
                if b2 is base or b2 in S.fresh or not self.is_node(b2):
                    continue
                if off in S.mem.get(b2, ()) and self.decide(eq(base, b2)) is None:
                    self.branch(eq(base, b2))
                    base, off = self.split(self.norm(addr))
        cells = S.mem.setdefault(base, {})
        old = None
        for o in list(cells):
            sz, v = cells[o]
            if o is off:
                if sz == size:
                    continue
                # different width at the same place
                if isinstance(v, T) and size < sz and size < 8:
                    lowm = const((1 << (8 * size)) - 1)
                    val2 = bit_or(bit_and(self.norm(v), bit_xor(const(-1), lowm)), bit_and(val, lowm))
                    cells[o] = (sz, val2)
                    S.written[(base, o)] = True
                    self.event('store', base=base, off=off, val=val, size=size)
                    return
                del cells[o]
                continue
            d = sub(off, o)
            if is_const(d):
                k = cval(d)
                if k >= sz or -k >= size:
                    continue
                if k >= 0 and k + size <= sz and isinstance(v, T) and isinstance(val, T) and sz <= 8:
                    m = ((1 << (8 * size)) - 1) << (8 * k)
                    cells[o] = (sz, bit_or(bit_and(self.norm(v), const(~m)), shl(bit_and(val, const((1 << (8 * size)) - 1)), const(8 * k))))
                    S.written[(base, o)] = True
                    self.event('store', base=base, off=off, val=val, size=size)
                    return
                if k <= 0 and -k + sz <= size:
                    del cells[o]
                    S.written.pop((base, o), None)
                    continue
                raise Unsupported('overlapping store')
            if self.disjoint(d, sz, size):
                continue
            e = self.eq_offset(d, sz, size)
            if e is None:
                raise Unsupported('store offset distance ' + show(d))
            if self.branch(e):
                return self.store(addr, val, size)
            b2, o2 = self.split(self.norm(addr))
            if b2 is not base or o2 is not off:
                return self.store(addr, val, size)
            cells = S.mem.setdefault(base, {})
        old = cells.get(off)
        cells[off] = (size, val)
        S.written[(base, off)] = True
        if not (base.op == 'alloca' and base.args[0].startswith(('_ZNSt', '_ZNKSt', '_ZN9__gnu', '_ZNK9__gnu', '_ZSt'))):
            self.event('store', base=base, off=off, val=val, size=size, old=old[1] if old else None)

    # xref: deltas
    def xref_load(self, n):
        n = self.norm(n)
        x = self.S.xd.get(n)
        a = fld('xref', n, 'int')
        if n in self.S.fresh:
            return self.S.xd.get(n, mk('undef', n, const(24)))
        return add(a, x) if x is not None else a

    def xref_store(self, n, v):
        n = self.norm(n)
        v = self.norm(v)
        if n in self.S.fresh:
            self.S.xd[n] = v
        else:
            a = fld('xref', n, 'int')
            self.S.xd[n] = sub(v, a)
        self.S.written[(n, const(24))] = True
        self.event('xref', node=n, val=v)

    def xref_add(self, n, k):
        n = self.norm(n)
        self.S.xd[n] = addc(self.S.xd.get(n, ZERO), k)
        self.event('xref', node=n, val=None, delta=k)

    def newheap(self, cls=None, tag='heap', zero=False):
        S = self.S
        S.nheap += 1
        a = mk(tag, S.nheap)
        a.meta = {PTR: True, 'nonnull': True, 'cls': cls}
        S.fresh[a] = 'zero' if zero else 'undef'
        return a

    def newsym(self, name, **meta):
        self.nsym += 1
        t = mk('sym', name, self.nsym)
        t.meta = dict(meta)
        return t

    def unk(self, why, ptr=False):
        self.taint(why)
        t = self.newsym('unk', **({PTR: True} if ptr else {}))
        return t

    # -------------------------------------------------------------- operands
    def opv(self, fr, o):
        k = o[0]
        if k == 'v':
            v = fr.regs[o[1]]
            if isinstance(v, T):
                return self.norm(v)
            return v
        if k == 'c':
            bits = o[2] if len(o) > 2 else 64
            if bits == 1:
                return TRUE if int(o[1]) & 1 else FALSE
            return const(int(o[1]), min(bits, 64) if bits <= 64 else 64)
        if k == 'null':
            return ZERO
        if k == 'undef':
            return mk('undef', 'op')
        if k == 'f':
            return mk('fconst', o[1])
        if k == 'g':
            t = mk('global', o[1])
            if t.meta is None:
                t.meta = {PTR: True, 'nonnull': True, 'distinct': True}
            return t
        if k == 'zero':
            return ZERO
        if k == 'gep':
            b = self.opv(fr, o[1])
            return self.gep(fr, b, o[2])
        if k == 'ce':
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.opv(fr, o[2])
        if k == 'agg':
            return tuple(self.opv(fr, x) for x in o[1:])
        raise Unsupported('operand %s' % (o,))

    def gep(self, fr, b, g):
        r = addc(b, g[1])
        for x, s in g[2]:
            r = add(r, self.opv(fr, x), s)
        return r

    # -------------------------------------------------------------- functions
    def call(self, name, args, inst=None):
        """call of a function by mangled name with argument values"""
        if name in self.contracts:
            return self.contracts[name](self, args, name)
        dem = self.P.demangled(name)
        if self.models:
            m = self.models.lookup(self, name, dem)
            if m is not None:
                return m(self, args, name, dem)
        f = self.P.func(name)
        if f is None:
            return self.external(name, dem, args)
        if any(fr.fn is f for fr, _ in self.stack):
            raise Unsupported('recursion without contract: ' + dem)
        if len(self.stack) > 60:
            raise Unsupported('call depth')
        return self.run(f, args)

    def external(self, name, dem, args):
        self.event('extern', name=dem)
        self.taint('external ' + dem)
        return self.newsym('ext:' + dem, **{PTR: True})

    def run(self, f, args):
        fr = Frame(f)
        if '/repo/' in f.file:
            self.functions_seen.add(f.dem)
        if len(args) < len(f.args):
            raise Unsupported('argument count of ' + f.dem)
        for a, v in zip(f.args, args):
            fr.regs[a['id']] = v
        self.stack.append((fr, None))
        v = self.blocks(fr, 0, None)
        self.stack.pop()
        return v

    def blocks(self, fr, b, prev, within=None):
        f = fr.fn
        while True:
            if b in f.hdr:
                L = f.hdr[b]
                if prev is not None and prev in L['b']:
                    g = fr.loops.get(b)
                    if g is not None and g[0] == 'gen':
                        self.backedge(fr, L, prev, g)
                    fr.iters[b] = fr.iters.get(b, 0) + 1
                    if fr.iters[b] > self.UNROLL or (fr.iters[b] >= 5 and len(self.choices) - fr.chentry.get(b, 0) >= 5 and g is not None and g[0] == 'unroll'):
                        raise NeedGeneric(g[1], 0)
                    fr.pending[b] = True
                else:
                    key = (tuple(c for c, _ in self.choices), f.name, b, len(self.stack), self.loopcount)
                    fr.chentry[b] = len(self.choices)
                    self.loopcount += 1
                    if key in self.generic or key in getattr(self, 'forced_generic', ()):
                        r = self.enter_generic(fr, L, prev, key)
                        fr.iters[b] = 0
                        fr.pending[b] = False
                    else:
                        fr.loops[b] = ('unroll', key)
                        fr.iters[b] = 0
                        fr.pending[b] = True
                        r = None
                    if r is not None:
                        # phi values have been set
                        nb = self.block(fr, b, None)
                        prev, b = b, nb[1]
                        if nb[0] == 'ret':
                            return nb[1]
                        continue
            nb = self.block(fr, b, prev)
            if nb[0] == 'ret':
                return nb[1]
            if within is not None and nb[1] not in within:
                raise PathEnd('loopexit', nb[1])
            prev, b = b, nb[1]

    def phis(self, fr, b, prev):
        vals = []
        for i in fr.fn.blocks[b]:
            if i['o'] != 'phi':
                break
            for pb, o in i['a']:
                if pb == prev:
                    vals.append((i['r'], self.opv(fr, o)))
                    break
            else:
                raise Unsupported('phi')
        return vals

    def block(self, fr, b, prev):
        insts = fr.fn.blocks[b]
        if prev is not None:
            for r, v in self.phis(fr, b, prev):
                fr.regs[r] = v
        for i in insts:
            o = i['o']
            if o == 'phi':
                continue
            self.steps += 1
            if self.steps > self.MAXSTEP:
                raise Unsupported('step limit')
            loc = i['l']
            if loc:
                self.stack[-1] = (fr, loc)
            if o == 'br':
                a = i['a']
                if len(a) == 1:
                    return ('br', a[0])
                c = self.opv(fr, a[0])
                self.exit_test(fr, b, c, (a[1], a[2]))
                if a[1] == a[2]:
                    return ('br', a[1])
                t = self.branch(c)
                return ('br', a[1] if t else a[2])
            if o == 'switch':
                a = i['a']
                c = self.opv(fr, a[0])
                for cv, tb in a[2]:
                    if self.branch(eq(c, self.opv(fr, cv))):
                        return ('br', tb)
                return ('br', a[1])
            if o == 'ret':
                return ('ret', self.opv(fr, i['a'][0]) if i['a'] else None)
            if o == 'unreachable':
                raise PathEnd('unreachable')
            if o in ('invoke', 'call'):
                v = self.docall(fr, i)
                if 'r' in i:
                    fr.regs[i['r']] = v if v is not None else ZERO
                if o == 'invoke':
                    return ('br', i['nd'])
                continue
            if o == 'resume':
                raise PathEnd('throw')
            v = self.inst(fr, i, o)
            if 'r' in i:
                fr.regs[i['r']] = v
        raise Unsupported('block without terminator')

    def exit_test(self, fr, b, c, succs):
        """first exit test of an unrolled loop iteration has to be decided"""
        for h, p in list(fr.pending.items()):
            if not p:
                continue
            L = fr.fn.hdr[h]
            if b in L['b'] and any(s not in L['b'] for s in succs):
                # only the innermost loop that contains b counts, outer ones are tested as well when left
                if self.decide(c) is None:
                    g = fr.loops.get(h)
                    if g and g[0] == 'unroll':
                        raise NeedGeneric(g[1], 0)
                fr.pending[h] = False

    def docall(self, fr, i):
        args = [self.opv(fr, a) for a in i['a']]
        n = i.get('c')
        if n is None:
            ci = i.get('ci')
            if ci and ci[0] == 'g':
                n = ci[1]
            else:
                raise Unsupported('indirect call')
        if n.startswith('llvm.'):
            return self.intrinsic(fr, i, n, args)
        v = self.call(n, args, i)
        if i.get('nr'):
            raise PathEnd('throw', self.P.demangled(n))
        return v

    def intrinsic(self, fr, i, n, a):
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            return self.memcpy(a[0], a[1], a[2])
        if n.startswith('llvm.memset'):
            if is_const(a[2]):
                c = cval(a[2])
                if c % 8 == 0 and is_const(a[1]) and cval(a[1]) == 0 and c <= 4096:
                    for k in range(0, c, 8):
                        self.store(addc(a[0], k), ZERO, 8)
                    return None
                if c <= 64:
                    for k in range(0, c):
                        self.store(addc(a[0], k), a[1], 1)
                    return None
                base, off = self.split(self.norm(a[0]))
                if base in self.S.fresh and is_const(a[1]) and cval(a[1]) == 0:
                    # a large new object is cleared
                    if off is ZERO and not self.S.mem.get(base):
                        self.S.user[('fill', base)] = self.S.user.get(('fill', base), ()) + ((ZERO, const(c), ZERO),)
                        self.event('fill', begin=self.norm(a[0]), end=self.norm(addc(a[0], c)), val=ZERO, base=base)
                        return None
            raise Unsupported('memset')
        if n.startswith('llvm.dbg') or n.startswith('llvm.lifetime') or n.startswith('llvm.assume') or n.startswith('llvm.experimental'):
            return None
        if n.startswith('llvm.umax') or n.startswith('llvm.umin'):
            lt = self.branch(ult(a[0], a[1]))
            return (a[1] if lt else a[0]) if 'max' in n else (a[0] if lt else a[1])
        if n.startswith('llvm.is.constant'):
            return FALSE
        if n.startswith('llvm.threadlocal.address'):
            return a[0]
        if n.startswith('llvm.expect'):
            return a[0]
        if n.startswith('llvm.trap'):
            raise PathEnd('unreachable')
        if n.startswith('llvm.umul.with.overflow'):
            return (mul(a[0], a[1]), FALSE)
        if n.startswith('llvm.fmuladd'):
            return mk('fma', *a)
        raise Unsupported(n)

    def memcpy(self, dst, src, n):
        if not is_const(n):
            raise Unsupported('memcpy of variable size')
        n = cval(n)
        if n == 0:
            return None
        k = 0
        vals = []
        dst, src = self.norm(dst), self.norm(src)
        while k < n:
            # use the granularity of existing cells / member types
            w = self.cell_width(addc(src, k), n - k)
            vals.append((k, w, self.load(addc(src, k), w)))
            k += w
        for k, w, v in vals:
            self.store(addc(dst, k), v, w)
        return None

    def cell_width(self, addr, mx):
        base, off = self.split(self.norm(addr))
        c = self.S.mem.get(base, {}).get(off)
        if c is not None and c[0] <= mx:
            return c[0]
        cls = getmeta(base, 'cls')
        if cls and self.L.size(cls):
            r = self.objaddr(base, off)
            for w in (8, 4, 1, 2):
                if w <= mx:
                    m = self.L.at(r[0], r[2], w)
                    if m and m[2] == 'scalar' and self.L.size(m[1]) == w:
                        return w
                    if m and m[2] in ('bits',) and w == 8:
                        return 8
        for w in (8, 4, 2, 1):
            if w <= mx:
                return w

    # -------------------------------------------------------------- instructions
    def inst(self, fr, i, o):
        if o == 'alloca':
            S = self.S
            S.nheap += 1
            t = mk('alloca', fr.fn.name, i['r'], len(self.stack), S.nheap)
            t.meta = {PTR: True, 'nonnull': True, 'cls': norm_type(i['dt']) if i.get('dt') else self.llvm_cls(i['at']), 'alloca': i.get('n')}
            S.fresh[t] = 'undef'
            return t
        a = i.get('a')
        if o == 'load':
            v = self.load(self.opv(fr, a[0]), i['sz'], i['t'])
            if i['t'] == 'ptr' and isinstance(v, T) and v.op != 'lin' and not is_ptr(v):
                setmeta(v, **{PTR: True})
            if i['t'] == 'i1':
                return self.tobool(v)
            return v
        if o == 'store':
            v = self.opv(fr, a[0])
            if i['vt'] == 'i1':
                v = b2i(v)
            if isinstance(v, tuple):
                raise Unsupported('aggregate store')
            self.store(self.opv(fr, a[1]), v, i['sz'])
            return None
        if o == 'getelementptr':
            return self.gep(fr, self.opv(fr, a[0]), i['g'])
        if o == 'icmp':
            return self.icmp(i['p'], self.opv(fr, a[0]), self.opv(fr, a[1]), i['ot'])
        if o == 'fcmp':
            return mk('fcmp', i['p'], self.opv(fr, a[0]), self.opv(fr, a[1]))
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            return self.binop(o, self.opv(fr, a[0]), self.opv(fr, a[1]), i['t'])
        if o in ('zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            v = self.opv(fr, a[0])
            if o in ('zext', 'sext') and i.get('st') == 'i1':
                return b2i(v) if o == 'zext' else scale(b2i(v), -1)
            if o == 'zext' and is_const(v) and cval(v) < 0:
                return const(cval(v) & ((1 << int(i['st'][1:])) - 1))
            return v
        if o == 'trunc':
            v = self.opv(fr, a[0])
            if i['t'] == 'i1':
                return self.tobool(v)
            w = int(i['t'][1:])
            if is_const(v):
                return const(cval(v), w)
            if width_of(v) <= w:
                return v
            if v.op == 'bits':
                return bit_and(v, const((1 << w) - 1))
            if w == 32:
                return v if getmeta(v, 'typ') == 'int' else mk('trunc', v, w)
            return mk('trunc', v, w)
        if o == 'select':
            c = self.opv(fr, a[0])
            return self.opv(fr, a[1] if self.branch(c) else a[2])
        if o == 'extractvalue':
            v = self.opv(fr, a[0])
            for x in i['ix']:
                if not isinstance(v, tuple):
                    if isinstance(v, T) and v.op in ('undef', 'sym'):
                        return v
                    raise Unsupported('extractvalue')
                v = v[x]
            return v
        if o == 'insertvalue':
            v = self.opv(fr, a[0])
            e = self.opv(fr, a[1])
            return self.insertv(v, e, i['ix'])
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            return mk(o, *[self.opv(fr, x) for x in a])
        if o == 'landingpad':
            raise PathEnd('throw')
        if o in ('atomicrmw', 'cmpxchg', 'fence'):
            raise Unsupported(o)
        raise Unsupported('instruction ' + o)

    def insertv(self, v, e, ix):
        k = ix[0]
        l = list(v) if isinstance(v, tuple) else []
        while len(l) <= k:
            l.append(mk('undef', 'agg'))
        l[k] = e if len(ix) == 1 else self.insertv(l[k], e, ix[1:])
        return tuple(l)

    def llvm_cls(self, at):
        if not at or not at.startswith('%'):
            return {'ptr': None}.get(at)
        n = at[1:]
        for p in ('class.', 'struct.', 'union.'):
            if n.startswith(p):
                n = n[len(p):]
        return norm_type(n) if self.P.dtype(n) or n.startswith('std::vector<') else None

    def tobool(self, v):
        if is_const(v):
            return TRUE if cval(v) & 1 else FALSE
        if v.op == 'b2i':
            return v.args[0]
        w = bit_and(v, ONE)
        if w.op == 'b2i':
            return w.args[0]
        return bnot(eq0(w))

    def icmp(self, p, a, b, ot):
        if ot == 'i1':
            e = bor(band(a, b), band(bnot(a), bnot(b)))
            if b is FALSE:
                e = bnot(a)
            elif b is TRUE:
                e = a
            return e if p == 'eq' else bnot(e)
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported('icmp of aggregate')
        if p == 'eq':
            return eq(a, b)
        if p == 'ne':
            return bnot(eq(a, b))
        if p[0] == 'u':
            f = ult
            if ot in ('i32', 'i16', 'i8'):
                w = int(ot[1:])
                if is_const(a):
                    a = const(cval(a) % (1 << w))
                if is_const(b):
                    b = const(cval(b) % (1 << w))
            a, b = self.norm_cmp(a, b)
        else:
            f = slt
            # a signed comparison of the size of something with a constant
        if p[1:] == 'lt':
            return f(a, b)
        if p[1:] == 'gt':
            return f(b, a)
        if p[1:] == 'le':
            return bnot(f(b, a))
        if p[1:] == 'ge':
            return bnot(f(a, b))
        raise Unsupported('icmp ' + p)

    def norm_cmp(self, a, b):
        a2, b2 = self.reduce_pair(a, b)
        return a2, b2

    def binop(self, o, a, b, t):
        if t == 'i1':
            if o == 'and':
                return band(a, b)
            if o == 'or':
                return bor(a, b)
            if o == 'xor':
                if b is TRUE:
                    return bnot(a)
                if a is TRUE:
                    return bnot(b)
                return bor(band(a, bnot(b)), band(bnot(a), b))
            raise Unsupported('i1 ' + o)
        w = int(t[1:])
        if o == 'add':
            r = add(a, b)
            return const(cval(r), w) if is_const(r) else r
        if o == 'sub':
            r = sub(a, b)
            return const(cval(r), w) if is_const(r) else r
        if o == 'mul':
            return mul(a, b)
        if o == 'and':
            return bit_and(a, b, w)
        if o == 'or':
            return bit_or(a, b, w)
        if o == 'xor':
            return bit_xor(a, b, w)
        if o == 'shl':
            return shl(a, b, w)
        if o == 'lshr':
            return lshr(a, b, w)
        if o == 'ashr':
            if is_const(a) and is_const(b):
                return const(cval(a) >> cval(b))
            if is_const(b):
                return sdiv(a, const(1 << cval(b)))
            return mk('ashr', a, b)
        if o == 'udiv':
            r = udiv(a, b, w)
        elif o == 'sdiv':
            r = sdiv(a, b, w)
        elif o == 'urem':
            r = urem(a, b, w)
        else:
            r = mk(o, a, b)
        if all(getmeta(x, 'small') for x, _ in lin(a)[1]) and r.op in ('udiv', 'urem'):
            setmeta(r, small=True)
        return r

    # -------------------------------------------------------------- loops
    def enter_generic(self, fr, L, prev, key):
        h = L['h']
        fn = fr.fn
        entry = dict(self.phis(fr, h, prev))
        inst = self.loopinst.setdefault(key, len(self.loopinst) + 1)
        sig = (len(key[0]), fn.name, h, key[3], key[4])
        info = self.nested_cache.get(key)
        if info is None:
            info = self.summarise(fr, L, entry, key, sig)
            self.nested_cache[key] = info
        if info.get('failed'):
            raise Unsupported('loop: ' + info['failed'])
        first = self.choose(2) == 0 if not self.no_generic_peel else False
        self.event('loop', key=key, header=h, fn=fn.dem, first=first, info=info, entry=entry, K=info['K'])
        if first:
            for r, v in entry.items():
                fr.regs[r] = v
            self.carried(fr, info)
            fr.loops[h] = ('gen', key, 'first', entry)
            return True
        self.assume_k1(info)
        self.apply_header(fr, L, entry, info)
        self.carried(fr, info)
        K = info['K']
        for c in info['facts']:
            tmpk = sym('K!prev')
            c2 = subst(subst(c, {K: tmpk}, {}), {tmpk: addc(K, -1)}, {})
            self.assume(c2)
        fr.loops[h] = ('gen', key, 'gen', {r: fr.regs[r] for r in entry})
        return True

    def carried(self, fr, info):
        """values of a table that have been loaded by the previous iteration for this one"""
        for r, c in info['phi'].items():
            v = fr.regs.get(r)
            if c[0] == 'fn' and isinstance(v, T) and v.op == 'tab':
                self.event('tload', base=v.args[0], off=v.args[1], val=v, carried=True)

    def assume_k1(self, info):
        self.add_lin(addc(info['K'], -1))

    def apply_header(self, fr, L, entry, info):
        K = info['K']
        S = self.S
        for r, v in entry.items():
            c = info['phi'].get(r, ('inv',))
            fr.regs[r] = self.class_value(v, c, K, ('phi', info['sig'], r))
        self.apply_mem(info)

    def class_value(self, v, c, K, name):
        if c[0] == 'inv':
            return v
        if c[0] == 'aff':
            return add(v, scale(K, 1), c[1]) if not isinstance(c[1], T) else add(v, mul(K, c[1]))
        if c[0] == 'mod':
            return bit_and(c[1], add(c[2], K))
        if c[0] == 'fn':
            return c[1]
        t = mk('phi', *name)
        if c[0] == 'opq':
            setmeta(t, small=True)
            return add(c[1], scale(t, c[2]))
        if t.meta is None:
            t.meta = {}
            if isinstance(v, T):
                src = v if v.op != 'lin' else next((a for a, k in lin(v)[1] if is_ptr(a)), v)
                for k in (PTR, 'cls', 'width', 'signed', 'small'):
                    if getmeta(src, k):
                        t.meta[k] = src.meta[k]
                if src.op in ('opres', 'mk'):
                    t.meta.update({PTR: True, 'cls': 'BDD::node_struct'})
                if c[0] == 'opaque' and len(c) > 1 and c[1]:
                    t.meta.update(c[1])
        elif c[0] == 'opaque':
            for k in ('lowmask', 'pow2'):
                if t.meta.get(k) and not (len(c) > 1 and c[1].get(k)):
                    t.meta[k] = False
        return t

    def apply_mem(self, info):
        S = self.S
        K = info['K']
        for k in [k for k in S.user if isinstance(k, tuple) and k[0] in ('dq', 'dqel')]:
            del S.user[k]
        if info.get('markhavoc'):
            self.havoc_marks(('L', info['sig']))
        for cls in info['clshavoc']:
            S.clsep[cls] = ('L', info['sig'])
            for b in list(S.mem):
                if getmeta(b, 'cls') == cls and b not in S.fresh:
                    del S.mem[b]
                    for k in [k for k in S.written if k[0] is b]:
                        del S.written[k]
        for b in info['region']:
            b = self.norm(b)
            had = S.mem.pop(b, None)
            if S.user.pop(('fill', b), None):
                had = True
            if b in S.fresh:
                whole = not S.user.get(('region', b)) and S.fresh[b] != 'zero' and not had
                S.fresh[b] = 'undef'
                S.user[('region', b)] = info['sig']
                m = info['regmeta'].get(b)
                if m and whole:
                    S.user[('regmeta', b)] = m
                else:
                    S.user.pop(('regmeta', b), None)
            if self.weak and self.weak(b):
                S.user[('ver', b)] = ('L', info['sig'])
            S.epoch[b] = ('L', info['sig'])
            for k in [k for k in S.written if k[0] is b]:
                del S.written[k]
        for (b, o), c in info['cells'].items():
            b, o = self.split(self.norm(add(b, o)))
            cells = S.mem.setdefault(b, {})
            if c[0] == 'drop':
                cells.pop(o, None)
                continue
            sz, c = c[1], c[0]
            old = cells.get(o)
            v = old[1] if old else self.initial(b, o, sz)
            v = self.normv(v)
            nv = self.class_value(v, c, K, ('cell', info['sig'], b, o))
            cells[o] = (sz, nv)
            S.written[(b, o)] = True
        for m, c in info['maps'].items():
            if m in S.maps:
                S.maps[m] = S.maps[m].havoc(info['sig'])

    def havoc_marks(self, ep):
        """the marks of all nodes become unknown"""
        S = self.S
        S.user['markep'] = ep
        S.user['marks'] = S.user.get('marks', ()) + (ep,)
        o = const(16)
        for b, cells in S.mem.items():
            if b in S.fresh or not self.is_node(b) or o not in cells or cells[o][0] != 8:
                continue
            v = self.norm(cells[o][1])
            t = setmeta(fld('marked_', b, 'unsigned long', ep, width=1), width=1)
            cells[o] = (8, bit_or(bit_and(v, const((1 << 63) - 1)), TT._mkbits([(63, 1, t, 0)], 64)))
            S.written.pop((b, o), None)

    def mark_write(self, b, off, v):
        """is v the word of the node with another mark?"""
        if off is not const(16) or not self.is_node(b) or b in self.S.fresh:
            return False
        m = const((1 << 63) - 1)
        try:
            return bit_and(self.norm(v), m) is bit_and(self.norm(self.initial(b, off, 8)), m)
        except Unsupported:
            return False

    def summarise(self, fr, L, entry, key, sig):
        """fixpoint for the values at the loop header"""
        K = mk('iter', sig)
        K.meta = {'small': True, 'iter': True}
        info = {'phi': {}, 'cells': {}, 'region': set(), 'clshavoc': set(), 'maps': {}, 'regmeta': {}, 'K': K, 'sig': sig, 'facts': [], 'nback': 0}
        base_state = self.S
        base_stack = list(self.stack)
        saved = (self.prefix, self.choices, self.steps, self.nsym, self.loopcount, self.generic, self.loopinst)
        try:
            for it in range(8):
                outs = self.nested(fr, L, entry, info, base_state, base_stack)
                if outs is None:
                    info['failed'] = 'too complex'
                    return info
                changed = self.update_info(fr, L, entry, info, base_state, outs)
                if info.get('failed'):
                    return info
                if not changed:
                    break
            else:
                info['failed'] = 'no fixpoint'
                return info
            self.common_facts(info, outs, base_state)
            info['nback'] = sum(1 for o in outs if o.kind == 'backedge')
        except (Unsupported, Budget) as e:
            info['failed'] = str(e)
        finally:
            self.prefix, self.choices, self.steps, self.nsym, self.loopcount, self.generic, self.loopinst = saved
            self.S = base_state
            self.stack = base_stack
        return info

    def nested(self, fr, L, entry, info, base_state, base_stack):
        prefix = []
        out = []
        generic = {}
        n = 0
        self.depth += 1
        if self.depth > 4:
            self.depth -= 1
            raise Unsupported('loop nesting')
        try:
            while True:
                n += 1
                if n > 400:
                    return None
                self.S = base_state.copy()
                self.choices = []
                self.prefix = prefix
                self.generic = generic
                self.loopinst = {}
                self.loopcount = 1000 * self.depth
                f2 = fr.copy()
                self.stack = list(base_stack[:-1]) + [(f2, base_stack[-1][1])]
                o = None
                nev = len(self.S.events)
                nf = len(self.S.facts)
                try:
                    self.apply_header(f2, L, entry, info)
                    nf = len(self.S.facts)
                    f2.loops[L['h']] = ('gen', ('nested', info['sig']), 'gen', {r: f2.regs[r] for r in entry})
                    f2.pending[L['h']] = False
                    f2.iters[L['h']] = 0
                    hdr = {r: f2.regs[r] for r in entry}
                    nb = self.block(f2, L['h'], None)
                    if nb[0] == 'ret':
                        o = Outcome('ret', self.S)
                    elif nb[1] not in L['b']:
                        o = Outcome('loopexit', self.S)
                    else:
                        self.blocks(f2, nb[1], L['h'], within=L['b'])
                        o = Outcome('ret', self.S)
                except PathEnd as e:
                    o = Outcome(e.kind, self.S, None, e.info)
                except Infeasible:
                    o = None
                except NeedGeneric as e:
                    generic[e.key] = True
                    prefix = list(e.key[0])
                    continue
                if o is not None:
                    o.nev, o.nf = nev, nf
                    out.append(o)
                ch = self.choices
                while ch and ch[-1][0] + 1 >= ch[-1][1]:
                    ch.pop()
                if not ch:
                    return out
                prefix = [c for c, _ in ch]
                prefix[-1] += 1
        finally:
            self.depth -= 1

    def backedge(self, fr, L, prev, g):
        h = L['h']
        nxt = dict(self.phis(fr, h, prev))
        self.event('backedge', key=g[1], header=h, fn=fr.fn.dem, mode=g[2], phi=nxt, at=g[3])
        raise PathEnd('backedge', (g[1], nxt, g[3], g[2]))

    def update_info(self, fr, L, entry, info, base, outs):
        changed = False
        K = info['K']
        for r, c in info['phi'].items():
            if c[0] == 'wait0':
                info['phi'][r] = ('wait', c[1])
        before = dict(info, cells=dict(info['cells']))       # what the analysed iterations started from
        for o in outs:
            if o.kind != 'backedge':
                continue
            S = o.S
            self.S = S
            key, nxt, at, _ = o.info
            if key != ('nested', info['sig']):
                continue
            for r, v in nxt.items():
                c = info['phi'].get(r, ('inv',))
                n = self.classify(c, entry[r], at[r], v, K)
                if n != c:
                    info['phi'][r] = n
                    changed = True
            # what all values written to a new object have in common
            for e in S.events[o.nev:]:
                if e.k != 'store' or e.base not in S.fresh or e.base not in base.fresh:
                    continue
                w = self.norm(e.val) if isinstance(e.val, T) else ZERO
                m = {k: getmeta(w, k) for k in (PTR, 'cls', 'inner', 'nonnull') if getmeta(w, k)}
                if m.get(PTR) and self.decide(eq(w, ZERO)) is False:
                    m['nonnull'] = True
                b = e.base
                om = info['regmeta'].get(b)
                nm = m if om is None else {k: x for k, x in om.items() if m.get(k) == x}
                if nm != om:
                    info['regmeta'][b] = nm
                    changed = changed or b in info['region']
            # memory
            hstate = base
            for b, cells in S.mem.items():
                if b in S.fresh and b not in base.fresh:
                    continue
                for off, (sz, v) in cells.items():
                    if (b, off) not in S.written:
                        continue
                    if b in info['region'] or (getmeta(b, 'cls') in info['clshavoc'] and b not in S.fresh):
                        continue
                    if sz == 8 and isinstance(v, T) and self.mark_write(b, off, v):
                        if not info.get('markhavoc'):
                            info['markhavoc'] = True
                            changed = True
                        continue
                    if self.weak and self.weak(b) and not self.loop_dependent(b, info, base):
                        info['region'].add(b)
                        changed = True
                        continue
                    if self.loop_dependent(b, info, base):
                        cls = getmeta(b, 'cls')
                        if cls is None:
                            info['failed'] = 'write through ' + show(b)
                            return True
                        if self.unchanged_cell(b, off, v):
                            continue
                        info['clshavoc'].add(cls)
                        changed = True
                        continue
                    if self.loop_dependent(off, info, base):
                        if self.unchanged_cell(b, off, v):
                            continue
                        info['region'].add(b)
                        for k in [k for k in info['cells'] if k[0] is b]:
                            del info['cells'][k]
                        changed = True
                        continue
                    # cell with loop invariant address
                    old = info['cells'].get((b, off))
                    bv = base.mem.get(b, {}).get(off)
                    hv = self.header_value(b, off, sz, base, before)
                    if isinstance(v, tuple) or hv is None:
                        info['failed'] = 'aggregate cell'
                        return True
                    v = self.norm(v)
                    c = old[0] if old else ('inv',)
                    ev = bv[1] if bv else None
                    n = self.classify(c, ev, self.norm(hv), v, K)
                    if n != c:
                        info['cells'][(b, off)] = (n, sz)
                        changed = True
                    elif old and old[1] != sz:
                        info['failed'] = 'cell size'
                        return True
            for m in S.maps:
                if m in base.maps:
                    if m not in info['maps'] and S.maps[m].differs(base.maps[m]):
                        info['maps'][m] = True
                        changed = True
        return changed

    def unchanged_cell(self, b, off, v):
        save = self.S
        try:
            iv = self.initial(b, off, 8)
        except Unsupported:
            return False
        return isinstance(v, T) and self.norm(v) is self.norm(iv)

    def header_value(self, b, off, sz, base, info):
        S = self.S
        c = info['cells'].get((b, off))
        bv = base.mem.get(b, {}).get(off)
        if bv is not None:
            v = bv[1]
        else:
            save = self.S
            self.S = base
            v = self.initial(b, off, sz)
            self.S = save
        if c is None:
            return v
        return self.class_value(v, c[0], info['K'], ('cell', info['sig'], b, off))

    def loop_dependent(self, t, info, base):
        """does t mention something that only exists inside of the loop?"""
        K = info['K']
        for x in subterms(t):
            if x is K:
                return True
            if x.op in ('phi', 'iter') and info['sig'] in x.args:
                return True
            if x.op in ('heap', 'alloca') and x not in base.fresh:
                return True
        # terms read in the loop from modified memory carry the loop's epoch
            if x.op == 'fld' and len(x.args) > 2 and x.args[2] == ('L', info['sig']):
                return True
        return False

    def classify(self, c, entry, at, v, K):
        """new class of a header value with class c, value `at` at the header and v at the back edge"""
        if c[0] == 'opaque':
            if len(c) > 1 and c[1].get('lowmask') and not (isinstance(v, T) and TT.is_low(v)):
                return ('opaque', {k: x for k, x in c[1].items() if k != 'lowmask'})
            if len(c) > 1 and c[1].get('pow2') and not (isinstance(v, T) and TT.pow2(v)):
                return ('opaque', {k: x for k, x in c[1].items() if k != 'pow2'})
            return c
        if isinstance(v, tuple) or isinstance(at, tuple):
            return ('opaque',)
        if v is at and c[0] != 'aff':
            return c
        if c[0] == 'fn':
            return c if v is self.norm(shift(c[1], K, 1)) else ('opaque', {k: getmeta(v, k) for k in (PTR, 'cls') if getmeta(v, k)})
        if c[0] == 'wait0':
            return c                        # decided when the other values are known
        if c[0] == 'wait':
            G = self.norm(shift(v, K, -1))
            if not any(x.op == 'phi' for x in subterms(G)) and self.norm(subst(G, {K: ZERO}, {})) is self.norm(entry):
                return ('fn', G)
            return ('opaque', c[1])
        if c[0] == 'mod' or c[0] == 'inv' and self.maskof(entry) is not None:
            m = self.maskof(entry)
            if self.next_slot(at, v, m):
                if entry.op == 'bits':
                    return ('mod', m, entry.args[0][0][2])
                return ('mod', m, entry.args[1] if entry.args[0] is m else entry.args[0])
            if c[0] == 'mod':
                return ('opaque', {})
        d = self.norm(sub(v, at))
        if c[0] == 'opq':
            if c[1] in dict(lin(v)[1]) and self.multiple(sub(v, c[1]), c[2]):
                return c
            return ('opaque',)
        if not (c[0] == 'inv' and is_const(d)) and not (c[0] == 'aff' and is_const(d) and cval(d) == c[1]):
            q = self.same_object(entry, at, v, c[1] if c[0] == 'aff' and not isinstance(c[1], T) else 0)
            if q is not None:
                return q
        if c[0] == 'inv':
            if is_const(d):
                return ('aff', cval(d))
            if not any(x.op in ('iter', 'phi', 'undef') for x in subterms(d)) and False:
                return ('aff', d)
            m = {k: getmeta(v, k) for k in (PTR, 'cls', 'nonnull') if getmeta(v, k) and getmeta(at, k) == getmeta(v, k)}
            if isinstance(entry, T) and TT.is_low(entry) and TT.is_low(v):
                m['lowmask'] = True
            elif isinstance(entry, T) and TT.pow2(entry) and TT.pow2(v):
                m['pow2'] = True
            if isinstance(entry, T) and entry.op == v.op == 'tab':
                return ('wait0', m)
            return ('opaque', m)
        if c[0] == 'aff':
            if is_const(d) and cval(d) == c[1]:
                return c
            return ('opaque',)

    def maskof(self, t):
        """the mask of a position in a table whose size is a power of two"""
        if isinstance(t, T) and t.op == 'and':
            return next((m for m in t.args if TT.lowmask(m)), None)
        if isinstance(t, T) and t.op == 'bits' and len(t.args[0]) == 1 and t.args[0][0][0] == 0 and t.args[0][0][3] == 0:
            return const((1 << t.args[0][0][1]) - 1)
        return None

    def next_slot(self, at, v, m):
        """is v the position after at, modulo m+1?"""
        n = addc(at, 1)
        if v is self.norm(bit_and(m, n)):
            return True
        last = self.decide(eq(at, m))
        if last is None:
            last = self.decide(ult(m, n))
        return v is ZERO and last is True or v is self.norm(n) and last is False

    def multiple(self, d, g):
        c, l = lin(d)
        return c % g == 0 and all(k % g == 0 for _, k in l)

    def same_object(self, entry, at, v, g=0):
        """pointers into one object, moved by varying multiples of some element size"""
        from math import gcd
        ps = [[a for a, k in lin(x)[1] if k == 1 and is_ptr(a)] for x in (entry, at, v) if isinstance(x, T)]
        if len(ps) != 3 or any(len(p) != 1 for p in ps) or not (ps[0][0] is ps[1][0] is ps[2][0]):
            return None
        p = ps[0][0]
        g = abs(g)
        for x in (entry, at, v):
            c, l = lin(sub(x, p))
            for k in [c] + [k for _, k in l]:
                g = gcd(g, abs(k))
        return ('opq', p, g) if g else None

    def common_facts(self, info, outs, base):
        """conditions that hold whenever the body has been completed once"""
        K = info['K']
        common = None
        for o in outs:
            if o.kind != 'backedge':
                continue
            fs = set()
            for c in o.S.facts[o.nf:]:
                if self.stable_fact(c, info, base):
                    fs.add(c)
            common = fs if common is None else common & fs
        # a counter that starts at 0 and is always different from N stays below N
        for c in list(common or ()):
            if c.op == 'not' and c.args[0].op == 'eq0':
                d = c.args[0].args[0]
                k = dict(lin(d)[1]).get(K)
                if k in (1, -1):
                    N = sub(K, scale(d, k))
                    if not any(x is K for x in subterms(N)):
                        save, self.S = self.S, base
                        if self.prove_ge0(self.norm(N)):
                            common.add(ult(K, N))
                        self.S = save
        info['facts'] = sorted(common or (), key=lambda t: t.id)

    def known_atoms(self, S):
        """all terms that the values and conditions of a state mention"""
        seen = set()
        for c in S.facts:
            subterms(c, seen)
        for c in S.lins:
            subterms(c, seen)
        for cells in S.mem.values():
            for _, v in cells.values():
                subterms(v, seen)
        return seen

    def stable_fact(self, c, info, base):
        K = info['K']
        has = False
        old = None
        for x in subterms(c):
            if x is K:
                has = True
                continue
            loopy = x.op in ('phi', 'iter', 'rcell', 'mval') or x.op == 'fld' and len(x.args) > 2 and isinstance(x.args[2], tuple) and x.args[2] and x.args[2][0] == 'L'
            if x.op == 'rcell' and len(x.args) > 2 and base.user.get(('region', x.args[1])) == x.args[0]:
                loopy = False           # written by an earlier loop only
            if loopy:
                if old is None:
                    old = self.known_atoms(base)
                if x not in old:
                    return False        # exists in this iteration only
            if x.op == 'undef':
                return False
            if x.op == 'sym' and getmeta(x, 'fresh'):
                return False
            if x.op in ('heap', 'alloca') and x not in base.fresh:
                return False
        return has


def shift(t, K, d):
    """t for another iteration"""
    tmp = sym('K!prev')
    return subst(subst(t, {K: tmp}, {}), {tmp: addc(K, d)}, {})


def rank(a):
    """preference for being replaced in an equality"""
    if a.meta and a.meta.get('lowmask'):
        return 0                        # what is known about masks must survive
    if a.op in ('iter',):
        return 1
    if a.op in ('global', 'alloca', 'heap'):
        return 0
    if a.op == 'sym':
        return 2
    if a.op == 'vlen':
        return 4
    return 3
