"""Queries over the whole program: globals, output, assertions, declarations, ownership."""
import json
import os
import re
import subprocess
import tempfile
from . import build
from .ir import Program


def insts(f):
    for b in f.blocks:
        for i in b:
            yield i


def operands(x):
    """leaves of an operand tree"""
    st = [x]
    while st:
        a = st.pop()
        if isinstance(a, list):
            if a and a[0] in ('g', 'v') and len(a) == 2:
                yield a
            else:
                st.extend(a)


def inst_operands(i):
    for k in ('a', 'g', 'ci'):
        if k in i:
            yield from operands(i[k])


def repo_funcs(P):
    """functions written in the repository, with the parts of the driver left out"""
    l = getattr(P, '_repo_funcs', None)
    if l is None:
        l = P._repo_funcs = [n for n in P.repo_functions()]
    return l


def where(f, i=None):
    l = i and i.get('l')
    if l:
        return (l[0], l[1], f.dem)
    return (f.file, f.line, f.dem)


# ------------------------------------------------------------------ C20: state shared between managers
G1 = 'no mutable state is shared between managers'
SYNC = re.compile(r'atomic|mutex|once_flag')


def repo_global(g):
    return '/repo/' in (g.get('file') or '') and not g['n'].startswith('.str')


def lemma_globals(P, R):
    shared = {}
    for n, g in P.globals.items():
        if not repo_global(g) or n.startswith('_ZGV'):
            continue
        w = (g['file'], g['line'], g['d'])
        if g['const'] or g.get('cq'):
            R.ob('C20', G1, True, w, 'constant %s' % g['d'])
            continue
        if g['tls']:
            R.ob('C20', G1, True, w, 'thread local %s' % g['d'])
            continue
        shared[n] = g
    uses = {n: [] for n in shared}
    cnt = 0
    for n, l in P.lines.items():
        hit = [g for g in shared if '"%s"' % g in l]
        cnt += 1
        if not hit:
            continue
        f = P.func(n)
        for i in insts(f):
            for o in inst_operands(i):
                if o[0] == 'g' and o[1] in uses:
                    uses[o[1]].append((f, i))
    for n, g in shared.items():
        w = (g['file'], g['line'], g['d'])
        wr = []
        for f, i in uses[n]:
            if f.dem.startswith('__cxx_global_var_init') or f.name.startswith('_GLOBAL__'):
                continue
            if i['o'] == 'load':
                continue
            if i['o'] in ('call', 'invoke') and i.get('c') in ('__cxa_atexit', '__cxa_thread_atexit'):
                continue
            if i['o'] == 'store' and not any(o[1:] == [n] for o in operands(i['a'][1])):
                wr.append((f, i, None))       # its address is kept somewhere
                continue
            if i['o'] == 'store':
                wr.append((f, i, True))
                continue
            wr.append((f, i, True if i['o'] in ('call', 'invoke', 'atomicrmw', 'cmpxchg', 'getelementptr') else None))
        if not wr:
            R.ob('C20', G1, True, w, '%s is never written' % g['d'])
            continue
        f, i, sure = next((x for x in wr if x[2]), wr[0])
        st = False if sure else None
        if SYNC.search(g['t']) or i['o'] in ('atomicrmw', 'cmpxchg') or only_reads(P, n, wr):
            st = None
        if any(c.startswith('pthread_mutex') or 'mutex' in P.demangled(c) for ff, _, _ in wr for c in P.callees(ff.name)):
            st = None
        R.ob('C20', G1, st, where(f, i), '%s, a variable shared by all managers and threads, is used in %s' % (g['d'], f.dem))
    R.ob('C20', G1, True, ('src', 0, ''), '%d functions searched for uses of %d variables of static storage duration' % (cnt, len(shared)))
    R.functions |= set(repo_funcs(P))


def only_reads(P, n, wr):
    """all uses are address computations of element reads or calls of const member functions"""
    ok = True
    for f, i, sure in wr:
        if i['o'] == 'getelementptr':
            r = i.get('r')
            for j in insts(f):
                for o in inst_operands(j):
                    if o == ['v', r]:
                        if j['o'] != 'load':
                            ok = False
        elif i['o'] in ('call', 'invoke'):
            d = P.demangled(i.get('c') or '')
            if not d.endswith(' const'):
                ok = False
        else:
            ok = False
    return ok


# ------------------------------------------------------------------ C22: output and process exit
O1 = 'library functions neither write to the standard streams nor end the process'
STREAMS = {'_ZSt4cout': 'std::cout', '_ZSt4cerr': 'std::cerr', '_ZSt4clog': 'std::clog', '_ZSt5wcout': 'std::wcout', '_ZSt5wcerr': 'std::wcerr',
           '_ZSt5wclog': 'std::wclog', 'stdout': 'stdout', 'stderr': 'stderr'}
CALLS = {'printf', 'puts', 'putchar', 'vprintf', 'perror', 'exit', '_exit', '_Exit', 'quick_exit', 'abort', 'raise', 'system', 'psignal', 'putc_unlocked',
         'putchar_unlocked', '__printf_chk', 'kill', 'error', 'warn', 'warnx', 'err', 'errx', '_ZSt9terminatev', 'write', 'syslog', 'dprintf'}


def lemma_output(P, R):
    fs = repo_funcs(P)
    R.functions |= set(fs)
    clean = 0
    names = set(STREAMS)
    pat = re.compile('"(' + '|'.join(re.escape(x) for x in sorted(names | CALLS)) + ')"')
    for n in fs:
        l = P.lines[n]
        if not pat.search(l):
            clean += 1
            continue
        f = P.func(n)
        bad = 0
        for i in insts(f):
            for o in inst_operands(i):
                if o[0] == 'g' and o[1] in STREAMS:
                    R.ob('C22', O1, False, where(f, i), '%s uses %s' % (f.dem, STREAMS[o[1]]))
                    bad = 1
            if i.get('c') in CALLS and i['o'] in ('call', 'invoke'):
                R.ob('C22', O1, False, where(f, i), '%s calls %s' % (f.dem, P.demangled(i['c'])))
                bad = 1
        clean += not bad
    # through functions of the standard library instantiated by the library
    seen = P.reachable(fs)
    ind = 0
    for n in seen:
        if n in P.lines and n not in set(fs) and pat.search(P.lines[n]):
            d = P.demangled(n)
            if d.startswith(('__clang_call_terminate', 'std::terminate')):
                continue
            f = P.func(n)
            for i in insts(f):
                if any(o[0] == 'g' and o[1] in STREAMS for o in inst_operands(i)) or (i.get('c') in CALLS and i.get('c') not in ('abort', '_ZSt9terminatev')):
                    ind += 1
                    R.ob('C22', O1, None, where(f, i), 'reachable: %s' % d)
    R.ob('C22', O1, True, ('src', 0, ''), '%d functions of the library use no standard stream and do not end the process; %d functions reachable from them' % (clean, len(seen)))


# ------------------------------------------------------------------ C28: declared functions are defined
D1 = 'functions declared in a class are defined'


def all_symbols(P):
    exe = os.path.join(build.LLVM, 'llvm-nm')
    src = os.path.join(build.ROOT, 'tools', 'driver.cpp')
    with tempfile.TemporaryDirectory() as d:
        o = os.path.join(d, 'all.bc')
        p = subprocess.run(['clang++'] + build.flags(['-DNDEBUG', '-femit-all-decls']) + ['-c', '-emit-llvm', src, '-o', o], capture_output=True, text=True)
        if p.returncode:
            return None
        return {x.split()[-1] for x in subprocess.run([exe, '--defined-only', o], capture_output=True, text=True).stdout.splitlines() if x.split()}


def lemma_declared(P, R):
    sy = all_symbols(P)
    if not sy:
        R.ob('C28', D1, None, ('include', 0, ''), 'symbols could not be listed')
        return
    und = {P.demangled(n) for n in P.decls}
    n_ok = 0
    for q, t in P.dtypes.items():
        if '/repo/' not in t['file'] or '<' in q:
            continue
        for e in t['el']:
            if e['k'] != 'f' or not e['ln'] or e['del'] or e['art'] or e['pure']:
                continue
            w = (e['file'], e['line'], '%s::%s' % (q, e['n']))
            if e['ln'] in P.lines or e['ln'] in sy:
                R.ob('C28', D1, True, w, '%s::%s' % (q, e['n']))
                continue
            acc = e['access'] or (1 if t['tag'] == 0x02 else 3)
            if acc == 1:
                continue     # private and, as everything links, never called
            R.ob('C28', D1, False, w, '%s::%s is declared but not defined' % (q, e['n']))
    # calls of functions of the library without definition
    called = set()
    for n in repo_funcs(P):
        for c in P.callees(n):
            if c in P.decls and P.demangled(c).startswith('BDD::'):
                called.add((c, n))
    for c, n in sorted(called):
        f = P.func(n)
        R.ob('C28', 'called functions are defined', False, where(f), '%s is called in %s but not defined' % (P.demangled(c), f.dem))
    R.ob('C28', 'called functions are defined', True, ('src', 0, ''), 'calls in %d functions resolved' % len(repo_funcs(P)))


# ------------------------------------------------------------------ C25: ownership
W1 = 'ownership is not duplicated'
W2 = 'members are destroyed before what they use'


def lemma_ownership(P, R):
    wit = {n: g for n, g in P.globals.items() if 'vdriver_w_' in n}
    for n, g in sorted(wit.items()):
        m = re.search(r'vdriver_w_(\w+?)(__\w+)?$', n.split('.m')[0])
        try:
            v = int(g['init'][1])
        except Exception:
            R.ob('C25', W1, None, (g['file'], g['line'], n), 'value of the trait is not constant')
            continue
        what = WIT.get(m.group(1)) if m else None
        if what is None:
            continue
        txt, want, cls = what
        t = P.dtypes.get(cls)
        w = (t['file'], t['line'], cls) if t else ('include', 0, cls)
        R.ob('C25', W1, v == want, w, txt if v == want else 'not so: ' + txt)
    if not wit:
        R.ob('C25', W1, None, ('include', 0, ''), 'no witnesses')
    t = P.dtypes.get('BDD::bdd_mgr')
    if not t:
        R.ob('C25', W2, None, ('include/bdd_mgr.h', 0, 'BDD::bdd_mgr'), 'class not found')
        return
    pos = {}
    for e in t['el']:
        if e['k'] == 'm':
            ty = e['t']
            pos.setdefault('vars' if 'var_struct' in ty and 'vector' in ty or 'var_struct' in ty else 'nodes' if 'bdd_node_cache' in ty and not ty.endswith(('*', '&')) else
                           'pages' if 'unique_table_page_cache' in ty and not ty.endswith(('*', '&')) else 'memo' if 'memo_cache' in ty else e['n'], e)
    for a, b in (('vars', 'nodes'), ('vars', 'pages')):
        if a in pos and b in pos:
            ok = pos[a]['off'] > pos[b]['off']
            R.ob('C25', W2, ok, (t['file'], t['line'], 'BDD::bdd_mgr'), '%s is declared %s %s, hence destroyed %s it' % (pos[a]['n'], 'after' if ok else 'before', pos[b]['n'], 'before' if ok else 'after'))
        else:
            R.ob('C25', W2, None, (t['file'], t['line'], 'BDD::bdd_mgr'), 'members %s, %s not found' % (a, b))


WIT = {
    'mgr_copy': ('managers cannot be copied', 0, 'BDD::bdd_mgr'),
    'mgr_assign': ('managers cannot be assigned', 0, 'BDD::bdd_mgr'),
    'mgr_move': ('managers, which nodes and variables point to, cannot be moved', 0, 'BDD::bdd_mgr'),
    'var_copy': ('variables cannot be copied', 0, 'BDD::var_struct'),
    'var_assign': ('variables cannot be assigned', 0, 'BDD::var_struct'),
    'cache_copy': ('the store of nodes cannot be copied', 0, 'BDD::bdd_node_cache'),
    'cache_assign': ('the store of nodes cannot be assigned', 0, 'BDD::bdd_node_cache'),
}


# ------------------------------------------------------------------ C21: assertions
A1 = 'the condition of an assertion modifies nothing'
# restore what they modify (C07), or change counters of temporaries back and forth (C05)
NEUTRAL = re.compile(r'BDD::node_struct::(nr_nodes|variables|nodes_postorder|nodes_bfs)\(|BDD::node_ref::(nr_nodes|variables|nodes_postorder|nodes_bfs)\(|'
                     r'BDD::node_ref::(~)?node_ref\(|BDD::node_ref::operator=\(')
# standard functions that modify their range only when the assertion is about to fail
VACUOUS = re.compile(r'.* std::unique<|std::unique<')
PUREDECL = re.compile(r'std::__detail::_Prime|std::_Hash_bytes|memcmp|strlen|__assert_fail|operator new|operator delete|std::__throw|__cxa_|_Unwind|__clang_call_terminate|'
                      r'std::terminate|llvm\.|__gxx|std::(uncaught_exception|exception|bad_)|std::_Rb_tree_(inc|dec)rement|std::__once')


# these copy their arguments into the container
CONTAINER = re.compile(r'std::(unordered_\w+|vector|deque|map|set|stack|queue|array)<.*>::(insert|emplace\w*|push\w*|pop\w*|count|find|reserve|resize|operator\[\]|at|erase|clear|contains)\(|'
                       r'std::__detail::|std::_Hashtable|std::_Rb_tree')


class Effects:
    """what a function may write to, as far as it existed before: parameters (by number), globals ('g') or unknown ('?')"""

    def __init__(self, P):
        self.P = P
        self.sum = {}
        self.active = set()

    def of(self, n):
        if n in self.sum:
            return self.sum[n]
        d = self.P.demangled(n)
        if NEUTRAL.match(d):
            return {}
        f = self.P.func(n)
        if f is None:
            if PUREDECL.match(d) or n.startswith(('llvm.', '__cxa', '_Zn', '_Zd')):
                return {}
            if n in ('memcpy', 'memmove', 'memset', 'strcpy') or n.startswith('llvm.mem'):
                return {0: d}
            return {'?': d}
        if n in self.active:
            return {}
        self.active.add(n)
        try:
            r = self.compute(f)
        finally:
            self.active.discard(n)
        self.sum[n] = r
        return r

    def provenance(self, f):
        """value id -> set of roots: ('p', k) parameter k or memory reached from it, ('l', id) local, 'h' fresh, 'g' global, '?'"""
        pr = {}
        slots = {}
        al = set()
        for k, a in enumerate(f.args):
            pr[a['id']] = {('p', k)}
        sret = {a['id'] for a in f.args if 'sret' in a}
        ins = list(insts(f))
        for i in ins:
            if i['o'] == 'alloca':
                al.add(i['r'])
                pr[i['r']] = {('l', i['r'])}

        def val(o):
            if o[0] == 'v':
                return pr.get(o[1], set())
            if o[0] == 'g':
                return {'g'}
            if o[0] == 'gep':
                return val(o[1])
            if o[0] == 'ce':
                s = set()
                for x in o[2:]:
                    if isinstance(x, list):
                        s |= val(x)
                return s
            return set()
        for it in range(6):
            ch = False

            def put(r, s):
                nonlocal ch
                if r is None or not s:
                    return
                x = pr.setdefault(r, set())
                if not s <= x:
                    x |= s
                    ch = True
            for i in ins:
                o = i['o']
                if o in ('getelementptr', 'bitcast', 'select', 'phi', 'inttoptr', 'ptrtoint', 'insertvalue', 'extractvalue', 'freeze', 'add', 'sub'):
                    s = set()
                    if o == 'phi':
                        for _, x in i['a']:
                            s |= val(x)
                    else:
                        for x in i['a']:
                            if isinstance(x, list):
                                s |= val(x)
                    put(i.get('r'), s)
                elif o == 'load' and i['t'] not in ('i1', 'i8', 'i16', 'i32', 'float', 'double'):
                    s = set()
                    for r in val(i['a'][0]):
                        if isinstance(r, tuple) and r[0] == 'l':
                            s |= slots.get(r[1], set())
                        s.add(r) if not (isinstance(r, tuple) and r[0] == 'l' and r[1] in slots and i['a'][0] == ['v', r[1]]) else None
                    put(i.get('r'), s)
                elif o == 'store':
                    v = val(i['a'][0])
                    for r in val(i['a'][1]):
                        if isinstance(r, tuple) and r[0] == 'l':
                            x = slots.setdefault(r[1], set())
                            if not v <= x:
                                x |= v
                                ch = True
                elif o in ('call', 'invoke') and i.get('r') is not None:
                    c = i.get('c') or ''
                    if c.startswith('_Zn'):
                        put(i['r'], {'h'})
                    else:
                        s = set()
                        for x in i['a']:
                            s |= val(x)
                        put(i['r'], s)
                if o in ('call', 'invoke'):
                    # objects built by the call may keep pointers it was given
                    a = i['a']
                    if a and not CONTAINER.search(self.P.demangled(i.get('c') or '')):
                        s = set()
                        for x in a[1:]:
                            s |= val(x)
                        for r in val(a[0]):
                            if isinstance(r, tuple) and r[0] == 'l' and s:
                                x = slots.setdefault(r[1], set())
                                s2 = {y for y in s if not (isinstance(y, tuple) and y[0] == 'l')}
                                if not s2 <= x:
                                    x |= s2
                                    ch = True
            if not ch:
                break
        return pr, val, slots

    def writes(self, f, i, val):
        """roots written by an instruction, with a description"""
        o = i['o']
        if o == 'store':
            return {r: 'a store' for r in val(i['a'][1])}
        if o in ('atomicrmw', 'cmpxchg'):
            return {r: 'an atomic update' for r in val(i['a'][0])}
        if o in ('call', 'invoke'):
            c = i.get('c')
            if c is None:
                return {'?': 'an indirect call'}
            if c.startswith('llvm.') and not c.startswith('llvm.mem'):
                return {}
            out = {}
            for k, why in self.of(c).items():
                d = self.P.demangled(c)
                if isinstance(k, int):
                    if k < len(i['a']):
                        for r in val(i['a'][k]):
                            out[r] = d
                else:
                    out[k] = d
            return out
        return {}

    def compute(self, f):
        pr, val, slots = self.provenance(f)
        out = {}
        for i in insts(f):
            for r, why in self.writes(f, i, val).items():
                if isinstance(r, tuple) and r[0] == 'p':
                    out.setdefault(r[1], why)
                elif r == 'g':
                    out.setdefault('g', why)
                elif r == '?':
                    out.setdefault('?', why)
        return out


def lemma_asserts(P, R):
    try:
        PA = Program(build.dump(asserts=True))
    except build.BuildError as e:
        R.ob('C21', A1, None, ('src', 0, ''), 'the sources cannot be compiled with assertions')
        return
    E = Effects(PA)
    nas = 0
    done = set()
    for n in PA.repo_functions():
        l = PA.lines[n]
        if '__assert_fail' not in l:
            continue
        f = PA.func(n)
        key = (f.file, f.line, re.sub(r'\d+ul', 'N', f.dem))
        if key in done:
            continue
        done.add(key)
        R.functions.add(n)
        locs = {}
        for i in insts(f):
            if i.get('c') == '__assert_fail' and i.get('l'):
                locs[(i['l'][0], i['l'][1], i.get('cl'))] = i
        pr, val, slots = E.provenance(f)
        owner = {}        # local variable -> is it used outside assertions
        for i in insts(f):
            k = (i['l'][0], i['l'][1], i.get('cl')) if i.get('l') else None
            for o in inst_operands(i):
                if o[0] == 'v':
                    for r in pr.get(o[1], ()):
                        if isinstance(r, tuple) and r[0] == 'l' and o[1] == r[1]:
                            owner.setdefault(r[1], set()).add(k if k in locs else None)
        seen = set()
        for i in insts(f):
            k = (i['l'][0], i['l'][1], i.get('cl')) if i.get('l') else None
            if k not in locs:
                continue
            w = where(f, i)
            if k not in seen:
                seen.add(k)
                nas += 1
            for r, why in E.writes(f, i, val).items():
                if isinstance(r, tuple) and r[0] == 'l':
                    if owner.get(r[1], set()) <= {k}:
                        continue                      # a temporary of the assertion
                    if i['o'] in ('call', 'invoke') and VACUOUS.match(PA.demangled(i.get('c') or '')):
                        continue
                    name = next((x.get('n') for x in insts(f) if x.get('r') == r[1] and x['o'] == 'alloca'), '?')
                    if i['o'] == 'store' or direct(i, r[1]) or not slots.get(r[1]):
                        st = False
                    else:
                        st = None
                    if name in ('', None) or name.startswith(('ref.tmp', 'agg.tmp', 'cleanup', 'exn', 'ehsel')):
                        st = None if name and not name.startswith(('cleanup', 'exn', 'ehsel')) else True
                        if st:
                            continue
                    R.ob('C21', A1, st, w, 'the assertion in %s modifies the variable %s by %s' % (f.dem, name, why))
                elif isinstance(r, tuple) and r[0] == 'p':
                    if i['o'] in ('call', 'invoke') and VACUOUS.match(PA.demangled(i.get('c') or '')):
                        continue
                    a = f.args[r[1]]['n']
                    st = False if i['o'] == 'store' or sure(PA, E, i) else None
                    R.ob('C21', A1, st, w, 'the assertion in %s modifies what %s refers to by %s' % (f.dem, a, why))
                elif r == 'g':
                    R.ob('C21', A1, False if i['o'] == 'store' else None, w, 'the assertion in %s modifies a global variable by %s' % (f.dem, why))
                elif r == '?':
                    R.ob('C21', A1, None, w, 'the assertion in %s calls %s' % (f.dem, why))
        for k in seen:
            R.ob('C21', A1, True, (k[0], k[1], f.dem), 'assertion in column %s' % k[2])
    R.ob('C21', A1, True, ('src', 0, ''), '%d assertions examined' % nas)


def direct(i, v):
    return any(a == ['v', v] for a in i['a'])


def sure(P, E, i):
    """a call that certainly is a modification: of a non-const member function or through a mutable reference"""
    d = P.demangled(i.get('c') or '')
    return not d.endswith(' const')


# ------------------------------------------------------------------ C03, C04, C06: node pointers that survive a collection
S1 = 'no pointer to a node is kept across a collection and used after it'
HOLDERS = ('BDD::bdd_mgr', 'BDD::var_struct', 'BDD::memo_cache')
RAW = re.compile(r'node_struct ?\*|(?<![\w:])node ?\*')
GROW = re.compile(r'(insert|insert_or_assign|emplace|emplace_back|emplace_hint|try_emplace|push_back|push|operator\[\])\b|operator\[\]')
LOOK = re.compile(r'(find|count|contains|at|end|begin|cbegin|cend|size|empty|back|front|top|bucket_count|equal_range|reserve|~?unordered_map|~?vector|~?map|~?array)$')


def short(d):
    """name of a (demangled) member function without its class and arguments"""
    n = re.sub(r'\(.*$', '', re.sub(r'<[^<>]*>', '', _flat(d)))
    m = re.search(r'(operator\S+|~?\w+)$', n.strip())
    return m.group(1) if m else n


def _flat(d):
    while True:
        e = re.sub(r'<[^<>]*>', '', d)
        if e == d:
            return d
        d = e


def holds_nodes(P, t, depth=0):
    """'ptr' a plain pointer to a node, 'in' a container or object with such pointers, None"""
    from .ir import norm_type
    t = norm_type(t)
    if re.match(r'(const )?(BDD::)?node(_struct)? ?\*( const)?$', t):
        return 'ptr'
    if t.endswith(('*', '&')) or 'unique_table_page' in t or 'bdd_node_cache' in t or 'bdd_node_page' in t:
        return None
    if t.startswith('std::') and RAW.search(t):
        return 'in'
    if depth < 4:
        for n in ([t] if not t.startswith('std::') else targs_of(t)):
            d = P.dtypes.get(norm_type(n)) or P.dtypes.get('BDD::' + norm_type(n))
            if d and n != 'BDD::node_struct' and n != 'node_struct' and '/repo/' in (d.get('file') or ''):
                for e in d['el']:
                    if e['k'] == 'm' and e.get('t') and holds_nodes(P, e['t'], depth + 1):
                        return 'in'
    return None


def targs_of(t):
    from .ir import targs
    try:
        return [x for x in targs(t)]
    except Exception:
        return []


def lemma_stale(P, R):
    props = {'BDD::bdd_mgr': ('C04', 'C06'), 'BDD::var_struct': ('C03', 'C06'), 'BDD::memo_cache': ('C04', 'C06')}
    gc = P.find(r'BDD::bdd_mgr::collect_garbage\(')
    reach = P.reachable(gc)
    if not gc:
        R.ob(('C04', 'C06', 'C03'), S1, None, ('include/bdd_mgr.h', 0, 'BDD::bdd_mgr'), 'collection not found')
        return
    cand = []
    for c in HOLDERS:
        d = P.dtypes.get(c)
        if d is None:
            R.ob(props[c], S1, None, ('include', 0, c), 'class not found')
            continue
        names = []
        for e in d['el']:
            if e['k'] != 'm' or not e.get('t'):
                continue
            names.append(e['n'])
            k = holds_nodes(P, e['t'])
            if k:
                cand.append((c, e, k, d))
        R.ob(props[c], S1, True, (d['file'], d['line'], c), 'members examined: %s' % ', '.join(names))
    tls = {n: g for n, g in P.globals.items() if g.get('tls') and repo_global(g) and RAW.search(g.get('t') or g.get('ty') or '')}
    for c, e, k, d in cand:
        judge_member(P, R, props[c], c, e, k, d, reach)


def accesses(P, cls, off):
    """functions and instructions computing the address of the member: (function, id of the address)"""
    pat = '"%%class.%s"' % cls, '"%%struct.%s"' % cls
    out = []
    for n, l in P.lines.items():
        if cls.split('::')[-1] not in l:
            continue
        f = P.func(n)
        for i in insts(f):
            if i['o'] == 'getelementptr' and i.get('g'):
                g = i['g']
                if re.sub(r'^%(class|struct)\.', '', str(g[0])).split('.')[0] == cls and g[1] == off and not g[2]:
                    out.append((n, f, i))
    return out


def judge_member(P, R, props, cls, e, k, d, reach):
    off = e['off'] // 8
    acc = accesses(P, cls, off)
    where0 = (d['file'], d['line'], '%s::%s' % (cls, e['n']))
    base = cls.split('::')[-1]

    def special(f):
        return bool(re.match(r'%s::(~?%s|operator=)\(' % (re.escape(cls), base), f.dem))
    acc = [(n, f, i) for n, f, i in acc if not special(f)]
    if not acc:
        R.ob(props, S1, True, where0, '%s is not used' % e['n'])
        return
    if any(n in reach for n, f, i in acc):
        R.ob(props, S1, True, where0, '%s is maintained by the collection' % e['n'])
        return
    grow, use, other, reset, valid, held = [], [], [], False, False, False
    for n, f, i in acc:
        r = i.get('r')
        vals = set()
        for j in insts(f):
            ops = [tuple(x) for x in inst_operands(j)]
            if ('v', r) in ops:
                if j['o'] == 'load' and k == 'ptr':
                    vals.add(j['r'])
                elif j['o'] == 'store' and k == 'ptr' and tuple(j['a'][1]) == ('v', r):
                    v = j['a'][0]
                    if isinstance(v, list) and v[0] == 'v':
                        grow.append((f, j, v[1]))
                    else:
                        reset = True
                elif j['o'] in ('call', 'invoke') and k == 'in':
                    c = j.get('c')
                    s = short(P.demangled(c)) if isinstance(c, str) else '?'
                    if isinstance(j['a'][0], list) and tuple(j['a'][0]) == ('v', r) and GROW.match(s):
                        grow.append((f, j, None))
                        if s == 'operator[]':
                            use.append((f, j))
                    elif isinstance(j['a'][0], list) and tuple(j['a'][0]) == ('v', r) and LOOK.match(s):
                        if s in ('find', 'count', 'contains', 'at'):
                            use.append((f, j))
                    else:
                        other.append((f, j))
                else:
                    other.append((f, j))
        if k == 'ptr':
            before = stored_before(f, i, cls, off)
            for j in insts(f):
                ops = [tuple(x) for x in inst_operands(j)]
                for v in vals:
                    if ('v', v) not in ops:
                        continue
                    if j['o'] == 'getelementptr':
                        if str(j['g'][0]).endswith('node_struct') and j['g'][1] == 16:
                            valid = True
                    elif j['o'] in ('call', 'invoke', 'ret', 'store', 'phi', 'select') and not before:
                        use.append((f, j))
        if stamped(P, f):
            valid = True
    for f, j, v in grow:
        for x in insts(f):
            if v is not None and x['o'] == 'getelementptr' and ['v', v] in x['a'] and str(x['g'][0]).endswith('node_struct') and x['g'][1] == 24:
                held = True
    if not grow or not use:
        R.ob(props, S1, True if not other else None, where0, '%s is never filled or never read' % e['n'])
        return
    ok = None if other or reset or valid or held else False
    f, j = use[0]
    R.ob(props, S1, ok, where(f, j), '%s::%s keeps pointers to nodes, is used by %s and is not maintained when nodes are freed' % (cls, e['n'], short(f.dem)))


def stored_before(f, i, cls, off):
    """the function stores the member before it can read it: a store in the entry block before the first read"""
    addr = set()
    for j in f.blocks[0]:
        if j['o'] == 'getelementptr' and j.get('g') and re.sub(r'^%(class|struct)\.', '', str(j['g'][0])).split('.')[0] == cls and j['g'][1] == off:
            addr.add(j['r'])
        elif j['o'] == 'load' and isinstance(j['a'][0], list) and j['a'][0][0] == 'v' and j['a'][0][1] in addr:
            return False
        elif j['o'] == 'store' and isinstance(j['a'][1], list) and j['a'][1][0] == 'v' and j['a'][1][1] in addr:
            return True
    return False


def stamped(P, f):
    """the function compares two members for equality (a time stamp)"""
    ld = {}
    gep = set()
    for i in insts(f):
        if i['o'] == 'getelementptr' and i.get('g') and re.search(r'bdd_mgr|var_struct|memo_cache', str(i['g'][0])):
            gep.add(i['r'])
    for i in insts(f):
        if i['o'] == 'load' and i['t'] != 'ptr' and isinstance(i['a'][0], list) and i['a'][0][0] == 'v' and i['a'][0][1] in gep:
            ld[i['r']] = 1
    for i in insts(f):
        if i['o'] == 'icmp' and i.get('p') in ('eq', 'ne'):
            v = [x for x in i['a'] if isinstance(x, list) and x[0] == 'v' and x[1] in ld]
            if len(v) == 2:
                return True
    return False
