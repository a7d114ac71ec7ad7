"""Loading of the program representation written by tools/irdump."""
import json
import re


def strip_abi(d):
    return d.replace('[abi:cxx11]', '')


class Func:
    __slots__ = ('name', 'dem', 'args', 'ret', 'blocks', 'file', 'line', 'loops', 'loop_of', 'hdr', 'raw', 'internal', 'art', 'cls', 'base', 'nvals')


class Program:
    def __init__(self, path):
        self.lines = {}
        self.funcs = {}
        self.bydem = {}
        with open(path) as f:
            for i, l in enumerate(f):
                if i == 0:
                    h = json.loads(l)
                    continue
                # cheap index: key fields are extracted lazily
                m = _name_re.search(l)
                self.lines[_unq(m.group(1))] = l
        self._callees = {}
        self._found = {}
        self.structs = h['structs']
        self.globals = {g['n']: g for g in h['globals']}
        self.dtypes = {}
        for t in h['dtypes']:
            self.dtypes.setdefault(norm_type(t['n']), t)
        self.decls = {d['n']: d['d'] for d in h['decls']}
        self.dem = {}
        for n, l in self.lines.items():
            m = _dem_re.search(l)
            d = strip_abi(_unq(m.group(1)))
            self.dem[n] = d
            self.bydem.setdefault(d, n)
        for n, d in self.decls.items():
            self.dem[n] = strip_abi(d)

    def demangled(self, n):
        return self.dem.get(n, n)

    def func(self, n):
        f = self.funcs.get(n)
        if f is None:
            l = self.lines.get(n)
            if l is None:
                return None
            j = json.loads(l)
            f = Func()
            f.name = n
            f.dem = strip_abi(j['d'])
            f.args = j['args']
            f.ret = j['ret']
            f.blocks = j['b']
            f.file = j.get('file', '')
            f.line = j.get('line', 0)
            f.art = j.get('art', False)
            f.internal = j.get('internal', False)
            f.loops = [{'h': L['h'], 'b': frozenset(L['b'])} for L in j['loops']]
            f.hdr = {L['h']: L for L in f.loops}
            f.raw = None
            self.funcs[n] = f
        return f

    def repo_functions(self):
        for n, l in self.lines.items():
            m = _file_re.search(l)
            if m and '/repo/' in m.group(1):
                yield n

    def find(self, pattern):
        """mangled names of the functions whose demangled name matches the regular expression from its start"""
        l = self._found.get(pattern)
        if l is None:
            r = re.compile(pattern)
            # the name of a closure starts with the name of the function around it: closures are only found when asked for
            inner = 'lambda' in pattern or '$' in pattern.rstrip('$') or 'std::' in pattern[:8]
            l = self._found[pattern] = [n for n, d in self.dem.items() if n in self.lines and r.match(d)
                                        and (inner or not ('::operator()' in d and ("'lambda" in d or '::$_' in d)))]
        return list(l)

    def find1(self, pattern):
        l = self.find(pattern)
        return l[0] if len(l) == 1 else None

    # ---------------------------------------------------------------- call graph
    def callees(self, n):
        """directly called functions (mangled names)"""
        c = self._callees.get(n)
        if c is None:
            l = self.lines.get(n)
            c = frozenset(_unq(x) for x in _call_re.findall(l)) if l else frozenset()
            self._callees[n] = c
        return c

    def reachable(self, roots, stop=()):
        seen = {}
        st = [(r, None) for r in roots]
        while st:
            n, p = st.pop()
            if n in seen:
                continue
            seen[n] = p
            if n in stop:
                continue
            for c in self.callees(n):
                if c not in seen:
                    st.append((c, n))
        return seen

    def in_repo(self, n):
        l = self.lines.get(n)
        m = l and _file_re.search(l)
        return bool(m and '/repo/' in m.group(1))

    def recursive(self, root):
        """functions of the repository reachable from root (mangled) that lie on a cycle of the call graph"""
        out = []
        for f in self.reachable([root]):
            if self.in_repo(f) and f in self.lines:
                r = self.reachable(self.callees(f))
                if f in r:
                    out.append(f)
        return out

    def scc(self, root):
        """functions of the repository on a cycle of the call graph through root (mangled)"""
        return [f for f in self.reachable([root]) if self.in_repo(f) and f in self.lines and root in self.reachable(self.callees(f))]

    # ---------------------------------------------------------------- types
    def dtype(self, name):
        return self.dtypes.get(norm_type(name))

    def sizeof(self, tname):
        t = norm_type(tname)
        if t.endswith('*') or t.endswith('&'):
            return 8
        b = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
             'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8, 'std::size_t': 8, 'size_t': 8}.get(t)
        if b:
            return b
        d = self.dtypes.get(t)
        if d:
            return d['sz'] // 8
        m = re.match(r'std::array<(.*),(\d+)(?:UL|ul)?>$', t)
        if m:
            s = self.sizeof(m.group(1))
            return s and s * int(m.group(2))
        m = re.match(r'std::pair<', t)
        if m:
            a, b = targs(t)[:2]
            x, y = self.sizeof(a), self.sizeof(b)
            if x and y and x % 8 == 0 and y % 8 == 0:
                return x + y
        return None

    def field(self, cls, *names):
        """bit offset of a (nested) data member"""
        off = 0
        d = self.dtype(cls)
        for i, n in enumerate(names):
            if d is None:
                return None
            e = next((e for e in d['el'] if e['k'] == 'm' and e['n'] == n), None)
            if e is None:
                return None
            off += e['off']
            if i + 1 < len(names):
                d = self.dtypes.get(norm_type('BDD::' + e['t'])) or self.dtypes.get(norm_type(e['t']))
        return off


def _unq(s):
    return json.loads('"' + s + '"')


_name_re = re.compile(r'"n":"((?:[^"\\]|\\.)*)","(?:pt|ret)":')
_dem_re = re.compile(r'"d":"((?:[^"\\]|\\.)*)"')
_call_re = re.compile(r'"c":"((?:[^"\\]|\\.)*)"')
_file_re = re.compile(r'"file":"((?:[^"\\]|\\.)*)"')


def norm_type(s):
    s = s.strip()
    s = re.sub(r'\b(class|struct) ', '', s)
    s = re.sub(r'\s*([<>,*&])\s*', r'\1', s)
    s = re.sub(r'(\d+)(ul|UL|u|U)\b', r'\1', s)
    s = s.replace('BDD::node*', 'BDD::node_struct*')
    s = re.sub(r',std::allocator<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)?[^<>]*>>', '>', s)
    if s.endswith(' const'):
        s = s[:-6]
    if s.startswith('const '):
        s = s[6:]
    return s


def targs(d):
    """top level template arguments of the first <...> of a type or function name"""
    i = d.find('<')
    if i < 0:
        return []
    depth = 0
    cur = ''
    out = []
    for ch in d[i:]:
        if ch in '<(':
            depth += 1
            if depth == 1:
                continue
        if ch in '>)':
            depth -= 1
            if depth == 0:
                out.append(cur.strip())
                return out
        if ch == ',' and depth == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    return out


def split_name(d):
    """'std::vector<T>::push_back(T const&) const' -> (class name, method name, parameter list)"""
    # position of the parameter list: the '(' at depth 0 which is matched by the last ')'
    depth = 0
    i = len(d) - 1
    e = d.rfind(')')
    if e < 0:
        return '', d, ''
    depth = 0
    j = e
    while j >= 0:
        if d[j] in ')':
            depth += 1
        elif d[j] == '(':
            depth -= 1
            if depth == 0:
                break
        j -= 1
    head, params = d[:j], d[j + 1:e]
    if head.endswith('operator'):
        # operator()(...)
        head = head + '()'
    # strip return type of templates: last space at depth 0
    depth = 0
    start = 0
    k = 0
    last = -1
    while k < len(head):
        ch = head[k]
        if ch in '<(':
            depth += 1
        elif ch in '>)':
            if not (ch == '>' and k and head[k - 1] == '-'):
                depth -= 1
        elif ch == ' ' and depth == 0 and not head[:k].endswith('operator'):
            start = k + 1
        elif ch == ':' and depth == 0 and head[k:k + 2] == '::':
            pass
        k += 1
    head = head[start:]
    depth = 0
    last = -1
    m = re.search(r'operator\W.*$', head)
    lim = len(head)
    if m:
        lim = m.start()
    for k in range(lim):
        ch = head[k]
        if ch in '<(':
            depth += 1
        elif ch in '>)':
            depth -= 1
        elif ch == ':' and depth == 0 and head[k:k + 2] == '::':
            last = k
    if last < 0:
        return '', head, params
    return head[:last], head[last + 2:], params
