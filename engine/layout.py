"""Typed view of memory: which data member lives at a given offset of an object of a given C++ type."""
import re
from .ir import norm_type, targs


class Layout:
    def __init__(self, prog):
        self.P = prog
        self.cache = {}
        self.prefer = set()  # names of union members to prefer

    def size(self, t):
        return self.P.sizeof(t)

    def at(self, t, off, size):
        """(path, type, kind) of the member of t at byte offset off; kind in 'scalar','vec','bits','raw', or None.
        For arrays path contains the constant index."""
        k = (t, off, size, tuple(sorted(self.prefer)))
        if k not in self.cache:
            self.cache[k] = self._at(norm_type(t), off, size, '')
        return self.cache[k]

    def _at(self, t, off, size, path):
        if t.endswith('*') or t.endswith('&'):
            return (path or '*', t, 'scalar') if off == 0 else None
        if t.startswith('std::vector<'):
            n = {0: 'begin', 8: 'end', 16: 'cap'}.get(off)
            if n is None or t.startswith('std::vector<bool'):
                return None
            return (path, targs(t)[0], 'vec:' + n)
        m = re.match(r'std::array<(.*),(\d+)>$', t)
        if m:
            s = self.size(m.group(1))
            if not s:
                return None
            q, o = divmod(off, s)
            if q >= int(m.group(2)):
                return None
            return self._at(norm_type(m.group(1)), o, size, path + '[%d]' % q)
        if t.startswith('std::unique_ptr<') and off == 0:
            return (path + '.ptr', norm_type(targs(t)[0]) + '*', 'scalar')
        if t.startswith('__gnu_cxx::__normal_iterator<') and off == 0:
            return (path or '*', norm_type(targs(t)[0]), 'scalar')
        if t in ('bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long',
                 'long long', 'unsigned long long', 'float', 'double'):
            return (path or '*', t, 'scalar') if off == 0 else None
        d = self.P.dtype(t)
        if d is None:
            return None
        bf = [e for e in d['el'] if e['k'] == 'm' and e.get('bf') and off * 8 <= e['off'] < (off + size) * 8]
        if bf:
            return (path, tuple((e['off'] - off * 8, e['sz'], e['n']) for e in bf), 'bits')
        best = None
        for e in d['el']:
            if e['k'] not in ('m', 'base'):
                continue
            es = self.size(e['t']) if not e.get('bf') else None
            if es is None:
                es = e['sz'] // 8
            eo = e['off'] // 8
            if eo <= off < eo + max(es, 1):
                p = path + ('.' if path else '') + e['n'] if e['k'] == 'm' else path
                r = self._at(norm_type(e['t']), off - eo, size, p)
                if r is None:
                    continue
                if self.prefer and e['n'] in self.prefer:
                    return r
                if best is None or (isinstance(r[1], str) and isinstance(best[1], str) and r[2] == best[2] == 'scalar' and r[1].count('*') > best[1].count('*')):
                    best = r
        return best

    def inner_array(self, t, off):
        """if an array member of t contains byte offset off: (path, element type, element size, offset of the array)"""
        t = norm_type(t)
        m = re.match(r'std::array<(.*),(\d+)>$', t)
        if m:
            return ('', norm_type(m.group(1)), self.size(m.group(1)), 0, int(m.group(2)))
        d = self.P.dtype(t)
        if d is None:
            return None
        for e in d['el']:
            if e['k'] not in ('m', 'base') or e.get('bf'):
                continue
            es = self.size(e['t']) or e['sz'] // 8
            eo = e['off'] // 8
            if eo <= off < eo + max(es, 1):
                r = self.inner_array(e['t'], off - eo)
                if r:
                    p = e['n'] + ('.' + r[0] if r[0] else '')
                    return (p, r[1], r[2], r[3] + eo, r[4])
        return None
