"""canonical form of the collections read by sx/pysym.py, and the facts of a path"""
from sx.pysym import c, is_const, NONE


class Facts:
    """equalities and inequalities between terms that hold on a path"""

    def __init__(self, known, pref=()):
        self.eq = {}
        self.ge = set()
        self.pref = list(pref)
        for q, b in (known.items() if isinstance(known, dict) else known):
            if q[0] == '==' and b:
                self.union(q[1], q[2])
            if q[0] == '<' and not b:
                self.ge.add((q[1], q[2]))
            if q[0] == '<=' and b:
                self.ge.add((q[2], q[1]))

    def find(self, a):
        while a in self.eq:
            a = self.eq[a]
        return a

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return
        if a in self.pref or is_const(a):
            a, b = b, a
        self.eq[a] = b

    def least(self, ls):
        """the smallest of several counts, when the path settles it"""
        ls = list(dict.fromkeys(self.find(x) for x in ls))
        if len(ls) == 1:
            return ls[0]
        ge = {(self.find(a), self.find(b)) for a, b in self.ge}
        for x in ls:
            if all(y == x or (y, x) in ge for y in ls):
                return x
        return ('min', tuple(ls))

    def count(self, src):
        if not isinstance(src, tuple):
            return ('unk', 'count')
        if src[0] == 'zip':
            return self.least([self.count(x) for x in src[1]])
        if src[0] == 'enumerate':
            return self.count(src[1])
        if src[0] == 'range':
            return self.find(src[1] if not isinstance(src[1], tuple) or len(src) == 2 else ('len', src))
        if src[0] in ('list', 'set'):
            n = []
            for x in src[1:]:
                if x[0] == 'one':
                    n.append(c(1))
                elif x[0] == 'rep':
                    n.append(x[2])
                elif x[0] == 'all':
                    n.append(self.count(x[1]))
                elif x[0] == 'each' and len(x[3]) == 1 and len(x[3][0][1]) == 1 and x[3][0][1][0][0] == 'one':
                    n.append(self.count(x[2]))
                else:
                    return ('len', src)
            if len(n) == 1:
                return self.find(n[0])
            if all(is_const(x) for x in n):
                return c(sum(x[1] for x in n))
            return ('len', src)
        if src[0] == 'tuple':
            return c(len(src[1]))
        return self.find(('len', src))

    def at(self, src, i):
        if src[0] == 'range':
            return i
        if src[0] == 'zip':
            return ('tuple', tuple(self.at(x, i) for x in src[1]))
        if src[0] == 'enumerate':
            return ('tuple', (i, self.at(src[1], i)))
        if src[0] == 'tuple' and is_const(i) and 0 <= i[1] < len(src[1]):
            return src[1][i[1]]
        if src[0] in ('list', 'set'):
            s = src[1:]
            if len(s) == 1:
                x = s[0]
                if x[0] == 'rep':
                    return x[1]
                if x[0] == 'all':
                    return self.at(x[1], i)
                if x[0] == 'one' and i == c(0):
                    return x[1]
                if x[0] == 'each' and len(x[3]) == 1 and len(x[3][0][1]) == 1 and x[3][0][1][0][0] == 'one':
                    return self.canon(self.sub(x[3][0][1][0][1], x[1], i))
            if is_const(i) and all(x[0] == 'one' for x in s) and i[1] < len(s):
                return s[i[1]][1]
        return ('at', src, i)

    def sub(self, v, k, i):
        if v == ('idx', k):
            return i
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == 'elem' and v[2] == k:
                return ('at', self.sub(v[1], k, i), i)
            return tuple(self.sub(x, k, i) for x in v)
        return v

    def canon(self, v, depth=0):
        """loops named by depth, elements as ('at', sequence, index), sequences by their count"""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == 'each' and len(v) == 4:
            n = self.count(v[2])
            i = c(0) if n == c(1) else ('i', depth)
            alts = tuple((tuple((self.canon(self.sub(q, v[1], i), depth + 1), b) for q, b in g), self.items(self.sub(x, v[1], i), depth + 1)) for g, x in v[3])
            if n == c(1) and len(alts) == 1 and not alts[0][0]:
                return ('seq',) + alts[0][1]
            if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0][0] == 'one' and i[0] == 'i':
                b = alts[0][1][0][1]
                if b[0] == 'at' and b[2] == i and i not in _parts(b[1]) and self.count(b[1]) == n:
                    return ('all', b[1])
            return ('each', i, n, alts)
        if v[0] in ('list', 'set', 'dict'):
            return (v[0],) + self.items(v[1:], depth)
        if v[0] == 'item' and len(v) == 3:
            a, b = self.canon(v[1], depth), self.canon(v[2], depth)
            if a[0] == 'tuple' and is_const(b) and isinstance(b[1], int) and b[1] < len(a[1]):
                return a[1][b[1]]
            if b[0] == 'i' or a[0] in ('list', 'range', 'zip', 'enumerate'):
                return self.at(a, b)
            return ('item', a, b)
        if v[0] == 'at' and len(v) == 3:
            return self.at(self.canon(v[1], depth), self.canon(v[2], depth))
        return tuple(self.canon(x, depth) if isinstance(x, tuple) else x for x in v)

    def items(self, xs, depth):
        out = []
        for x in xs:
            y = self.canon(x, depth)
            if isinstance(y, tuple) and y and y[0] == 'seq':
                out += y[1:]
            elif isinstance(y, tuple) and y and y[0] == 'all' and isinstance(y[1], tuple) and y[1] and y[1][0] == 'list':
                out += y[1][1:]
            elif isinstance(y, tuple) and y and y[0] == 'rep' and y[2] == c(0):
                pass
            else:
                out.append(y)
        return tuple(out)


def _parts(v):
    out = {v}
    if isinstance(v, tuple):
        for x in v:
            out |= _parts(x)
    return out
