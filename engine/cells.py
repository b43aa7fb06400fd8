"""Order cells: the finite partition of the inputs the abstract interpreter works on.

A cell is a consistent set of order facts (<, <=, ==) between input bounds, their negations and
constants, plus finite domains / (range, parity) facts for integer inputs.  Facts are closed under
transitivity and under negation (a <= b  <=>  -b <= -a).  No solver is involved: the closure is a
bit-matrix reachability."""
import math
from fractions import Fraction
import numeval as NV

PINF, NINF = 'pinf', 'ninf'


def neg_node(n):
    if n[0] == 'v':
        return ('v', n[1], -n[2])
    c = n[1]
    if c == PINF:
        return ('c', NINF)
    if c == NINF:
        return ('c', PINF)
    return ('c', -c)


def cless(a, b):
    """strict order of two constants"""
    if a == b:
        return False
    if a == NINF or b == PINF:
        return True
    if a == PINF or b == NINF:
        return False
    return a < b


class Inconsistent(Exception):
    pass


class Split(Exception):
    """the analysis needs the relation of two nodes / a fact about an integer input"""

    def __init__(self, kind, *data):
        self.kind, self.data = kind, data


class Cell:
    def __init__(self):
        self.nodes = []      # node list
        self.idx = {}
        self.le = []         # bitmask: le[i] bit j <=> node i <= node j known
        self.lt = []
        self.ge = []         # transposes
        self.gt = []
        self.vtype = {}      # var -> 'f','d','l' (order matters: declaration order)
        self.ints = {}       # int var -> ('dom', frozenset) | ('rng', lo, hi, parity or None)
        self.log = []        # human readable facts
        self.base = 0
        self.intvars = ()    # leaves that are integers: numbers written in a text
        for c in (NINF, PINF, Fraction(0)):
            self._node(('c', c))

    def copy(self):
        c = Cell.__new__(Cell)
        c.nodes, c.idx = list(self.nodes), dict(self.idx)
        c.le, c.lt, c.ge, c.gt = list(self.le), list(self.lt), list(self.ge), list(self.gt)
        c.vtype, c.ints, c.log = dict(self.vtype), dict(self.ints), list(self.log)
        c.base = self.base
        c.intvars = self.intvars
        return c

    def _node(self, n):
        i = self.idx.get(n)
        if i is not None:
            return i
        i = len(self.nodes)
        self.nodes.append(n)
        self.idx[n] = i
        for a in (self.le, self.ge):
            a.append(1 << i)
        for a in (self.lt, self.gt):
            a.append(0)
        if n[0] == 'c':
            for j, m in enumerate(self.nodes[:-1]):
                if m[0] == 'c':
                    if cless(n[1], m[1]):
                        self._add(i, j, True)
                    elif cless(m[1], n[1]):
                        self._add(j, i, True)
            if neg_node(n) not in self.idx:
                self._node(neg_node(n))
            if n[1] not in (PINF, NINF):
                pass
        return i

    def _add(self, i, j, strict):
        """fact node i <= j (or <)"""
        if self.gt[i] >> j & 1 or (strict and self.ge[i] >> j & 1):
            raise Inconsistent()
        if (self.lt[i] >> j & 1) or (not strict and self.le[i] >> j & 1):
            return
        up_le, up_lt = self.le[j], self.lt[j]
        dn, dn_lt = self.ge[i], self.gt[i]
        m = dn
        while m:
            low = m & -m
            x = low.bit_length() - 1
            m ^= low
            xs = strict or bool(dn_lt >> x & 1)
            self.le[x] |= up_le
            self.lt[x] |= up_le if xs else up_lt
            if self.lt[x] >> x & 1:
                raise Inconsistent()
        m = up_le
        while m:
            low = m & -m
            y = low.bit_length() - 1
            m ^= low
            ys = strict or bool(up_lt >> y & 1)
            self.ge[y] |= dn
            self.gt[y] |= dn if ys else dn_lt
            if self.gt[y] >> y & 1:
                raise Inconsistent()

    def declare(self, name, ty):
        self.vtype[name] = ty
        if isinstance(ty, tuple) and ty[0] == 's' and ty[2] == 1:
            self.intvars += (name,)
        i, j = self._node(('v', name, 1)), self._node(('v', name, -1))
        for k in (i, j):
            self._add(self.idx[('c', NINF)], k, False)
            self._add(k, self.idx[('c', PINF)], False)

    def intrange(self, name):
        """least and greatest value of an integer leaf"""
        if name not in self.intvars:
            return None
        i = self.idx[('v', name, 1)]
        lo = hi = None
        for j, n in enumerate(self.nodes):
            if n[0] == 'c' and isinstance(n[1], Fraction):
                if self.ge[i] >> j & 1:
                    k = Fraction(math.ceil(n[1]))
                    k += bool(self.gt[i] >> j & 1 and k == n[1])
                    lo = k if lo is None or k > lo else lo
                if self.le[i] >> j & 1:
                    k = Fraction(math.floor(n[1]))
                    k -= bool(self.lt[i] >> j & 1 and k == n[1])
                    hi = k if hi is None or k < hi else hi
        return None if lo is None or hi is None else (lo, hi)

    def fact(self, a, rel, b, note=True):
        """a, b nodes; rel in '<','<=','=','>','>='"""
        if rel in ('>', '>='):
            return self.fact(b, '<' if rel == '>' else '<=', a, note)
        if rel == '=':
            for x, y in ((a, b), (b, a)):
                if x[0] == 'v' and y[0] == 'c' and isinstance(y[1], Fraction) and not NV.in_fmt(y[1], self.vtype[x[1]]):
                    raise Inconsistent()
        i, j = self._node(a), self._node(b)
        ni, nj = self._node(neg_node(a)), self._node(neg_node(b))
        if rel == '=':
            self._add(i, j, False)
            self._add(j, i, False)
            self._add(nj, ni, False)
            self._add(ni, nj, False)
        else:
            self._add(i, j, rel == '<')
            self._add(nj, ni, rel == '<')
        # v vs -v facts imply sign facts
        if a[0] == 'v' and b[0] == 'v' and a[1] == b[1] and a[2] != b[2]:
            z = ('c', Fraction(0))
            if rel == '=':
                self.fact(a, '=', z, False)
            else:
                self.fact(a, rel, z, False)
        for x in (a, b):
            if x[0] == 'v' and x[1] in self.intvars:
                r = self.intrange(x[1])
                if r is not None and r[0] > r[1]:
                    raise Inconsistent()
        if note:
            self.log.append((a, rel, b))

    def rel(self, a, b):
        """'<','=','>','<=','>=' or None"""
        if a == b:
            return '='
        if a[0] == 'c' and b[0] == 'c':
            return '<' if cless(a[1], b[1]) else '>'
        i, j = self._node(a), self._node(b)
        if self.lt[i] >> j & 1:
            return '<'
        if self.gt[i] >> j & 1:
            return '>'
        l, g = self.le[i] >> j & 1, self.ge[i] >> j & 1
        if l and g:
            return '='
        if not l and not g and a[0] == 'v' and b[0] == 'v' and a[1] == b[1]:
            # v vs -v: decided by the sign of v
            r = self.rel(a, ('c', Fraction(0)))
            return r
        return '<=' if l else '>=' if g else None

    def rep(self, name):
        """canonical representative of the equality class of var: a constant if there is one"""
        i = self.idx[('v', name, 1)]
        cls = self.le[i] & self.ge[i]
        best = None
        m = cls
        order = list(self.vtype)
        while m:
            low = m & -m
            k = low.bit_length() - 1
            m ^= low
            n = self.nodes[k]
            if n[0] == 'c':
                return n
            key = (order.index(n[1]), -n[2])
            if best is None or key < best[0]:
                best = (key, n)
        return best[1]

    def split(self, s):
        """list of refined cells"""
        out = []
        if s.kind == 'fp':
            a, b = s.data
            for r in ('<', '=', '>'):
                c = self.copy()
                try:
                    c.fact(a, r, b)
                except Inconsistent:
                    continue
                out.append(c)
        elif s.kind == 'enum':
            v = s.data[0]
            d = self.ints[v]
            for x in sorted(d[1]):
                c = self.copy()
                c.ints[v] = ('dom', frozenset([x]))
                c.log.append((v, '=', x))
                out.append(c)
        elif s.kind == 'icmp':          # int var v against constant k: <, =, >
            v, k = s.data
            _, lo, hi, par = self.ints[v]
            for (l, h, r) in ((lo, min(hi, k - 1), '<'), (max(lo, k), min(hi, k), '='), (max(lo, k + 1), hi, '>')):
                c = self.copy()
                if par is not None:
                    while l <= h and (l & 1) != par:
                        l += 1
                    while l <= h and (h & 1) != par:
                        h -= 1
                if l > h:
                    continue
                c.ints[v] = ('rng', l, h, par)
                c.log.append((v, r, k))
                out.append(c)
        elif s.kind == 'par':
            v = s.data[0]
            _, lo, hi, par = self.ints[v]
            assert par is None
            for p in (0, 1):
                c = self.copy()
                l, h = lo, hi
                while l <= h and (l & 1) != p:
                    l += 1
                while l <= h and (h & 1) != p:
                    h -= 1
                if l > h:
                    continue
                c.ints[v] = ('rng', l, h, p)
                c.log.append((v, 'mod2=', p))
                out.append(c)
        else:
            raise AssertionError(s.kind)
        return out

    @staticmethod
    def show(n):
        if isinstance(n, tuple):
            if n[0] == 'v':
                return ('-' if n[2] < 0 else '') + n[1]
            return {PINF: '+inf', NINF: '-inf'}.get(n[1], str(n[1]))
        return str(n)

    def describe(self):
        s = ', '.join(f"{self.show(a)}{r}{self.show(b)}" for a, r, b in self.log)
        for v, d in self.ints.items():
            if d[0] == 'dom':
                s += f", {v} in {{{','.join(map(str, sorted(d[1])))}}}"
            else:
                s += f", {v} in [{d[1]},{d[2]}]" + ('' if d[3] is None else ' odd' if d[3] else ' even')
        return s.strip(', ')
