"""Equality of gated terms by Shannon expansion over their boolean atoms, pruned by the order theory of the compared
terms (transitivity, monotone and directed rounding, negation, exactness)."""
from terms import mk, Term, NAN_T, PINF_T, NINF_T, ZERO_T, KNAN, KZ, DPI, sub_fmt
from fractions import Fraction
from interp import isbool


class Contradiction(Exception):
    pass


def collect(t, ats, mms, seen):
    if not isinstance(t, Term) or t in seen:
        return
    seen.add(t)
    if isbool(t) and t.op not in ('not', 'and', 'ite'):
        ats[t] = None
        return
    if t.op in ('min', 'max'):
        mms[t] = None
    for x in t.a:
        collect(x, ats, mms, seen)


class Order:
    """closure of known <= and < facts over a fixed set of terms"""

    def __init__(self, ctx, ats, mms):
        self.ctx = ctx
        self.ix = {}
        self.ts = []
        self.inex = {}
        for a in ats:
            if a.op in ('lt', 'eq'):
                for x in a.a:
                    self.node(x)
            elif a.op == 'eqinf':
                self.node(a.a[0])
                self.node(PINF_T if a.a[1] > 0 else NINF_T)
        for m in mms:
            for x in m.a:
                self.node(x)
        self.node(ZERO_T)
        for t in list(self.ts):
            if t.op == 'rnd':
                self.node(t.a[2])
            g = ctx.neg(t)
            if g.op == 'rnd':
                self.node(g.a[2])
        n = len(self.ts)
        self.n = n
        self.le = [1 << i for i in range(n)]
        self.lt = [0] * n
        self.ne = set()
        self.negix = [self.ix.get(ctx.neg(t)) for t in self.ts]
        self.nan = [bool(ctx.kinds(t) & KNAN) for t in self.ts]
        self.rn = [(i, t.a[0], t.a[1], self.ix.get(t.a[2])) for i, t in enumerate(self.ts) if t.op == 'rnd']
        self.fmtof = {}
        for i, f, m, e in self.rn:
            if f not in self.fmtof:
                self.fmtof[f] = [j for j in range(n) if ctx.infmt(self.ts[j], f)]
        for i in range(n):
            for j in range(n):
                if i != j and not self.nan[i] and not self.nan[j]:
                    r = ctx.le_known(self.ts[i], self.ts[j])
                    if r is True:
                        self.edge(i, j, False)
                    elif r is False:
                        self.edge(j, i, True)
                    if r is True and not ctx.kinds(self.ts[i]) & ctx.kinds(self.ts[j]):
                        self.edge(i, j, True)
                    elif r is True and ctx.node(self.ts[i]) is not None and ctx.node(self.ts[j]) is not None and \
                            ctx.cell.rel(ctx.node(self.ts[i]), ctx.node(self.ts[j])) == '<':
                        self.edge(i, j, True)
        self.tanr = self.tanrules()
        self.close()

    def tanrules(self):
        """(tan x, tan y, y, x + c) with c below pi and cos of the same sign at x and y: y <= x + c puts both on one branch"""
        r = []
        tans = [(i, t.a[0]) for i, t in enumerate(self.ts) if t.op == 'tan']
        for i, x in tans:
            for j, y in tans:
                if i != j and self.ctx.le_known(x, y) is True and self.ctx.trigkind('cos', x) is not None and self.ctx.trigkind('cos', x) == self.ctx.trigkind('cos', y):
                    for k, t in enumerate(self.ts):
                        if t.op == 'add' and y in self.ix and any(p is x and q.op == 'con' and isinstance(q.a[0], Fraction) and 0 < q.a[0] < DPI[0] for p, q in (t.a, t.a[::-1])):
                            r.append((i, j, self.ix[y], k))
        return r

    def node(self, t):
        if t not in self.ix and len(self.ts) < 40:
            self.ix[t] = len(self.ts)
            self.ts.append(t)

    def copy(self):
        o = object.__new__(Order)
        o.__dict__.update(self.__dict__)
        o.le, o.lt, o.ne = self.le[:], self.lt[:], set(self.ne)
        o.inex = dict(self.inex)
        return o

    def edge(self, i, j, strict):
        if self.le[i] >> j & 1 and (not strict or self.lt[i] >> j & 1):
            return False
        tl, ts = self.le[j], self.lt[j]
        for k in range(self.n):
            if self.le[k] >> i & 1:
                st = strict or self.lt[k] >> i & 1
                self.le[k] |= tl
                self.lt[k] |= tl if st else ts
                if self.lt[k] >> k & 1:
                    raise Contradiction()
        return True

    def close(self):
        """apply the rules until nothing changes"""
        ch = True
        while ch:
            ch = False
            for i in range(self.n):
                ni = self.negix[i]
                if ni is None:
                    continue
                m = self.le[i] & ~(1 << i)
                while m:
                    b = m & -m
                    m ^= b
                    j = b.bit_length() - 1
                    nj = self.negix[j]
                    if nj is not None and self.edge(nj, ni, bool(self.lt[i] >> j & 1)):
                        ch = True
            for i, f, md, e in self.rn:
                if e is None:
                    continue
                x = self.inex.get((f, self.ts[e]))
                if x is None:
                    x = self.inex.get((f, self.ctx.neg(self.ts[e])))
                if x is False:
                    ch |= self.edge(i, e, False) | self.edge(e, i, False)
                elif x is True and md in 'DU':
                    ch |= self.edge(i, e, True) if md == 'D' else self.edge(e, i, True)
                elif md in 'DU':
                    ch |= self.edge(i, e, False) if md == 'D' else self.edge(e, i, False)
                for j in self.fmtof[f]:
                    if j == i:
                        continue
                    if md == 'D' or md in 'NZ' :
                        if self.le[j] >> e & 1 and md == 'D':
                            ch |= self.edge(j, i, False)
                        if self.lt[i] >> j & 1 and md == 'D':
                            ch |= self.edge(e, j, True)
                    if md == 'U':
                        if self.le[e] >> j & 1:
                            ch |= self.edge(i, j, False)
                        if self.lt[j] >> i & 1:
                            ch |= self.edge(j, e, True)
                for i2, f2, m2, e2 in self.rn:
                    if i2 != i and f2 == f and m2 == md and e2 is not None and self.le[e] >> e2 & 1:
                        ch |= self.edge(i, i2, False)
            for i, j, y, k in self.tanr:
                if self.le[y] >> k & 1:
                    ch |= self.edge(i, j, False)
            for p, q in self.ne:
                if self.le[p] >> q & 1:
                    ch |= self.edge(p, q, True)
                if self.le[q] >> p & 1:
                    ch |= self.edge(q, p, True)

    def add(self, a, v):
        """assume atom a has truth value v"""
        if a.op in ('lt', 'eq'):
            i, j = self.ix.get(a.a[0]), self.ix.get(a.a[1])
            if i is None or j is None:
                return
            if a.op == 'lt':
                if v:
                    self.edge(i, j, True)
                elif not self.nan[i] and not self.nan[j]:
                    self.edge(j, i, False)
            elif v:
                self.edge(i, j, False)
                self.edge(j, i, False)
            elif not self.nan[i] and not self.nan[j]:
                self.ne.add((i, j))
        elif a.op == 'inexact':
            self.inex[a.a] = v
            for (f, e), w in self.inex.items():     # exact in a format: exact in every wider one
                if e is a.a[1] and w != v and (sub_fmt(a.a[0], f) if w else sub_fmt(f, a.a[0])):
                    raise Contradiction()
        elif a.op == 'eqinf':
            t, s = a.a
            i, j = self.ix.get(t), self.ix.get(PINF_T if s > 0 else NINF_T)
            if i is None or j is None:
                return
            if v:
                self.edge(i, j, False)
                self.edge(j, i, False)
            elif not self.nan[i]:
                self.edge(*((i, j) if s > 0 else (j, i)), True)
        self.close()

    def value(self, a):
        """truth value of an atom implied by the facts, or None"""
        if a.op in ('lt', 'eq'):
            i, j = self.ix.get(a.a[0]), self.ix.get(a.a[1])
            if i is None or j is None:
                return None
            if a.op == 'lt':
                return True if self.lt[i] >> j & 1 else False if self.le[j] >> i & 1 else None
            if self.le[i] >> j & 1 and self.le[j] >> i & 1:
                return True
            return False if self.lt[i] >> j & 1 or self.lt[j] >> i & 1 else None
        if a.op == 'inexact':
            return self.inex.get(a.a)
        if a.op == 'eqinf':
            return self.value(mk('eq', a.a[0], PINF_T if a.a[1] > 0 else NINF_T))
        return None

    def same(self, a, b):
        t = a
        while isinstance(t, Term) and t.op == 'ite':
            t = t.a[1]
        if not isinstance(t, Term) or t.op in ('lin', 'lsum', 'orb', 'tern', 'cmp3', 'toint', 'iopq', 'bopq'):
            return False
        if self.ctx.kinds(a) == KZ:
            a = ZERO_T
        if self.ctx.kinds(b) == KZ:
            b = ZERO_T
        i, j = self.ix.get(a), self.ix.get(b)
        return i is not None and j is not None and bool(self.le[i] >> j & 1 and self.le[j] >> i & 1)


def subst(ctx, t, asg, od, memo):
    """t under the assignment"""
    if not isinstance(t, Term):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in asg:
        r = asg[t]
    elif t.op == 'not':
        r = ctx.bnot(subst(ctx, t.a[0], asg, od, memo))
    elif t.op == 'and':
        r = True
        for x in t.a:
            r = ctx.band(r, subst(ctx, x, asg, od, memo))
            if r is False:
                break
    elif t.op == 'ite':
        c = subst(ctx, t.a[0], asg, od, memo)
        if isinstance(c, bool):
            r = subst(ctx, t.a[1] if c else t.a[2], asg, od, memo)
        else:
            x, y = subst(ctx, t.a[1], asg, od, memo), subst(ctx, t.a[2], asg, od, memo)
            r = x if x is y else ctx.bite(c, x, y) if (isbool(x) or isinstance(x, bool)) and (isbool(y) or isinstance(y, bool)) else mk('ite', c, x, y)
    elif isbool(t):
        v = od.value(t)
        r = t if v is None else v
    elif t.op in ('min', 'max'):
        xs = []
        for x in t.a:
            x = subst(ctx, x, asg, od, memo)
            if isinstance(x, Term):
                i = od.ix.get(x)
                if i is not None:
                    ks = [od.ix.get(y) for y in xs]
                    if any(k is not None and (od.le[k] >> i & 1 if t.op == 'min' else od.le[i] >> k & 1) for k in ks):
                        continue
                    xs = [y for y, k in zip(xs, ks) if k is None or not (od.le[i] >> k & 1 if t.op == 'min' else od.le[k] >> i & 1)]
            xs.append(x)
        r = xs[0] if len(xs) == 1 else ctx.minmax(t.op, xs)
    elif t.op == 'neg':
        r = ctx.neg(subst(ctx, t.a[0], asg, od, memo))
    elif t.op == 'rnd':
        x = subst(ctx, t.a[2], asg, od, memo)
        r = t if x is t.a[2] else ctx.rnd(t.a[0], t.a[1], x)
    else:
        r = t
    memo[t] = r
    return r


def first_atom(t, seen):
    """an undecided atom of t, outermost first"""
    if not isinstance(t, Term) or t in seen:
        return None
    seen.add(t)
    if isbool(t):
        if t.op not in ('not', 'and', 'ite'):
            return t
    if t.op in ('min', 'max'):
        for x in t.a:
            r = first_atom(x, seen)
            if r is not None:
                return r
        return None
    for x in t.a:
        r = first_atom(x, seen)
        if r is not None:
            return r
    return None


def prove_eq(ctx, a, b, eq_terms, budget=600):
    ats, mms, seen = {}, {}, set()
    collect(a, ats, mms, seen)
    collect(b, ats, mms, seen)
    if not ats and not mms:
        return False
    try:
        od = Order(ctx, ats, mms)
    except Contradiction:
        return False
    left = [budget]

    def rec(a, b, asg, od):
        left[0] -= 1
        if left[0] < 0:
            return False
        memo = {}
        a, b = subst(ctx, a, asg, od, memo), subst(ctx, b, asg, od, memo)
        if eq_terms(ctx, a, b) or isinstance(a, Term) and isinstance(b, Term) and od.same(a, b):
            return True
        c = first_atom(a, set())
        if c is None:
            c = first_atom(b, set())
        if c is None:
            for t in (a, b):
                if isinstance(t, Term) and t.op in ('min', 'max') and all(x in od.ix for x in t.a[:2]):
                    c = mk('lt', t.a[0], t.a[1])
                    if c in asg or od.value(c) is not None:
                        c = None
                        continue
                    break
        if c is None:
            return False
        for v in (True, False):
            o2 = od.copy()
            try:
                o2.add(c, v)
            except Contradiction:
                continue
            if not rec(a, b, {**asg, c: v}, o2):
                return False
        return True
    return rec(a, b, {}, od)
