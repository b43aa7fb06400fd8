"""Specifications: exact set images (IEEE 1788 set-based flavour) as terms, written from the standard,
not from the implementation.  A spec returns None (empty) or (lo, hi) of *exact* terms; the caller rounds
them outward to the result type."""
from fractions import Fraction
from terms import mk, con, NAN_T, PINF_T, NINF_T, ZERO_T, ONE_T, KN, KZ, KP, KPI, KNI, KNAN, Term, is_con
from cells import Split
from interp import Abort
import models

C1 = ('c', Fraction(1))
CM1 = ('c', Fraction(-1))
C0 = ('c', Fraction(0))
ILL, TRV, DEF, DAC, COM = 0, 4, 8, 12, 16


class E:
    """image operators; S = harness.Spec"""

    def __init__(self, S):
        self.S, self.c, self.I = S, S.c, S.I

    # ---- helpers --------------------------------------------------------------------------------
    def cls(self, lo, hi):
        """'Z' {0}, 'P' lo>=0, 'N' hi<=0, 'M' straddles"""
        s, t = self.S.sign(lo), self.S.sign(hi)
        if s == 0 and t == 0:
            return 'Z'
        if s >= 0:
            return 'P'
        if t <= 0:
            return 'N'
        return 'M'

    def prod(self, a, b):
        c = self.c
        if c.kinds(a) == KZ or c.kinds(b) == KZ:
            return ZERO_T
        return c.mul(a, b)

    def rel(self, t, k):
        """-1/0/1 of leaf t against constant node k"""
        n = self.c.node(t)
        if n is None:
            raise Abort('spec: non-leaf')
        r = self.c.cell.rel(n, k)
        if r in ('<', '=', '>'):
            return {'<': -1, '=': 0, '>': 1}[r]
        raise Split('fp', n, k)

    def lmin(self, a, b):
        """min of two leaves (forces the order)"""
        return a if self.S.cmp(a, b) <= 0 else b

    def lmax(self, a, b):
        return b if self.S.cmp(a, b) <= 0 else a

    # ---- arithmetic -----------------------------------------------------------------------------
    def pos(self, x):
        return x

    def neg(self, x):
        return (self.c.neg(x[1]), self.c.neg(x[0]))

    def add(self, x, y):
        return (self.c.add(x[0], y[0]), self.c.add(x[1], y[1]))

    def sub(self, x, y):
        return (self.c.sub(x[0], y[1]), self.c.sub(x[1], y[0]))

    def mul_sel(self, x, y):
        """list of (a,b) products whose min is the infimum, and whose max is the supremum"""
        cx, cy = self.cls(*x), self.cls(*y)
        if cx == 'Z' or cy == 'Z':
            return [(ZERO_T, ZERO_T)], [(ZERO_T, ZERO_T)]
        (a, b), (p, q) = x, y
        t = {('P', 'P'): ([(a, p)], [(b, q)]), ('P', 'M'): ([(b, p)], [(b, q)]), ('P', 'N'): ([(b, p)], [(a, q)]),
             ('M', 'P'): ([(a, q)], [(b, q)]), ('M', 'M'): ([(a, q), (b, p)], [(a, p), (b, q)]), ('M', 'N'): ([(b, p)], [(a, p)]),
             ('N', 'P'): ([(a, q)], [(b, p)]), ('N', 'M'): ([(a, q)], [(a, p)]), ('N', 'N'): ([(b, q)], [(a, p)])}
        return t[(cx, cy)]

    def mul(self, x, y):
        L, U = self.mul_sel(x, y)
        c = self.c
        return (c.minmax('min', [self.prod(*p) for p in L]), c.minmax('max', [self.prod(*p) for p in U]))

    def fma(self, x, y, z):
        L, U = self.mul_sel(x, y)
        c = self.c

        def f(p, w):
            if c.kinds(p[0]) == KZ or c.kinds(p[1]) == KZ:
                return w
            return c.fma(p[0], p[1], w)
        return (c.minmax('min', [f(p, z[0]) for p in L]), c.minmax('max', [f(p, z[1]) for p in U]))

    def quo(self, a, b):
        """a / b of bounds with the limit conventions 0/b = 0, finite/inf = 0, a/0 handled by the caller"""
        c = self.c
        if c.kinds(a) == KZ:
            return ZERO_T
        if not c.kinds(b) & ~(KPI | KNI):
            return ZERO_T
        return c.div(a, b)

    def div(self, x, y):
        cy = self.cls(*y)
        if cy == 'Z':
            return None
        cx = self.cls(*x)
        if cx == 'Z':
            return (ZERO_T, ZERO_T)
        a, b = x
        p, q = y
        if cy == 'M':
            return (NINF_T, PINF_T)
        if cy == 'N':
            # x / y = (-x) / (-y)
            a, b = self.c.neg(b), self.c.neg(a)
            p, q = self.c.neg(q), self.c.neg(p)
            cx = {'P': 'N', 'N': 'P', 'M': 'M'}[cx]
        z = self.S.sign(p) == 0         # y touches 0 from above
        self.S.sign(a), self.S.sign(b)
        Q = self.quo
        kb, ka = self.S.sign(b), self.S.sign(a)
        # decide finiteness of q for the limit convention
        self.S.c.eq_inf(q, 1)
        if cx == 'P':
            lo = Q(a, q) if ka else ZERO_T
            hi = PINF_T if z else Q(b, p)
        elif cx == 'N':
            lo = NINF_T if z else Q(a, p)
            hi = Q(b, q) if kb else ZERO_T
        else:
            lo = NINF_T if z else Q(a, p)
            hi = PINF_T if z else Q(b, p)
        return (lo, hi)

    def recip(self, x):
        return self.div((ONE_T, ONE_T), x) if True else None

    def sqr(self, x):
        m = self.mig(x)
        g = self.mag(x)
        return (self.prod(m, m), self.prod(g, g))

    def mig(self, x):
        k = self.cls(*x)
        return ZERO_T if k in 'ZM' else x[0] if k == 'P' else self.c.neg(x[1])

    def mag(self, x):
        k = self.cls(*x)
        if k == 'Z':
            return ZERO_T
        if k == 'P':
            return x[1]
        if k == 'N':
            return self.c.neg(x[0])
        return self.lmax(self.c.neg(x[0]), x[1])

    def mono(self, op, x, dlo=None, dhi=None):
        """increasing function on [dlo, dhi] (constant nodes): clip and map"""
        lo, hi = x
        if dlo is not None:
            r = self.rel(hi, dlo)
            if r < 0:
                return None
            if self.rel(lo, dlo) < 0:
                lo = self.c.leaf(dlo)
        if dhi is not None:
            r = self.rel(lo, dhi)
            if r > 0:
                return None
            if self.rel(hi, dhi) > 0:
                hi = self.c.leaf(dhi)
        return (self.un(op, lo), self.un(op, hi))

    def un(self, op, x):
        return models.un(self.c, op, x)

    def sqrt(self, x):
        return self.mono('sqrt', x, C0)

    def exp(self, x):
        return self.mono('exp', x)

    def exp2(self, x):
        return self.mono('exp2', x)

    def exp10(self, x):
        return self.mono('exp10', x)

    def log_(self, op, x):
        # domain (0, inf)
        if self.S.sign(x[1]) <= 0:
            return None
        lo = NINF_T if self.S.sign(x[0]) <= 0 else self.un(op, x[0])
        return (lo, self.un(op, x[1]))

    def log(self, x):
        return self.log_('log', x)

    def log2(self, x):
        return self.log_('log2', x)

    def log10(self, x):
        return self.log_('log10', x)

    def asin(self, x):
        return self.mono('asin', x, CM1, C1)

    def acos(self, x):
        r = self.mono('acos', x, CM1, C1)
        return r and (r[1], r[0])

    def atan(self, x):
        h = self.c.mul(con(Fraction(1, 2)), mk('pi'))
        lo = self.c.neg(h) if self.c.eq_inf(x[0], -1) is True else self.un('atan', x[0])
        hi = h if self.c.eq_inf(x[1], 1) is True else self.un('atan', x[1])
        return (lo, hi)

    def sinh(self, x):
        return self.mono('sinh', x)

    def cosh(self, x):
        return (self.un('cosh', self.mig(x)), self.un('cosh', self.mag(x)))

    def tanh(self, x):
        self.c.eq_inf(x[0], -1)
        self.c.eq_inf(x[1], 1)
        return self.mono('tanh', x)

    def asinh(self, x):
        return self.mono('asinh', x)

    def acosh(self, x):
        return self.mono('acosh', x, C1)

    def atanh(self, x):
        # domain (-1, 1)
        if self.rel(x[1], CM1) <= 0 or self.rel(x[0], C1) >= 0:
            return None
        lo = NINF_T if self.rel(x[0], CM1) <= 0 else self.un('atanh', x[0])
        hi = PINF_T if self.rel(x[1], C1) >= 0 else self.un('atanh', x[1])
        return (lo, hi)

    # ---- exact functions --------------------------------------------------------------------------
    def abs(self, x):
        return (self.mig(x), self.mag(x))

    def min(self, x, y):
        return (self.lmin(x[0], y[0]), self.lmin(x[1], y[1]))

    def max(self, x, y):
        return (self.lmax(x[0], y[0]), self.lmax(x[1], y[1]))

    def sign(self, x):
        return (con(self.S.sign(x[0])), con(self.S.sign(x[1])))

    def rint_(self, op, x):
        return tuple(models.rnd_int(self.I, op, b) for b in x)

    def ceil(self, x):
        return self.rint_('ceil', x)

    def floor(self, x):
        return self.rint_('floor', x)

    def trunc(self, x):
        return self.rint_('trunc', x)

    def round_ties_to_even(self, x):
        return self.rint_('rint', x)

    def round_ties_to_away(self, x):
        return self.rint_('round', x)

    # ---- powers -------------------------------------------------------------------------------------
    def pown(self, x, p):
        """p: python int or lin term"""
        I = self.I
        lo, hi, par = models.int_facts(I, p)
        if not isinstance(p, int):
            if not (lo > 0 or hi < 0 or lo == hi):
                raise Split('icmp', p.a[0], 0)
            if lo == hi:
                p = lo
            elif par is None:
                raise Split('par', p.a[0])
        if isinstance(p, int) and p == 0:
            return (ONE_T, ONE_T)
        P = lambda t: models.powi(I, t, p)
        cls = self.cls(*x)
        even = (par == 0)
        if lo > 0:
            if not even:
                return (P(x[0]), P(x[1]))
            return (P(self.mig(x)), P(self.mag(x)))
        # p < 0
        if cls == 'Z':
            return None
        if even:
            m, g = self.mig(x), self.mag(x)
            return (P(g), PINF_T if self.S.sign(m) == 0 else P(m))
        if cls == 'M':
            return (NINF_T, PINF_T)
        if cls == 'P':
            return (P(x[1]), PINF_T if self.S.sign(x[0]) == 0 else P(x[0]))
        return (NINF_T if self.S.sign(x[1]) == 0 else P(x[1]), P(x[0]))

    def pow(self, x, y):
        """x^y on {x>0} U {x=0, y>0}"""
        c = self.c
        sx = self.S.sign(x[1])
        if sx < 0:
            return None
        x0 = x[0] if self.S.sign(x[0]) >= 0 else ZERO_T
        x1 = x[1]
        if sx == 0:                      # x = {0}: needs y > 0
            return (ZERO_T, ZERO_T) if self.S.sign(y[1]) > 0 else None
        has0 = self.S.sign(x0) == 0
        PW = lambda a, b: models.pow_(c, a, b)
        y0, y1 = y
        s0, s1 = self.S.sign(y0), self.S.sign(y1)
        # relation of x bounds to 1 is decided for every case below
        r0 = -1 if has0 else self.rel(x0, C1)
        r1 = self.rel(x1, C1)
        c.eq_inf(y0, -1), c.eq_inf(y1, 1), c.eq_inf(x1, 1)
        # exact image of x^y: monotone in each variable per sign regions
        # infimum / supremum over corner limits; limits at x->0+: 0^pos=0, 0^neg=inf, x->inf: inf^pos=inf, inf^neg=0
        corners_lo, corners_hi = [], []
        if s0 >= 0:                      # y >= 0: increasing in x
            lo = self.pwlim(x0, y1 if r0 < 0 else y0)
            hi = self.pwlim(x1, y1 if r1 > 0 else y0)
            return (lo, hi)
        if s1 <= 0:                      # y <= 0: decreasing in x
            lo = self.pwlim(x1, y0 if r1 > 0 else y1)
            hi = self.pwlim(x0, y0 if r0 < 0 else y1)
            return (lo, hi)
        # y straddles 0
        los, his = [], []
        if r0 < 0:
            los.append(self.pwlim(x0, y1))
            his.append(self.pwlim(x0, y0))
        if r1 > 0:
            los.append(self.pwlim(x1, y0))
            his.append(self.pwlim(x1, y1))
        los.append(ONE_T)
        his.append(ONE_T)
        return (c.minmax('min', self.b1(los)), c.minmax('max', self.b1(his)))

    @staticmethod
    def b1(l):
        return l[:-1] if len(l) > 1 else l

    def pwlim(self, a, b):
        """a^b of bounds a >= 0 in the limit sense"""
        c = self.c
        sb = self.S.sign(b)
        if sb == 0:
            return ONE_T
        if c.kinds(a) == KZ:
            return ZERO_T if sb > 0 else PINF_T
        if c.eq_inf(a, 1) is True:
            return PINF_T if sb > 0 else ZERO_T
        if c.eq_inf(b, 1) is True or c.eq_inf(b, -1) is True:
            r = self.rel(a, C1)
            if r == 0:
                return ONE_T
            return PINF_T if (r > 0) == (sb > 0) else ZERO_T
        return models.pow_(c, a, b)

    def atan2(self, y, x):
        """angle of (x, y), values in (-pi, pi]"""
        c = self.c
        A = lambda v, u: models.atan2(c, v, u)
        pi = mk('pi')
        half = c.mul(con(Fraction(1, 2)), pi)
        cy, cx = self.cls(*y), self.cls(*x)
        for t, s in ((y[0], -1), (y[1], 1), (x[0], -1), (x[1], 1)):
            c.eq_inf(t, s)
        (y0, y1), (x0, x1) = y, x
        if cx == 'Z':
            if cy == 'Z':
                return None
            sy0, sy1 = self.S.sign(y0), self.S.sign(y1)
            return (half if sy0 >= 0 else c.neg(half), half if sy1 > 0 else c.neg(half))
        sx0 = self.S.sign(x0)
        sx1 = self.S.sign(x1)
        sy0, sy1 = self.S.sign(y0), self.S.sign(y1)
        if cy == 'Z':
            if sx0 >= 0:
                return (ZERO_T, ZERO_T)
            if sx1 <= 0:
                return (pi, pi)
            return (ZERO_T, pi)
        if cy == 'P':
            if sx0 >= 0:
                lo = self.at(y0, x1)
                hi = self.at(y1, x0)
            elif sx1 <= 0:
                lo = self.at(y1, x1)
                hi = self.at(y0, x0)
            else:
                lo = self.at(y0, x1)
                hi = self.at(y0, x0)
            return (lo, hi)
        if cy == 'N' and not (sy1 == 0 and sx0 < 0):
            r = self.atan2((c.neg(y1), c.neg(y0)), x)
            return (c.neg(r[1]), c.neg(r[0]))
        if cy == 'N':                      # y <= 0, touches 0 with negative x: the cut
            # values: y=0,x<0 -> pi ; y<0 -> (-pi, ...)
            if sx1 <= 0:
                # only x<=0: {pi} U (-pi, atan2(y0, x1)]
                return (c.neg(pi), pi)
            return (c.neg(pi), pi)
        # cy == 'M'
        if sx0 >= 0:
            return (self.at(y0, x0), self.at(y1, x0))
        return (c.neg(pi), pi)

    def at(self, v, u):
        """atan2(v,u) at a bound (limits at infinity / on the axes); v, u leaves"""
        c = self.c
        pi = mk('pi')
        half = c.mul(con(Fraction(1, 2)), pi)
        su, sv = self.S.sign(u), self.S.sign(v)
        if su == 0:
            return half if sv > 0 else c.neg(half) if sv < 0 else ZERO_T
        if sv == 0:
            return ZERO_T if su > 0 else pi
        iu = c.eq_inf(u, su) is True
        iv = c.eq_inf(v, sv) is True
        if iu and iv:
            # supremum / infimum over a rectangle unbounded in both: the limit used is chosen by the caller's monotonicity
            return self.corner_inf(su, sv)
        if iu:
            return ZERO_T if su > 0 else (pi if sv > 0 else c.neg(pi))
        if iv:
            return half if sv > 0 else c.neg(half)
        return models.atan2(c, v, u)

    def corner_inf(self, su, sv):
        raise Abort('spec: atan2 corner at infinity')
