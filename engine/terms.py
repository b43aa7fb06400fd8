"""Hash-consed value-graph terms and their canonicalising constructors (relative to an order cell)."""
from fractions import Fraction
import numeval as NV
from cells import Split, Inconsistent, neg_node, PINF, NINF

# kind bits
KNI, KN, KZ, KP, KPI, KNAN = 1, 2, 4, 8, 16, 32
KALL = 63
ORDER = [KNI, KN, KZ, KP, KPI]


class Term:
    __slots__ = ('op', 'a', 'id', 'h', 'loc')
    table = {}
    n = 0

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op,) + a
    t = Term.table.get(k)
    if t is None:
        t = Term()
        t.op, t.a = op, a
        Term.n += 1
        t.id = Term.n
        t.loc = None
        Term.table[k] = t
    return t


def reset_terms():
    """forget all terms except the constants"""
    keep = {k: t for k, t in Term.table.items() if t.op == 'con'}
    Term.table.clear()
    Term.table.update(keep)


def show(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if t.op == 'var':
        return t.a[0]
    if t.op == 'zvar':
        return f"0[{t.a[0]}]"
    if t.op == 'con':
        v = t.a[0]
        if isinstance(v, Fraction):
            return str(float(v)) if abs(v) < 2 ** 1023 and v.denominator < 2 ** 1000 else ('-' if v < 0 else '') + f"2^{abs(v.numerator).bit_length() - v.denominator.bit_length()}*.."
        return v
    if d > 8:
        return '...'
    if t.op == 'rnd':
        f, m, e = t.a
        f = f if isinstance(f, str) else f"{f[0]}{f[1]}:{f[2]}:{f[3]}"
        return f"R{m}<{f}>({show(e, d + 1)})"
    return f"{t.op}({', '.join(show(x, d + 1) if isinstance(x, Term) else str(x) for x in t.a)})"


TRUE, FALSE = True, False
NAN_T = mk('con', 'nan')
PINF_T = mk('con', 'pinf')
NINF_T = mk('con', 'ninf')
ZERO_T = mk('con', Fraction(0))
NZERO_T = mk('con', 'nzero')
ONE_T = mk('con', Fraction(1))

FMTS = {'f': NV.FMT['f'], 'd': NV.FMT['d'], 'l': NV.FMT['l']}
UP = {'sqrt', 'exp', 'exp2', 'exp10', 'log', 'log2', 'log10', 'asin', 'atan', 'sinh', 'tanh', 'asinh', 'acosh', 'atanh', 'cbrt', 'floor', 'ceil', 'trunc', 'rint', 'round'}
TRIG = {'sin', 'cos', 'tan'}
DPI = (Fraction(57952155664616982739, 2 ** 64), Fraction(57952155664616982740, 2 ** 64))      # enclose pi
RINTS = {'floor', 'ceil', 'trunc', 'rint', 'round'}
ODD = {'sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'asinh', 'atanh'}
NOOVF = {'sqrt', 'log', 'log2', 'log10', 'asinh', 'acosh', 'atan', 'asin', 'acos', 'root', 'sin', 'cos', 'tanh', 'atan2', 'pi', 'cbrt'}
UNARY = {'sqrt', 'exp', 'exp2', 'exp10', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh',
         'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'cbrt'}


def con(v):
    if isinstance(v, int):
        v = Fraction(v)
    return mk('con', v)


def is_con(t, v=None):
    return isinstance(t, Term) and t.op == 'con' and (v is None or t.a[0] == v)


def sub_fmt(f1, f2):
    """every f1 number is an f2 number"""
    if f1 == f2:
        return True
    p1, lo1, hi1 = NV.fparams(f1)
    p2, lo2, hi2 = NV.fparams(f2)
    i1 = isinstance(f1, str) or f1[0] == 's'
    i2 = isinstance(f2, str) or f2[0] == 's'
    if not all(isinstance(x, int) for x in (lo1, hi1, lo2, hi2)):
        return False
    if p1 > p2 or hi1 > hi2:
        return False
    if i1:                       # f1 smallest 2^(lo1-1)
        return lo2 <= lo1
    if not i2:
        return lo2 <= lo1
    return lo2 + p1 - 1 <= lo1 if True else False   # raw f1 numbers 2^(lo1-1) with p1 bits need ulp 2^(lo1-p1)


PI_LO, PI_HI = Fraction(314159265358979323846264338327950288, 10 ** 35), Fraction(314159265358979323846264338327950289, 10 ** 35)


def halfpi(e):
    return e.op == 'mul' and len(e.a) == 2 and any(is_con(x, Fraction(1, 2)) and y.op == 'pi' for x, y in (e.a, e.a[::-1]))


def numbound(t):
    """rational enclosure of a closed term"""
    if t.op == 'con':
        v = t.a[0]
        return (v, v) if isinstance(v, Fraction) else None
    if t.op == 'pi':
        return PI_LO, PI_HI
    if halfpi(t):
        return PI_LO / 2, PI_HI / 2
    if t.op == 'neg':
        v = numbound(t.a[0])
        return v and (-v[1], -v[0])
    return None


def pow2(t):
    """k for the constant 2^k"""
    if not is_con(t) or not isinstance(t.a[0], Fraction) or t.a[0] <= 0:
        return None
    n, d = t.a[0].numerator, t.a[0].denominator
    if n & (n - 1) or d & (d - 1):
        return None
    return n.bit_length() - d.bit_length()


class Ctx:
    """term constructors under a cell"""

    def __init__(self, cell):
        self.cell = cell
        self.kc = {}
        self.lememo = {}
        self.assume = {}     # bool term -> truth value (current gated region)

    # ---- leaves -------------------------------------------------------------------------------
    def var(self, name):
        n = self.cell.rep(name)
        return self.leaf(n, name)

    def leaf(self, n, name=None):
        if n[0] == 'c':
            if n[1] == 0:
                return mk('zvar', name) if name else ZERO_T
            return mk('con', n[1])
        t = mk('var', n[1], self.cell.vtype[n[1]])
        return t if n[2] > 0 else mk('neg', t)

    @staticmethod
    def node(t):
        """order node of a leaf term, or None"""
        if t.op == 'var':
            return ('v', t.a[0], 1)
        if t.op == 'neg' and t.a[0].op == 'var':
            return ('v', t.a[0].a[0], -1)
        if t.op == 'zvar':
            return ('c', Fraction(0))
        if t.op == 'con':
            v = t.a[0]
            if v == 'nan':
                return None
            if v == 'nzero':
                return ('c', Fraction(0))
            return ('c', v)
        return None

    # ---- kinds ---------------------------------------------------------------------------------
    def kinds(self, t):
        k = self.kc.get(t)
        if k is None:
            k = self.kc[t] = self._kinds(t)
        return k

    def _leafkind(self, n):
        c = self.cell
        k = 0
        z = c.rel(n, ('c', Fraction(0)))
        if z in (None, '<', '<='):
            k |= KN
            r = c.rel(n, ('c', NINF))
            if r == '=':
                return KNI
            if r != '>':
                k |= KNI
        if z in (None, '>', '>='):
            k |= KP
            r = c.rel(n, ('c', PINF))
            if r == '=':
                return KPI
            if r != '<':
                k |= KPI
        if z in (None, '=', '<=', '>='):
            k |= KZ
        return k

    @staticmethod
    def negk(k):
        return (KNI if k & KPI else 0) | (KN if k & KP else 0) | (k & KZ) | (KP if k & KN else 0) | (KPI if k & KNI else 0) | (k & KNAN)

    def trigkind(self, op, x):
        """sign of sin / cos / tan of a finite non-zero bound: a fact of the cell"""
        if x.op == 'con' and isinstance(x.a[0], Fraction) and x.a[0]:
            v = NV.op_round(op, [x.a[0]], 'l', 'N')[0]
            return KP if v > 0 else KN
        n = self.node(x)
        if n is None or n[0] != 'v' or self._leafkind(n) & ~(KN | KP):
            return None
        if op == 'tan':
            d = self.cell.ints.get('cos:' + n[1])
            for s in (1, -1):
                y = ('v', n[1], s)
                if d is not None and d[1] == d[2] and self.cell.rel(y, ('c', Fraction(0))) == '>' and self.cell.rel(y, ('c', DPI[0])) == '<':
                    return KP if bool(d[1]) == (n[2] == s) else KN
            return None
        key = op + ':' + n[1]
        d = self.cell.ints.get(key)
        if d is None:
            return None
        pos = learn = None
        for s in (1, -1):         # |x| < pi or pi < |x| < 2 pi, pi/2 and 3 pi / 2 for cos
            y = ('v', n[1], s)
            if self.cell.rel(y, ('c', Fraction(0))) == '>':
                lt = lambda c, r=('<',): self.cell.rel(y, ('c', c)) in r
                learn = y if self.cell.rel(y, ('c', DPI[0])) is None else None
                if op == 'sin':
                    pos = True if lt(DPI[0]) else False if lt(DPI[1], ('>',)) and lt(2 * DPI[0]) else None
                    pos = pos if pos is None or s > 0 else not pos
                elif op == 'cos':
                    pos = True if lt(DPI[0] / 2) else False if lt(DPI[1] / 2, ('>',)) and lt(DPI[0] * 3 / 2) else True if lt(DPI[1] * 3 / 2, ('>',)) and lt(DPI[0] * 5 / 2) else None
        if pos is not None:
            if not d[1] <= int(pos) <= d[2]:
                raise Inconsistent()
            r = KP if pos else KN
        elif op == 'sin' and d[1] == d[2] and learn is not None and bool(d[1]) != (learn[2] > 0):
            raise Split('fp', learn, ('c', DPI[0]))        # the sign says that |x| > pi
        elif d[1] != d[2]:
            raise Split('icmp', key, 0)
        else:
            r = KP if d[1] else KN
        return self.negk(r) if n[2] < 0 and op != 'cos' else r

    def trigflush(self, fmt, m, t, k):
        """kinds of sin / cos / tan of a bound rounded to an IEEE format: only sin of the least numbers vanishes"""
        if k & ~(KN | KP):
            return None
        if t.op == 'cos' or t.op == 'tan':
            return k
        n = self.node(t.a[0])
        if n is not None and 'sin:' + str(n[1]) not in self.cell.ints:
            return None
        if n is None or n[0] != 'v':
            return k if n is not None else None
        pr, lo, hi = NV.fparams(fmt)
        if not isinstance(lo, int):
            return k
        least = Fraction(2) ** (lo - 1) if isinstance(fmt, str) or fmt[0] == 's' else Fraction(0)
        if not least:
            return k
        if not NV.in_fmt(least, self.cell.vtype[n[1]]):
            return k
        for s in (1, -1):
            r = self.cell.rel(('v', n[1], s), ('c', least))
            if r == '>' or r == '=':
                z = r == '='
                break
        else:
            if self.cell.rel(n, ('c', Fraction(0))) is None:
                return None
            s = 1 if self.cell.rel(('v', n[1], 1), ('c', Fraction(0))) == '>' else -1
            if self.cell.rel(('v', n[1], s), ('c', least)) == '<':
                raise Inconsistent()
            raise Split('fp', ('v', n[1], s), ('c', least))
        if not z:
            return k
        return KZ if m == 'Z' or m == 'N' and False or m == 'D' and k == KP or m == 'U' and k == KN else k

    def _kinds(self, t):
        op, a = t.op, t.a
        if op == 'con':
            v = a[0]
            if isinstance(v, Fraction):
                return KZ if v == 0 else KP if v > 0 else KN
            return {'pinf': KPI, 'ninf': KNI, 'nan': KNAN, 'nzero': KZ}[v]
        if op == 'zvar':
            return KZ
        n = self.node(t)
        if n is not None:
            return self._leafkind(n)
        if op == 'neg':
            return self.negk(self.kinds(a[0]))
        if op == 'abs':
            k = self.kinds(a[0])
            return (k & (KZ | KP | KPI | KNAN)) | (KP if k & KN else 0) | (KPI if k & KNI else 0)
        if op in ('min', 'max'):
            ks = [self.kinds(x) for x in a]
            r = 0
            import itertools
            bits = [[b for b in ORDER if k & b] for k in ks]
            f = min if op == 'min' else max
            lo = f(min((ORDER.index(b) for b in bb), default=0) for bb in bits)
            hi = f(max((ORDER.index(b) for b in bb), default=4) for bb in bits)
            un = 0
            for k in ks:
                un |= k
            for i in range(lo, hi + 1):
                if un & ORDER[i]:
                    r |= ORDER[i]
            if any(k & KNAN for k in ks):
                r = un
            return r or un
        if op == 'ite':
            return self.kinds(a[1]) | self.kinds(a[2])
        if op == 'rnd':
            k = self.kinds(a[2])
            m = a[1]
            if a[2].op in TRIG and not k & KNAN:
                q = self.trigflush(a[0], m, a[2], k)
                if q is not None:
                    return q
            elif a[2].op == 'neg' and a[2].a[0].op in TRIG and not k & KNAN:
                q = self.trigflush(a[0], {'U': 'D', 'D': 'U'}.get(m, m), a[2].a[0], self.negk(k))
                if q is not None:
                    return self.negk(q)
            safe = a[2].op in NOOVF
            if safe and isinstance(a[0], (str, tuple)) and a[2].op in ('root', 'sqrt', 'log', 'log2', 'log10', 'asinh', 'acosh', 'atan', 'asin', 'tanh', 'pi'):
                if a[2].op in ('asinh', 'atan', 'asin', 'tanh'):
                    # |f(x)| ~ |x|: rounding towards zero can underflow to 0
                    return k | (KZ if (k & (KN | KP)) else 0)
                return k
            r = k
            nf = self.noflush(a[0], a[2])
            if k & KN:
                if not safe and m in ('D', 'N', 'A', 'dyn'):
                    r |= KNI
                if m in ('U', 'N', 'Z', 'dyn') and not nf:
                    r |= KZ
            if k & KP:
                if not safe and m in ('U', 'N', 'A', 'dyn'):
                    r |= KPI
                if m in ('D', 'N', 'Z', 'dyn') and not nf:
                    r |= KZ
            return r
        if op in ('add', 'mul', 'div'):
            r = 0
            ka, kb = self.kinds(a[0]), self.kinds(a[1])
            for x in (KNI, KN, KZ, KP, KPI, KNAN):
                if ka & x:
                    for y in (KNI, KN, KZ, KP, KPI, KNAN):
                        if kb & y:
                            r |= K2[op][(x, y)]
            if op == 'mul' and a[0] is a[1]:
                r &= (KZ | KP | KPI | KNAN)
                if not ka & KNAN:
                    r &= ~KNAN
                if not ka & KZ:
                    r &= ~KZ
            if op == 'add' and r & (KN | KP) and not r & KNAN:
                u = self.neg(a[0])
                g, l = self.le_known(u, a[1]), self.le_known(a[1], u)
                if g is True:
                    r &= ~(KN | KNI)
                elif g is False:
                    r &= ~(KP | KPI | KZ)
                if l is True:
                    r &= ~(KP | KPI)
                elif l is False:
                    r &= ~(KN | KNI | KZ)
            return r
        if op == 'fma':
            ka, kb, kc = (self.kinds(x) for x in a)
            m = 0
            for x in ORDER + [KNAN]:
                for y in ORDER + [KNAN]:
                    if ka & x and kb & y:
                        m |= K2['mul'][(x, y)]
            r = 0
            for x in ORDER + [KNAN]:
                for y in ORDER + [KNAN]:
                    if m & x and kc & y:
                        r |= K2['add'][(x, y)]
            return r
        if op in TRIG:
            k = self.trigkind(op, a[0])
            if k is not None:
                return k
        if op in K1:
            k = self.kinds(a[0])
            r = 0
            for x in ORDER + [KNAN]:
                if k & x:
                    r |= KNAN if x == KNAN else K1[op][x]
            n = self.node(a[0])
            if n is not None and op in ('asin', 'acos', 'atanh', 'acosh', 'log', 'log2', 'log10'):
                one, mone = ('c', Fraction(1)), ('c', Fraction(-1))
                c = self.cell
                r1, rm = c.rel(n, one), c.rel(n, mone)
                lt1, gt1 = r1 in ('<', '=', '<='), r1 in ('>', '=', '>=')
                gem1 = rm in ('>', '=', '>=')
                if op in ('asin', 'acos') and lt1 and gem1:
                    r &= ~KNAN
                if op == 'acos' and r1 == '<':
                    r &= ~KZ
                if op == 'atanh' and lt1 and gem1:
                    r &= ~KNAN
                    if r1 == '<':
                        r &= ~KPI
                    if rm == '>':
                        r &= ~KNI
                if op == 'acosh' and gt1:
                    r &= ~KNAN
                    if r1 == '>':
                        r &= ~KZ
                if op.startswith('log'):
                    if r1 == '<':
                        r &= ~(KZ | KP)
                    elif r1 == '>':
                        r &= ~(KZ | KN)
                    elif gt1:
                        r &= ~KN
                    elif lt1:
                        r &= ~KP
            return r
        if op == 'root':
            k = self.kinds(a[0])
            par = a[1].parity if hasattr(a[1], 'parity') else None
            return k
        if op in ('floor', 'ceil', 'trunc', 'rint', 'round'):
            k = self.kinds(a[0])
            return k | (KZ if k & (KN | KP) else 0)
        if op == 'pi':
            return KP
        if op == 'pow':
            ka = self.kinds(a[0])
            kb = self.kinds(a[1])
            if ka == KP and not kb & (KNAN | KPI | KNI):
                return KP
            if not ka & (KNAN | KN | KNI) and not kb & KNAN:
                n = self.node(a[0])
                if n is not None:
                    q = self.cell.rel(n, ('c', Fraction(1)))
                    up = True if q in ('>', '=', '>=') else False if q in ('<', '<=') else None
                    neg, pos = not kb & (KP | KPI), not kb & (KN | KNI)
                    if up is not None and (neg or pos):
                        return KZ | KP if up == neg else KP | KPI
                return KZ | KP | KPI
            return KALL
        if op == 'atan2':
            ky, kx = self.kinds(a[0]), self.kinds(a[1])
            if (ky | kx) & KNAN:
                return KALL
            r = 0
            if ky & (KP | KPI):
                r |= KP | (KZ if kx & KPI else 0)
            if ky & (KN | KNI):
                r |= KN | (KZ if kx & KPI else 0)
            if ky & KZ:
                r |= KZ if not kx & (KN | KNI | KZ) else KZ | KP | KN
            return r
        if op == 'powi':
            k = self.kinds(a[0])
            lo, hi, par = self.int_range(a[1])
            if lo is None or not (lo > 0 or hi < 0):
                return KALL
            r = k & KNAN
            if k & KP:
                r |= KP
            if k & KN:
                r |= KP if par == 0 else KN if par == 1 else KP | KN
            inf = (KPI if k & KPI else 0) | ((KPI if par == 0 else KNI if par == 1 else KPI | KNI) if k & KNI else 0)
            if lo > 0:
                r |= inf | (k & KZ)
            else:
                r |= KZ if inf else 0
                r |= ((KPI | KNI) if par != 0 else KPI) if k & KZ else 0
            return r
        if op == 'conv':      # int -> fp
            return KN | KZ | KP
        return KALL

    # ---- constructors --------------------------------------------------------------------------
    def zeronan(self, t):
        """t is zero or NaN"""
        if t.op == 'mul':
            return any(self.zeronan(x) for x in t.a)
        if t.op in ('add', 'neg', 'abs'):
            return all(self.zeronan(x) for x in t.a)
        return t.op == 'zvar' or t is NAN_T

    def infmt(self, t, fmt):
        op = t.op
        if op in ('mul', 'add') and self.zeronan(t):
            return True
        if op == 'con':
            return NV.in_fmt(t.a[0], fmt)
        if op == 'zvar':
            return True
        if op == 'var':
            return sub_fmt(t.a[1], fmt)
        if op == 'rnd':
            return sub_fmt(t.a[0], fmt)
        if op in ('neg', 'abs', 'floor', 'ceil', 'trunc', 'rint', 'round'):
            return self.infmt(t.a[0], fmt)
        if op in ('min', 'max'):
            return all(self.infmt(x, fmt) for x in t.a)
        if op == 'ite':
            return self.infmt(t.a[1], fmt) and self.infmt(t.a[2], fmt)
        if op == 'add':          # fractional part: exact
            for x, y in (t.a, t.a[::-1]):
                if y.op == 'neg' and y.a[0].op in ('floor', 'trunc') and y.a[0].a[0] is x and (y.a[0].op == 'trunc' or self.nonneg(x)):
                    return self.infmt(x, fmt)
                if x.op in ('ceil',) and y.op == 'neg' and y.a[0] is x.a[0] and self.nonpos(y.a[0]):
                    return self.infmt(x.a[0], fmt)
            return False
        if op == 'opq':
            return t.a[1] in ('f', 'd', 'l') and sub_fmt(t.a[1], fmt)
        if op == 'mul' and len(t.a) == 2:      # twice the digits and twice the exponent range hold the exact product
            p, lo, hi = NV.fparams(fmt)
            px, py = self.prec(t.a[0]), self.prec(t.a[1])
            if px and py and px + py <= p and isinstance(lo, int) and isinstance(hi, int) and not (isinstance(fmt, str) or fmt[0] == 's'):
                lx, ly = self.emin(t.a[0]), self.emin(t.a[1])
                if lx is not None and ly is not None and lo - 1 <= lx + ly - 2 and self.emax(t.a[0]) + self.emax(t.a[1]) <= hi:
                    return True
        if op == 'mul':          # scaling by a power of two
            for x, y in (t.a, t.a[::-1]):
                k = pow2(x)
                if k is not None and k < 0 and self.prec(y) is not None:
                    p, lo, hi = NV.fparams(fmt)
                    if isinstance(lo, int) and self.prec(y) <= p and self.noflush(fmt, t) and self.emax(y) <= hi:
                        q = self.quantum(t)
                        # ieee: every multiple of 2^(lo-1) with at most p bits; raw: exponent range only
                        return q >= lo - 1
        return False

    def prec(self, t):
        """significand bits that suffice for t"""
        if t.op == 'var':
            return NV.fparams(t.a[1])[0]
        if t.op == 'rnd':
            return NV.fparams(t.a[0])[0]
        if t.op in ('neg', 'abs'):
            return self.prec(t.a[0])
        return None

    def emin(self, t):
        """e with |t| >= 2^(e-1) unless t = 0"""
        if t.op in ('var', 'rnd'):
            lo = NV.fparams(t.a[0 if t.op == 'rnd' else 1])[1]
            return lo if isinstance(lo, int) else None
        if t.op in ('neg', 'abs'):
            return self.emin(t.a[0])
        return None

    def emax(self, t):
        if t.op == 'var':
            return NV.fparams(t.a[1])[2]
        if t.op == 'rnd':
            h = NV.fparams(t.a[0])[2]
            return h if isinstance(h, int) else 10 ** 9
        if t.op in ('neg', 'abs'):
            return self.emax(t.a[0])
        return 10 ** 9

    def onern(self, fmt, e):
        """RN_fmt(RN_g(x)) = RN_fmt(x)?  (e is the inner rounding)"""
        g, m, x = e.a
        pf, lf, hf = NV.fparams(fmt)
        pg, lg, hg = NV.fparams(g)
        if m != 'N' or not all(isinstance(z, int) for z in (lf, hf, lg, hg)) or not (isinstance(fmt, str) or fmt[0] == 's'):
            return False
        raw = not (isinstance(g, str) or g[0] == 's')
        if not raw or pg < pf or hg < hf or lg > lf:
            return False
        # x already has no more bits than g: only the exponent range of g can matter, and it is wider than fmt's
        px = self.prec(x)
        if px is not None and px <= pg:
            return True
        # same precision and threshold; everything below the normal range of fmt is exact in g
        if pg == pf and hg == hf:
            q = self.quantum(x)
            if q is not None and q >= lg - 2 and (lf - 1 + pf - 1) - q <= pg:
                return True
        return False

    def rnd(self, fmt, mode, e):
        if self.infmt(e, fmt):
            return e
        if e.op == 'ite':
            return self.ite(e.a[0], self.rnd(fmt, mode, e.a[1]), self.rnd(fmt, mode, e.a[2]))
        if e.op in ('min', 'max'):     # rounding is monotone
            return self.minmax(e.op, [self.rnd(fmt, mode, x) for x in e.a])
        if e.op == 'rnd' and e.a[1] == mode and mode in ('D', 'U', 'Z', 'A') and sub_fmt(fmt, e.a[0]):
            return self.rnd(fmt, mode, e.a[2])
        if mode == 'N' and e.op == 'rnd' and self.onern(fmt, e):
            return self.rnd(fmt, mode, e.a[2])
        if e.op == 'neg':
            fl = {'D': 'U', 'U': 'D'}.get(mode, mode)
            return self.neg(self.rnd(fmt, fl, e.a[0]))
        if mode in NV.RND:
            try:
                v = self.fold_round(fmt, mode, e)
                if v is not None:
                    return mk('con', v)
            except NV.Cannot:
                pass
        return mk('rnd', fmt, mode, e)

    def fold_round(self, fmt, mode, e):
        if e.op == 'con':
            v = e.a[0]
            if isinstance(v, Fraction) and v.denominator & (v.denominator - 1):
                return NV.op_round('div', [Fraction(v.numerator), Fraction(v.denominator)], fmt, mode)[0]
            return NV.round_to(v, fmt, mode)[0]
        if e.op == 'pi':
            return NV.op_round('pi', [], fmt, mode)[0]
        if halfpi(e):
            return NV.op_round('pi', [], fmt, mode)[0] / 2
        if e.op in UNARY and e.a[0].op in ('con', 'zvar'):
            return NV.op_round(e.op, [cval(e.a[0])], fmt, mode)[0]
        if e.op == 'powi' and e.a[0].op in ('con',) and isinstance(e.a[1], int) and abs(e.a[1]) < 2 ** 31:
            return NV.op_round('powi', [cval(e.a[0])], fmt, mode, (e.a[1],))[0]
        if e.op == 'root' and e.a[0].op == 'con' and isinstance(e.a[1], int) and e.a[1] > 0:
            return NV.op_round('root', [cval(e.a[0])], fmt, mode, (e.a[1],))[0]
        if e.op in ('pow', 'atan2') and e.a[0].op == 'con' and e.a[1].op == 'con':
            return NV.op_round(e.op, [cval(e.a[0]), cval(e.a[1])], fmt, mode)[0]
        return None

    def neg(self, t):
        op, a = t.op, t.a
        if op == 'con':
            return mk('con', NV.neg(a[0]))
        if op == 'zvar':
            return t
        if op == 'neg':
            return a[0]
        if op == 'rnd':
            m = a[1]
            return mk('rnd', a[0], {'D': 'U', 'U': 'D'}.get(m, m), self.neg(a[2])) if m != 'dyn' else mk('neg', t)
        if op in ('min', 'max'):
            return self.minmax('max' if op == 'min' else 'min', [self.neg(x) for x in a])
        if op == 'ite':
            return self.ite(a[0], self.neg(a[1]), self.neg(a[2]))
        if op == 'add':
            return self.add(self.neg(a[0]), self.neg(a[1]))
        if op == 'fma':
            return self.fma(self.neg(a[0]), a[1], self.neg(a[2]))
        return mk('neg', t)

    def isneg(self, x, y):
        """x is self.neg(y), without building the negation of long sums"""
        if y.op == 'add':
            return x.op == 'add' and (self.isneg(x.a[1], y.a[1]) and self.isneg(x.a[0], y.a[0]) or self.isneg(x.a[1], y.a[0]) and self.isneg(x.a[0], y.a[1]))
        return x is self.neg(y)

    def nz(self, t):
        """numerically equal form: drop the selections that only fix the sign of a zero"""
        while t.op == 'ite' and t.a[0].op == 'eq' and isinstance(t.a[1], Term) and t.a[1].op in ('con', 'zvar') and \
                (t.a[1].op == 'zvar' or t.a[1].a[0] in (0, 'nzero')) and any(u is ZERO_T for u in t.a[0].a):
            u = t.a[0].a[1] if t.a[0].a[0] is ZERO_T else t.a[0].a[0]
            r = t.a[2]
            if r.op == 'rnd' and u is not r and u is not self.neg(r) and self.noflush(r.a[0], r.a[2]):
                r = r.a[2]
            if u is not r and u is not self.neg(r):
                break
            t = t.a[2]
        return t

    def quantum(self, t):
        """q such that every finite value of t is a multiple of 2^q (None: unknown)"""
        op, a = t.op, t.a
        if op == 'con':
            v = a[0]
            if not isinstance(v, Fraction):
                return 10 ** 6
            if v == 0:
                return 10 ** 6
            d = v.denominator
            if d & (d - 1):
                return None
            if d > 1:
                return 1 - d.bit_length()
            return (v.numerator & -v.numerator).bit_length() - 1
        if op == 'zvar':
            return 10 ** 6
        if op == 'var' or op == 'rnd':
            f = a[1] if op == 'var' else a[0]
            pr, lo, hi = NV.fparams(f)
            if not isinstance(lo, int):
                return None
            if op == 'rnd' and a[1] == 'dyn' and False:
                return None
            q = lo - 1 if isinstance(f, str) or f[0] == 's' else lo - pr
            if op == 'rnd':
                e = self.quantum(a[2])
                if e is not None and e > q:
                    q = e           # rounding a multiple of 2^e keeps it one (2^e representable)
            return q
        if op in ('neg', 'abs'):
            return self.quantum(a[0])
        if op in ('floor', 'ceil', 'trunc', 'rint', 'round'):
            return 0
        if op in ('add', 'mul', 'fma', 'min', 'max', 'ite'):
            xs = a[1:] if op == 'ite' else a
            qs = [self.quantum(x) for x in xs]
            if None in qs:
                return None
            if op == 'mul':
                return qs[0] + qs[1]
            if op == 'fma':
                return min(qs[0] + qs[1], qs[2])
            return min(qs)
        return None

    def noflush(self, fmt, t):
        """rounding t to fmt cannot turn a non-zero value into zero"""
        pr, lo, hi = NV.fparams(fmt)
        q = self.quantum(t) if isinstance(lo, int) else None
        return q is not None and q >= lo - 1

    def add(self, x, y):
        x, y = self.nz(x), self.nz(y)
        if is_con(x) and is_con(y):
            return mk('con', NV.exact2('add', cval(x), cval(y)))
        kx, ky = self.kinds(x), self.kinds(y)
        if kx == KZ and ky == KZ:
            return x if x is y else ZERO_T
        if kx == KZ:
            return y
        if ky == KZ:
            return x
        for p, q, kp in ((x, y, ky), (y, x, kx)):
            if is_con(p, 'pinf') and not kp & (KNAN | KNI):
                return PINF_T
            if is_con(p, 'ninf') and not kp & (KNAN | KPI):
                return NINF_T
        if is_con(x, 'nan') or is_con(y, 'nan'):
            return NAN_T
        if not kx & (KNAN | KPI | KNI) and self.isneg(x, y):
            return ZERO_T
        if y.id < x.id:
            x, y = y, x
        return mk('add', x, y)

    def sub(self, x, y):
        return self.add(x, self.neg(y))

    def _strip(self, t):
        """(sign, magnitude-normal form) for products"""
        if t.op == 'neg':
            return -1, t.a[0]
        if t.op == 'rnd' and t.a[2].op == 'neg':
            return -1, self.neg(t)
        if is_con(t):
            v = t.a[0]
            if v == 'ninf' or (isinstance(v, Fraction) and v < 0):
                return -1, self.neg(t)
        return 1, t

    def mul(self, x, y):
        if is_con(x) and is_con(y):
            return mk('con', NV.exact2('mul', cval(x), cval(y)))
        kx, ky = self.kinds(x), self.kinds(y)
        if (kx == KZ and not ky & (KNI | KPI | KNAN)) or (ky == KZ and not kx & (KNI | KPI | KNAN)):
            return ZERO_T
        if (kx == KZ and ky in (KNI, KPI, KNI | KPI)) or (ky == KZ and kx in (KNI, KPI, KNI | KPI)):
            return NAN_T
        if is_con(x, 'nan') or is_con(y, 'nan'):
            return NAN_T
        sx, x = self._strip(x)
        sy, y = self._strip(y)
        s = sx * sy
        for p, q in ((x, y), (y, x)):
            if is_con(p, Fraction(1)):
                return q if s > 0 else self.neg(q)
            if is_con(p, 'pinf'):
                k = self.kinds(q)
                if not k & ~(KP | KPI):
                    return PINF_T if s > 0 else NINF_T
                if not k & ~(KN | KNI):
                    return NINF_T if s > 0 else PINF_T
        if y.id < x.id:
            x, y = y, x
        r = mk('mul', x, y)
        return r if s > 0 else mk('neg', r)

    def div(self, x, y):
        if is_con(x) and is_con(y):
            return mk('con', NV.exact2('div', cval(x), cval(y)))
        kx, ky = self.kinds(x), self.kinds(y)
        if kx == KZ and not ky & (KZ | KNAN):
            return ZERO_T
        if kx == KZ and ky == KZ:
            return NAN_T
        if is_con(x, 'nan') or is_con(y, 'nan'):
            return NAN_T
        if not ky & ~(KNI | KPI) and not kx & (KNI | KPI | KNAN):
            return ZERO_T
        if not ky & ~(KNI | KPI) and not kx & ~(KNI | KPI):
            return NAN_T
        sx, x = self._strip(x)
        sy, y = self._strip(y)
        s = sx * sy
        if is_con(y, Fraction(1)):
            return x if s > 0 else self.neg(x)
        if pow2(y) is not None:
            r = self.mul(x, con(1 / y.a[0]))
            return r if s > 0 else self.neg(r)
        if is_con(x, 'pinf'):
            if not self.kinds(y) & ~KP:
                return PINF_T if s > 0 else NINF_T
            if not self.kinds(y) & ~KN:
                return NINF_T if s > 0 else PINF_T
        if y.op == 'con' and isinstance(y.a[0], Fraction) and y.a[0] == 0 and not kx & ~(KP | KPI | KN | KNI):
            # x / +0
            k = self.kinds(x)
            if not k & ~(KP | KPI):
                return PINF_T if s > 0 else NINF_T
            if not k & ~(KN | KNI):
                return NINF_T if s > 0 else PINF_T
        if x is y and not self.kinds(x) & (KZ | KNAN | KPI | KNI):
            return ONE_T if s > 0 else con(-1)
        r = mk('div', x, y)
        return r if s > 0 else mk('neg', r)

    def fma(self, x, y, z):
        kx, ky = self.kinds(x), self.kinds(y)
        fin = ~(KZ | KN | KP)
        if (kx == KZ and not ky & fin) or (ky == KZ and not kx & fin):
            return z
        kz = self.kinds(z)
        p = self.mul(x, y)
        if kz == KZ:
            return p
        if p.op == 'con' or is_con(z, 'pinf') or is_con(z, 'ninf'):
            return self.add(p, z)
        if is_con(z, 'nan'):
            return NAN_T
        s, q = self._strip(p)
        if q.op == 'mul':
            a, b = q.a
            # sign on the first factor
            a2 = a if s > 0 else mk('neg', a) if a.op != 'neg' else a.a[0]
            return mk('fma', a2, b, z)
        return self.add(p, z)

    def abs(self, t):
        k = self.kinds(t)
        if t is NAN_T:
            return t
        if t.op == 'zvar' or t.op == 'con' and k == KZ:
            return ZERO_T
        if not k & (KN | KNI | KNAN):
            return t
        if not k & (KP | KPI | KNAN):
            return self.neg(t)
        if t.op == 'neg':
            t = t.a[0]
        return mk('abs', t)

    def un(self, op, x):
        if x.op == 'con':
            v = x.a[0]
            if v == 'nan':
                return NAN_T
            if op in ('exp', 'exp2', 'exp10'):
                if v == 'pinf':
                    return PINF_T
                if v == 'ninf':
                    return ZERO_T
            if op in ('log', 'log2', 'log10', 'sqrt', 'asinh', 'acosh', 'sinh', 'cosh', 'cbrt') and v == 'pinf':
                return PINF_T
            if op in ('asinh', 'sinh', 'cbrt') and v == 'ninf':
                return NINF_T
            if op == 'cosh' and v == 'ninf':
                return PINF_T
            if op == 'tanh' and v in ('pinf', 'ninf'):
                return con(1 if v == 'pinf' else -1)
            if op in ('log', 'log2', 'log10') and v == 1:
                return ZERO_T
            if op == 'acosh' and v == 1 or op == 'acos' and v == 1:
                return ZERO_T
            if op == 'atanh' and v in (1, -1):
                return PINF_T if v == 1 else NINF_T
            if op == 'sqrt' and isinstance(v, Fraction) and v == 1:
                return ONE_T
        if self.kinds(x) == KZ:
            if op in ('exp', 'exp2', 'exp10', 'cos', 'cosh'):
                return ONE_T
            if op in ('log', 'log2', 'log10'):
                return NINF_T
            if op in ('sqrt', 'sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'asinh', 'atanh', 'cbrt'):
                return x
        if op == 'sqr':
            return self.mul(x, x)
        if op in ODD:
            s, y = self._strip(x)
            if s < 0:
                return self.neg(self.un(op, y))
        if op in ('cos', 'cosh'):
            s, x = self._strip(x)
        if op in ('cbrt',):
            return mk('root', x, 3)
        if op == 'sqrt':
            return mk('sqrt', x)
        return mk(op, x)

    def le_known(self, a, b):
        """a <= b known? True / False / None  (False: b < a known)"""
        if a is b:
            return True
        na, nb = self.node(a), self.node(b)
        if na is not None and nb is not None:
            r = self.cell.rel(na, nb)
            if r in ('<', '=', '<='):
                return True
            if r == '>':
                return False
            return True if r == '=' else None
        if self.cell.intvars:
            ra, rb = self.intbound(a), self.intbound(b)
            if ra and rb:
                if ra[1] <= rb[0]:
                    return True
                if rb[1] < ra[0]:
                    return False
            # rounding apart: RD(x) <= x <= RU(x), and both are monotone
            if ra is not None and rb is not None:
                x, y = a, b
                if a.op == 'rnd' and (a.a[1] == 'D' or b.op == 'rnd' and b.a[:2] == a.a[:2]):
                    x = a.a[2]
                if b.op == 'rnd' and (b.a[1] == 'U' or a.op == 'rnd' and b.a[:2] == a.a[:2]):
                    y = b.a[2]
                d = self.lindiff(y, x)
                if d is not None and d[0] >= 0:
                    return True
                if a.op != 'rnd' or a.a[1] == 'U':
                    if b.op != 'rnd' or b.a[1] == 'D':
                        x, y = a.a[2] if a.op == 'rnd' else a, b.a[2] if b.op == 'rnd' else b
                        d = self.lindiff(x, y)
                        if d is not None and d[0] > 0:
                            return False
        ka, kb = self.kinds(a), self.kinds(b)
        if (ka | kb) & KNAN:
            return None
        hi = lambda k: max((i for i in range(5) if k & ORDER[i]), default=None)
        lo = lambda k: min((i for i in range(5) if k & ORDER[i]), default=None)
        ha, la, hb, lb = hi(ka), lo(ka), hi(kb), lo(kb)
        if None in (ha, lb):
            return None
        for x, y, sg in ((a, b, 1), (b, a, -1)):       # |sin x|, |cos x| < 1 for rational x other than zero
            if y.op in ('sin', 'cos') and x.op == 'con' and isinstance(x.a[0], Fraction) and x.a[0] * sg >= 1 and self.node(y.a[0]) is not None and not self.kinds(y.a[0]) & ~(KN | KP):
                return False
        for x, y, m in ((a, b, 'D'), (b, a, 'U')):      # RD(t) <= c iff t < next(c), c <= RU(t) iff previous(c) < t
            if y.op == 'con' and x.op == 'rnd' and x.a[1] == m and isinstance(x.a[0], str) and isinstance(y.a[0], Fraction) and y.a[0] and NV.in_fmt(y.a[0], x.a[0]):
                n = NV.next_val(y.a[0], x.a[0], m == 'D')
                if isinstance(n, Fraction) and n and (self.le_known(con(n), x.a[2]) if m == 'D' else self.le_known(x.a[2], con(n))) is False:
                    return True
        if ha < lb or (ha == lb and ha in (0, 2, 4)):
            return True
        if hb < la:
            return False
        # rounding: RD(e) <= RU(e)
        if a.op == 'rnd' and b.op == 'rnd' and a.a[2] is b.a[2] and a.a[1] == 'D' and b.a[1] in 'UN' and a.a[0] == b.a[0]:
            return True
        if self.le_struct(a, b):
            return True
        # a is a member of a min / max
        if b.op == 'max' and any(self.le_known(a, x) is True for x in b.a):
            return True
        if a.op == 'min' and any(self.le_known(x, b) is True for x in a.a):
            return True
        return None

    def intbound(self, t):
        """numbers that enclose a term in the written numbers (integer leaves), or None"""
        op, a = t.op, t.a
        if op == 'con':
            return (a[0], a[0]) if isinstance(a[0], Fraction) else None
        if op == 'var':
            return self.cell.intvars and self.cell.intrange(a[0])
        if op == 'neg':
            r = self.intbound(a[0])
            return r and (-r[1], -r[0])
        if op in ('add', 'mul', 'div'):
            p, q = self.intbound(a[0]), self.intbound(a[1])
            if not p or not q:
                return None
            if op == 'add':
                return p[0] + q[0], p[1] + q[1]
            if op == 'div':
                if q[0] != q[1] or not q[0]:
                    return None
                q = (1 / q[0], 1 / q[0])
            v = [x * y for x in p for y in q]
            return min(v), max(v)
        if op == 'rnd' and a[1] in ('D', 'U', 'N', 'Z'):
            r = self.intbound(a[2])
            if not r:
                return None
            v = [self.rnd(a[0], a[1], con(x)) for x in r]
            return tuple(x.a[0] for x in v) if all(x.op == 'con' and isinstance(x.a[0], Fraction) for x in v) else None
        return None

    def linform(self, t):
        """(constant, {leaf: coefficient}) of a linear term in the written numbers, or None"""
        op, a = t.op, t.a
        if op == 'con':
            return (a[0], {}) if isinstance(a[0], Fraction) else None
        if op == 'var':
            return (Fraction(0), {a[0]: Fraction(1)}) if a[0] in self.cell.intvars else None
        if op == 'neg':
            r = self.linform(a[0])
            return r and (-r[0], {k: -v for k, v in r[1].items()})
        if op in ('add', 'mul', 'div'):
            p, q = self.linform(a[0]), self.linform(a[1])
            if p is None or q is None:
                return None
            if op == 'add':
                d = dict(p[1])
                for k, v in q[1].items():
                    d[k] = d.get(k, 0) + v
                return p[0] + q[0], d
            if op == 'mul' and q[1]:
                p, q = q, p
            if q[1] or op == 'div' and not q[0]:
                return None
            f = q[0] if op == 'mul' else 1 / q[0]
            return p[0] * f, {k: v * f for k, v in p[1].items()}
        return None

    def lindiff(self, a, b):
        """least and greatest value of a - b, both linear in the written numbers"""
        p, q = self.linform(a), self.linform(b)
        if p is None or q is None:
            return None
        lo = hi = p[0] - q[0]
        for k in set(p[1]) | set(q[1]):
            c = p[1].get(k, 0) - q[1].get(k, 0)
            if c:
                r = self.cell.intrange(k)
                if r is None:
                    return None
                lo += min(c * r[0], c * r[1])
                hi += max(c * r[0], c * r[1])
        return lo, hi

    def int_range(self, n):
        if isinstance(n, int):
            return n, n, n & 1
        if isinstance(n, Term) and n.op == 'lin':
            nm, co, k = n.a
            d = self.cell.ints.get(nm)
            if d and d[0] == 'rng':
                v = sorted((co * d[1] + k, co * d[2] + k))
                return v[0], v[1], (None if d[3] is None else (d[3] * abs(co) + k) & 1)
        return None, None, None

    def nonneg(self, t):
        return not self.kinds(t) & ~(KZ | KP | KPI)

    def nonpos(self, t):
        return not self.kinds(t) & ~(KZ | KN | KNI)

    def mag_(self, t):
        """|t| when its sign is known"""
        return t if self.nonneg(t) else self.neg(t) if self.nonpos(t) else None

    def le_struct(self, a, b, d=0):
        """a <= b provable from monotonicity (only True is meaningful)"""
        if a is b:
            return True
        if d > 6:
            return False
        key = ('le', a, b)
        r = self.lememo.get(key)
        if r is None:
            self.lememo[key] = False
            r = self.lememo[key] = self._le_struct(a, b, d + 1)
        return r

    def _le_struct(self, a, b, d):
        na, nb = self.node(a), self.node(b)
        if na is not None and nb is not None:
            return self.cell.rel(na, nb) in ('<', '=', '<=')
        ka, kb = self.kinds(a), self.kinds(b)
        if (ka | kb) & KNAN:
            return False
        hi = max((i for i in range(5) if ka & ORDER[i]), default=None)
        lo = min((i for i in range(5) if kb & ORDER[i]), default=None)
        if hi is None or lo is None:
            return False
        if hi < lo or (hi == lo and hi in (0, 2, 4)):
            return True
        le = lambda x, y: self.le_struct(x, y, d)
        if b.op == 'cosh' and a.op == 'con' and le(a, ONE_T):
            return True
        if a.op in ('tanh', 'sin', 'cos') and b.op == 'con' and le(ONE_T, b) or b.op in ('tanh', 'sin', 'cos') and a.op == 'con' and le(b, con(-1)):
            return True
        if a.op == 'floor' and le(a.a[0], b) or b.op == 'ceil' and le(a, b.a[0]):
            return True
        if b.op in ('exp', 'exp2', 'exp10') and a.op == 'con' and le(a, ONE_T) and self.nonneg(b.a[0]):
            return True
        if a.op in ('exp', 'exp2', 'exp10') and b.op == 'con' and le(ONE_T, b) and self.nonpos(a.a[0]):
            return True
        if a.op == 'mul' and b.op == 'fma' and self.nonneg(b.a[2]) and self.le_prod('mul', a.a, b.a[:2], le):
            return True
        if a.op == 'fma' and b.op == 'mul' and self.nonpos(a.a[2]) and self.le_prod('mul', a.a[:2], b.a, le):
            return True
        if a.op == 'neg' and b.op == 'neg':
            return le(b.a[0], a.a[0])
        if a.op == 'rnd' and b.op == 'rnd':
            ma, mb = a.a[1], b.a[1]
            ok = ma == 'D' and mb == 'U' or a.a[0] == b.a[0] and (ma == mb or (ma, mb) in (('D', 'N'), ('N', 'U'), ('D', 'Z'), ('Z', 'U')))
            if ok and le(a.a[2], b.a[2]):
                return True
        if a.op == 'rnd' and a.a[1] == 'D' and le(a.a[2], b):
            return True
        if b.op == 'rnd' and b.a[1] == 'U' and le(a, b.a[2]):
            return True
        if a.op == 'rnd' and b.op != 'rnd' and isinstance(a.a[0], str) and self.infmt(b, a.a[0]) and le(a.a[2], b):
            return True
        if b.op == 'rnd' and a.op != 'rnd' and isinstance(b.a[0], str) and self.infmt(a, b.a[0]) and le(a, b.a[2]):
            return True
        if a.op == 'min' and any(le(x, b) for x in a.a) or b.op == 'max' and any(le(a, x) for x in b.a):
            return True
        if a.op == 'max' and all(le(x, b) for x in a.a) or b.op == 'min' and all(le(a, x) for x in b.a):
            return True
        if a.op == b.op:
            op = a.op
            if op in UP:
                return le(a.a[0], b.a[0])
            if op == 'acos':
                return le(b.a[0], a.a[0])
            if op == 'cosh':
                x, y = self.mag_(a.a[0]), self.mag_(b.a[0])
                return x is not None and y is not None and le(x, y)
            if op == 'add':
                (x, y), (z, w) = a.a, b.a
                return le(x, z) and le(y, w) or le(x, w) and le(y, z)
            if op in ('mul', 'div'):
                return self.le_prod(op, a.a, b.a, le)
            if op == 'fma':
                return le(a.a[2], b.a[2]) and self.le_prod('mul', a.a[:2], b.a[:2], le)
            if op == 'powi' and a.a[1] is b.a[1] or op == 'powi' and a.a[1] == b.a[1]:
                lo, hi, par = self.int_range(a.a[1])
                if lo is None:
                    return False
                x, y = a.a[0], b.a[0]
                if lo > 0 and par == 1:
                    return le(x, y)
                if lo > 0 and par == 0:
                    x, y = self.mag_(x), self.mag_(y)
                    return x is not None and y is not None and le(x, y)
                if hi < 0:
                    if par == 1:
                        kk = self.kinds(x) | self.kinds(y)
                        return (not kk & ~(KP | KPI) or not kk & ~(KN | KNI)) and le(y, x)
                    if par == 0:
                        x, y = self.mag_(x), self.mag_(y)
                        return x is not None and y is not None and le(y, x)
            if op == 'pow':
                (x, y), (z, w) = a.a, b.a
                if self.nonneg(x) and self.nonneg(z):
                    # x^y <= z^y <= z^w
                    s1 = x is z or (le(x, z) if self.nonneg(y) else le(z, x) if self.nonpos(y) else False)
                    s2 = y is w or (le(y, w) if le(ONE_T, z) else le(w, y) if le(z, ONE_T) else False)
                    if s1 and s2:
                        return True
                    s1 = y is w or (le(y, w) if le(ONE_T, x) else le(w, y) if le(x, ONE_T) else False)
                    s2 = x is z or (le(x, z) if self.nonneg(w) else le(z, x) if self.nonpos(w) else False)
                    return s1 and s2
            if op == 'root' and a.a[1] == b.a[1]:
                return le(a.a[0], b.a[0])
            if op == 'atan2':
                (y1, x1), (y2, x2) = a.a, b.a

                def sy(x, p, q):
                    return p is q or self.nonneg(x) and le(p, q) or self.nonpos(x) and (self.nonneg(p) and self.nonneg(q) or self.nonpos(p) and self.nonpos(q)) and le(q, p)

                def sx(y, p, q):
                    return p is q or self.nonneg(y) and le(q, p) or self.nonpos(y) and le(p, q)
                if sy(x1, y1, y2) and sx(y2, x1, x2) or sx(y1, x1, x2) and sy(x2, y1, y2):
                    return True
        if a.op == 'atan2':
            w = numbound(b)
            if w and (w[0] >= PI_HI or w[0] >= PI_HI / 2 and self.nonneg(a.a[1]) or w[0] >= -PI_LO / 2 and self.nonpos(a.a[0]) and self.nonpos(a.a[1]) and self.kinds(a.a[0]) & KZ == 0):
                return True
        if b.op == 'atan2':
            w = numbound(a)
            if w and (w[1] <= -PI_HI or w[1] <= -PI_HI / 2 and self.nonneg(b.a[1]) or w[1] <= PI_LO / 2 and self.nonneg(b.a[0]) and self.nonpos(b.a[1])):
                return True
        v, w = numbound(a), numbound(b)
        if a.op in ('asin', 'atan') and w and w[0] >= PI_HI / 2 or b.op in ('asin', 'atan') and v and v[1] <= -PI_HI / 2 or \
                a.op == 'acos' and w and (w[0] >= PI_HI or w[0] >= PI_HI / 2 and self.nonneg(a.a[0])) or \
                b.op == 'acos' and v and (v[1] <= 0 or v[1] <= PI_LO / 2 and self.nonpos(b.a[0])):
            return True
        if v and w and v[1] <= w[0]:
            return True
        for f, t, up in ((b, a, True), (a, b, False)):
            if f.op in ('fma', 'add'):
                pr = self.prodsign(f.a[0], f.a[1]) if f.op == 'fma' else None
                opts = [(f.a[2], pr)] if f.op == 'fma' else [(f.a[0], self.sgn01(f.a[1])), (f.a[1], self.sgn01(f.a[0]))]
                for z, g in opts:
                    if g == (1 if up else -1) and (le(t, z) if up else le(z, t)):
                        return True
        # against a neutral constant
        if a.op == 'pow' and is_con(b, Fraction(1)) or b.op == 'pow' and is_con(a, Fraction(1)):
            p, up = (a, True) if a.op == 'pow' else (b, False)
            x, y = p.a
            ge1, le1 = le(ONE_T, x), self.nonneg(x) and le(x, ONE_T)
            if up:
                return ge1 and self.nonpos(y) or le1 and self.nonneg(y)
            return ge1 and self.nonneg(y) or le1 and self.nonpos(y)
        return False

    def sgn01(self, t):
        return 1 if self.nonneg(t) else -1 if self.nonpos(t) else None

    def prodsign(self, x, y):
        a, b = self.sgn01(x), self.sgn01(y)
        return None if a is None or b is None else a * b

    def le_prod(self, op, p, q, le):
        x, y = p
        z, w = q
        mx, my, mz, mw = (self.mag_(t) for t in (x, y, z, w))
        if None in (mx, my, mz, mw):
            return False
        sp = self.nonneg(x) == self.nonneg(y)
        sq = self.nonneg(z) == self.nonneg(w)
        if sp != sq:
            return not sp          # negative <= positive
        if not sp:                  # both products non-positive: compare magnitudes the other way
            mx, my, mz, mw = mz, mw, mx, my
        if op == 'mul':
            return le(mx, mz) and le(my, mw) or le(mx, mw) and le(my, mz)
        return le(mx, mz) and le(mw, my)

    def minmax(self, op, xs):
        flat = []
        for x in xs:
            flat.extend(x.a if x.op == op else [x])
        if any(is_con(x, 'nan') for x in flat):
            return mk(op, *flat)
        out = []
        for x in flat:
            drop = False
            for i, y in enumerate(out):
                if x is y:
                    drop = True
                    break
                r = self.le_known(x, y)
                q = self.le_known(y, x)
                if op == 'min':
                    if q is True:
                        drop = True
                        break
                    if r is True or q is False:
                        out[i] = None
                else:
                    if r is True:
                        drop = True
                        break
                    if q is True or r is False:
                        out[i] = None
            out = [y for y in out if y is not None]
            if not drop:
                out.append(x)
        if len(out) == 1:
            return out[0]
        out.sort(key=lambda t: t.id)
        return mk(op, *out)

    # ---- booleans -------------------------------------------------------------------------------
    def bnot(self, c):
        if isinstance(c, bool):
            return not c
        if c.op == 'not':
            return c.a[0]
        return mk('not', c)

    def band(self, x, y):
        if x is False or y is False:
            return False
        if x is True:
            return y
        if y is True:
            return x
        if x is y:
            return x
        if x is self.bnot(y):
            return False
        return mk('and', *sorted((x, y), key=lambda t: t.id))

    def bor(self, x, y):
        return self.bnot(self.band(self.bnot(x), self.bnot(y)))

    def bite(self, c, x, y):
        if x is y or x == y and isinstance(x, bool):
            return x
        if x is True and y is False:
            return c
        if x is False and y is True:
            return self.bnot(c)
        if x is True:
            return self.bor(c, y)
        if x is False:
            return self.band(self.bnot(c), y)
        if y is False:
            return self.band(c, x)
        if y is True:
            return self.bor(self.bnot(c), x)
        return mk('ite', c, x, y)

    def known(self, c):
        """resolve a boolean term under the current assumptions"""
        if isinstance(c, bool):
            return c
        v = self.assume.get(c)
        if v is not None:
            return v
        if c.op == 'not':
            v = self.known(c.a[0])
            return (not v) if isinstance(v, bool) else c
        if c.op == 'and':
            vs = [self.known(x) for x in c.a]
            if any(v is False for v in vs):
                return False
            vs = [v for v in vs if v is not True]
            if not vs:
                return True
            r = vs[0]
            for v in vs[1:]:
                r = self.band(r, v)
            return r
        if c.op == 'ite':
            v = self.known(c.a[0])
            if isinstance(v, bool):
                return self.known(c.a[1] if v else c.a[2])
        return c

    def isnan(self, t):
        k = self.kinds(t)
        if not k & KNAN:
            return False
        if k == KNAN:
            return True
        if t.op == 'ite':
            return self.bite(t.a[0], self.isnan(t.a[1]), self.isnan(t.a[2]))
        if t.op == 'rnd':
            return self.isnan(t.a[2])
        return mk('isnan', t)

    def eq_inf(self, t, sign):
        k = self.kinds(t)
        b = KPI if sign > 0 else KNI
        if not k & b:
            return False
        if k == b:
            return True
        n = self.node(t)
        if n is not None:
            raise Split('fp', n, ('c', PINF if sign > 0 else NINF))
        if t.op == 'ite':
            return self.bite(t.a[0], self.eq_inf(t.a[1], sign), self.eq_inf(t.a[2], sign))
        if t.op in ('min', 'max') and not k & KNAN:
            conj = (t.op == 'min') == (sign > 0)
            r = conj
            for x in t.a:
                e = self.eq_inf(x, sign)
                r = self.band(r, e) if conj else self.bor(r, e)
            return r
        if t.op == 'neg':
            return self.eq_inf(t.a[0], -sign)
        if t.op == 'rnd' and not isinstance(t.a[0], str):
            # overflow does not depend on the lower end of the exponent range
            p_, lo, hi = NV.fparams(t.a[0])
            for f in 'fdl':
                if NV.fparams(f)[0] == p_ and NV.fparams(f)[2] == hi and self.kinds(t) & (KPI | KNI):
                    return mk('eqinf', mk('rnd', f, t.a[1], t.a[2]), sign)
        return mk('eqinf', t, sign)

    def lt(self, a, b):
        """a < b as an ordered comparison (false on NaN); raises Split on undecided input leaves"""
        if a.op == 'ite':
            return self.bite(a.a[0], self.lt(a.a[1], b), self.lt(a.a[2], b))
        if b.op == 'ite':
            return self.bite(b.a[0], self.lt(a, b.a[1]), self.lt(a, b.a[2]))
        if is_con(a, 'nan') or is_con(b, 'nan'):
            return False
        na, nb = self.node(a), self.node(b)
        if na is not None and nb is not None:
            r = self.cell.rel(na, nb)
            if r == '<':
                return True
            if r in ('=', '>', '>='):
                return False
            raise Split('fp', na, nb)
        a, b = self.zc(a), self.zc(b)
        if a is b:
            return False
        self.sign_split(a, b)
        ka, kb = self.kinds(a), self.kinds(b)
        nan = bool((ka | kb) & KNAN)
        if ka == KZ and not kb & ~(KZ | KP | KPI) or kb == KZ and not ka & ~(KZ | KN | KNI):
            return self.bnot(self.eq(a, b))
        if not nan:
            r = self.le_known(b, a)
            if r is True:
                return False
            if r is False:
                return True
            if is_con(b, 'pinf'):
                return self.bnot(self.eq_inf(a, 1))
            if is_con(a, 'ninf'):
                return self.bnot(self.eq_inf(b, -1))
            # minmax distribution
            if a.op == 'min':
                r = False
                for x in a.a:
                    r = self.bor(r, self.lt(x, b))
                return r
            if a.op == 'max':
                r = True
                for x in a.a:
                    r = self.band(r, self.lt(x, b))
                return r
            if b.op == 'max':
                r = False
                for x in b.a:
                    r = self.bor(r, self.lt(a, x))
                return r
            if b.op == 'min':
                r = True
                for x in b.a:
                    r = self.band(r, self.lt(a, x))
                return r
        if not nan:           # c < RU(t) iff c < t, RD(t) < c iff t < c for representable c
            if b.op == 'rnd' and b.a[1] == 'U' and is_con(a) and isinstance(a.a[0], Fraction) and NV.in_fmt(a.a[0], b.a[0]):
                return self.lt(a, b.a[2])
            if a.op == 'rnd' and a.a[1] == 'D' and is_con(b) and isinstance(b.a[0], Fraction) and NV.in_fmt(b.a[0], a.a[0]):
                return self.lt(a.a[2], b)
        if not nan:
            for u, v in ((a, b), (b, a)):      # c < x + k: compare x with c - k
                if is_con(u) and isinstance(u.a[0], Fraction) and v.op == 'add':
                    for x, k in (v.a, v.a[::-1]):
                        if is_con(k) and isinstance(k.a[0], Fraction) and self.node(x) is not None and not self.kinds(x) & (KPI | KNI | KNAN):
                            m = con(u.a[0] - k.a[0])
                            return self.lt(m, x) if u is a else self.lt(x, m)
        if not nan and (a.op == 'add' or b.op == 'add'):
            r = self.lt_linear(a, b)
            if r is not None:
                return r
        # canonical: move negation: -a < -b  ->  b < a
        if a.op == 'neg' and b.op == 'neg':
            return self.lt(b.a[0], a.a[0])
        if is_con(a) and b.op == 'neg':
            return self.lt(b.a[0], self.neg(a))
        if is_con(b) and a.op == 'neg':
            return self.lt(self.neg(b), a.a[0])
        return mk('lt', a, b)

    def leaves(self, t, sg, acc):
        """t as a signed sum of finite input leaves, or None"""
        if t.op == 'neg':
            return self.leaves(t.a[0], -sg, acc)
        if t.op == 'add':
            return self.leaves(t.a[0], sg, acc) and self.leaves(t.a[1], sg, acc)
        if t.op == 'con' and t.a[0] == 0:
            return True
        if self.node(t) is None or self.kinds(t) & (KPI | KNI | KNAN):
            return False
        n = self.node(t)
        if n[0] == 'v' and n[2] < 0:
            t, sg = self.neg(t), -sg
            if t.op == 'neg':
                t, sg = t.a[0], -sg
        acc[t] = acc.get(t, 0) + sg
        return True

    def lt_linear(self, a, b):
        acc = {}
        if not (self.leaves(b, 1, acc) and self.leaves(a, -1, acc)):
            return None
        P, N = [], []
        for t, k in acc.items():
            if abs(k) > 2:
                return None
            (P if k > 0 else N).extend([t] * abs(k))
        if not P and not N:
            return False
        if len(P) + len(N) == 2:
            u, v = (P[0], N[0]) if P and N else (P[0], self.neg(P[1])) if P else (self.neg(N[0]), N[1])
            return self.lt(v, u)
        if len(P) + len(N) == 1:
            return self.lt(ZERO_T, P[0]) if P else self.lt(N[0], ZERO_T)
        if len(P) + len(N) in (3, 4):
            # pair the summands: two sums of known sign decide
            L = (P + [self.neg(n) for n in N] + [ZERO_T])[:4]
            for i in (1, 2, 3):
                j, k = [z for z in (1, 2, 3) if z != i]
                r = {self.pair(L[0], L[i]), self.pair(L[j], L[k])}
                if r <= {'>', '>=', '='} and '>' in r:
                    return True
                if r <= {'<', '<=', '='}:
                    return False
        sm = lambda L: self.sum_(sorted(L, key=lambda z: z.id))
        return mk('lt', sm(N) if N else ZERO_T, sm(P) if P else ZERO_T)

    def pair(self, u, v):
        """sign of u + v from the order of the leaves"""
        return self.cell.rel(self.node(u), self.node(self.neg(v)))

    def sum_(self, L):
        r = L[0]
        for x in L[1:]:
            r = self.add(r, x)
        return r

    def both_overflow(self, x, y):
        """two sums of leaves may both exceed the largest number of their format"""
        acc = {}
        if not (self.leaves(x, 1, acc) and self.leaves(y, 1, acc)):
            return True
        L = [t if k > 0 else self.neg(t) for t, k in acc.items() for _ in range(abs(k))]
        # x + y <= (two of the summands) <= twice the largest number, once a pair with sum <= 0 is dropped
        for i, p in enumerate(L):
            for n in L[:i]:
                if self.pair(p, n) in ('<', '<=', '='):
                    return len(L) > 4
        return len(L) > 2

    def twosum(self, e):
        """e is the error term of Knuth's TwoSum: (rounded sum, exact sum)"""
        if e.op != 'rnd' or e.a[1] != 'N' or e.a[2].op != 'add':
            return None
        F = e.a[0]
        for p, q in (e.a[2].a, e.a[2].a[::-1]):
            if p.op != 'rnd' or q.op != 'rnd' or p.a[:2] != (F, 'N') or q.a[:2] != (F, 'N') or p.a[2].op != 'add' or q.a[2].op != 'add':
                continue
            for a, A in (p.a[2].a, p.a[2].a[::-1]):
                for b, B in (q.a[2].a, q.a[2].a[::-1]):
                    if not (self.infmt(a, F) and self.infmt(b, F)):
                        continue
                    x = self.add(a, b)
                    s = self.rnd(F, 'N', x)
                    bb = self.rnd(F, 'N', self.sub(s, a))
                    if B is self.neg(bb) and A is self.rnd(F, 'N', self.sub(bb, s)):
                        return s, x
        return None

    @staticmethod
    def zc(t):
        return ZERO_T if t.op == 'zvar' or t.op == 'con' and t.a[0] == 'nzero' else t

    splitsign = False

    def sign_split(self, a, b):
        """comparison of a rounded input with zero: settle the sign of the input first"""
        if self.splitsign:
            for p, q in ((a, b), (b, a)):
                if p is ZERO_T and q.op == 'rnd':
                    n = self.node(q.a[2])
                    if n is not None and self.cell.rel(n, ('c', Fraction(0))) in (None, '<=', '>='):
                        raise Split('fp', n, ('c', Fraction(0)))

    def le(self, a, b):
        if a.op == 'ite':
            return self.bite(a.a[0], self.le(a.a[1], b), self.le(a.a[2], b))
        if b.op == 'ite':
            return self.bite(b.a[0], self.le(a, b.a[1]), self.le(a, b.a[2]))
        if (self.kinds(a) | self.kinds(b)) & KNAN:
            if is_con(a, 'nan') or is_con(b, 'nan'):
                return False
            # ordered and not b<a
            return self.band(self.bnot(self.bor(self.isnan(a), self.isnan(b))), self.bnot(self.lt(b, a)))
        return self.bnot(self.lt(b, a))

    def eq(self, a, b):
        if a.op == 'ite':
            return self.bite(a.a[0], self.eq(a.a[1], b), self.eq(a.a[2], b))
        if b.op == 'ite':
            return self.bite(b.a[0], self.eq(a, b.a[1]), self.eq(a, b.a[2]))
        if is_con(a, 'nan') or is_con(b, 'nan'):
            return False
        na, nb = self.node(a), self.node(b)
        if na is not None and nb is not None:
            r = self.cell.rel(na, nb)
            if r == '=':
                return True
            if r in ('<', '>'):
                return False
            raise Split('fp', na, nb)
        a, b = self.zc(a), self.zc(b)
        if a is b:
            return self.bnot(self.isnan(a))
        self.sign_split(a, b)
        ka, kb = self.kinds(a), self.kinds(b)
        for p, q, k in ((a, b, kb), (b, a, ka)):       # a rounding that cannot flush is zero iff its argument is
            if p is ZERO_T and q.op == 'rnd' and self.noflush(q.a[0], q.a[2]):
                return self.eq(ZERO_T, q.a[2])
        if not ka & kb & ~KNAN:
            return False
        for p, q in ((a, b), (b, a)):
            if is_con(q, 'pinf'):
                return self.eq_inf(p, 1)
            if is_con(q, 'ninf'):
                return self.eq_inf(p, -1)
        if not (ka | kb) & KNAN and (ka == kb == KZ):
            return True
        if self.le_known(a, b) is False or self.le_known(b, a) is False:
            return False
        for p, q in ((a, b), (b, a)):     # x is an integer
            if q.op in RINTS and q.a[0] is p:
                a, b = p, mk('floor', p)
        if a.op == 'neg' and is_con(b):
            a, b = a.a[0], self.neg(b)
        elif b.op == 'neg' and is_con(a):
            b, a = b.a[0], self.neg(a)
        elif a.op == 'neg' and b.op == 'neg':
            a, b = a.a[0], b.a[0]
        if b.id < a.id:
            a, b = b, a
        return mk('eq', a, b)

    def ite(self, c, x, y):
        if isinstance(c, bool):
            return x if c else y
        if x is y:
            return x
        if c.op == 'not':
            return self.ite(c.a[0], y, x)
        if isinstance(x, Term) and x.op == 'ite' and x.a[0] is c:
            x = x.a[1]
        if isinstance(y, Term) and y.op == 'ite' and y.a[0] is c:
            y = y.a[2]
        if x is y:
            return x
        if c.op == 'lt' and isinstance(x, Term) and isinstance(y, Term):
            a, b = c.a
            if not (self.kinds(a) | self.kinds(b)) & KNAN:
                for (p, q, o) in ((a, b, 'min'), (b, a, 'max')):
                    if x is p and y is q:
                        return self.minmax(o, [a, b])
                    if x.op == 'rnd' and y.op == 'rnd' and x.a[:2] == y.a[:2] and self.coarser(x, p) and self.coarser(y, q):
                        return self.minmax(o, [x, y])
                    if isinstance(x, Term) and isinstance(y, Term) and (x.op == 'rnd') != (y.op == 'rnd'):
                        r, k, rp, kp = (x, y, p, q) if x.op == 'rnd' else (y, x, q, p)
                        if is_con(k) and is_con(kp) and r.a[1] in ('D', 'U') and self.coarser(r, rp) and self.rnd(r.a[0], r.a[1], kp) is k:
                            return self.minmax(o, [x, y])
        return mk('ite', c, x, y)

    @staticmethod
    def coarser(x, p):
        """x is a rounding of p, or of what p itself rounds (same mode, finer format)"""
        if x.a[2] is p:
            return True
        return p.op == 'rnd' and p.a[2] is x.a[2] and p.a[1] == x.a[1] and p.a[1] in ('D', 'U', 'Z') and sub_fmt(x.a[0], p.a[0])


def cval(t):
    if t.op == 'zvar':
        return Fraction(0)
    return t.a[0]


def _k2():
    rep = {KNI: ['ninf'], KN: [Fraction(-1, 2), Fraction(-2), Fraction(-1)], KZ: [Fraction(0), 'nzero'],
           KP: [Fraction(1, 2), Fraction(2), Fraction(1)], KPI: ['pinf'], KNAN: ['nan']}

    def kk(v):
        if isinstance(v, Fraction):
            return KZ if v == 0 else KP if v > 0 else KN
        return {'pinf': KPI, 'ninf': KNI, 'nan': KNAN, 'nzero': KZ}[v]
    tab = {}
    for op in ('add', 'mul', 'div'):
        d = {}
        for x in rep:
            for y in rep:
                r = 0
                for a in rep[x]:
                    for b in rep[y]:
                        r |= kk(NV.exact2(op, a, b))
                d[(x, y)] = r
        tab[op] = d
    return tab


K2 = _k2()
_ALLF = KN | KZ | KP
K1 = {
    'exp': {KNI: KZ, KN: KP, KZ: KP, KP: KP, KPI: KPI},
    'log': {KNI: KNAN, KN: KNAN, KZ: KNI, KP: _ALLF, KPI: KPI},
    'sqrt': {KNI: KNAN, KN: KNAN, KZ: KZ, KP: KP, KPI: KPI},
    'sin': {KNI: KNAN, KN: KN | KP, KZ: KZ, KP: KN | KP, KPI: KNAN},
    'cos': {KNI: KNAN, KN: KN | KP, KZ: KP, KP: KN | KP, KPI: KNAN},
    'tan': {KNI: KNAN, KN: KN | KP, KZ: KZ, KP: KN | KP, KPI: KNAN},
    'asin': {KNI: KNAN, KN: KN | KNAN, KZ: KZ, KP: KP | KNAN, KPI: KNAN},
    'acos': {KNI: KNAN, KN: KP | KNAN, KZ: KP, KP: KP | KZ | KNAN, KPI: KNAN},
    'atan': {KNI: KN, KN: KN, KZ: KZ, KP: KP, KPI: KP},
    'sinh': {KNI: KNI, KN: KN, KZ: KZ, KP: KP, KPI: KPI},
    'cosh': {KNI: KPI, KN: KP, KZ: KP, KP: KP, KPI: KPI},
    'tanh': {KNI: KN, KN: KN, KZ: KZ, KP: KP, KPI: KP},
    'asinh': {KNI: KNI, KN: KN, KZ: KZ, KP: KP, KPI: KPI},
    'acosh': {KNI: KNAN, KN: KNAN, KZ: KNAN, KP: KNAN | KZ | KP, KPI: KPI},
    'atanh': {KNI: KNAN, KN: KN | KNI | KNAN, KZ: KZ, KP: KP | KPI | KNAN, KPI: KNAN},
}
K1['exp2'] = K1['exp10'] = K1['exp']
K1['log2'] = K1['log10'] = K1['log']
