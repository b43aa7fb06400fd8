"""Models of the external functions the library calls (MPFR, libm, operator new, C++ runtime)."""
from fractions import Fraction
import re
import numeval as NV
from terms import mk, con, is_con, Term, NAN_T, PINF_T, NINF_T, ZERO_T, ONE_T, KN, KZ, KP, KPI, KNI, KNAN
from interp import Abort, RM, stdfmt, UNDEF, NULL, wrap, isbool

T = {}


def model(*names):
    def d(f):
        for n in names:
            T[n] = f
        return f
    return d


def rmode(I, st, r):
    if isinstance(r, int) and r in RM:
        return RM[r]
    if isinstance(r, Term) and r.op == 'ite':
        raise Abort('symbolic rounding mode')
    raise Abort('rounding mode ' + str(r))


# ---- mpfr objects ---------------------------------------------------------------------------------
def handle(I, st, p):
    if not (isinstance(p, tuple) and p and p[0] == 'P') or p[1] is None:
        raise Abort('mpfr pointer')
    d = I.objd(st, p[1])
    e = d.get(p[2])
    if e is None or not (isinstance(e[1], tuple) and e[1] and e[1][0] == 'M'):
        I.event(st, 'mpfr-uninitialised')
        raise Abort('use of an uninitialised mpfr_t')
    return e[1][1]


def rec(I, st, p):
    h = handle(I, st, p)
    r = st.mem['mp'][h][1]
    s = I.known_status(r[2])
    if s == 'cleared':
        I.event(st, 'mpfr-use-after-clear')
        raise Abort('use of a cleared mpfr_t')
    if s in I.maybe:
        I.cevent(st, 'mpfr-use-after-clear', '', I.ctx.bnot(I.livecond(s)))
    return h, r


def term(I, st, p):
    return rec(I, st, p)[1][1]


def mfmt(I, st, prec):
    return ('m', prec, I.reg(st, 'emin'), I.reg(st, 'emax'))


def tern(I, fmt, mode, e):
    if I.ctx.infmt(e, fmt) or not I.ctx.kinds(e) & (KN | KP):
        return 0
    if e.op == 'ite':
        return I.ite(e.a[0], tern(I, fmt, mode, e.a[1]), tern(I, fmt, mode, e.a[2]))
    return mk('tern', fmt, mode, e)


def _tls(I, st, a, n):
    t = st.mem['fp']['thr'][1]
    p = a[0]
    if t == 1 or not (isinstance(p, tuple) and p[0] == 'P' and isinstance(p[1], tuple) and p[1][0] == 'G'):
        return p
    if not isinstance(t, int):
        raise Abort('unknown thread')
    return ('P', ('G', p[1][1], t), p[2])


@model('verif_thread')
def _thread(I, st, a, n):
    """execution goes on in another thread: its thread-local objects are distinct ones"""
    st.wr('fp')['thr'] = (0, a[0])
    return None


def wrote(I, st, p, v=None):
    if isinstance(p[1], tuple) and p[1][0] == 'G':
        I.gwrite(st, p[1][1], v)


def setmp(I, st, p, e, rnd):
    """round exact term e into *p; returns the ternary value"""
    h, r = rec(I, st, p)
    wrote(I, st, p, e)
    m = rmode(I, st, rnd)
    f = mfmt(I, st, r[0])
    v = I.ctx.rnd(f, m, e)
    if v.op == 'rnd' and v.loc is None:
        v.loc = I.cur
    st.wr('mp')[h] = (0, (r[0], v, r[2]))
    return tern(I, f, m, e)


def raw(I, st, p, v):
    h, r = rec(I, st, p)
    wrote(I, st, p, v)
    st.wr('mp')[h] = (0, (r[0], v, r[2]))


@model('mpfr_init2')
def _init2(I, st, a, n):
    p, prec = a
    if not isinstance(prec, int):
        raise Abort('symbolic precision')
    d = st.wr(p[1]) if p[1] in st.mem else None
    if d is None:
        I.objd(st, p[1])
        d = st.wr(p[1])
    e = d.get(p[2])
    if e is not None and isinstance(e[1], tuple) and e[1] and e[1][0] == 'M':
        I.leak(st, e[1][1], 'initialised again without mpfr_clear')
    I.nobj += 1
    h = I.nobj
    I.clear_range(d, p[2], 32)
    d[p[2]] = (32, ('M', h, (p[1], p[2])))
    st.wr('mp')[h] = (0, (prec, NAN_T, 'live'))
    return None


@model('mpfr_init')
def _init(I, st, a, n):
    return _init2(I, st, [a[0], 53], n)


@model('mpfr_clear')
def _clear(I, st, a, n):
    h = handle(I, st, a[0])
    r = st.mem['mp'][h][1]
    s = I.known_status(r[2])
    if s == 'cleared':
        I.event(st, 'mpfr-double-clear')
    elif s in I.maybe:
        I.cevent(st, 'mpfr-double-clear', '', I.ctx.bnot(I.livecond(s)))
    st.wr('mp')[h] = (0, (r[0], r[1], 'cleared'))


@model('mpfr_set_emin', 'mpfr_set_emax')
def _emin(I, st, a, n):
    if not isinstance(a[0], (int, Term)):
        raise Abort('exponent range')
    I.setreg(st, n[-4:], a[0])
    return 0


@model('mpfr_get_emin', 'mpfr_get_emax')
def _gemin(I, st, a, n):
    v = I.reg(st, n[-4:])
    return v if isinstance(v, int) else (mk('hist', n[-4:]) if isinstance(v, str) else v)


@model('mpfr_free_cache', 'mpfr_free_cache2', 'mpfr_clear_flags', 'mpfr_clear_underflow', 'mpfr_clear_overflow',
       'mpfr_clear_inexflag', 'mpfr_clear_nanflag', 'mpfr_clear_erangeflag', 'mpfr_clear_divby0')
def _nop(I, st, a, n):
    return None


def vterm(I, v, k=None):
    if isinstance(v, Term):
        if v.op == 'lin':
            return mk('conv', v)
        if isbool(v):
            return I.ite(v, ONE_T, ZERO_T)
        return v
    if isinstance(v, int):
        return con(int(v))
    raise Abort('value ' + str(v)[:30])


@model('mpfr_set_flt', 'mpfr_set_d', 'mpfr_set_ld', 'mpfr_set_si', 'mpfr_set_ui', '__gmpfr_set_sj', '__gmpfr_set_uj')
def _set(I, st, a, n):
    v = a[1]
    if n in ('mpfr_set_ui', '__gmpfr_set_uj') and isinstance(v, int) and v < 0:
        v += 1 << 64
    return setmp(I, st, a[0], vterm(I, v), a[2])


@model('mpfr_set', 'mpfr_neg', 'mpfr_abs', 'mpfr_sqr')
def _set1(I, st, a, n):
    t = term(I, st, a[1])
    c = I.ctx
    e = {'mpfr_set': lambda: t, 'mpfr_neg': lambda: c.neg(t), 'mpfr_abs': lambda: c.abs(t), 'mpfr_sqr': lambda: c.mul(t, t)}[n]()
    return setmp(I, st, a[0], e, a[2])


@model('mpfr_set4')
def _set4(I, st, a, n):
    t = term(I, st, a[1])
    if a[3] != 1:
        raise Abort('mpfr_set4')
    return setmp(I, st, a[0], I.ctx.abs(t), a[2])


@model('mpfr_set_inf', 'mpfr_set_nan', 'mpfr_set_zero')
def _seti(I, st, a, n):
    if n == 'mpfr_set_nan':
        raw(I, st, a[0], NAN_T)
    else:
        if not isinstance(a[1], int):
            raise Abort(n)
        pos = a[1] >= 0
        raw(I, st, a[0], (PINF_T if pos else NINF_T) if n == 'mpfr_set_inf' else (ZERO_T if pos else con(0) if False else mk('con', 'nzero')))
    return None


@model('mpfr_swap')
def _swap(I, st, a, n):
    d1, d2 = st.wr(a[0][1]), st.wr(a[1][1])
    h1, r1 = rec(I, st, a[0])
    h2, r2 = rec(I, st, a[1])
    m = st.wr('mp')
    m[h1], m[h2] = (0, r2), (0, r1)


@model('mpfr_add', 'mpfr_sub', 'mpfr_mul', 'mpfr_div', 'mpfr_atan2', 'mpfr_pow')
def _bin(I, st, a, n):
    x, y = term(I, st, a[1]), term(I, st, a[2])
    return setmp(I, st, a[0], binop(I, n[5:], x, y), a[3])


def binop(I, op, x, y):
    c = I.ctx
    if op in ('add', 'sub', 'mul', 'div'):
        return getattr(c, op)(x, y)
    if op == 'pow':
        return pow_(c, x, y)
    if op == 'atan2':
        return atan2(c, x, y)
    raise Abort(op)


def pow_(c, x, y):
    if x.op == 'ite':
        return c.ite(x.a[0], pow_(c, x.a[1], y), pow_(c, x.a[2], y))
    if y.op == 'ite':
        return c.ite(y.a[0], pow_(c, x, y.a[1]), pow_(c, x, y.a[2]))
    kx, ky = c.kinds(x), c.kinds(y)
    if ky == KZ or is_con(x, Fraction(1)):
        return ONE_T
    if kx == KZ:
        if not ky & ~(KP | KPI):
            return ZERO_T
        # pow(+0, negative) = +inf ; pow(-0, odd) = -inf: zero sign unknown for an input zero
        if not ky & ~(KN | KNI):
            return PINF_T
    if is_con(y, Fraction(1)):
        return x
    if kx == KPI and not ky & (KZ | KNAN):
        if not ky & ~(KP | KPI):
            return PINF_T
        if not ky & ~(KN | KNI):
            return ZERO_T
    if ky in (KPI, KNI):
        n = c.node(x)
        if n is not None and not kx & ~(KZ | KP | KPI):
            r = c.cell.rel(n, ('c', Fraction(1)))
            if r == '<':
                return ZERO_T if ky == KPI else PINF_T
            if r == '>':
                return PINF_T if ky == KPI else ZERO_T
            if r == '=':
                return ONE_T
    return mk('pow', x, y)


def atan2(c, y, x):
    if y.op == 'ite':
        return c.ite(y.a[0], atan2(c, y.a[1], x), atan2(c, y.a[2], x))
    if x.op == 'ite':
        return c.ite(x.a[0], atan2(c, y, x.a[1]), atan2(c, y, x.a[2]))
    ky, kx = c.kinds(y), c.kinds(x)
    if not (ky | kx) & KNAN:
        if ky == KZ and not kx & ~(KP | KPI):
            return ZERO_T
        if ky == KZ and not kx & ~(KN | KNI) and not is_con(y, 'nzero'):
            return mk('pi')
        half = lambda: c.mul(con(Fraction(1, 2)), mk('pi'))
        if kx == KZ and not ky & ~(KP | KPI) or ky == KPI and not kx & (KPI | KNI):
            return half()
        if kx == KZ and not ky & ~(KN | KNI) or ky == KNI and not kx & (KPI | KNI):
            return c.neg(half())
        if kx == KPI and not ky & (KPI | KNI):
            return ZERO_T
        if kx == KNI and not ky & ~(KP | KZ):
            return mk('pi')
        if kx == KNI and not ky & ~KN:
            return c.neg(mk('pi'))
        # odd in y
        s, z = c._strip(y)
        if s < 0:
            return c.neg(mk('atan2', z, x))
    return mk('atan2', y, x)


UNOPS = ['sqrt', 'exp', 'exp2', 'exp10', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh',
         'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'cbrt']


@model(*['mpfr_' + u for u in UNOPS])
def _un(I, st, a, n):
    return setmp(I, st, a[0], un(I.ctx, n[5:], term(I, st, a[1])), a[2])


def un(c, op, x):
    if x.op == 'ite':
        return c.ite(x.a[0], un(c, op, x.a[1]), un(c, op, x.a[2]))
    return c.un(op, x)


@model('mpfr_const_pi')
def _pi(I, st, a, n):
    return setmp(I, st, a[0], mk('pi'), a[1])


@model('mpfr_fma', 'mpfr_fms')
def _fma(I, st, a, n):
    x, y, z = (term(I, st, p) for p in a[1:4])
    c = I.ctx
    return setmp(I, st, a[0], c.fma(x, y, z if n == 'mpfr_fma' else c.neg(z)), a[4])


@model('mpfr_min', 'mpfr_max')
def _min(I, st, a, n):
    x, y = term(I, st, a[1]), term(I, st, a[2])
    c = I.ctx
    op = n[5:]
    def mm(x, y):
        if x.op == 'ite':
            return c.ite(x.a[0], mm(x.a[1], y), mm(x.a[2], y))
        if y.op == 'ite':
            return c.ite(y.a[0], mm(x, y.a[1]), mm(x, y.a[2]))
        if is_con(x, 'nan'):
            return y
        if is_con(y, 'nan'):
            return x
        nx, ny = c.isnan(x), c.isnan(y)
        r = c.minmax(op, [x, y])
        if ny is not False:
            r = c.ite(ny, x, r)
        if nx is not False:
            r = c.ite(nx, y, r)
        return r
    return setmp(I, st, a[0], mm(x, y), a[3])


@model('mpfr_cmp', 'mpfr_cmp3')
def _cmp(I, st, a, n):
    x, y = term(I, st, a[0]), term(I, st, a[1])
    if n == 'mpfr_cmp3' and a[2] != 1:
        y = I.ctx.neg(y)
    return cmp3(I, x, y)


def cmp3(I, x, y):
    if x.op == 'ite' and False:
        pass
    c = I.ctx
    lt, gt = None, None
    if x is y:
        return 0
    return mk('cmp3', x, y)


@model('mpfr_cmp_si', 'mpfr_cmp_ui', 'mpfr_cmp_si_2exp', 'mpfr_cmp_ui_2exp')
def _cmpsi(I, st, a, n):
    if n.endswith('2exp'):
        if not isinstance(a[1], int) or not isinstance(a[2], int):
            raise Abort(n)
        return cmp3(I, term(I, st, a[0]), con(Fraction(a[1]) * Fraction(2) ** a[2]))
    return cmp3(I, term(I, st, a[0]), vterm(I, a[1]))


@model('mpfr_cmp_d', 'mpfr_cmp_ld')
def _cmpd(I, st, a, n):
    return cmp3(I, term(I, st, a[0]), a[1])


@model('mpfr_sgn')
def _sgn(I, st, a, n):
    return cmp3(I, term(I, st, a[0]), ZERO_T)


@model('mpfr_nan_p', 'mpfr_inf_p', 'mpfr_number_p', 'mpfr_zero_p', 'mpfr_regular_p', 'mpfr_signbit')
def _pred(I, st, a, n):
    x = term(I, st, a[0])
    c = I.ctx
    if n == 'mpfr_nan_p':
        return c.known(c.isnan(x))
    inf = lambda: c.bor(c.eq_inf(x, 1), c.eq_inf(x, -1))
    if n == 'mpfr_inf_p':
        return c.known(inf())
    if n == 'mpfr_number_p':
        return c.known(c.bnot(c.bor(inf(), c.isnan(x))))
    if n == 'mpfr_zero_p':
        return c.known(c.eq(x, ZERO_T))
    if n == 'mpfr_regular_p':
        return c.known(c.bnot(c.bor(c.bor(inf(), c.isnan(x)), c.eq(x, ZERO_T))))
    return I.signbit(x)


@model('mpfr_lessequal_p', 'mpfr_less_p', 'mpfr_greater_p', 'mpfr_greaterequal_p', 'mpfr_equal_p', 'mpfr_unordered_p', 'mpfr_lessgreater_p')
def _ord(I, st, a, n):
    x, y = term(I, st, a[0]), term(I, st, a[1])
    c = I.ctx
    k = n[5:-2]
    r = {'lessequal': lambda: c.le(x, y), 'less': lambda: c.lt(x, y), 'greater': lambda: c.lt(y, x), 'greaterequal': lambda: c.le(y, x),
         'equal': lambda: c.eq(x, y), 'unordered': lambda: c.bor(c.isnan(x), c.isnan(y)),
         'lessgreater': lambda: c.bor(c.lt(x, y), c.lt(y, x))}[k]()
    return c.known(r)


SI = re.compile(r'mpfr_(add|sub|mul|div)_(si|ui|d|z|q)$')


@model(*[f'mpfr_{o}_{k}' for o in ('add', 'sub', 'mul', 'div') for k in ('si', 'ui', 'd')])
def _opsi(I, st, a, n):
    op = SI.match(n).group(1)
    return setmp(I, st, a[0], binop(I, op, term(I, st, a[1]), vterm(I, a[2])), a[3])


@model(*[f'mpfr_{k}_{o}' for o in ('sub', 'div') for k in ('si', 'ui', 'd')])
def _siop(I, st, a, n):
    op = n.split('_')[-1]
    return setmp(I, st, a[0], binop(I, op, vterm(I, a[1]), term(I, st, a[2])), a[3])


@model('mpfr_mul_2si', 'mpfr_div_2si', 'mpfr_mul_2ui', 'mpfr_div_2ui')
def _2exp(I, st, a, n):
    if not isinstance(a[2], int):
        raise Abort(n)
    k = a[2] if 'mul' in n else -a[2]
    return setmp(I, st, a[0], I.ctx.mul(con(Fraction(2) ** k), term(I, st, a[1])), a[3])


def int_facts(I, n):
    """(lo, hi, parity) of an int value"""
    if isinstance(n, int):
        return n, n, n & 1
    if isinstance(n, Term) and n.op == 'lin':
        return I.lin_range(n)
    raise Abort('integer exponent')


def powi(I, x, n):
    c = I.ctx
    if x.op == 'ite':
        return c.ite(x.a[0], powi(I, x.a[1], n), powi(I, x.a[2], n))
    lo, hi, par = int_facts(I, n)
    if lo == hi:
        n = lo
    if n == 0 and isinstance(n, int):
        return ONE_T
    if n == 1 and isinstance(n, int):
        return x
    if n == 2 and isinstance(n, int):
        return c.mul(x, x)
    if n == -1 and isinstance(n, int) and not c.kinds(x) & KZ:
        return c.div(ONE_T, x)
    if is_con(x, Fraction(1)):
        return ONE_T
    if is_con(x, 'nan'):
        return mk('powi', x, n)
    k = c.kinds(x)
    pos, neg = lo > 0, hi < 0
    if k == KZ:
        if pos:
            return ZERO_T
        if neg and par == 0:
            return PINF_T
        return mk('powi', x, n)
    if not k & ~(KN | KNI) and par is not None:
        y = powi(I, c.neg(x), n)
        return y if par == 0 else c.neg(y)
    if k == KPI:
        if pos:
            return PINF_T
        if neg:
            return ZERO_T
    return mk('powi', x, n)


@model('mpfr_pow_si', 'mpfr_pow_ui')
def _powsi(I, st, a, n):
    return setmp(I, st, a[0], powi(I, term(I, st, a[1]), a[2]), a[3])


def root(I, x, n):
    c = I.ctx
    if x.op == 'ite':
        return c.ite(x.a[0], root(I, x.a[1], n), root(I, x.a[2], n))
    lo, hi, par = int_facts(I, n)
    if lo == hi:
        n = lo
    if n == 1 and isinstance(n, int):
        return x
    if n == 2 and isinstance(n, int):
        return c.un('sqrt', x)
    k = c.kinds(x)
    if lo >= 1:
        if k == KZ:
            return x
        if k == KPI:
            return PINF_T
        if is_con(x, Fraction(1)):
            return ONE_T
        if not k & ~(KN | KNI) and par == 1:
            return c.neg(root(I, c.neg(x), n))
        if not k & ~(KN | KNI) and par == 0:
            return NAN_T
    return mk('root', x, n)


@model('mpfr_root', 'mpfr_rootn_ui')
def _root(I, st, a, n):
    return setmp(I, st, a[0], root(I, term(I, st, a[1]), a[2]), a[3])


@model('mpfr_subnormalize')
def _subn(I, st, a, n):
    p, t, rnd = a
    h, r = rec(I, st, p)
    m = rmode(I, st, rnd)
    f = mfmt(I, st, r[0])
    sf = stdfmt(r[0], f[2], f[3], True)
    v, tt = subn(I, r[1], t, f, sf, m)
    if v.op == 'rnd' and v.loc is None:
        v.loc = I.cur
    st.wr('mp')[h] = (0, (r[0], v, r[2]))
    return tt


def pick(x, c, b):
    while isinstance(x, Term) and x.op == 'ite' and x.a[0] is c:
        x = x.a[1] if b else x.a[2]
    return x


def subn(I, x, t, f, sf, m):
    c = I.ctx
    if isinstance(t, Term) and t.op == 'ite':
        g = t.a[0]
        v1, t1 = subn(I, pick(x, g, True), t.a[1], f, sf, m)
        v2, t2 = subn(I, pick(x, g, False), t.a[2], f, sf, m)
        return c.ite(g, v1, v2), I.ite(g, t1, t2)
    if isinstance(t, int):
        if t == 0 or m != 'N' or c.infmt(x, sf):
            return c.rnd(sf, m, x), (tern(I, sf, m, x) if t == 0 else mk('iopq', 'tern', x))
        return mk('opq', 'subn', 'm', x), mk('iopq', 'tern', x)
    if isinstance(t, Term) and t.op == 'tern':
        tf, tm, e = t.a
        if c.rnd(tf, tm, e) is x and tf == f:
            if tm == m:
                return c.rnd(sf, m, e), tern(I, sf, m, e)
        if m != 'N' or c.infmt(x, sf):
            return c.rnd(sf, m, x), mk('iopq', 'tern', x)
    if m != 'N' or c.infmt(x, sf):
        return c.rnd(sf, m, x), mk('iopq', 'tern', x)
    return mk('opq', 'subn', 'm', x), mk('iopq', 'tern', x)


@model('mpfr_check_range')
def _chk(I, st, a, n):
    h, r = rec(I, st, a[0])
    m = rmode(I, st, a[2])
    f = mfmt(I, st, r[0])
    t = a[1]
    if isinstance(t, Term) and t.op == 'tern' and t.a[1] == m and I.ctx.rnd(t.a[0], m, t.a[2]) is r[1] and NV.fparams(t.a[0])[0] == r[0]:
        # the ternary value lets MPFR round the exact result to the new range (no double rounding)
        e = t.a[2]
        v = I.ctx.rnd(f, m, e)
        st.wr('mp')[h] = (0, (r[0], v, r[2]))
        return tern(I, f, m, e)
    v = I.ctx.rnd(f, m, r[1])
    st.wr('mp')[h] = (0, (r[0], v, r[2]))
    if v is r[1]:
        return a[1]
    if isinstance(a[1], Term) and a[1].op == 'tern' and a[1].a[1] == m:
        return tern(I, f, m, a[1].a[2])
    if a[1] == 0 and isinstance(a[1], int):
        return tern(I, f, m, r[1])
    return mk('iopq', 'tern', v)


@model('mpfr_sum')
def _sum(I, st, a, n):
    p, tab, cnt, rnd = a
    if not isinstance(cnt, int):
        raise Abort('mpfr_sum length')
    if not (isinstance(tab, tuple) and tab and tab[0] == 'P'):
        raise Abort('mpfr_sum table')
    e = ZERO_T
    for i in range(cnt):
        q = I.get(st, I.objd(st, tab[1]), tab[2] + 8 * i, PTR)
        t = term(I, st, q)
        e = t if e is ZERO_T else I.ctx.add(e, t)
    return setmp(I, st, p, e, rnd)


class PTR:
    k, size, store, bits = 'ptr', 8, 8, None


@model('mpfr_prec_round')
def _pr(I, st, a, n):
    h, r = rec(I, st, a[0])
    if not isinstance(a[1], int):
        raise Abort(n)
    m = rmode(I, st, a[2])
    f = mfmt(I, st, a[1])
    st.wr('mp')[h] = (0, (a[1], I.ctx.rnd(f, m, r[1]), r[2]))
    return tern(I, f, m, r[1])


@model('mpfr_get_flt', 'mpfr_get_d', 'mpfr_get_ld')
def _get(I, st, a, n):
    k = {'flt': 'f', 'd': 'd', 'ld': 'l'}[n[9:]]
    v = I.ctx.rnd(k, rmode(I, st, a[1]), term(I, st, a[0]))
    if v.op == 'rnd' and v.loc is None:
        v.loc = I.cur
    return v


@model('mpfr_get_si', 'mpfr_get_ui')
def _getsi(I, st, a, n):
    t = term(I, st, a[0])
    m = rmode(I, st, a[1])
    if is_con(t) and isinstance(t.a[0], Fraction):
        v = t.a[0]
        fl = v.numerator // v.denominator
        if v.denominator != 1:
            fl = fl + 1 if m == 'U' else fl if m == 'D' else int(v) if m == 'Z' else round(v)
        return wrap(fl, 64)
    if isinstance(t, Term) and t.op == 'conv':
        return t.a[0]
    return mk('toint', t, m)


@model('mpfr_get_prec')
def _gp(I, st, a, n):
    return rec(I, st, a[0])[1][0]


@model('mpfr_nextabove', 'mpfr_nextbelow')
def _next(I, st, a, n):
    h, r = rec(I, st, a[0])
    f = mfmt(I, st, r[0])
    st.wr('mp')[h] = (0, (r[0], nexta(I, f, r[1], 1 if 'above' in n else -1), r[2]))
    return None


def nexta(I, f, x, s):
    c = I.ctx
    if x.op == 'ite':
        return c.ite(x.a[0], nexta(I, f, x.a[1], s), nexta(I, f, x.a[2], s))
    if is_con(x) and isinstance(f, str):
        return mk('con', NV.next_val(x.a[0], f, s > 0))
    if is_con(x, 'pinf') and s > 0 or is_con(x, 'ninf') and s < 0 or is_con(x, 'nan'):
        return x
    if s < 0:
        return c.neg(nexta(I, f, c.neg(x), 1))
    return mk('nexta', f, x)


@model('nextafterf', 'nextafter', 'nextafterl', 'nexttowardf', 'nexttoward', 'nexttowardl')
def _na(I, st, a, n):
    f = 'f' if n.endswith('f') else 'l' if n.endswith('l') else 'd'
    x, y = a
    if is_con(y, 'pinf'):
        return nexta(I, f, x, 1)
    if is_con(y, 'ninf'):
        return nexta(I, f, x, -1)
    c = I.ctx
    lt, gt = c.lt(x, y), c.lt(y, x)
    return c.ite(lt, nexta(I, f, x, 1), c.ite(gt, nexta(I, f, x, -1), y))


@model('mpfr_sum')
def _sum(I, st, a, n):
    dst, arr, cnt, rnd = a
    if not isinstance(cnt, int):
        raise Abort('mpfr_sum count')
    acc = None
    d = I.objd(st, arr[1])
    for i in range(cnt):
        e = d.get(arr[2] + 8 * i)
        if e is None:
            raise Abort('mpfr_sum array')
        t = term(I, st, e[1])
        acc = t if acc is None else I.ctx.add(acc, t)
    if acc is None:
        acc = ZERO_T
    return setmp(I, st, dst, acc, rnd)


@model('mpfr_remquo', 'mpfr_remainder', 'mpfr_fmod', 'mpfr_modf', 'mpfr_frac')
def _remquo(I, st, a, n):
    raise Abort(n)


def rnd_int(I, op, x):
    c = I.ctx
    if x.op == 'ite':
        return c.ite(x.a[0], rnd_int(I, op, x.a[1]), rnd_int(I, op, x.a[2]))
    if x.op == 'neg' and op in ('floor', 'ceil'):
        return c.neg(rnd_int(I, 'ceil' if op == 'floor' else 'floor', x.a[0]))
    if x.op == 'neg' and op in ('trunc', 'round', 'rint'):
        return c.neg(rnd_int(I, op, x.a[0]))
    if x.op in ('min', 'max'):
        return c.minmax(x.op, [rnd_int(I, op, y) for y in x.a])
    if x.op in ('floor', 'ceil', 'trunc', 'rint', 'round', 'zvar'):
        return x
    k = c.kinds(x)
    if not k & (KN | KP):
        return x
    if op == 'trunc' and not k & (KN | KNI | KNAN):
        return rnd_int(I, 'floor', x)
    if op == 'trunc' and not k & (KP | KPI | KNAN):
        return rnd_int(I, 'ceil', x)
    if is_con(x) and isinstance(x.a[0], Fraction):
        return con(int_round(op, x.a[0]))
    return mk(op, x)


def int_round(op, v):
    import math
    if op == 'floor':
        return Fraction(math.floor(v))
    if op == 'ceil':
        return Fraction(math.ceil(v))
    if op == 'trunc':
        return Fraction(math.trunc(v))
    if op == 'rint':
        return Fraction(round(v))
    if op == 'round':      # ties away
        r = math.floor(abs(v) + Fraction(1, 2))
        return Fraction(r if v >= 0 else -r)
    raise Abort(op)


for _n in ('floor', 'ceil', 'trunc', 'round'):
    for _s in ('', 'f', 'l'):
        T[_n + _s] = (lambda op: lambda I, st, a, n: rnd_int(I, op, I.fp(a[0])))(_n)
for _s in ('', 'f', 'l'):
    T['roundeven' + _s] = lambda I, st, a, n: rnd_int(I, 'rint', I.fp(a[0]))
    T['fabs' + _s] = lambda I, st, a, n: I.ctx.abs(I.fp(a[0]))


def _rint(I, st, a, n):
    m = I.fe(st)
    op = {'N': 'rint', 'D': 'floor', 'U': 'ceil', 'Z': 'trunc'}.get(m)
    x = I.fp(a[0])
    if op is None:
        k = I.ctx.kinds(x)
        if not k & (KN | KP) or I.ctx.node(x) is not None and x.op in ('floor', 'ceil'):
            return x
        return mk('rintdyn', x)
    return rnd_int(I, op, x)


for _n in ('rint', 'nearbyint'):
    for _s in ('', 'f', 'l'):
        T[_n + _s] = _rint


@model('fegetround')
def _feg(I, st, a, n):
    m = I.reg(st, 'fe')
    return m if isinstance(m, (int, Term)) else mk('iopq', 'fe', 'entry')


@model('fesetround')
def _fes(I, st, a, n):
    v = a[0]
    if isinstance(v, Term) and v.op == 'iopq' and v.a == ('fe', 'entry'):
        v = 'dyn'
    I.setreg(st, 'fe', v)
    return 0


# ---- C / C++ runtime -------------------------------------------------------------------------------
@model('_Znwm', '_Znam', 'malloc')
def _new(I, st, a, n):
    o = I.newobj('H')
    st.mem[o] = {}
    st.own.add(o)
    I.hform[o] = FORM.get(n, '')
    return ('P', o, 0)


FORM = {'_Znwm': 'new', '_Znam': 'new[]', 'malloc': 'malloc', '_ZdlPv': 'new', '_ZdlPvm': 'new', '_ZdaPv': 'new[]', '_ZdaPvm': 'new[]', 'free': 'malloc'}


@model('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free')
def _del(I, st, a, n):
    p = a[0]
    if p == NULL:
        return None
    if not (isinstance(p, tuple) and p[0] == 'P'):
        raise Abort('delete of ' + str(p)[:30])
    if p[1] not in st.mem:
        I.event(st, 'double-free')
        return None
    if I.hform.get(p[1]) not in (None, FORM.get(n)):
        I.event(st, 'delete-form', f'allocated with {I.hform[p[1]]}, released as if by {FORM.get(n)}')
    for off, (s, x) in st.mem[p[1]].items():
        if isinstance(x, tuple) and x and x[0] == 'M' and x[2] == (p[1], off):
            I.leak(st, x[1], 'freed without mpfr_clear')
    st.mem = dict(st.mem)
    st.mem.pop(p[1])
    return None


@model('__cxa_allocate_exception')
def _cae(I, st, a, n):
    o = I.newobj('E')
    st.mem[o] = {}
    st.own.add(o)
    return ('P', o, 0)


@model('__cxa_throw')
def _cth(I, st, a, n):
    ti = a[1]
    I.lastexc = ti[1][1] if isinstance(ti, tuple) and ti[0] == 'P' else str(ti)
    return ('#throw',)


@model('__cxa_rethrow')
def _crt(I, st, a, n):
    return ('#throw',)


@model('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def _tid(I, st, a, n):
    return I.typeid(a[0][1][1])


@model('__cxa_free_exception', '__cxa_begin_catch', '__cxa_end_catch')
def _cfe(I, st, a, n):
    return NULL


@model('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__cxa_pure_virtual')
def _term(I, st, a, n):
    return ('#dead',)


@model('__cxa_guard_acquire')
def _ga(I, st, a, n):
    d = I.objd(st, a[0][1])
    e = d.get(a[0][2])
    v = e[1] if e else 0
    if isinstance(v, int) and v & 1:
        return 0
    I.setreg(st, 'guard', (I.reg(st, 'guard') or 0) + 1)
    return 1


@model('__cxa_guard_release')
def _gr(I, st, a, n):
    d = st.wr(a[0][1])
    I.clear_range(d, a[0][2], 8)
    d[a[0][2]] = (8, 1)
    I.setreg(st, 'guard', (I.reg(st, 'guard') or 1) - 1)


@model('__cxa_atexit', '__cxa_guard_abort')
def _nop2(I, st, a, n):
    return 0


STR = re.compile(r'^_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE(C[12]E|D[12]Ev)|^_ZNSt13runtime_error(C|D)[12]|^_ZNSaIcE(C|D)[12]|'
                 r'^_ZNSt15__new_allocatorIcE(C|D)[12]|^_ZNSt9exceptionD2|^_ZNSt11logic_error[CD][12]|^_ZNSt16invalid_argument[CD][12]')


def _memcpy(I, st, a, n):
    dst, src, cnt = a[:3]
    if not isinstance(cnt, int):
        raise Abort('memcpy length')
    if not all(isinstance(p, tuple) and p and p[0] == 'P' for p in (dst, src)):
        # pointer merged at a join: copy under the gate
        ps = I.ptrs(src)
        if isinstance(dst, tuple) and dst[0] == 'P':
            return _memcpy_ite(I, st, dst, ps, cnt)
        raise Abort('memcpy pointers')
    sd = I.objd(st, src[1])
    if isinstance(src[1], tuple) and src[1][0] == 'G' and not I.m.gvar(src[1][1])['const']:
        I.event(st, 'global-read', src[1][1])
    items = [(o - src[2], s, v) for o, (s, v) in sd.items() if o >= src[2] and o + s <= src[2] + cnt]
    part = [1 for o, (s, v) in sd.items() if (o < src[2] + cnt and o + s > src[2]) and not (o >= src[2] and o + s <= src[2] + cnt)]
    if part and not items:
        raise Abort('partial memcpy')
    if dst[1] not in st.mem:
        I.objd(st, dst[1])
    if dst[1] in I.opts.get('ro', ()):
        I.event(st, 'operand-write', str(dst[1]))
    if isinstance(dst[1], tuple) and dst[1][0] == 'G':
        I.gwrite(st, dst[1][1], tuple(v for _, _, v in items))
    d = st.wr(dst[1])
    I.clear_range(d, dst[2], cnt)
    for o, s, v in items:
        d[dst[2] + o] = (s, v)
    return dst


def _memcpy_ite(I, st, dst, ps, cnt):
    if dst[1] in I.opts.get('ro', ()):
        I.event(st, 'operand-write', str(dst[1]))
    acc = None
    for c, p in reversed(ps):
        sd = I.objd(st, p[1])
        it = {o - p[2]: (s, v) for o, (s, v) in sd.items() if o >= p[2] and o + s <= p[2] + cnt}
        if acc is None:
            acc = it
        else:
            if set(acc) != set(it):
                raise Abort('memcpy merge')
            acc = {o: (it[o][0], I.ite(c, it[o][1], acc[o][1])) for o in it}
    d = st.wr(dst[1])
    I.clear_range(d, dst[2], cnt)
    for o, e in acc.items():
        d[dst[2] + o] = e
    return dst


def _memset(I, st, a, n):
    dst, v, cnt = a[:3]
    if not isinstance(cnt, int) or v != 0:
        raise Abort('memset')
    d = st.wr(dst[1])
    I.clear_range(d, dst[2], cnt)
    i = 0
    for i in range(0, cnt - cnt % 8, 8):
        d[dst[2] + i] = (8, 0)
    return dst


def _fpclass(I, st, a, n):
    x, mask = I.fp(a[0]), a[1]
    c = I.ctx
    r = False
    rest = mask
    if mask & 3 == 3:
        r = c.isnan(x)
        rest &= ~3
    if rest & 4:
        r = c.bor(r, c.eq_inf(x, -1))
        rest &= ~4
    if rest & 512:
        r = c.bor(r, c.eq_inf(x, 1))
        rest &= ~512
    if rest:
        if rest == 0x1f8:       # finite
            f = c.bnot(c.bor(c.isnan(x), c.bor(c.eq_inf(x, 1), c.eq_inf(x, -1))))
            r = c.bor(r, f)
        elif rest & 3:
            raise Abort('is.fpclass')
        else:
            zero = c.eq(x, ZERO_T)
            if rest & 96 == 96:
                r = c.bor(r, zero)
                rest &= ~96
            tiny = con(Fraction(2) ** {'f32': -126, 'f64': -1022, 'f80': -16382}[n.split('.')[-1]])
            fin = c.bnot(c.bor(c.isnan(x), c.bor(c.eq_inf(x, 1), c.eq_inf(x, -1))))
            if rest & (8 | 256) == (8 | 256):
                r = c.bor(r, c.band(fin, c.bnot(c.lt(c.abs(x), tiny))))
                rest &= ~(8 | 256)
            if rest & (16 | 128) == (16 | 128):
                r = c.bor(r, c.band(fin, c.band(c.lt(c.abs(x), tiny), c.bnot(zero))))
                rest &= ~(16 | 128)
            if rest == 8 | 16 | 32 or rest == 4 | 8 | 16 | 32:
                r = c.bor(r, I.signbit(x))
                rest = 0
            if rest:
                raise Abort('is.fpclass mask')
    return c.known(r)


def _fmuladd(I, st, a, n):
    k = {'f32': 'f', 'f64': 'd', 'f80': 'l'}[n.split('.')[-1]]
    c = I.ctx
    return I.fround(k, c.add(I.fround(k, c.mul(I.fp(a[0]), I.fp(a[1])), st), I.fp(a[2])), st)


def _fminmax(op):
    def f(I, st, a, n):
        return I.ctx.minmax(op, [I.fp(a[0]), I.fp(a[1])])
    return f


def _copysign(I, st, a, n):
    x, y = I.fp(a[0]), I.fp(a[1])
    c = I.ctx
    s = I.signbit(y)
    ax = c.abs(x)
    return c.ite(s, c.neg(ax), ax) if not isinstance(s, bool) else (c.neg(ax) if s else ax)


def lookup(name):
    h = T.get(name)
    if h is not None:
        return h
    if name.startswith('llvm.'):
        b = name.split('.')[1]
        if b in ('memcpy', 'memmove'):
            return _memcpy
        if b == 'memset':
            return _memset
        if b == 'is' and name.startswith('llvm.is.fpclass'):
            return _fpclass
        if b in ('lifetime', 'dbg', 'assume', 'stacksave', 'stackrestore', 'donothing', 'experimental', 'invariant'):
            return _nop
        if b == 'fabs':
            return lambda I, st, a, n: I.ctx.abs(I.fp(a[0]))
        if b in ('floor', 'ceil', 'trunc', 'round'):
            return lambda I, st, a, n: rnd_int(I, b, I.fp(a[0]))
        if b in ('rint', 'nearbyint'):
            return _rint
        if b == 'roundeven':
            return lambda I, st, a, n: rnd_int(I, 'rint', I.fp(a[0]))
        if b in ('minnum', 'maxnum'):
            return _fminmax(b[:3])
        if b == 'copysign':
            return _copysign
        if b == 'fmuladd':
            return _fmuladd
        if b == 'threadlocal':
            return _tls
        if b in ('umul', 'uadd', 'smul', 'sadd', 'usub', 'ssub') and 'with.overflow' in name:
            bits = int(name.rsplit('.i', 1)[1])
            return lambda I, st, a, n: _ovf(b, a, bits)
        if b == 'trap':
            return _term
        if b in ('expect',):
            return lambda I, st, a, n: a[0]
        if b == 'abs':
            return lambda I, st, a, n: abs(a[0]) if isinstance(a[0], int) else _iabs(I, a[0])
        if b in ('smax', 'smin', 'umax', 'umin'):
            return lambda I, st, a, n: I.ite(I.icmp(('sgt' if b[0] == 's' else 'ugt') if 'max' in b else ('slt' if b[0] == 's' else 'ult'), a[0], a[1]), a[0], a[1])
        raise Abort('intrinsic ' + name)
    if name in ('copysign', 'copysignf', 'copysignl'):
        return _copysign
    if name in ('fmin', 'fminf', 'fminl'):
        return _fminmax('min')
    if name in ('fmax', 'fmaxf', 'fmaxl'):
        return _fminmax('max')
    if name in ('abs', 'labs', 'llabs'):
        return lambda I, st, a, n: abs(a[0]) if isinstance(a[0], int) else _iabs(I, a[0])
    if STR.match(name):
        return lambda I, st, a, n: None
    return None


def _ovf(b, a, bits):
    x, y = a
    if not (isinstance(x, int) and isinstance(y, int)):
        raise Abort('symbolic overflow check')
    if b[0] == 'u':
        x, y = x % (1 << bits), y % (1 << bits)
    r = x * y if 'mul' in b else x + y if 'add' in b else x - y
    lo, hi = (0, (1 << bits) - 1) if b[0] == 'u' else (-(1 << bits - 1), (1 << bits - 1) - 1)
    w = r % (1 << bits)
    return ('A', (w - (1 << bits) if w >> (bits - 1) else w, not lo <= r <= hi))


def _iabs(I, v):
    if isinstance(v, Term) and v.op == 'lin':
        if I.icmp_lin('sge', v, 0):
            return v
        n, co, k = v.a
        return mk('lin', n, -co, -k)
    raise Abort('abs of a symbolic integer')
