"""Evaluation of *terms* (value-graph expressions extracted from the source, and specification
expressions) at a valuation, with correctly rounded MPFR arithmetic.  Used only (a) to fold closed
constant sub-terms and (b) to confirm that two different symbolic terms really denote different
numbers somewhere in a cell before an alarm is raised.  The code under analysis is never run."""
import ctypes as C
from fractions import Fraction

_m = C.CDLL("libmpfr.so.6")
_g = C.CDLL("libgmp.so.10")


class MP(C.Structure):
    _fields_ = [("p", C.c_long), ("s", C.c_int), ("e", C.c_long), ("d", C.c_void_p)]


class MZ(C.Structure):
    _fields_ = [("a", C.c_int), ("s", C.c_int), ("d", C.c_void_p)]


P = C.POINTER(MP)
for n in ("mpfr_get_emin_min", "mpfr_get_emax_max", "mpfr_get_z_2exp"):
    getattr(_m, n).restype = C.c_long
_m.mpfr_set_emin.argtypes = _m.mpfr_set_emax.argtypes = [C.c_long]
_m.mpfr_init2.argtypes = [P, C.c_long]
_m.mpfr_set_z_2exp.argtypes = [P, C.POINTER(MZ), C.c_long, C.c_int]
_g.__gmpz_get_str.restype = C.c_void_p
EMIN, EMAX = _m.mpfr_get_emin_min(), _m.mpfr_get_emax_max()
RND = {'N': 0, 'Z': 1, 'U': 2, 'D': 3, 'A': 4}
FMT = {'f': (24, -148, 128), 'd': (53, -1073, 1024), 'l': (64, -16444, 16384)}

# value representation: Fraction, or one of the strings
PINF, NINF, NAN, NZERO = 'pinf', 'ninf', 'nan', 'nzero'


def fparams(fmt):
    return FMT[fmt] if isinstance(fmt, str) else fmt[1:4]


class Var:
    def __init__(self, prec=64):
        self.m = MP()
        _m.mpfr_init2(C.byref(self.m), prec)

    def __del__(self):
        try:
            _m.mpfr_clear(C.byref(self.m))
        except Exception:
            pass


def to_mp(v):
    """exact MPFR copy of a dyadic value"""
    if isinstance(v, Fraction):
        n, d = v.numerator, v.denominator
        e = -(d.bit_length() - 1)
        assert d & (d - 1) == 0, "not dyadic"
        if n == 0:
            r = Var(2)
            _m.mpfr_set_zero(C.byref(r.m), 1)
            return r
        tz = (n & -n).bit_length() - 1
        n >>= tz
        e += tz
        r = Var(max(2, abs(n).bit_length()))
        z = MZ()
        _g.__gmpz_init_set_str(C.byref(z), format(n, 'x').encode(), 16)
        _m.mpfr_set_z_2exp(C.byref(r.m), C.byref(z), e, 0)
        _g.__gmpz_clear(C.byref(z))
        return r
    r = Var(2)
    if v == PINF:
        _m.mpfr_set_inf(C.byref(r.m), 1)
    elif v == NINF:
        _m.mpfr_set_inf(C.byref(r.m), -1)
    elif v == NZERO:
        _m.mpfr_set_zero(C.byref(r.m), -1)
    else:
        _m.mpfr_set_nan(C.byref(r.m))
    return r


def from_mp(r):
    b = C.byref(r.m)
    if _m.mpfr_nan_p(b):
        return NAN
    if _m.mpfr_inf_p(b):
        return PINF if _m.mpfr_sgn(b) > 0 else NINF
    if _m.mpfr_zero_p(b):
        return NZERO if _m.mpfr_signbit(b) else Fraction(0)
    z = MZ()
    _g.__gmpz_init(C.byref(z))
    e = _m.mpfr_get_z_2exp(C.byref(z), b)
    p = _g.__gmpz_get_str(None, 16, C.byref(z))
    n = int(C.string_at(p).decode(), 16)
    _g.__gmpz_clear(C.byref(z))
    return Fraction(n) * (Fraction(2) ** e)


def wide():
    _m.mpfr_set_emin(EMIN)
    _m.mpfr_set_emax(EMAX)


def neg(v):
    if isinstance(v, Fraction):
        return NZERO if v == 0 else -v
    return {PINF: NINF, NINF: PINF, NAN: NAN, NZERO: Fraction(0)}[v]


def is0(v):
    return v == NZERO or (isinstance(v, Fraction) and v == 0)


def cmpv(a, b):
    """-1,0,1 or None (NaN)"""
    if a == NAN or b == NAN:
        return None
    ka, kb = _key(a), _key(b)
    return (ka > kb) - (ka < kb)


def _key(a):
    if a == PINF:
        return (1, 0)
    if a == NINF:
        return (-1, 0)
    if a == NZERO:
        return (0, Fraction(0))
    return (0, a)


UN = {'sqrt', 'exp', 'exp2', 'exp10', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh',
      'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'sqr', 'expm1', 'log1p', 'cbrt', 'rec_sqrt', 'sec', 'csc', 'cot'}
BIN = {'add', 'sub', 'mul', 'div', 'atan2', 'pow', 'hypot', 'fmod', 'remainder'}


class Cannot(Exception):
    pass


def _exponents(fmt):
    p, lo, hi = fparams(fmt)
    if not isinstance(lo, int) or not isinstance(hi, int):
        raise Cannot('history dependent exponent range')
    return p, lo, hi


def op_round(op, args, fmt, mode, iargs=()):
    """correctly rounded op(args) -> (value, ternary sign).  IEEE formats get subnormal rounding."""
    p, lo, hi = _exponents(fmt)
    if mode not in RND:
        raise Cannot('rounding mode ' + str(mode))
    wide()
    ms = [to_mp(a) for a in args]
    r = Var(p)
    ieee = isinstance(fmt, str) or fmt[0] == 's'
    b = C.byref(r.m)
    a = [C.byref(x.m) for x in ms]
    _m.mpfr_set_emin(lo)
    _m.mpfr_set_emax(hi)
    # inputs may lie outside the destination exponent range; MPFR requires operands within range, so
    # compute in the wide range with extra care: first wide computation, then range check + subnormalize
    wide()
    R = RND[mode]
    if op == 'id':
        t = _m.mpfr_set4(b, a[0], R, C.c_int(ms[0].m.s)) if False else _m.mpfr_set(b, a[0], R) if hasattr(_m, 'mpfr_set') else _m.mpfr_set4(b, a[0], R, ms[0].m.s)
    elif op in UN:
        t = getattr(_m, 'mpfr_' + op)(b, a[0], R)
    elif op in BIN:
        t = getattr(_m, 'mpfr_' + op)(b, a[0], a[1], R)
    elif op == 'fma':
        t = _m.mpfr_fma(b, a[0], a[1], a[2], R)
    elif op == 'powi':
        t = _m.mpfr_pow_si(b, a[0], C.c_long(iargs[0]), R)
    elif op == 'root':
        t = _m.mpfr_rootn_ui(b, a[0], C.c_ulong(iargs[0]), R)
    elif op == 'pi':
        t = _m.mpfr_const_pi(b, R)
    else:
        raise Cannot('op ' + op)
    _m.mpfr_set_emin(lo)
    _m.mpfr_set_emax(hi)
    t = _m.mpfr_check_range(b, t, R)
    if ieee:
        t = _m.mpfr_subnormalize(b, t, R)
    v = from_mp(r)
    wide()
    return v, (t > 0) - (t < 0)


def round_to(v, fmt, mode):
    return op_round('id', [v], fmt, mode)


def in_fmt(v, fmt):
    if not isinstance(v, Fraction):
        return True
    if v == 0:
        return True
    d = v.denominator
    if d & (d - 1):
        return False
    p, lo, hi = fparams(fmt)
    if not isinstance(lo, int) or not isinstance(hi, int):
        return False
    n = abs(v.numerator)
    tz = (n & -n).bit_length() - 1
    bits = n.bit_length() - tz
    e = n.bit_length() - (d.bit_length() - 1)      # value in [2^(e-1), 2^e)
    if e > hi or bits > p:
        return False
    if isinstance(fmt, str) or fmt[0] == 's':
        ulp = tz - (d.bit_length() - 1)
        return ulp >= lo - 1
    return e >= lo


def next_val(v, fmt, up):
    """neighbour in an IEEE format"""
    p, lo, hi = fparams(fmt)
    mx = (Fraction(2) ** hi) * (1 - Fraction(1, 2 ** p))
    if not up:
        return neg(next_val(neg(v), fmt, True))
    if v == PINF or v == NAN:
        return v
    if v == NINF:
        return -mx
    if v == NZERO:
        v = Fraction(0)
    if v >= mx:
        return PINF
    tiny = Fraction(2) ** (lo - 1)
    if v == 0:
        return tiny
    w = v + tiny / 4 if abs(v) < 1 else v + Fraction(1, 2 ** (p + 4)) * abs(v)
    r = op_round('id', [w], fmt, 'U')[0]
    if r == v or cmpv(r, v) <= 0:
        w = v + abs(v) * Fraction(1, 2 ** (p + 2))
        r = op_round('id', [w], fmt, 'U')[0]
    return r


def exact2(op, a, b):
    """exact extended-real add / mul / div"""
    if a == NAN or b == NAN:
        return NAN
    fa, fb = isinstance(a, Fraction) or a == NZERO, isinstance(b, Fraction) or b == NZERO
    if fa and fb:
        x = Fraction(0) if a == NZERO else a
        y = Fraction(0) if b == NZERO else b
        if op == 'add':
            if x == 0 and y == 0 and a == NZERO and b == NZERO:
                return NZERO
            return x + y
        sgn = (sign_bit(a) != sign_bit(b))
        if op == 'mul':
            r = x * y
            return NZERO if r == 0 and sgn else r
        if op == 'div':
            if y == 0:
                return NAN if x == 0 else (NINF if sgn else PINF)
            r = x / y
            return NZERO if r == 0 and sgn else r
    sa, sb = sign_bit(a), sign_bit(b)
    if op == 'add':
        if not fa and not fb:
            return a if a == b else NAN
        return b if fa else a
    if op == 'mul':
        if (fa and is0(a)) or (fb and is0(b)):
            return NAN
        return NINF if sa != sb else PINF
    if op == 'div':
        if not fa and not fb:
            return NAN
        if fa:
            return NZERO if sa != sb else Fraction(0)
        return NINF if sa != sb else PINF
    raise Cannot(op)


def sign_bit(v):
    if isinstance(v, Fraction):
        return v < 0
    return v in (NINF, NZERO)
