"""Driver generation: wrappers for the library's operations and the entries over them."""
import itertools
from fractions import Fraction
from terms import mk, con, NAN_T, PINF_T, NINF_T, ZERO_T, ONE_T, Term, KZ
from cells import Split
from interp import Abort
import models
from harness import Operand, Entry, IVal, get_iv, V, Cn
from specs import E, ILL, TRV, DEF, DAC, COM, C0, C1, CM1

TN = {'f': 'float', 'd': 'double', 'l': 'LD'}
ORDER = 'fdl'
UN_ELEM = ['sqrt', 'exp', 'exp2', 'exp10', 'log', 'log2', 'log10', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh']
ARITH = [('pos', 1), ('neg', 1), ('add', 2), ('sub', 2), ('mul', 2), ('div', 2), ('recip', 1), ('sqr', 1), ('sqrt', 1), ('fma', 3)]
EXACT = [('abs', 1), ('min', 2), ('max', 2), ('sign', 1), ('ceil', 1), ('floor', 1), ('trunc', 1), ('round_ties_to_even', 1), ('round_ties_to_away', 1)]
NAMES = ['x', 'y', 'z']
PINT = ('rng', -2 ** 31, 2 ** 31 - 1, None)


def maxt(ts):
    return max(ts, key=ORDER.index)


def rep(t, dec):
    return ('DI<%s>' if dec else 'IV<%s>') % TN[t]


def call(form, op, to, dec, args):
    """call expression in one of the public spellings"""
    if form == 'free':
        return f"p1788::infsup::{op}({', '.join(args)})"
    if form == 'op':
        sym = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'pos': '+', 'neg': '-'}[op]
        return f'{args[0]} {sym} {args[1]}' if len(args) == 2 else f'{sym}{args[0]}'
    return f"{rep(to, dec)}::{op}({', '.join(args)})"


def wrapper(name, form, op, to, tys, dec, intarg=False, res=None):
    ps = ', '.join(f'{rep(t, dec)} const* {n}' for t, n in zip(tys, NAMES))
    as_ = [f'*{n}' for n in NAMES[:len(tys)]]
    if intarg:
        ps += ', int p'
        as_.append('p')
    return f'void {name}({res or rep(to, dec)}* o, {ps}) {{ *o = {call(form, op, to, dec, as_)}; }}\n'


def where(op, group, dec, mixed):
    return f"{op} ({'decorated' if dec else 'bare'}{' mixed-type' if mixed else ''})"


def round_iv(S, to, r):
    if r is None:
        return NAN_T, NAN_T
    return S.R(to, 'D', r[0]), S.R(to, 'U', r[1])


def dmin(S, a, b):
    """minimum of two decorations (ints, lin terms, gated)"""
    if isinstance(a, Term) and a.op == 'ite':
        return S.I.ite(a.a[0], dmin(S, a.a[1], b), dmin(S, a.a[2], b))
    if isinstance(b, Term) and b.op == 'ite':
        return S.I.ite(b.a[0], dmin(S, a, b.a[1]), dmin(S, a, b.a[2]))
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    r = S.I.icmp('sle', a, b)
    if r is True:
        return a
    if r is False:
        return b
    raise Abort('decoration order')


def comdec(S, to, lo, hi):
    """com unless the rounded result is unbounded"""
    c = S.c
    return S.I.ite(c.bor(c.eq_inf(lo, -1), c.eq_inf(hi, 1)), DAC, COM)


def isint(S, t):
    """t is an integer (finite)"""
    return S.c.eq(models.rnd_int(S.I, 'floor', t), t)


def local_dec(S, op, xs, p, to, lo, hi, r):
    e = E(S)
    com = lambda: comdec(S, to, lo, hi)
    x = xs[0]
    if op in ('div', 'recip'):
        y = xs[-1]
        return TRV if S.sign(y[0]) <= 0 <= S.sign(y[1]) else com()
    if op == 'sqrt':
        return TRV if S.sign(x[0]) < 0 else com()
    if op in ('log', 'log2', 'log10'):
        return TRV if S.sign(x[0]) <= 0 else com()
    if op in ('asin', 'acos'):
        return TRV if e.rel(x[0], CM1) < 0 or e.rel(x[1], C1) > 0 else com()
    if op == 'acosh':
        return TRV if e.rel(x[0], C1) < 0 else com()
    if op == 'atanh':
        return TRV if e.rel(x[0], CM1) <= 0 or e.rel(x[1], C1) >= 0 else com()
    if op == 'pown':
        lo_, hi_, _ = models.int_facts(S.I, p)
        if hi_ < 0:
            return TRV if S.sign(x[0]) <= 0 <= S.sign(x[1]) else com()
        return com()
    if op == 'pow':
        y = xs[1]
        s = S.sign(x[0])
        if s < 0 or (s == 0 and S.sign(y[0]) <= 0):
            return TRV
        return com()
    if op == 'atan2':
        y, x = xs
        sy0, sy1, sx0, sx1 = S.sign(y[0]), S.sign(y[1]), S.sign(x[0]), S.sign(x[1])
        if sx0 <= 0 <= sx1 and sy0 <= 0 <= sy1:
            return TRV
        if sx0 < 0 and sy0 <= 0 <= sy1:
            return DEF if sy0 < 0 else DAC
        return com()
    if op == 'sign':
        s0, s1 = S.sign(x[0]), S.sign(x[1])
        if s0 != s1:
            return DEF
        return DAC if s0 == 0 else com()
    if op in ('ceil', 'floor', 'trunc', 'round_ties_to_even', 'round_ties_to_away'):
        c = S.c
        const = c.eq(r[0], r[1])
        if op == 'ceil':
            jump = isint(S, x[1])
        elif op == 'floor':
            jump = isint(S, x[0])
        elif op == 'trunc':
            s0, s1 = S.sign(x[0]), S.sign(x[1])
            # constant on x: a jump is touched iff the bound of smaller magnitude is a non-zero integer
            jump = isint(S, x[0]) if s0 > 0 else isint(S, x[1]) if s1 < 0 else False
        else:
            half = con(Fraction(1, 2))
            jump = c.bor(ishalf(S, x[0]), ishalf(S, x[1]))
        # infinite bounds: value is unbounded -> dac at best
        return S.I.ite(const, S.I.ite(jump, DAC, com()), DEF)
    return com()


def ishalf(S, t):
    """t is k + 1/2"""
    c = S.c
    m = c.abs(t)
    return c.eq(con(Fraction(1, 2)), c.sub(m, models.rnd_int(S.I, 'floor', m)))


def image(S, op, xs, p=None):
    e = E(S)
    f = getattr(e, op)
    return f(*xs, p) if p is not None else f(*xs)


def get_p(out, entry):
    return out.I.parg if hasattr(out.I, 'parg') else None


def mk_elem(prop, op, n, to, tys, dec, intarg=False, form='static'):
    name = f"{'d' if dec else 'b'}_{op}_{to}_{''.join(tys)}" + ('' if form == 'static' else '_' + form)
    ops = [Operand(NAMES[i], tys[i], dec) for i in range(n)]
    src = wrapper(name, form, op, to, tys, dec, intarg)

    def setup(I, st, args):
        if intarg:
            I.parg = mk('lin', 'p', 1, 0)
            lo, hi, _ = I.lin_range(I.parg)
            if lo == hi:
                I.parg = lo
            return args + [I.parg]
        return args

    def spec(S, ivs, out):
        p = S.I.parg if intarg else None
        exc = []
        if dec and any(v.nai for v in ivs):
            return [('lower bound', NAN_T, 'num'), ('upper bound', NAN_T, 'num'), ('decoration', ILL, 'int')]
        if any(v.empty for v in ivs):
            r = None
            lo, hi = NAN_T, NAN_T
        else:
            xs = [(v.lo, v.hi) for v in ivs]
            r = image(S, op, xs, p)
            lo, hi = round_iv(S, to, r)
        res = [('lower bound', lo, 'num'), ('upper bound', hi, 'num')]
        if dec:
            if r is None:
                d = TRV
            else:
                d = local_dec(S, op, xs, p, to, lo, hi, r)
                for v in ivs:
                    d = dmin(S, d, v.dec)
            res.append(('decoration', d, 'int'))
        return res

    def outs(out):
        if out.kind != 'ret':
            raise Abort('operation ends in ' + out.kind)
        return get_iv(out.st, 'out', to, dec)
    return src, name, ops, spec, outs, setup


def kinds_for(n, dec, nai=False):
    base = ['E', 'com', 'ncom'] if dec else ['E', 'N']
    if nai:
        base = ['I'] + base
    out = []
    for k in itertools.product(base, repeat=n):
        # several empties are redundant only in the sense of cost: keep them, they are cheap
        out.append(k)
    return out


def elem_entry(prop, op, n, to, tys, dec, intarg=False, nai=False, form='static'):
    src, name, ops, spec, outs, setup = mk_elem(prop, op, n, to, tys, dec, intarg, form)
    mixed = len(set(list(tys) + [to])) > 1
    ex = {'ints': {'p': PINT}} if intarg else {}
    return src, Entry(prop, name, name, ops, spec, outs, where(op, '', dec, mixed), kinds_for(n, dec, nai), extra=ex, setup=setup)
