"""Entries for everything that is not an elementary function: relations, numeric functions, set operations,
cancellation, reverse operations, constructors.  Expected values are written from IEEE Std 1788-2015."""
import itertools
from fractions import Fraction
from terms import mk, con, NAN_T, PINF_T, NINF_T, ZERO_T, ONE_T, Term, KZ, KNAN, KP, KN, KPI, KNI
from cells import Split
from interp import Abort, UNDEF
import models, numeval as NV
from harness import Operand, Entry, IVal, get_iv, get_fp, V, Cn, SZ
from specs import E, ILL, TRV, DEF, DAC, COM
from build import TN, NAMES, ORDER, maxt, rep, kinds_for, round_iv, comdec, dmin
from runner import Unit

NZERO = con(NV.NZERO) if hasattr(NV, 'NZERO') else None
MAXV = {}


def generic(name, out, body, ops, spec, outs, where, kinds, params='', setup=None, extra=None, pre='', cost=1, exc=None):
    """void name(out* o, const operand*..., params) { body }"""
    ps = [f'{out}* o'] + [f'{rep(o.ty, o.dec)} const* {o.name}' for o in ops]
    if params:
        ps.append(params)
    src = f"void {name}({', '.join(ps)}) {{ {body} }}\n"

    def outs2(o):
        if exc != 'any' and o.kind != 'ret':
            raise Abort('operation ends in ' + o.kind)
        return outs(o)
    return Unit(src, Entry('', name, name, ops, spec, outs2, where, kinds, extra=extra or {}, setup=setup), pre=pre, cost=cost)


# ---- boolean relations ---------------------------------------------------------------------------
def rel_spec(S, fn, x, y=None):
    """x, y: IVal, valid, not NaI"""
    c = S.c
    le = lambda a, b: c.bnot(c.lt(b, a))
    lt = c.lt
    eq = c.eq
    inf = lambda t, s: c.eq_inf(t, s)

    def strict(a, b, s):     # a < b, or both the same infinity
        return c.bor(lt(a, b), c.band(inf(a, s), inf(b, s)))
    if fn == 'is_empty':
        return x.empty
    if fn == 'is_entire':
        return False if x.empty else c.band(inf(x.lo, -1), inf(x.hi, 1))
    if fn == 'is_common_interval':
        return False if x.empty else c.band(c.bnot(inf(x.lo, -1)), c.bnot(inf(x.hi, 1)))
    if fn == 'is_singleton':
        return False if x.empty else eq(x.lo, x.hi)
    inv = {'superset': 'subset', 'greater': 'less', 'succeeds': 'precedes', 'contains_interior': 'interior',
           'strictly_greater': 'strictly_less', 'strictly_succeeds': 'strictly_precedes'}
    if fn in inv:
        return rel_spec(S, inv[fn], y, x)
    ex, ey = x.empty, y.empty
    if fn == 'equal':
        return ex and ey if ex or ey else c.band(eq(x.lo, y.lo), eq(x.hi, y.hi))
    if fn == 'subset':
        return True if ex else False if ey else c.band(le(y.lo, x.lo), le(x.hi, y.hi))
    if fn == 'interior':
        return True if ex else False if ey else c.band(strict(y.lo, x.lo, -1), strict(x.hi, y.hi, 1))
    if fn == 'less':
        return ex and ey if ex or ey else c.band(le(x.lo, y.lo), le(x.hi, y.hi))
    if fn == 'strictly_less':
        return ex and ey if ex or ey else c.band(strict(x.lo, y.lo, -1), strict(x.hi, y.hi, 1))
    if fn == 'precedes':
        return True if ex or ey else le(x.hi, y.lo)
    if fn == 'strictly_precedes':
        return True if ex or ey else lt(x.hi, y.lo)
    if fn == 'disjoint':
        return True if ex or ey else c.bor(lt(x.hi, y.lo), lt(y.hi, x.lo))
    raise KeyError(fn)


REL1 = ['is_empty', 'is_entire', 'is_common_interval', 'is_singleton']
REL2 = ['equal', 'subset', 'superset', 'less', 'greater', 'precedes', 'succeeds', 'interior', 'contains_interior',
        'strictly_less', 'strictly_greater', 'strictly_precedes', 'strictly_succeeds', 'disjoint']


def out0(o):
    return [get_fp(o.st, 'out', 0, 'b')]


def bool_unit(fn, tys, dec, form='static', nai=True, kinds=None):
    n = len(tys)
    ops = [Operand(NAMES[i], tys[i], dec) for i in range(n)]
    args = ', '.join('*' + o.name for o in ops)
    if form == 'member':       # written as a call on the other operand's class
        e = f'{rep(tys[0], dec)}::{fn}({args})'
    elif form == 'free':
        e = f'p1788::infsup::{fn}({args})'
    elif form in ('==', '!='):
        e = f'*x {form} *y'
    else:
        e = f'{rep(tys[0], dec)}::{fn}({args})'

    def spec(S, ivs, out):
        if any(v.nai for v in ivs):
            r = False
        else:
            r = rel_spec(S, fn, *ivs)
        return [('truth value', r if form != '!=' else S.c.bnot(r), 'int')]
    nm = {'==': 'eq', '!=': 'ne'}.get(form, form)
    name = f"{'d' if dec else 'b'}_{fn}_{''.join(tys)}_{nm}"
    return generic(name, 'unsigned char', f'*o = {e};', ops, spec, out0, f"{fn} ({'decorated' if dec else 'bare'})",
                   kinds or kinds_for(n, dec, nai and dec))


def member_unit(mt, t, dec, form='static'):
    ops = [Operand('x', t, dec)]
    name = f"{'d' if dec else 'b'}_is_member_{mt}_{t}_{form}"
    e = f'{rep(t, dec)}::is_member(m, *x)' if form == 'static' else f'p1788::infsup::is_member(m, *x)'

    def spec(S, ivs, out):
        x, = ivs
        m = S.I.margs
        c = S.c
        if x.empty or x.nai:
            return [('truth value', False, 'int')]
        r = c.band(c.bnot(c.lt(m, x.lo)), c.bnot(c.lt(x.hi, m)))
        r = c.band(r, c.band(c.bnot(c.eq_inf(m, 1)), c.bnot(c.eq_inf(m, -1))))
        return [('truth value', r, 'int')]

    def setup(I, st, args):
        I.margs = I.ctx.var('m')
        return args + [I.margs]

    def setupnan(I, st, args):
        I.margs = NAN_T
        return args + [NAN_T]

    def decl(root, kinds):
        root.declare('m', mt)
    u = generic(name, 'unsigned char', f'*o = {e};', ops, spec, out0, f"is_member ({'decorated' if dec else 'bare'})", kinds_for(1, dec, dec),
                params=f'{TN[mt]} m', setup=setup, extra={'decl': decl})

    def specnan(S, ivs, out):
        return [('truth value for NaN', False, 'int')]
    u2 = generic(name + '_nan', 'unsigned char', f'*o = {e};', ops, specnan, out0, f"is_member ({'decorated' if dec else 'bare'})", kinds_for(1, dec, dec),
                 params=f'{TN[mt]} m', setup=setupnan)
    return [u, u2]


def isnai_unit(t, form='static'):
    ops = [Operand('x', t, True)]
    e = f'{rep(t, True)}::is_nai(*x)' if form == 'static' else 'p1788::infsup::is_nai(*x)'
    return generic(f'd_is_nai_{t}_{form}', 'unsigned char', f'*o = {e};', ops, lambda S, ivs, o: [('truth value', ivs[0].nai, 'int')], out0,
                   'is_nai', kinds_for(1, True, True))


# ---- overlap -------------------------------------------------------------------------------------
OV = {n: (0 if i == 0 else 1 << (i - 1)) for i, n in enumerate(
    ['undefined', 'both_empty', 'first_empty', 'second_empty', 'before', 'meets', 'overlaps', 'starts', 'contained_by', 'finishes',
     'equal', 'finished_by', 'contains', 'started_by', 'overlapped_by', 'met_by', 'after'])}


def overlap_spec(S, x, y):
    """table of the standard over the order of the bounds (a,b) and (c,d): returns the state"""
    if x.nai or y.nai:
        return 0
    if x.empty or y.empty:
        return OV['both_empty'] if x.empty and y.empty else OV['first_empty'] if x.empty else OV['second_empty']

    def cmp(p, q):
        r = S.c.lt(p, q)
        if r is True:
            return -1
        if r is not False:
            raise Split('fp', S.c.node(p), S.c.node(q))
        r = S.c.lt(q, p)
        if r is True:
            return 1
        if r is not False:
            raise Split('fp', S.c.node(p), S.c.node(q))
        return 0
    if cmp(x.hi, y.lo) < 0:
        return OV['before']
    if cmp(y.hi, x.lo) < 0:
        return OV['after']
    lo, hi = cmp(x.lo, y.lo), cmp(x.hi, y.hi)
    # a touching pair meets only if both are proper there: a < b = c < d; degenerate cases are starts/finishes/equal
    if cmp(x.hi, y.lo) == 0 and lo < 0 and hi < 0:
        return OV['meets']
    if cmp(y.hi, x.lo) == 0 and lo > 0 and hi > 0:
        return OV['met_by']
    t = {(-1, -1): 'overlaps', (-1, 0): 'finished_by', (-1, 1): 'contains', (0, -1): 'starts', (0, 0): 'equal', (0, 1): 'started_by',
         (1, -1): 'contained_by', (1, 0): 'finishes', (1, 1): 'overlapped_by'}
    return OV[t[(lo, hi)]]


def overlap_unit(tys, dec, form='static'):
    ops = [Operand(NAMES[i], tys[i], dec) for i in range(2)]
    e = f'{rep(tys[0], dec)}::overlap(*x, *y)' if form == 'static' else 'p1788::infsup::overlap(*x, *y)'
    return generic(f"{'d' if dec else 'b'}_overlap_{''.join(tys)}_{form}", 'p1788::overlapping::overlapping_state', f'*o = {e};', ops,
                   lambda S, ivs, o: [('overlap state', overlap_spec(S, *ivs), 'int')], out0, f"overlap ({'decorated' if dec else 'bare'})",
                   kinds_for(2, dec, dec), cost=3)


# ---- numeric functions ---------------------------------------------------------------------------
def zpos(c, t):
    """+0 instead of either zero"""
    return c.ite_(c.eq(t, ZERO_T), ZERO_T, t) if hasattr(c, 'ite_') else t


def tmax(t):
    p, e = {'f': (24, 128), 'd': (53, 1024), 'l': (64, 16384)}[t]
    return con(Fraction(2 ** p - 1) * Fraction(2) ** (e - p))


def num_spec(S, fn, to, x):
    c = S.c
    if x.nai:
        return NAN_T
    if x.empty:
        return {'inf': PINF_T, 'sup': NINF_T}.get(fn, NAN_T)
    e = E(S)
    if fn == 'inf':
        return S.R(to, 'D', x.lo)
    if fn == 'sup':
        return S.R(to, 'U', x.hi)
    if fn == 'mag':
        return S.R(to, 'U', e.mag((x.lo, x.hi)))
    if fn == 'mig':
        return S.R(to, 'D', e.mig((x.lo, x.hi)))
    if fn == 'wid':
        return S.R(to, 'U', c.sub(x.hi, x.lo))

    def isinf(t, s):
        r = c.eq_inf(t, s)
        if r is True or r is False:
            return r
        raise Split('fp', c.node(t), ('c', 'pinf' if s > 0 else 'ninf'))
    l, u = isinf(x.lo, -1), isinf(x.hi, 1)
    if l and u:
        m = ZERO_T
    elif l:
        m = c.neg(tmax(to))
    elif u:
        m = tmax(to)
    else:
        m = S.R(to, 'N', c.add(c.mul(con(Fraction(1, 2)), x.lo), c.mul(con(Fraction(1, 2)), x.hi)))
    if fn == 'mid':
        return m
    if l or u:
        return PINF_T
    return S.R(to, 'U', c.minmax('max', [c.sub(m, x.lo), c.sub(x.hi, m)]))


NUMF = ['inf', 'sup', 'mid', 'rad', 'wid', 'mag', 'mig']


def num_unit(fn, to, t, dec, form='static'):
    ops = [Operand('x', t, dec)]
    name = f"{'d' if dec else 'b'}_{fn}_{to}_{t}_{form}"
    e = f'{rep(to, dec)}::{fn}(*x)' if form == 'static' else f'p1788::infsup::{fn}(*x)'
    if fn == 'mid_rad':
        def spec(S, ivs, o):
            return [('midpoint', num_spec(S, 'mid', to, ivs[0]), 'num'), ('radius', num_spec(S, 'rad', to, ivs[0]), 'num')]

        def outs(o):
            return [get_fp(o.st, 'out', 0, to), get_fp(o.st, 'out', SZ[to], to)]
        return generic(name, f'std::pair<{TN[to]},{TN[to]}>', f'*o = {e};', ops, spec, outs, fn, kinds_for(1, dec, dec))

    def spec(S, ivs, o):
        return [('value', num_spec(S, fn, to, ivs[0]), 'num')]
    return generic(name, TN[to], f'*o = {e};', ops, spec, out0, f"{fn} ({'decorated' if dec else 'bare'})", kinds_for(1, dec, dec))


def sign_unit(fn, to, t, dec):
    """sign of a zero result"""
    ops = [Operand('x', t, dec)]
    want = 1 if fn == 'inf' else 0
    body = f'*o = 2; {TN[to]} r = {rep(to, dec)}::{fn}(*x); if (r == 0) *o = std::signbit(r) ? 1 : 0;'

    def spec(S, ivs, o):
        v = num_spec(S, fn, to, ivs[0])
        c = S.c
        if v is NAN_T:
            return [('sign of zero', 2, 'int')]
        return [('sign of zero', S.I.ite(c.eq(v, ZERO_T), want, 2), 'int')]
    return generic(f"{'d' if dec else 'b'}_{fn}_{to}_{t}_zero", 'unsigned char', body, ops, spec, out0, f'{fn} sign of zero', kinds_for(1, dec, False))


# ---- set operations ------------------------------------------------------------------------------
def nai_res():
    return [('lower bound', NAN_T, 'num'), ('upper bound', NAN_T, 'num'), ('decoration', ILL, 'int')]


def iv_res(lo, hi, dec=None):
    r = [('lower bound', lo, 'num'), ('upper bound', hi, 'num')]
    if dec is not None:
        r.append(('decoration', dec, 'int'))
    return r


def iv_outs(to, dec):
    return lambda o: get_iv(o.st, 'out', to, dec)


def set_spec(S, fn, to, x, y, dec):
    c = S.c
    if dec and (x.nai or y.nai):
        return nai_res()
    d = TRV if dec else None
    if fn == 'intersection':
        if x.empty or y.empty:
            return iv_res(NAN_T, NAN_T, d)
        dis = c.bor(c.lt(x.hi, y.lo), c.lt(y.hi, x.lo))
        if dis is not True and dis is not False:
            raise Split('fp', c.node(x.hi), c.node(y.lo)) if c.cell.rel(c.node(x.hi), c.node(y.lo)) not in ('<', '=', '>') else Split('fp', c.node(y.hi), c.node(x.lo))
        if dis:
            return iv_res(NAN_T, NAN_T, d)
        lo, hi = c.minmax('max', [x.lo, y.lo]), c.minmax('min', [x.hi, y.hi])
    else:
        if x.empty and y.empty:
            return iv_res(NAN_T, NAN_T, d)
        if x.empty or y.empty:
            v = y if x.empty else x
            lo, hi = v.lo, v.hi
        else:
            lo, hi = c.minmax('min', [x.lo, y.lo]), c.minmax('max', [x.hi, y.hi])
    return iv_res(S.R(to, 'D', lo), S.R(to, 'U', hi), d)


def set_unit(fn, to, tys, dec, form='static', nai=True):
    ops = [Operand(NAMES[i], tys[i], dec) for i in range(2)]
    e = f'{rep(to, dec)}::{fn}(*x, *y)' if form == 'static' else f'p1788::infsup::{fn}(*x, *y)'
    return generic(f"{'d' if dec else 'b'}_{fn}_{to}_{''.join(tys)}_{form}", rep(to, dec), f'*o = {e};', ops,
                   lambda S, ivs, o: set_spec(S, fn, to, ivs[0], ivs[1], dec), iv_outs(to, dec), f"{fn} ({'decorated' if dec else 'bare'})",
                   kinds_for(2, dec, dec and nai), cost=3)


# ---- cancellation --------------------------------------------------------------------------------
def cancel_spec(S, fn, to, x, y, dec):
    c = S.c
    if dec and (x.nai or y.nai):
        return nai_res()
    d = TRV if dec else None
    if fn == 'cancel_plus' and not y.empty:
        y = IVal(False, c.neg(y.hi), c.neg(y.lo))

    def unb(v):
        r = c.bor(c.eq_inf(v.lo, -1), c.eq_inf(v.hi, 1))
        if r is True or r is False:
            return r
        if c.eq_inf(v.lo, -1) not in (True, False):
            raise Split('fp', c.node(v.lo), ('c', 'ninf'))
        raise Split('fp', c.node(v.hi), ('c', 'pinf'))
    ent = iv_res(NINF_T, PINF_T, d)
    if not x.empty and unb(x) or not y.empty and unb(y):
        return ent
    if x.empty:
        return iv_res(NAN_T, NAN_T, d)
    if y.empty:
        return ent
    lo, hi = c.sub(x.lo, y.lo), c.sub(x.hi, y.hi)
    # cancellation possible iff width(y) <= width(x), compared exactly: xl - yl <= xu - yu
    w = c.lt(c.sub(x.hi, x.lo), c.sub(y.hi, y.lo))
    I = S.I
    return iv_res(I.ite(w, NINF_T, S.R(to, 'D', lo)), I.ite(w, PINF_T, S.R(to, 'U', hi)), d)


def cancel_unit(fn, to, tys, dec, form='static'):
    ops = [Operand(NAMES[i], tys[i], dec) for i in range(2)]
    e = f'{rep(to, dec)}::{fn}(*x, *y)' if form == 'static' else f'p1788::infsup::{fn}(*x, *y)'
    return generic(f"{'d' if dec else 'b'}_{fn}_{to}_{''.join(tys)}_{form}", rep(to, dec), f'*o = {e};', ops,
                   lambda S, ivs, o: cancel_spec(S, fn, to, ivs[0], ivs[1], dec), iv_outs(to, dec), f"{fn} ({'decorated' if dec else 'bare'})",
                   kinds_for(2, dec, dec), cost=5)


# ---- results together with the exception state ------------------------------------------------------
WS = 'template<typename X> struct WS { X v; unsigned char s; unsigned char t; };\n'
EXCLS = ['undefined_operation', 'possibly_undefined_operation', 'interval_part_of_nai', 'invalid_operand']


def sz_of(to, dec):
    return SZ[to] * (3 if dec else 2)


def guarded(stmt, s0=0, cwd=0):
    """statement run with the given flag word and control word; records the flags after it and what was thrown"""
    pre = f'p1788::exception::state() = p1788::exception::exception_bits({'s' if s0 == 'sym' else s0}); p1788::exception::cwd() = p1788::exception::exception_bits({cwd}); o->t = 0; '
    if cwd:
        c = ''.join(f' catch (p1788::exception::{n}_exception const&) {{ o->t = {1 << i}; }}' for i, n in enumerate(EXCLS))
        stmt = f'try {{ {stmt} }}{c} catch (...) {{ o->t = 255; }}'
    return pre + stmt + ' o->s = (unsigned char)p1788::exception::state();'


def with_flags(unit_name, to, dec, stmt, ops, spec, where, kinds, params='', setup=None, decl=None, ints=None, s0=0, cwd=0, pre='', cost=1, result='iv', rsz=None, rty=None):
    """spec(S, ivs, out) -> (list of result components, flag bits signalled in order)"""
    if result == 'iv':
        base, rt = sz_of(to, dec), rep(to, dec)
        vouts = iv_outs(to, dec)
    else:
        base, rt = rsz, rty
        vouts = result

    def spec2(S, ivs, out):
        res, flags = spec(S, ivs, out)
        thrown = next((f for f in flags if cwd and f & cwd), 0)
        word = mk('lin', 's', 1, 0) if s0 == 'sym' else s0
        for f in flags:
            word = S.I.intop('or', word, f, I32)
            if cwd and f & cwd:
                break
        r = [] if thrown else list(res)
        r = [(l, v, k) for l, v, k in r]
        if thrown:
            r = [(l, v, 'skip') for l, v, k in res]
        return r + [('exception flags', word, 'int'), ('thrown exception class', thrown, 'int')]

    def outs(o):
        return vouts(o) + [get_fp(o.st, 'out', base, 'b'), get_fp(o.st, 'out', base + 1, 'b')]
    ex = {'splitsign': True, 'base': base}
    if decl:
        ex['decl'] = decl
    if ints:
        ex['ints'] = ints
    if cwd:
        ex['splitthrow'] = True
    if s0 == 'sym':
        ex['ints'] = dict(ints or {}, s=('rng', 0, 15, None))
        params += ', unsigned char s' if params else 'unsigned char s'
        setup0 = setup
        setup = lambda I, st, args: (setup0(I, st, args) if setup0 else args) + [mk('lin', 's', 1, 0)]
    return generic(unit_name, f'WS<{rt}>', guarded(stmt, s0, cwd), ops, spec2, outs, where, kinds, params=params, setup=setup, extra=ex, pre=pre + WS, cost=cost)


DEC_KINDS = [0, 4, 8, 12, 16, (1, 3), (5, 7), (9, 11), (13, 15), (17, 255)]


def numparams(types, dec):
    """declaration, setup and kinds of numeric parameters (variable or NaN) followed by an optional decoration"""
    n = len(types)
    kinds = list(itertools.product(*([['var', 'nan']] * n + ([DEC_KINDS] if dec else []))))

    def decl(base):
        def d(root, kinds):
            for i, t in enumerate(types):
                if kinds[base + i] == 'var':
                    root.declare(f'n{i}', t)
            if dec and isinstance(kinds[base + n], tuple):
                root.ints['q'] = ('rng', *kinds[base + n], None)
        return d

    def setup(base):
        def s(I, st, args):
            I.nums = [I.ctx.var(f'n{i}') if I.kinds[base + i] == 'var' else NAN_T for i in range(n)]
            I.q = None
            if dec:
                k = I.kinds[base + n]
                I.q = k if isinstance(k, int) else mk('lin', 'q', 1, 0)
            return args + I.nums + ([I.q] if dec else [])
        return s
    return decl, setup, kinds


def decide(S, c):
    """the condition as a Python bool, refining the cell"""
    if isinstance(c, bool):
        return c
    S.I.split_on(c)
    raise Abort('spec: undecided condition')


def nums_spec(S, to, lo, hi, q, dec):
    """construction from two numbers and, if q is not None, a decoration"""
    c = S.c
    fail = (nai_res() if dec else iv_res(NAN_T, NAN_T))
    if q is not None and (isinstance(q, Term) or q not in (0, 4, 8, 12, 16)):
        return fail, [8]
    if lo is NAN_T or hi is NAN_T:
        return fail, [1]
    bad = c.bor(c.lt(hi, lo), c.bor(c.eq_inf(lo, 1), c.eq_inf(hi, -1)))
    if decide(S, bad):
        return fail, [1]
    if q == 0 or q == 16 and decide(S, c.bor(c.eq_inf(lo, -1), c.eq_inf(hi, 1))):
        return fail, [1]
    l, u = S.R(to, 'D', lo), S.R(to, 'U', hi)
    if not dec:
        return iv_res(l, u), []
    d = comdec(S, to, l, u)
    if q is not None:
        d = dmin(S, d, q)
    return iv_res(l, u, d), []


def nums_unit(to, lt, ut, dec, withdec=False, form='ctor', s0=0, cwd=0):
    decl, setup, kinds = numparams([lt, ut], withdec)
    a = 'a, b' + (', (p1788::decoration::decoration)q' if withdec else '')
    if form == 'ctor':
        stmt = f'o->v = {rep(to, dec)}({a});'
        rt = None
    name = f"{'d' if dec else 'b'}_nums{'dec' if withdec else ''}_{to}_{lt}{ut}_{s0}_{cwd}"
    return with_flags(name, to, dec, stmt, [], lambda S, ivs, o: nums_spec(S, to, S.I.nums[0], S.I.nums[1], S.I.q, dec),
                      f"construction from two numbers{' and a decoration' if withdec else ''} ({'decorated' if dec else 'bare'})", kinds,
                      params=f'{TN[lt]} a, {TN[ut]} b' + (', unsigned char q' if withdec else ''), setup=setup(0), decl=decl(0), s0=s0, cwd=cwd)


INV_B = ['XN1', 'XN2', 'XG', 'XP', 'XM']
INV_D = ['XN1', 'XN2', 'XG', 'XP', 'XM', 'XEd', 'XId', 'Xcom']


def conv_spec(S, to, x, sdec, ddec, q):
    """conversion of an interval object (sdec: the source is decorated) to a bare / decorated one"""
    c = S.c
    fail = nai_res() if ddec else iv_res(NAN_T, NAN_T)
    flags = []
    if q is not None and (isinstance(q, Term) or q not in (0, 4, 8, 12, 16)):
        return fail, [8]
    if x.invalid:
        return fail, [8]
    if x.nai:
        return fail, ([] if ddec else [4])
    if q == 0:
        return fail, []
    if x.empty:
        return (iv_res(NAN_T, NAN_T, TRV) if ddec else fail), []
    l, u = S.R(to, 'D', x.lo), S.R(to, 'U', x.hi)
    if not ddec:
        return iv_res(l, u), []
    d = comdec(S, to, l, u)
    if q is not None:
        d = dmin(S, d, q)
    elif sdec:
        d = dmin(S, d, x.dec)
    return iv_res(l, u, d), []


def conv_unit(to, t, sdec, ddec, withdec=False, s0=0, cwd=0):
    op = Operand('x', t, sdec)
    base = ['I', 'E', 'com', 'ncom'] + INV_D if sdec else ['E', 'N'] + INV_B
    decl, setup, pk = numparams([], withdec)
    kinds = [(k,) + p for k in base for p in pk]
    a = '*x' + (', (p1788::decoration::decoration)q' if withdec else '')
    name = f"{'d' if sdec else 'b'}2{'d' if ddec else 'b'}{'dec' if withdec else ''}_{to}_{t}_{s0}_{cwd}"
    return with_flags(name, to, ddec, f'o->v = {rep(to, ddec)}({a});', [op],
                      lambda S, ivs, o: conv_spec(S, to, ivs[0], sdec, ddec, S.I.q),
                      f"conversion of a {'decorated' if sdec else 'bare'} interval to a {'decorated' if ddec else 'bare'} one{' with a decoration' if withdec else ''}",
                      kinds, params='unsigned char q' if withdec else '', setup=setup(1), decl=decl(1), s0=s0, cwd=cwd)


def const_units(t):
    us = []
    for dec in (False, True):
        for nm, e, r in (('default', f'{rep(t, dec)}()', 'E'), ('empty', f'{rep(t, dec)}::empty()', 'E'), ('entire', f'{rep(t, dec)}::entire()', 'R')) + \
                ((('nai', f'{rep(t, dec)}::nai()', 'I'),) if dec else ()):
            def spec(S, ivs, o, r=r, dec=dec):
                if r == 'I':
                    return nai_res(), []
                if r == 'E':
                    return iv_res(NAN_T, NAN_T, TRV if dec else None), []
                return iv_res(NINF_T, PINF_T, DAC if dec else None), []
            us.append(with_flags(f"{'d' if dec else 'b'}_const_{nm}_{t}", t, dec, f'o->v = {e};', [], spec, f'constant {nm}', [()]))
    return us


def decpart_unit(t, form, s0=0, cwd=0):
    op = Operand('x', t, True)
    e = f'{rep(t, True)}::decoration(*x)' if form == 'static' else 'p1788::infsup::decoration(*x)'

    def spec(S, ivs, o):
        x, = ivs
        if x.invalid:
            return [('decoration', 0, 'int')], [8]
        return [('decoration', 0 if x.nai else 4 if x.empty else x.dec, 'int')], []
    return with_flags(f'd_decoration_{t}_{form}_{s0}_{cwd}', t, True, f'o->v = {e};', [op], spec, 'decoration of an interval', [(k,) for k in ['I', 'E', 'com', 'ncom'] + INV_D],
                      s0=s0, cwd=cwd, result=lambda o: [get_fp(o.st, 'out', 0, 'b')], rsz=1, rty='p1788::decoration::decoration')


# ---- any unit together with the exception state -----------------------------------------------------
import re as _re
RSZ = {'float': 4, 'double': 8, 'LD': 16, 'unsigned char': 1, 'p1788::overlapping::overlapping_state': 4}


def rsize(ty):
    if ty in RSZ:
        return RSZ[ty]
    m = _re.match(r'(IV|DI)<(\w+)>$', ty)
    if m:
        return RSZ[m.group(2)] * (2 if m.group(1) == 'IV' else 3)
    m = _re.match(r'std::pair<(.+?),(.+)>$', ty)
    if m:
        return rsize(m.group(1)) + rsize(m.group(2))
    raise KeyError(ty)


FAIL = {'IV': lambda: iv_res(NAN_T, NAN_T), 'DI': nai_res, 'fl': lambda: [('value', NAN_T, 'num')], 'b': lambda: [('truth value', 0, 'int')],
        'ov': lambda: [('overlap state', 0, 'int')]}


def failval(ty):
    if ty in ('float', 'double', 'LD'):
        return FAIL['fl']()
    if ty == 'unsigned char':
        return FAIL['b']()
    if ty.startswith('p1788'):
        return FAIL['ov']()
    if ty.startswith('std::pair'):
        a, b = _re.match(r'std::pair<(.+?),(.+)>$', ty).groups()
        return failval(a) + failval(b)
    return FAIL[ty[:2]]()


def with_inv(n, dec, full=False):
    """operand kinds with at least one invalid operand"""
    v = ['I', 'E', 'com', 'ncom'] if dec else ['E', 'N']
    inv = INV_D if dec else INV_B
    out = []
    if n < 3 or full:
        return [k for k in itertools.product(v + inv, repeat=n) if any(x in inv for x in k)]
    few = ['I', 'E', 'com'] if dec else ['E', 'N']
    for i in range(n):
        for x in inv:
            for r in itertools.product(few, repeat=n - 1):
                out.append(r[:i] + (x,) + r[i:])
        for j in range(i):
            for x in (inv[0], inv[2]):
                out.append(tuple(x if m in (i, j) else few[-1] for m in range(n)))
    return out


class I32:
    bits = 32


def flagged(u, mode, cwd=0, kinds=None, negate=False, srange=(0, 15)):
    """mode 'inv': at least one operand is invalid; 'valid': none is.  The flag word before the call is arbitrary."""
    m = _re.match(r'void (\w+)\((.*?)\* o, (.*)\) \{ \*o = (.*); \}\n$', u.src)
    if not m:
        return None
    name, ty, params, expr = m.groups()
    e = u.entry
    nm = f'{name}_{mode}{cwd or ""}'
    c = ''.join(f' catch (p1788::exception::{n}_exception const&) {{ o->t = {1 << i}; }}' for i, n in enumerate(EXCLS)) + ' catch (...) { o->t = 255; }'
    body = (f'p1788::exception::state() = p1788::exception::exception_bits(s); p1788::exception::cwd() = p1788::exception::exception_bits({cwd}); o->t = 0; ' +
            (f'try {{ o->v = {expr}; }}{c}' if cwd else f'o->v = {expr};') + ' o->s = (unsigned char)p1788::exception::state();')
    src = f'void {nm}(WS<{ty}>* o, {params}, unsigned char s) {{ {body} }}\n'
    base = rsize(ty)
    dec = bool(e.operands) and e.operands[0].dec

    def setup(I, st, args):
        args = e.setup(I, st, args) if e.setup else args
        return args + [sval()]

    def sval():
        return srange[0] if srange[0] == srange[1] else mk('lin', 's', 1, 0)

    def spec(S, ivs, out):
        s = sval()
        if mode == 'valid':
            return [('exception flags after operation on valid operands', s, 'int'), ('exception thrown', 0, 'int')]
        assert any(v.invalid for v in ivs)
        th = 8 & cwd
        r = [(l, v, 'skip' if th else k) for l, v, k in failval(ty)]
        if negate:
            r = [(l, 1 - v, k) for l, v, k in r]
        return r + [('exception flags after operation on an invalid operand', S.I.intop('or', s, 8, I32), 'int'), ('exception thrown', th, 'int')]

    def outs(o):
        if o.kind != 'ret':
            raise Abort('operation ends in ' + o.kind)
        fl = [get_fp(o.st, 'out', base, 'b'), get_fp(o.st, 'out', base + 1, 'b')]
        if mode == 'valid':
            return fl
        return e.outs(o) + fl
    ex = dict(e.extra)
    ex['base'] = base
    ints = dict(ex.get('ints') or {})
    ints['s'] = ('rng', *srange, None)
    ex['ints'] = ints
    if cwd:
        ex['splitthrow'] = True
    n = len(e.operands)
    if kinds is None:
        kinds = with_inv(n, dec) if mode == 'inv' else e.rootkinds
    return Unit(src, Entry('', nm, nm, e.operands, spec, outs, e.where, kinds, extra=ex, setup=setup), pre=u.pre + WS, cost=u.cost if mode == 'valid' else max(1, min(u.cost, 4)))


# ---- spellings of one operation --------------------------------------------------------------------------
import copy as _copy
OPERATORS = {('pos', 1): '+{0}', ('neg', 1): '-{0}', ('add', 2): '{0} + {1}', ('sub', 2): '{0} - {1}', ('mul', 2): '{0} * {1}', ('div', 2): '{0} / {1}',
             ('equal', 2): '{0} == {1}'}


def spelled(u):
    """the free function and the operator return what the static member returns (which the first call in the body computes)"""
    m = _re.match(r'void (\w+)\((.*?)\* o, (.*)\) \{ \*o = ([ID]V?I?<\w+>|[ID][VI]<[^>]*>)::(\w+)\((.*)\); \}\n$', u.src)
    if not m:
        return []
    name, ty, params, cls, op, args = m.groups()
    al = args.split(', ')
    forms = [('free', f'p1788::infsup::{op}({args})')]
    k = OPERATORS.get((op, len(al)))
    if k:
        forms.append(('operator', k.format(*al)))
    if op == 'equal':
        forms.append(('negated operator', f'!({al[0]} != {al[1]})'))
    e = u.entry
    dec = bool(e.operands) and e.operands[0].dec
    us = []
    for i, (form, expr) in enumerate(forms):
        nm = f'{name}_sp{i}'
        src = f'void {nm}({ty}* o, {params}, {ty}* o2) {{ *o = {cls}::{op}({args}); *o2 = {expr}; }}\n'

        def setup(I, st, args_):
            args_ = e.setup(I, st, args_) if e.setup else args_
            st.mem['out2'] = {}
            st.own.add('out2')
            return args_ + [('P', 'out2', 0)]

        def spec(S, ivs, out, form=form):
            if out.kind != 'ret':
                return [(l + f' of the {form}', None, 'skip') for l, _, _ in failval(ty)]
            return [(l + f' of the {form} against the static member', v, 'int' if isinstance(v, int) else kd) for (l, _, kd), v in zip(failval(ty), e.outs(out))]

        def outs(o):
            if o.kind != 'ret':
                raise Abort('operation ends in ' + o.kind)
            o2 = _copy.copy(o)
            o2.st = _copy.copy(o.st)
            o2.st.mem = dict(o.st.mem)
            o2.st.mem['out'] = o.st.mem['out2']
            return e.outs(o2)
        us.append(Unit(src, Entry('', nm, nm, e.operands, spec, outs, e.where.split(' (')[0] + f" ({'decorated' if dec else 'bare'}, {form})", list(e.rootkinds) + with_inv(len(e.operands), dec),
                                  extra=dict(e.extra), setup=setup), pre=u.pre, cost=max(1, min(u.cost, 4))))
    return us


# ---- the exception mechanism itself ------------------------------------------------------------------
WE = 'struct WE { unsigned char r, s, c, t; };\n'
BITS = {n: 1 << i for i, n in enumerate(EXCLS)}


def exc_units():
    us = []
    ns = 'p1788::exception::'
    cat = ''.join(f' catch ({ns}{n}_exception const&) {{ o->t = {b}; }}' for n, b in BITS.items()) + ' catch (...) { o->t = 255; }'
    base = f' catch ({ns}exception const&) {{ o->t = 100; }} catch (...) {{ o->t = 255; }}'

    def outs(o):
        if o.kind != 'ret':
            raise Abort('operation ends in ' + o.kind)
        return [get_fp(o.st, 'out', i, 'b') for i in range(4)]

    def unit(name, stmt, spec, where, params=('s', 'cw'), catch=cat):
        body = f'{ns}state() = {ns}exception_bits(s); {ns}cwd() = {ns}exception_bits(cw); o->r = 0; o->t = 0; try {{ {stmt} }}{catch} ' \
               f'o->s = (unsigned char){ns}state(); o->c = (unsigned char){ns}cwd();'
        ps = ['s', 'cw'] + [p for p in params if p not in ('s', 'cw')]

        def setup(I, st, args):
            return args + [mk('lin', p, 1, 0) for p in ps]

        def spec2(S, ivs, out):
            v = {p: mk('lin', p, 1, 0) for p in ps}
            r, s, c, t = spec(S, **v)
            return [('value returned', r, 'int' if r is not None else 'skip'), ('flag word', s, 'int'), ('control word', c, 'int'), ('exception thrown', t, 'int')]
        u = generic(name, 'WE', body, [], spec2, outs, where, [()], params=', '.join(f'unsigned char {p}' for p in ps), setup=setup,
                    extra={'ints': {p: ('rng', 0, 15, None) for p in ps}, 'splitthrow': True}, pre=WE)
        us.append(u)
    OR = lambda S, a, b: S.I.intop('or', a, b, I32)
    AND = lambda S, a, b: S.I.intop('and', a, b, I32)

    def val(S, x):
        """the integer, enumerating it"""
        n = x.a[0]
        _, l, h, _ = S.c.cell.ints[n]
        if l == h:
            return l
        raise Split('icmp', n, (l + h) // 2)
    for n, b in BITS.items():
        def sp(S, s, cw, b=b):
            th = val(S, cw) & b
            w = OR(S, s, b)
            return (None if th else w), w, cw, th
        unit('sig_' + n, f'o->r = (unsigned char){ns}signal_{n}();', sp, 'signal_' + n)

        def sp2(S, s, cw, b=b):
            th = 100 if val(S, cw) & b else 0
            w = OR(S, s, b)
            return (None if th else w), w, cw, th
        unit('sigbase_' + n, f'o->r = (unsigned char){ns}signal_{n}();', sp2, 'signal_' + n, catch=base)
        unit('pred_' + n, f'o->r = {ns}{n}();', lambda S, s, cw, b=b: (int(bool(val(S, s) & b)), s, cw, 0), 'flag predicate ' + n)
    unit('clear', f'o->r = (unsigned char){ns}clear();', lambda S, s, cw: (0, 0, cw, 0), 'clear')
    unit('set_cwd', f'o->r = (unsigned char){ns}set_throw_exception_cwd({ns}exception_bits(x));', lambda S, s, cw, x: (x, s, x, 0), 'set_throw_exception_cwd', ('x',))
    unit('get_cwd', f'o->r = (unsigned char){ns}get_throw_exception_cwd();', lambda S, s, cw: (cw, s, cw, 0), 'get_throw_exception_cwd')
    for nm, sym, f in (('and', '&', lambda x, y: x & y), ('or', '|', lambda x, y: x | y), ('xor', '^', lambda x, y: x ^ y)):
        unit('op_' + nm, f'o->r = (unsigned char)({ns}exception_bits(x) {sym} {ns}exception_bits(y));',
             lambda S, s, cw, x, y, f=f: (f(val(S, x), val(S, y)), s, cw, 0), 'operator' + sym, ('x', 'y'))
        unit('asg_' + nm, f'{ns}exception_bits z = {ns}exception_bits(x); {ns}exception_bits& w = (z {sym}= {ns}exception_bits(y)); o->r = (unsigned char)(&w == &z ? z : {ns}exception_bits(200));',
             lambda S, s, cw, x, y, f=f: (f(val(S, x), val(S, y)), s, cw, 0), f'operator{sym}=', ('x', 'y'))
    unit('op_not', f'o->r = (unsigned char)((int)(~{ns}exception_bits(x)) & 15);', lambda S, s, cw, x: (~val(S, x) & 15, s, cw, 0), 'operator~', ('x',))
    # the accessors always name the same object
    unit('same', f'o->r = &{ns}state() == &{ns}state() && &{ns}cwd() == &{ns}cwd();', lambda S, s, cw: (1, s, cw, 0), 'state() and cwd()')
    return us


# ---- reductions --------------------------------------------------------------------------------------
RMODES = {'downward': 'D', 'upward': 'U', 'to_nearest': 'N', 'to_zero': 'Z'}


def red_unit(fn, t, n, mode, form='iter', cost=1, long=False):
    """reduction over n elements (each any number, infinity or NaN; long: positive and finite, at most one NaN)"""
    m = n * (2 if fn == 'dot' else 1)
    names = [f'n{i}' for i in range(m)]
    T = TN[t]
    a = f'{T} a[{n + 1}] = {{{", ".join(names[:n])}}};' if n else f'{T}* a = 0;'
    b = (f'{T} b[{n + 1}] = {{{", ".join(names[n:])}}};' if n else f'{T}* b = 0;') if fn == 'dot' else ''
    md = f'p1788::reduction::rnd_mode::{mode}'
    if form == 'iter':
        e = f'p1788::reduction::{fn}(({T} const*)a, ({T} const*)a + {n}, ' + (f'({T} const*)b, ' if fn == 'dot' else '') + f'{md})'
    else:
        a = b = ''
        e = f'p1788::reduction::{fn}({{{", ".join(names[:n])}}}, ' + (f'{{{", ".join(names[n:])}}}, ' if fn == 'dot' else '') + f'{md})'
    name = f'red_{fn}_{t}{n}_{mode}_{form}'

    def decl(root, kinds):
        for i in range(m):
            if kinds[i] != 'nan':
                root.declare(names[i], t)
            if kinds[i] == 'pos':
                root.fact(V(names[i]), '>', Cn(0))
                root.fact(V(names[i]), '<', Cn('pinf'))
            elif kinds[i] == 'neg':
                root.fact(V(names[i]), '<', Cn(0))
                root.fact(V(names[i]), '>', Cn('ninf'))
            elif kinds[i] == 'pinf':
                root.fact(V(names[i]), '=', Cn('pinf'))

    def setup(I, st, args):
        I.nums = [I.ctx.var(names[i]) if I.kinds[i] != 'nan' else NAN_T for i in range(m)]
        return args + I.nums

    def spec(S, ivs, out):
        c, x = S.c, S.I.nums
        if any(v is NAN_T for v in x):
            return [('value', NAN_T, 'num')]
        for v in x:
            S.sign(v)
        if fn == 'sum':
            ts = x
        elif fn == 'sum_abs':
            ts = [v if S.sign(v) >= 0 else c.neg(v) for v in x]
        elif fn == 'sum_sqr':
            ts = [c.mul(v, v) for v in x]
        else:
            ts = [c.mul(x[i], x[i + n]) for i in range(n)]
        e = ZERO_T
        for v in ts:
            e = v if e is ZERO_T else c.add(e, v)
        return [('value', S.R(t, RMODES[mode], e), 'num')]
    # the first elements NaN, the others any
    kinds = [tuple(['var'] * m)] + [tuple('nan' if j == i else 'var' for j in range(m)) for i in range(m)]
    if long:
        kinds = [tuple(['pos'] * m), tuple(['pos', 'neg'][i * 2 < m] for i in range(m)), tuple(['neg', 'pos'][i % 3 < 2] for i in range(m))] + \
            [tuple('pinf' if j == i else 'pos' for j in range(m)) for i in {n // 2, n - 1}] + [tuple('nan' if j == i else 'pos' for j in range(m)) for i in {0, n // 2, n - 1, m - 1}]
    return generic(name, T, f'{a} {b} *o = {e};', [], spec, out0, f'{fn} of {n} elements', kinds, params=', '.join(f'{T} {v}' for v in names) if m else '',
                   setup=setup, extra={'decl': decl, 'splitsign': True}, cost=cost)


# ---- threads -----------------------------------------------------------------------------------------
WT = 'extern "C" void verif_thread(int);\nstruct WT { unsigned char a0, c0, t, a2, c2, a1, c1; };\n'


def thread_units():
    """what one thread does to its flag word and control word, seen from another"""
    us = []
    ns = 'p1788::exception::'
    eb = ns + 'exception_bits'
    cat = ''.join(f' catch ({ns}{n}_exception const&) {{ o->t = {b}; }}' for n, b in BITS.items()) + ' catch (...) { o->t = 255; }'
    # name, statement, needs x, (flags, control word, thrown) after it in a thread whose words were zero
    acts = [('nothing', '', lambda x: (0, 0, 0)), ('clear', f'{ns}clear();', lambda x: (0, 0, 0)),
            ('set_cwd', f'{ns}set_throw_exception_cwd({eb}(x));', lambda x: (0, x, 0)),
            ('get_cwd', f'{ns}get_throw_exception_cwd();', lambda x: (0, 0, 0)),
            ('assign', f'{ns}state() = {eb}(x); {ns}cwd() = {eb}(15 ^ x);', lambda x: (x, 15 ^ x, 0))]
    for n, b in BITS.items():
        acts.append(('signal_' + n, f'{ns}signal_{n}();', lambda x, b=b: (b, 0, 0)))
        acts.append(('enable_signal_' + n, f'{ns}set_throw_exception_cwd({eb}(x)); {ns}signal_{n}();', lambda x, b=b: (b, x, b & x)))
    for t in 'fdl':
        T = TN[t]
        acts += [(f'ctor_{t}', f'IV<{T}> v({T}(2), {T}(1));', lambda x: (BITS['undefined_operation'], 0, 0)),
                 (f'ctordec_{t}', f'DI<{T}> v({T}(2), {T}(1));', lambda x: (BITS['undefined_operation'], 0, 0)),
                 (f'part_{t}', f'IV<{T}> v(DI<{T}>::nai());', lambda x: (BITS['interval_part_of_nai'], 0, 0))]
    rd = lambda a, c: f'o->{a} = (unsigned char){ns}state(); o->{c} = (unsigned char){ns}cwd();'
    put = f'{ns}state() = {eb}(s); {ns}cwd() = {eb}(cw);'
    for (p, q) in ((1, 2), (2, 1), (2, 3)):
        for touch in (0, 1):
            for name, stmt, sp in acts:
                if touch and not name.startswith(('signal', 'set', 'assign', 'nothing')):
                    continue
                pre = f'verif_thread({q}); (void){ns}state(); (void){ns}cwd(); ' if touch else ''
                body = f'{pre}verif_thread({p}); {put} verif_thread({q}); {rd("a0", "c0")} o->t = 0; try {{ {stmt} }}{cat} {rd("a2", "c2")} verif_thread({p}); {rd("a1", "c1")}'

                def setup(I, st, args):
                    return args + [mk('lin', n, 1, 0) for n in ('s', 'cw', 'x')]

                def spec(S, ivs, out, sp=sp, stmt=stmt, name_=name):
                    s, cw, x = (mk('lin', n, 1, 0) for n in ('s', 'cw', 'x'))
                    if '(x)' in stmt:
                        _, l, h, _ = S.c.cell.ints['x']
                        if l != h:
                            raise Split('icmp', 'x', (l + h) // 2)
                        f, c, t = sp(l)
                        c = x if c == l and 'x' in stmt else c
                        if name_.startswith('assign'):
                            f, c = x, S.I.intop('xor', x, 15, I32)
                    else:
                        f, c, t = sp(0)
                    return [('flag word of a thread that has done nothing', 0, 'int'), ('control word of a thread that has done nothing', 0, 'int'),
                            ('exception thrown', t, 'int'), ('flag word of the acting thread', f, 'int'), ('control word of the acting thread', c, 'int'),
                            ('flag word of the other thread', s, 'int'), ('control word of the other thread', cw, 'int')]

                def outs(o):
                    if o.kind != 'ret':
                        raise Abort('operation ends in ' + o.kind)
                    return [get_fp(o.st, 'out', i, 'b') for i in range(7)]
                us.append(generic(f'thr{p}{q}{touch}_{name}', 'WT', body, [], spec, outs, f'{name} in one thread', [()], params='unsigned char s, unsigned char cw, unsigned char x',
                                  setup=setup, extra={'ints': {n: ('rng', 0, 15, None) for n in ('s', 'cw', 'x')}, 'splitthrow': True}, pre=WT))
    return us


# ---- reverse operations -------------------------------------------------------------------------------
ALL = (NINF_T, PINF_T, False, False)


def rev_parts(S, fn, c, p=None, b=None):
    """the preimage as at most two intervals (lo, hi, lo open, hi open) in ascending order; exact terms"""
    C = S.c
    e = E(S)
    if fn in ('sqr', 'abs', 'cosh') or fn == 'pown' and p[0] == 'even':
        if fn == 'cosh':
            if e.rel(c.hi, Cn(Fraction(1))) < 0:
                return []
            z = e.rel(c.lo, Cn(Fraction(1))) <= 0
        else:
            if S.sign(c.hi) < 0:
                return []
            z = S.sign(c.lo) <= 0
        f = {'sqr': lambda t: e.un('sqrt', t), 'abs': lambda t: t, 'cosh': lambda t: e.un('acosh', t), 'pown': lambda t: models.root(S.I, t, p[1])}[fn]
        if fn != 'abs':
            C.eq_inf(c.hi, 1)
        lo = ZERO_T if z else f(c.lo)
        hi = ZERO_T if fn != 'cosh' and S.sign(c.hi) == 0 else ZERO_T if fn == 'cosh' and e.rel(c.hi, Cn(Fraction(1))) == 0 else f(c.hi)
        return [(C.neg(hi), C.neg(lo), False, False), (lo, hi, False, False)]
    if fn == 'pown':
        if p[0] == 'zero':
            return [ALL] if e.rel(c.lo, Cn(Fraction(1))) <= 0 and e.rel(c.hi, Cn(Fraction(1))) >= 0 else []
        if p[0] == 'one':
            return [(c.lo, c.hi, False, False)]
        if p[0] == 'odd':
            C.eq_inf(c.lo, -1), C.eq_inf(c.hi, 1)
            S.sign(c.lo), S.sign(c.hi)
            f = lambda t: models.root(S.I, t, p[1])
            return [(f(c.lo), f(c.hi), False, False)]
        # exponent -1: 1 / c
        return div_parts(S, IVal(False, ONE_T, ONE_T), c)
    return div_parts(S, c, b)


def div_parts(S, c, b):
    """{x | there is t in b with t*x in c}"""
    C = S.c
    cl, ch = S.sign(c.lo), S.sign(c.hi)
    bl, bh = S.sign(b.lo), S.sign(b.hi)
    z = cl <= 0 <= ch
    if z and bl <= 0 <= bh:
        return [ALL]
    if bl == 0 == bh:
        return []
    il = C.eq_inf(b.lo, -1) is True
    ih = C.eq_inf(b.hi, 1) is True
    C.eq_inf(c.lo, -1), C.eq_inf(c.hi, 1)

    def q(x, y):
        return C.div(x, y)
    pos = neg = None
    if bh > 0:
        lo, lo_o = (q(c.lo, b.hi), ih and cl != 0) if cl >= 0 else (NINF_T, False) if bl <= 0 else (q(c.lo, b.lo), False)
        hi, hi_o = (q(c.hi, b.hi), ih and ch != 0) if ch <= 0 else (PINF_T, False) if bl <= 0 else (q(c.hi, b.lo), False)
        pos = (lo, hi, lo_o, hi_o)
    if bl < 0:
        lo, lo_o = (q(c.hi, b.lo), il and ch != 0) if ch <= 0 else (NINF_T, False) if bh >= 0 else (q(c.hi, b.hi), False)
        hi, hi_o = (q(c.lo, b.lo), il and cl != 0) if cl >= 0 else (PINF_T, False) if bh >= 0 else (q(c.lo, b.hi), False)
        neg = (lo, hi, lo_o, hi_o)
    ps = [neg, pos] if cl > 0 else [pos, neg]
    return [x for x in ps if x]


def rev_hull(S, to, tm, parts, x):
    """tightest enclosure in to of the parts met with x, whose bounds are in tm"""
    C, I = S.c, S.I
    alive = []
    for lo, hi, lo_o, hi_o in parts:
        L, U = S.R(tm, 'D', lo), S.R(tm, 'U', hi)
        a = C.bnot(C.bor(C.lt(x.hi, L), C.lt(U, x.lo)))
        if lo is not NINF_T:
            a = C.band(a, C.bnot(C.band(C.eq(x.hi, L), C.bor(I.inexact(tm, lo), lo_o))))
        if hi is not PINF_T:
            a = C.band(a, C.bnot(C.band(C.eq(U, x.lo), C.bor(I.inexact(tm, hi), hi_o))))
        l = I.ite(C.lt(x.lo, L), L, x.lo)
        h = I.ite(C.lt(U, x.hi), U, x.hi)
        alive.append((a, l, h))
    lo = hi = NAN_T
    for a, l, h in reversed(alive):
        lo = I.ite(a, l, lo)
    for a, l, h in alive:
        hi = I.ite(a, h, hi)
    return S.R(to, 'D', lo), S.R(to, 'U', hi)


def rev_p(S, p):
    """class of the exponent"""
    I = S.I
    if isinstance(p, int):
        if p < 2:
            return ({0: 'zero', 1: 'one', -1: 'inv'}[p], p)
        return ('odd' if p & 1 else 'even', p)
    lo, hi, par = models.int_facts(I, p)
    if lo == hi:
        return rev_p(S, lo)
    if lo < 2:
        raise Split('icmp', p.a[0], 0 if lo < 0 else lo)
    if par is None:
        raise Split('par', p.a[0])
    return ('odd' if par else 'even', p)


def rev_unit(fn, to, tys, dec, form='static', prange=None, nai=True, ns='static'):
    """fn: sqr abs cosh pown mul; tys: formats of the operands given (x, the last, may be missing)"""
    nc = 2 if fn == 'mul' else 1
    full = len(tys) == nc + 1
    names = (['b', 'c'] if nc == 2 else ['c']) + (['x'] if full else [])
    ops = [Operand(n, t, dec) for n, t in zip(names, tys)]
    a = ', '.join('*' + n for n in names) + (', p' if fn == 'pown' else '')
    e = f'{rep(to, dec)}::{fn}_rev({a})' if form == 'static' else f'p1788::infsup::{fn}_rev({a})'
    tm = maxt([to] + list(tys))
    ints, setup = {}, None
    if fn == 'pown':
        pr = prange or (0, 2 ** 31 - 1)
        ints = {'p': ('rng', *pr, None)}

        def setup(I, st, args):
            return args + [pr[0] if pr[0] == pr[1] else mk('lin', 'p', 1, 0)]

    def spec(S, ivs, o):
        if dec and any(v.nai for v in ivs):
            return nai_res()
        d = TRV if dec else None
        if any(v.empty for v in ivs):
            return iv_res(NAN_T, NAN_T, d)
        x = ivs[-1] if full else IVal(False, NINF_T, PINF_T)
        p = None
        if fn == 'pown':
            p = rev_p(S, pr[0] if pr[0] == pr[1] else mk('lin', 'p', 1, 0))
        ps = rev_parts(S, fn, ivs[nc - 1], p, ivs[0] if nc == 2 else None)
        lo, hi = rev_hull(S, to, tm, ps, x)
        return iv_res(lo, hi, d)
    name = f"{'d' if dec else 'b'}_{fn}rev_{to}_{''.join(tys)}_{form}" + (f'_{prange[0]}_{prange[1]}' if prange else '').replace('-', 'm')
    return generic(name, rep(to, dec), f'*o = {e};', ops, spec, iv_outs(to, dec), f"{fn}_rev ({'decorated' if dec else 'bare'})",
                   kinds_for(len(tys), dec, dec and nai), params='int p' if fn == 'pown' else '', setup=setup, extra={'ints': ints}, cost=20 if fn == 'mul' and full else 5)


def pair_unit(to, tys, dec, form='static', nai=True):
    ops = [Operand(n, t, dec) for n, t in zip('bc', tys)]
    e = f'{rep(to, dec)}::mul_rev_to_pair(*b, *c)' if form == 'static' else 'p1788::infsup::mul_rev_to_pair(*b, *c)'
    rt = rep(to, dec)
    tm = maxt([to] + list(tys))

    def lab(r, w):
        return [(w + ' part, ' + l, v, k) for l, v, k in r]

    def spec(S, ivs, o):
        b, c = ivs
        if dec and (b.nai or c.nai):
            return lab(nai_res(), 'first') + lab(nai_res(), 'second')
        d = TRV if dec else None
        emp = iv_res(NAN_T, NAN_T, d)
        if b.empty or c.empty:
            return lab(emp, 'first') + lab(emp, 'second')
        ps = div_parts(S, c, b)
        r = []
        for i in range(2):
            if i >= len(ps):
                r += lab(emp, ('first', 'second')[i])
                continue
            lo, hi = S.R(to, 'D', ps[i][0]), S.R(to, 'U', ps[i][1])
            dd = d
            if dec and i == 0 and not S.sign(b.lo) <= 0 <= S.sign(b.hi):
                dd = dmin(S, dmin(S, b.dec, c.dec), comdec(S, to, lo, hi))
            r += lab(iv_res(lo, hi, dd), ('first', 'second')[i])
        return r
    off = SZ[to] * (3 if dec else 2)
    return generic(f"{'d' if dec else 'b'}_mulpair_{to}_{''.join(tys)}_{form}", f'std::pair<{rt},{rt}>', f'*o = {e};', ops, spec,
                   lambda o: get_iv(o.st, 'out', to, dec) + get_iv(o.st, 'out', to, dec, off), f"mul_rev_to_pair ({'decorated' if dec else 'bare'})",
                   kinds_for(2, dec, dec and nai), cost=5)


def rev_units(tier, combos, types='fdl', decs=(False, True), free=True, nai=True):
    us = []
    for dec in decs:
        for fn in ('sqr', 'abs', 'cosh', 'pown', 'mul'):
            n = 2 if fn == 'mul' else 1
            prs = [None, (-1, -1)] if fn == 'pown' else [None]
            for pr in prs:
                for k in (n, n + 1):
                    for t in types:
                        us += [rev_unit(fn, t, [t] * k, dec, form, pr, nai=nai) for form in (('static', 'free') if free else ('static',))]
                    for to, tys in combos(tier, k):
                        us.append(rev_unit(fn, to, tys, dec, 'static', pr, nai=nai))
        for t in types:
            us += [pair_unit(t, [t, t], dec, form, nai=nai) for form in (('static', 'free') if free else ('static',))]
        for to, tys in combos(tier, 2):
            us.append(pair_unit(to, tys, dec, nai=nai))
    return us


def trigrev_units(types='fdl', decs=(False, True), mixed=(('d', 'fd'), ('l', 'df'), ('f', 'dl')), nai=True):
    """sin_rev, cos_rev, tan_rev on invalid, NaI and empty operands only (what they return otherwise depends on the period of the bounds)"""
    us = []
    for dec in decs:
        for fn in ('sin', 'cos', 'tan'):
            for k in (1, 2):
                for to, tys in [(t, t * k) for t in types] + [(to, tys[:k]) for to, tys in mixed]:
                    ops = [Operand(n, t, dec) for n, t in zip('cx', tys)]

                    def spec(S, ivs, o, dec=dec):
                        if dec and any(v.nai for v in ivs):
                            return nai_res()
                        assert any(v.empty for v in ivs)
                        return iv_res(NAN_T, NAN_T, TRV if dec else None)
                    us.append(generic(f"{'d' if dec else 'b'}_{fn}rev_{to}_{tys}_static", rep(to, dec), f"*o = {rep(to, dec)}::{fn}_rev({', '.join('*' + o.name for o in ops)});", ops, spec,
                                      iv_outs(to, dec), f"{fn}_rev ({'decorated' if dec else 'bare'})", [q for q in kinds_for(k, dec, dec and nai) if 'E' in q or 'I' in q], cost=1))
    return us


# ---- trigonometric functions -----------------------------------------------------------------------------
def trig_unit(op, to, tys, dec, form='static', nai=True):
    """sin, cos, tan.  The monotone pieces are found from the sign of the derivative at the bounds and the width
    compared with pi and 2 pi; within two units in the last place of those thresholds nothing is required
    (there the neighbouring cases give the same rounded values for sin and cos)"""
    t = tys[0]
    tm = maxt([to, t])
    ops = [Operand('x', t, dec)]
    e = f'{rep(to, dec)}::{op}(*x)' if form == 'static' else f'p1788::infsup::{op}(*x)'
    ulp = Fraction(1, 2 ** ({'f': 24, 'd': 53, 'l': 64}[tm] - 2))

    def spec(S, ivs, out):
        x = ivs[0]
        if dec and x.nai:
            return nai_res()
        d = TRV if dec else None
        if x.empty:
            return iv_res(NAN_T, NAN_T, d)
        C, I = S.c, S.I
        one, mone = con(1), con(-1)
        R = lambda m, u: S.R(to, m, S.R(tm, m, u))
        if C.eq_inf(x.lo, -1) is True or C.eq_inf(x.hi, 1) is True:
            if op == 'tan':
                return iv_res(NINF_T, PINF_T, TRV if dec else None)
            return iv_res(mone, one, dmin(S, DAC, x.dec) if dec else None)
        got = get_iv(out.st, 'out', to, dec) if out.kind == 'ret' else [None] * 3
        e_ = E(S)
        w = C.sub(x.hi, x.lo)
        pl, ph = con(S.R(tm, 'D', mk('pi')).a[0] - 2 * ulp), con(S.R(tm, 'U', mk('pi')).a[0] + 2 * ulp)
        p2l, p2h = con(pl.a[0] * 2), con(ph.a[0] * 2)
        zone = lambda l, h: C.band(C.lt(l, w), C.bnot(C.lt(h, w)))
        above = lambda h: C.lt(h, w)
        s0, s1 = S.sign(x.lo), S.sign(x.hi)
        if s0 == 0 == s1:
            u = one if op == 'cos' else ZERO_T
            return iv_res(u, u, dmin(S, COM, x.dec) if dec else None)
        pos = lambda u: C.lt(ZERO_T, u)
        if op == 'cos':        # derivative -sin; one-sided at zero
            PL = False if s0 == 0 else C.bnot(pos(e_.un('sin', x.lo)))
            PU = True if s1 == 0 else C.bnot(pos(e_.un('sin', x.hi)))
        else:
            PL, PU = pos(e_.un('cos', x.lo)), pos(e_.un('cos', x.hi))
        same = PU if PL is True else C.bnot(PU) if PL is False else C.bite(PL, PU, C.bnot(PU))
        fl, fh = e_.un(op, x.lo), e_.un(op, x.hi)
        if op == 'tan':
            z = C.band(same, zone(pl, ph))     # with different signs of cos there is a pole whatever the width
            ent = C.bor(above(ph), C.bnot(same))
            lo, hi = I.ite(ent, NINF_T, R('D', fl)), I.ite(ent, PINF_T, R('U', fh))
            dd = dmin(S, I.ite(ent, TRV, comdec(S, to, R('D', fl), R('U', fh))), x.dec) if dec else None
        else:
            z = I.ite(same, zone(pl, ph), zone(p2l, p2h)) if not isinstance(same, bool) else zone(pl, ph) if same else zone(p2l, p2h)
            mn, mx = C.minmax('min', [R('D', fl), R('D', fh)]), C.minmax('max', [R('U', fl), R('U', fh)])
            lo = C_ite(I, same, C_ite(I, above(ph), mone, mn), C_ite(I, C.bor(above(p2h), C.bnot(PL)), mone, mn))
            hi = C_ite(I, same, C_ite(I, above(ph), one, mx), C_ite(I, C.bor(above(p2h), PL), one, mx))
            dd = dmin(S, COM, x.dec) if dec else None
        if got[0] is not None:
            lo, hi = C_ite(I, z, got[0], lo), C_ite(I, z, got[1], hi)
            if dec and op == 'tan':
                dd = C_ite(I, z, got[2], dd)
        return iv_res(lo, hi, dd)
    name = f"{'d' if dec else 'b'}_{op}_{to}_{t}_{form}"
    return generic(name, rep(to, dec), f'*o = {e};', ops, spec, iv_outs(to, dec), f"{op} ({'decorated' if dec else 'bare'})", kinds_for(1, dec, dec and nai), cost=2,
                   extra={'ints': {f'{f}:{v}': ('rng', 0, 1, None) for f in (['sin'] if op == 'cos' else ['cos']) for v in ('xl', 'xu')}})


def C_ite(I, c, a, b):
    return a if c is True else b if c is False else I.ite(c, a, b)
