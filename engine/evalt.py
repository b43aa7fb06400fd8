"""Point evaluation of value-graph terms + sampling of points of a cell (refutation of term equality)."""
import random
from fractions import Fraction
import numeval as NV
from numeval import PINF, NINF, NAN, NZERO, neg, cmpv, is0, Cannot
from terms import Term, UNARY, mk
from models import int_round

HR = [(-148, 128), (-1073, 1024), (-1073741823, 1073741823), (-16444, 16384)]


class Env:
    __slots__ = ('v', 'i', 'h', 'dyn', 'memo', 'zs')

    def __init__(self, v, i, h=0, dyn='N', zs=1):
        self.v, self.i, self.h, self.dyn, self.zs = v, i, HR[h], dyn, zs
        self.memo = {}

    def show(self):
        d = {}
        for k, x in list(self.v.items()) + list(self.i.items()):
            if isinstance(x, Fraction):
                d[k] = show_num(x)
            else:
                d[k] = str(x)
        return d


def show_num(x):
    if x.denominator == 1 and abs(x) < 10 ** 15:
        return str(x.numerator)
    n, d = abs(x.numerator), x.denominator
    e = 0
    if d & (d - 1) == 0:
        tz = (n & -n).bit_length() - 1
        n >>= tz
        e = tz - (d.bit_length() - 1)
        s = f"0x{n:x}p{e:+d}"
        try:
            s += f" (~{float(x):.17g})"
        except OverflowError:
            pass
        return ('-' if x < 0 else '') + s
    return f"~{float(x):.17g}"


def fmt_of(env, f):
    if isinstance(f, str):
        return f
    k, p, lo, hi = f
    lo = fix_h(env, lo, 0)
    hi = fix_h(env, hi, 1)
    return (k, p, lo, hi)


def fix_h(env, x, i):
    if isinstance(x, int):
        return x
    if x == 'h':
        return env.h[i]
    if isinstance(x, Term):
        if x.op == 'ite':
            return fix_h(env, x.a[1] if evb(x.a[0], env) else x.a[2], i)
        if x.op == 'hist':
            return env.h[i]
    raise Cannot('exponent range')


WIDE = ('m', 300, -(2 ** 40), 2 ** 40)


class IV:
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


def ev(t, env):
    """exact value or Cannot"""
    r = env.memo.get(t)
    if r is None:
        r = env.memo[t] = _ev(t, env)
    return r


def is_ival(t):
    return isinstance(t, int)


def evi(t, env):
    """integer value"""
    if isinstance(t, int):
        return int(t)
    if isinstance(t, Term):
        if t.op == 'lin':
            n, co, k = t.a
            return co * env.i[n] + k
        if t.op == 'lsum':
            return t.a[0] + sum(co * env.i[n] for n, co in t.a[1])
        if t.op == 'orb':
            return env.i[t.a[0]] | t.a[1]
        if t.op == 'ite':
            return evi(t.a[1] if evb(t.a[0], env) else t.a[2], env)
        if t.op == 'tern':
            f, m, e = t.a
            f = fmt_of(env, f)
            return rnd_t(f, mode(env, m), e, env)[1]
        if t.op == 'cmp3':
            a, b = ev(t.a[0], env), ev(t.a[1], env)
            c = cmpv(a, b)
            return 0 if c is None else c
        if t.op == 'toint':
            v = ev(t.a[0], env)
            if isinstance(v, Fraction):
                m = t.a[1] if len(t.a) > 1 else 'Z'
                return int(int_round({'Z': 'trunc', 'N': 'rint', 'D': 'floor', 'U': 'ceil'}[m], v))
        from interp import isbool
        if isbool(t):
            return int(evb(t, env))
    raise Cannot('int ' + str(t)[:40])


def mode(env, m):
    return env.dyn if m == 'dyn' else m


def evb(t, env):
    if isinstance(t, (bool, int)):
        return bool(t)
    r = env.memo.get(t)
    if r is not None:
        return r
    op, a = t.op, t.a
    if op == 'not':
        r = not evb(a[0], env)
    elif op == 'and':
        r = all(evb(x, env) for x in a)
    elif op == 'ite':
        r = evb(a[1], env) if evb(a[0], env) else evb(a[2], env)
    elif op in ('lt', 'eq'):
        c = cmpv(ev(a[0], env), ev(a[1], env))
        r = c is not None and (c < 0 if op == 'lt' else c == 0)
    elif op == 'isnan':
        r = ev(a[0], env) == NAN
    elif op == 'eqinf':
        r = ev(a[0], env) == (PINF if a[1] > 0 else NINF)
    elif op == 'inexact':
        f = fmt_of(env, a[0])
        r = rnd_t(f, 'D', a[1], env)[1] != 0
    elif op == 'sgn0':
        r = NV.sign_bit(ev(a[0], env))
    elif op == 'bopq' and a[0] == 'icmp' and len(a) == 4:
        x, y = evi(a[2], env), evi(a[3], env)
        p = a[1]
        r = {'eq': x == y, 'ne': x != y}.get(p)
        if r is None:
            if p[0] == 'u' and (x < 0 or y < 0):
                raise Cannot('unsigned')
            r = {'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p[1:]]
    elif op == 'bopq' and a[0] == 'tern':
        x, y = evi(a[2], env), a[3]
        p = a[1]
        r = {'eq': x == y, 'ne': x != y}.get(p)
        if r is None:
            r = {'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p[1:]]
    else:
        raise Cannot('bool ' + op)
    env.memo[t] = r
    return r


def _ev(t, env):
    op, a = t.op, t.a
    if op == 'var':
        return env.v[a[0]]
    if op == 'con':
        return a[0]
    if op == 'zvar':
        return Fraction(0) if env.zs > 0 else NZERO
    if op == 'neg':
        return neg(ev(a[0], env))
    if op == 'abs':
        v = ev(a[0], env)
        return neg(v) if NV.sign_bit(v) else v
    if op in ('add', 'mul', 'div'):
        return NV.exact2(op, ev(a[0], env), ev(a[1], env))
    if op == 'fma':
        return NV.exact2('add', NV.exact2('mul', ev(a[0], env), ev(a[1], env)), ev(a[2], env))
    if op in ('min', 'max'):
        vs = [ev(x, env) for x in a]
        if NAN in vs:
            raise Cannot('nan in min')
        r = vs[0]
        for v in vs[1:]:
            c = cmpv(v, r)
            if c < 0 if op == 'min' else c > 0:
                r = v
        return r
    if op == 'ite':
        return ev(a[1], env) if evb(a[0], env) else ev(a[2], env)
    if op == 'rnd':
        return rnd_t(fmt_of(env, a[0]), mode(env, a[1]), a[2], env)[0]
    if op in ('floor', 'ceil', 'trunc', 'rint', 'round', 'rintdyn'):
        v = ev(a[0], env)
        if op == 'rintdyn':
            op = {'N': 'rint', 'D': 'floor', 'U': 'ceil', 'Z': 'trunc'}[env.dyn]
        return int_round(op, v) if isinstance(v, Fraction) else v
    if op == 'nexta':
        v = ev(a[1], env)
        f = fmt_of(env, a[0])
        if isinstance(f, str) or f[0] == 's':
            return NV.next_val(v, f, True)
        return next_raw(v, f)
    if op == 'conv':
        return Fraction(evi(a[0], env))
    if op in UNARY:
        x = ev(a[0], env)
        if not isinstance(x, Fraction) or op == 'sqrt' and x >= 0:
            if not isinstance(x, Fraction):
                return NV.op_round(op, [x], ('m', 80, -1000, 1000), 'N')[0]
        raise Cannot('irrational')
    if op == 'powi' and not isinstance(a[1], Term):
        x = ev(a[0], env)
        if isinstance(x, Fraction) and abs(a[1]) <= 64 and (x != 0 or a[1] > 0):
            return x ** a[1]
    raise Cannot('value ' + op)


def next_raw(v, f):
    """successor in a raw MPFR format (no subnormals)"""
    _, p, lo, hi = f
    tiny = Fraction(2) ** (lo - 1)
    if v in (PINF, NAN):
        return v
    if v == NINF:
        return -(Fraction(2) ** hi) * (1 - Fraction(1, 2 ** p))
    if is0(v):
        return tiny
    if v == -tiny:
        return NZERO
    n = abs(v)
    e = n.numerator.bit_length() - n.denominator.bit_length()
    while Fraction(2) ** e <= n:
        e += 1
    while Fraction(2) ** (e - 1) > n:
        e -= 1
    ulp = Fraction(2) ** (e - p)
    if v > 0:
        r = v + ulp
        return PINF if r >= Fraction(2) ** hi else r
    if n == Fraction(2) ** (e - 1):
        ulp /= 2
    return v + ulp


def rnd_t(f, m, e, env):
    """(correctly rounded value, ternary sign)"""
    try:
        return rnd_v(f, m, ev(e, env))
    except Cannot:
        pass
    op, a = e.op, e.a
    if op == 'neg':
        v, t = rnd_t(f, {'D': 'U', 'U': 'D'}.get(m, m), a[0], env)
        return neg(v), -t
    if op == 'ite':
        return rnd_t(f, m, a[1] if evb(a[0], env) else a[2], env)
    if op in UNARY:
        return NV.op_round(op, [ev(a[0], env)], f, m)
    if op == 'pi':
        return NV.op_round('pi', [], f, m)
    if op in ('atan2', 'pow'):
        return NV.op_round(op, [ev(a[0], env), ev(a[1], env)], f, m)
    if op == 'powi':
        return NV.op_round('powi', [ev(a[0], env)], f, m, (evi(a[1], env),))
    if op == 'root':
        n = evi(a[1], env)
        if n <= 0:
            raise Cannot('root')
        return NV.op_round('root', [ev(a[0], env)], f, m, (n,))
    P = 300
    while P < 3000:
        iv = enc(e, env, P)
        v1, t1 = rnd_v(f, m, iv[0])
        v2, t2 = rnd_v(f, m, iv[1])
        if cmpv(v1, v2) == 0 and t1 == t2:
            return v1, t1
        P *= 3
    raise Cannot('enclosure')


def rnd_v(f, m, v):
    if isinstance(v, Fraction) and v.denominator & (v.denominator - 1):
        return NV.op_round('div', [Fraction(v.numerator), Fraction(v.denominator)], f, m)
    return NV.round_to(v, f, m)


def enc(e, env, P):
    try:
        v = ev(e, env)
        return v, v
    except Cannot:
        pass
    op, a = e.op, e.a
    if op == 'neg':
        lo, hi = enc(a[0], env, P)
        return neg(hi), neg(lo)
    if op == 'mul':
        x, y = enc(a[0], env, P), enc(a[1], env, P)
        ps = [NV.exact2('mul', p, q) for p in x for q in y]
        if NAN in ps:
            raise Cannot('enc')
        ps.sort(key=NV._key)
        return ps[0], ps[-1]
    if op == 'add':
        x, y = enc(a[0], env, P), enc(a[1], env, P)
        return NV.exact2('add', x[0], y[0]), NV.exact2('add', x[1], y[1])
    if op in ('min', 'max'):
        es = [enc(x, env, P) for x in a]
        f = min if op == 'min' else max
        return f((x[0] for x in es), key=NV._key), f((x[1] for x in es), key=NV._key)
    if op in UNARY or op in ('pi', 'atan2', 'pow', 'powi', 'root', 'div'):
        f = ('m', P, NV.EMIN // 4, NV.EMAX // 4)
        return rnd_t(f, 'D', e, env)[0], rnd_t(f, 'U', e, env)[0]
    raise Cannot('enclosure ' + op)


# ---- sampling -------------------------------------------------------------------------------------
def specials(fmt):
    p, lo, hi = NV.fparams(fmt)
    F = Fraction
    tiny = F(2) ** (lo - 1)
    mn = F(2) ** (lo + p - 2)
    mx = (F(2) ** hi) * (1 - F(1, 2 ** p))
    eps = F(1, 2 ** (p - 1))
    out = [tiny, 2 * tiny, 3 * tiny, mn - tiny, mn, mn + tiny, F(1), 1 + eps, 1 - eps / 2, F(2), F(3), F(4), F(1, 2), F(3, 2), F(5, 2), F(7, 2), F(10),
           mx, mx / 2, F(2) ** (hi - 1), F(2) ** (hi // 2), F(2) ** (lo // 2), F(2) ** p, F(2) ** p - 1, F(2) ** (p - 1) + F(1, 2) if False else F(2) ** (p - 2) + F(1, 2),
           F(100), F(1000), F(5), F(6), F(7), F(20), F(89), F(120)]
    for num, den in ((1, 3), (1, 10), (2, 3), (7, 5), (22, 7), (355, 113), (11, 7), (1, 1000), (10 ** 10, 3)):
        out.append(NV.op_round('div', [F(num), F(den)], fmt, 'N')[0])
    pi = NV.op_round('pi', [], fmt, 'D')[0]
    out += [pi, NV.next_val(pi, fmt, True), pi / 2, NV.next_val(pi / 2, fmt, True)]
    if fmt != 'f':
        f = 'f' if fmt == 'd' else 'd'
        out += [NV.next_val(F(1), f, True), (F(2) ** NV.fparams(f)[2]), F(2) ** (NV.fparams(f)[1] - 2), (F(2) ** NV.fparams(f)[2]) * (1 - F(1, 2 ** NV.fparams(f)[0]))]
    return out


_SP = {}


def get_specials(fmt):
    r = _SP.get(fmt)
    if r is None:
        r = [x for x in specials(fmt) if isinstance(x, Fraction) and NV.in_fmt(x, fmt)]
        r = sorted(set(r + [-x for x in r] + [Fraction(0)]))
        _SP[fmt] = r
    return r


_TIES = {}


def ties(fmt):
    """pairs whose product, and numbers whose square, lies next to a tie of two subnormal numbers, closer than one rounding to
    full precision can tell"""
    r = _TIES.get(fmt)
    if r is None:
        p, lo, hi = NV.fparams(fmt)
        r = []
        w = p + 5
        for M in range(33, 64, 2):
            for e in (1, -1):
                n = (M << (w - 5)) + e
                for q in range(3, 4000, 2):
                    if n % q == 0 and n // q < 2 ** p:
                        t = lo - 2 - (w - 5)
                        r.append((Fraction(q) * Fraction(2) ** (t // 2), Fraction(n // q) * Fraction(2) ** (t - t // 2)))
                        break
        s = p // 2 + 4
        for e in (1, -1):
            a = 2 ** (s - 1) + e              # a^2 = 2^s M + 1
            if (lo - 2 - s) % 2 == 0:
                a = Fraction(a) * Fraction(2) ** ((lo - 2 - s) // 2)
                r.append((a, a))
            else:
                a = Fraction(2 ** s + e) * Fraction(2) ** ((lo - 2 - s - 1) // 2)
                r.append((a, a))
        _TIES[fmt] = r
    return r


def sample(cell, rng, tries=30):
    """a point of the cell (dict) or None"""
    for _ in range(tries):
        r = _sample(cell, rng)
        if r is not None and trigsigns(cell, r):
            return r
    return None


def incell(cell, val):
    """the values satisfy the order facts of the cell"""
    vs = []
    for n in cell.nodes:
        if n[0] == 'c':
            vs.append(n[1])
        else:
            x = val.get(n[1])
            vs.append(None if x is None else x if n[2] > 0 else neg(x))
    for i, x in enumerate(vs):
        if x is None:
            continue
        for j, y in enumerate(vs):
            if y is not None and i != j and cell.le[i] >> j & 1:
                c = cmpv(x, y)
                if c > 0 or c == 0 and cell.lt[i] >> j & 1:
                    return False
    return all(NV.in_fmt(v, cell.vtype[n]) for n, v in val.items())


def trigsigns(cell, pt):
    """the facts about signs of trigonometric values hold at the point"""
    for key, d in cell.ints.items():
        if isinstance(key, str) and ':' in key:
            op, v = key.split(':')
            x = pt[0].get(v)
            if not isinstance(x, Fraction) or not x:
                continue
            b = int(NV.op_round(op, [x], 'l', 'N')[0] > 0)
            if not d[1] <= b <= d[2]:
                return False
            pt[1][key] = b
    return True


def _sample(cell, rng):
    val = {}
    ints = {}
    for v, d in cell.ints.items():
        if d[0] == 'dom':
            ints[v] = rng.choice(sorted(d[1]))
        else:
            _, lo, hi, par = d
            c = [x for x in (lo, hi, lo + 1, hi - 1, lo + 2, hi - 2, 1, 2, 3, 4, 5, 7, 10, -1, -2, -3, -4, -5, 0, rng.randint(max(lo, -60), min(hi, 60)) if max(lo, -60) <= min(hi, 60) else lo) if lo <= x <= hi and (par is None or (x & 1) == par)]
            if not c:
                return None
            ints[v] = rng.choice(c)
    names = list(cell.vtype)
    order = names[:]
    rng.shuffle(order)
    style = rng.randrange(4)
    pre = {}
    r = rng.random()
    if r < 0.16 and r >= 0.06:
        for n in order:
            t = NV.next_val(Fraction(0), cell.vtype[n], True) if r < 0.12 else -NV.next_val(NINF, cell.vtype[n], True) / 64
            if isinstance(t, Fraction):
                pre[n] = t * rng.choice((1, 1, 2, 3, 3, 4, 5, 7, rng.randrange(1, 64))) * rng.choice((1, -1))
    if r < 0.06:
        x = rng.choice(ties(cell.vtype[order[0]])) if order else ()
        pre = {n: v * rng.choice((1, -1)) for n, v in zip(order, x)}
    for name in order:
        fmt = cell.vtype[name]
        i = cell.idx[('v', name, 1)]
        lo, hi, ls, hs = NINF, PINF, False, False
        eq = None

        def nodeval(n):
            if n[0] == 'c':
                return n[1]
            x = val.get(n[1])
            if x is None:
                return None
            return x if n[2] > 0 else neg(x)
        le, ge, lt, gt = cell.le[i], cell.ge[i], cell.lt[i], cell.gt[i]
        m = ge
        while m:
            b = m & -m
            k = b.bit_length() - 1
            m ^= b
            x = nodeval(cell.nodes[k])
            if x is None or k == i:
                continue
            s = bool(gt >> k & 1)
            if le >> k & 1:
                eq = x
            c = cmpv(x, lo)
            if c > 0 or (c == 0 and s):
                lo, ls = x, s or (c == 0 and ls)
        m = le
        while m:
            b = m & -m
            k = b.bit_length() - 1
            m ^= b
            x = nodeval(cell.nodes[k])
            if x is None or k == i:
                continue
            s = bool(lt >> k & 1)
            c = cmpv(x, hi)
            if c < 0 or (c == 0 and s):
                hi, hs = x, s or (c == 0 and hs)
        # |v| style facts (v < -v) are covered by the facts against 0
        if eq is not None:
            if not NV.in_fmt(eq, fmt):
                return None
            val[name] = eq
            continue
        def ok(x):
            c = cmpv(lo, x)
            if c > 0 or (c == 0 and ls):
                return False
            c = cmpv(x, hi)
            return not (c > 0 or (c == 0 and hs))
        sp = get_specials(fmt)
        cand = []
        kind = (style + rng.randrange(3)) % 4
        if kind == 0:
            cand = [x for x in sp if ok(x)]
        if kind == 1 or not cand:
            base = [x for x in (lo, hi) + tuple(val.values()) if isinstance(x, Fraction)]
            for x in base:
                for mth in ('D', 'U'):
                    y = NV.op_round('id', [x], fmt, mth)[0] if isinstance(x, Fraction) else x
                    cand += [y]
                    if isinstance(y, Fraction):
                        cand += [NV.next_val(y, fmt, True), NV.next_val(y, fmt, False)]
                for mul in (2, Fraction(1, 2), -1):
                    cand.append(NV.op_round('id', [x * mul], fmt, 'N')[0])
            cand = [NV.NZERO if False else (Fraction(0) if x == NZERO else x) for x in cand]
            cand = [x for x in cand if x != NAN and ok(x)]
        if kind >= 2 or not cand:
            for _ in range(6):
                y = rand_val(rng, fmt, lo, hi)
                if y is not None and ok(y):
                    cand.append(y)
        if not cand or rng.random() < 0.1:
            cand += [x for x in sp if ok(x)]
        # infinities where allowed
        for x in (PINF, NINF):
            if ok(x) and (not cand or rng.random() < 0.15):
                cand.append(x)
        if name in pre and NV.in_fmt(pre[name], fmt):
            x = pre[name]
            cand = [x] if ok(x) else [-x] if ok(-x) else cand
        if not cand:
            return None
        val[name] = rng.choice(cand)
    return val, ints


def rand_val(rng, fmt, lo, hi):
    p, el, eh = NV.fparams(fmt)
    if isinstance(lo, Fraction) and isinstance(hi, Fraction) and rng.random() < 0.6:
        r = lo + (hi - lo) * Fraction(rng.randrange(1, 2 ** 20), 2 ** 20)
    else:
        e = rng.choice([rng.randint(-6, 6), rng.randint(-6, 6), rng.randint(el, eh), rng.choice([el + 3, eh, eh // 2, el // 2, el + p])])
        r = Fraction(rng.getrandbits(p) | 1 << (p - 1)) * Fraction(2) ** (e - p)
        if rng.random() < 0.3:
            r = Fraction(rng.randrange(1, 64), rng.choice([1, 2, 4, 8, 16]))
        s = rng.choice([1, -1])
        if isinstance(lo, Fraction) and lo >= 0:
            s = 1
        if isinstance(hi, Fraction) and hi <= 0:
            s = -1
        r *= s
    try:
        v = NV.op_round('id', [r], fmt, rng.choice('DU'))[0] if r.denominator & (r.denominator - 1) == 0 else NV.op_round('div', [Fraction(r.numerator), Fraction(r.denominator)], fmt, 'N')[0]
    except AssertionError:
        return None
    return Fraction(0) if v == NZERO else v
