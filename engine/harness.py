"""Entries (wrapper functions around the library's operations), cell worklist, verdicts."""
import os, itertools, subprocess, sys, time, hashlib, random, shutil, tempfile
from fractions import Fraction
import numeval as NV
from cells import Cell, Split, Inconsistent
from terms import Ctx, mk, Term, con, NAN_T, PINF_T, NINF_T, ZERO_T, KN, KZ, KP, KPI, KNI, KNAN, RINTS, sub_fmt, reset_terms, show
from interp import Interp, Abort, new_state, UNDEF, NULL, isbool
import models, evalt, irload, order

REPO = os.environ.get('VERIF_REPO', '/repo')
CTYPE = {'f': 'float', 'd': 'double', 'l': 'long double'}
SZ = {'f': 4, 'd': 8, 'l': 16}
MAXT = {'f': 0, 'd': 1, 'l': 2}
PRE = r'''
#include "p1788/decoration/decoration.hpp"
#include "p1788/exception/exception.hpp"
#include "p1788/io/io_manip.hpp"
#include "p1788/overlapping/overlapping.hpp"
#include "p1788/infsup/interval.hpp"
#include "p1788/infsup/decorated_interval.hpp"
#include "p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp"
#ifdef VERIF_NEW_MPFR_T
#define mpfr_t __mpfr_struct[1]   // clang mistypes `new mpfr_t` (an array type) inside a template's lambda
#endif
#include "p1788/reduction/reduction.hpp"
#undef mpfr_t
template<typename T> using F = p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<T>;
template<typename T> using IV = p1788::infsup::interval<T,F>;
template<typename T> using DI = p1788::infsup::decorated_interval<T,F>;
template<typename T> using R = std::pair<T,T>;
template<typename T> using RD = std::pair<R<T>,p1788::decoration::decoration>;
typedef long double LD;
'''


class BuildError(Exception):
    pass


def compile_bc(src, workdir, tag, sroa=True):
    cpp = os.path.join(workdir, tag + '.cpp')
    bc = os.path.join(workdir, tag + '.bc')
    with open(cpp, 'w') as f:
        f.write(src)
    cmd = ['clang++-18', '-std=c++11', '-DMPFR_USE_NO_MACRO', '-I' + REPO, '-O0', '-g1', '-c', '-emit-llvm', '-w',
           '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', cpp, '-o', bc]
    if shutil.which('clang++-18') is None:
        cmd[0] = 'clang++'
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode and 'mpfr_t' in p.stderr:
        p2 = subprocess.run(cmd + ['-DVERIF_NEW_MPFR_T'], capture_output=True, text=True)
        p = p if p2.returncode else p2
    if p.returncode:
        raise BuildError(p.stderr[:4000])
    if sroa:
        out = os.path.join(workdir, tag + '.2.bc')
        opt = '/usr/lib/llvm-18/bin/opt'
        p = subprocess.run([opt, '-passes=sroa', bc, '-o', out], capture_output=True, text=True)
        if p.returncode:
            raise BuildError(p.stderr[:2000])
        bc = out
    return bc


def gxx_rejects(src, workdir, tag):
    """does g++ (the project's compiler) reject the driver, too?  -> its message or None"""
    cpp = os.path.join(workdir, tag + '_g.cpp')
    with open(cpp, 'w') as f:
        f.write(src)
    p = subprocess.run(['g++', '-std=c++11', '-I' + REPO, '-fsyntax-only', '-w', cpp], capture_output=True, text=True)
    return p.stderr[:4000] or 'error' if p.returncode else None


class Operand:
    """interval operand: name, type letter, dec flag"""

    def __init__(self, name, ty, dec=False):
        self.name, self.ty, self.dec = name, ty, dec


# abstract operand state handed to specifications
class IVal:
    """empty / (lo, hi) terms, optional decoration (int or lin term), nai flag"""
    __slots__ = ('empty', 'lo', 'hi', 'dec', 'nai', 'ty', 'invalid')

    def __init__(self, empty, lo=None, hi=None, dec=None, nai=False, ty=None, invalid=False):
        self.empty, self.lo, self.hi, self.dec, self.nai, self.ty, self.invalid = empty, lo, hi, dec, nai, ty, invalid


def V(n):
    return ('v', n, 1)


def Cn(x):
    return ('c', x if isinstance(x, str) else Fraction(x))


def declare_iv(cell, o, kind):
    """kinds: E empty, N nonempty, I nai, com / ncom nonempty decorated; X* invalid"""
    a, b = o.name + 'l', o.name + 'u'
    if kind in ('E', 'I', 'XEd', 'XId'):
        cell.log.append((o.name, '=', {'E': 'empty', 'I': 'NaI', 'XEd': 'empty with decoration above trv', 'XId': 'ill with bounds'}[kind]))
        if kind == 'XEd':
            cell.ints[o.name + 'd'] = ('rng', 2, 4, None)
        if kind == 'XId':
            pass
        else:
            return
    if kind == 'XN1':
        cell.declare(b, o.ty)
        cell.log.append((o.name, '=', '(NaN,u)'))
        return
    if kind == 'XN2':
        cell.declare(a, o.ty)
        cell.log.append((o.name, '=', '(l,NaN)'))
        return
    cell.declare(a, o.ty)
    cell.declare(b, o.ty)
    if kind == 'XG':
        cell.fact(V(a), '>', V(b))
        return
    if kind == 'XP':
        cell.fact(V(a), '=', Cn('pinf'))
        cell.fact(V(b), '=', Cn('pinf'))
        return
    if kind == 'XM':
        cell.fact(V(a), '=', Cn('ninf'))
        cell.fact(V(b), '=', Cn('ninf'))
        return
    cell.fact(V(a), '<=', V(b), False)
    cell.fact(V(a), '<', Cn('pinf'), False)
    cell.fact(V(b), '>', Cn('ninf'), False)
    if kind == 'com':
        cell.fact(V(a), '>', Cn('ninf'), False)
        cell.fact(V(b), '<', Cn('pinf'), False)
        cell.log.append((o.name, 'is', 'bounded com'))
    if kind == 'ncom':
        cell.ints[o.name + 'd'] = ('rng', 1, 3, None)
    if kind == 'Xcom':
        cell.log.append((o.name, 'is', 'unbounded with decoration com'))


def make_iv(ctx, o, kind):
    a, b = o.name + 'l', o.name + 'u'
    if kind == 'E':
        return IVal(True, NAN_T, NAN_T, 4 if o.dec else None, ty=o.ty)
    if kind == 'I':
        return IVal(True, NAN_T, NAN_T, 0, nai=True, ty=o.ty)
    if kind == 'XEd':
        return IVal(True, NAN_T, NAN_T, mk('lin', o.name + 'd', 4, 0), ty=o.ty, invalid=True)
    if kind == 'XN1':
        return IVal(False, NAN_T, ctx.var(b), 4 if o.dec else None, ty=o.ty, invalid=True)
    if kind == 'XN2':
        return IVal(False, ctx.var(a), NAN_T, 4 if o.dec else None, ty=o.ty, invalid=True)
    d = None
    if o.dec:
        d = {'com': 16, 'Xcom': 16, 'XId': 0}.get(kind)
        if d is None:
            if kind == 'ncom':
                _, l, h, _ = ctx.cell.ints[o.name + 'd']
                d = 4 * l if l == h else mk('lin', o.name + 'd', 4, 0)
            else:
                d = 4
    lo, hi = ctx.var(a), ctx.var(b)
    return IVal(False, lo, hi, d, ty=o.ty, invalid=kind.startswith('X'))


def put_iv(st, obj, v, ty, dec):
    s = SZ[ty]
    st.mem[obj] = {0: (s if ty != 'l' else 10, v.lo), s: (s if ty != 'l' else 10, v.hi)}
    if dec:
        st.mem[obj][2 * s] = (1, v.dec)
    st.own.add(obj)


def get_fp(st, obj, off, ty):
    e = st.mem[obj].get(off)
    return e[1] if e else UNDEF


def get_iv(st, obj, ty, dec, off=0):
    s = SZ[ty]
    r = [get_fp(st, obj, off, ty), get_fp(st, obj, off + s, ty)]
    if dec:
        r.append(get_fp(st, obj, off + 2 * s, ty))
    return r


class Result:
    def __init__(self):
        self.cells = self.proved = self.undecided = 0
        self.violations = []
        self.reasons = {}
        self.funcs = set()
        self.insts = 0
        self.splits = 0
        self.samples = 0

    def merge(self, o):
        self.cells += o.cells
        self.proved += o.proved
        self.undecided += o.undecided
        self.violations += o.violations
        for k, v in o.reasons.items():
            self.reasons[k] = self.reasons.get(k, 0) + v
        self.funcs |= o.funcs
        self.insts += o.insts
        self.splits += o.splits
        self.samples += o.samples


class Outcome:
    """what one interpretation produced"""
    __slots__ = ('I', 'st', 'ops', 'ret', 'exc', 'kind')


NSAMP = int(os.environ.get('VERIF_SAMPLES', '24'))


def eq_terms(ctx, a, b):
    """canonical equality of two abstract values (bounds: +0 and -0 identified)"""
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and bool(a) == bool(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Term) and isinstance(b, Term):
        if a.op in ('con', 'zvar') or b.op in ('con', 'zvar'):
            if ctx.kinds(a) == KZ and ctx.kinds(b) == KZ:
                return True
        if a.op == b.op and a.op not in ('con', 'var', 'zvar') and len(a.a) == len(b.a) and isbool(a) == isbool(b):
            if all((eq_terms(ctx, x, y) if isinstance(x, Term) and isinstance(y, Term) else x == y) for x, y in zip(a.a, b.a)):
                return True
    return False


def atoms(t, acc, depth=0):
    """boolean atoms deciding the ite structure of t"""
    if not isinstance(t, Term):
        return
    if t.op == 'ite':
        batoms(t.a[0], acc)
        atoms(t.a[1], acc)
        atoms(t.a[2], acc)
    elif isbool(t):
        batoms(t, acc)
    else:
        for x in t.a:
            if isinstance(x, Term):
                atoms(x, acc)


def batoms(c, acc):
    if not isinstance(c, Term):
        return
    if c.op in ('not', 'and'):
        for x in c.a:
            batoms(x, acc)
    elif c.op == 'ite':
        batoms(c.a[0], acc)
        batoms(c.a[1], acc)
        batoms(c.a[2], acc)
    else:
        acc[c] = None


def cof(ctx, t, asg, memo):
    """rebuild t under a truth assignment of atoms"""
    if not isinstance(t, Term):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in asg:
        r = asg[t]
    elif t.op == 'not':
        r = ctx.bnot(cof(ctx, t.a[0], asg, memo))
    elif t.op == 'and':
        r = True
        for x in t.a:
            r = ctx.band(r, cof(ctx, x, asg, memo))
    elif t.op == 'ite':
        c = cof(ctx, t.a[0], asg, memo)
        if isinstance(c, bool):
            r = cof(ctx, t.a[1] if c else t.a[2], asg, memo)
        else:
            x, y = cof(ctx, t.a[1], asg, memo), cof(ctx, t.a[2], asg, memo)
            r = x if x is y else mk('ite', c, x, y)
    elif t.op in ('min', 'max'):
        r = ctx.minmax(t.op, [cof(ctx, x, asg, memo) for x in t.a])
    elif t.op == 'neg':
        r = ctx.neg(cof(ctx, t.a[0], asg, memo))
    elif t.op == 'rnd':
        r = None
        for u in asg:          # overflow in a finer format implies overflow in a coarser one
            if u.op == 'eqinf' and asg[u] and u.a[0].op == 'rnd' and u.a[0].a[1:] == t.a[1:] and sub_fmt(t.a[0], u.a[0].a[0]):
                r = PINF_T if u.a[1] > 0 else NINF_T
        if r is None:
            r = ctx.rnd(t.a[0], t.a[1], cof(ctx, t.a[2], asg, memo))
    else:
        r = t
    memo[t] = r
    return r


def eq_cases(ctx, a, b, limit=9):
    """equality by exhaustive case analysis over the boolean atoms of both terms"""
    if eq_terms(ctx, a, b):
        return True
    acc = {}
    atoms(a, acc)
    atoms(b, acc)
    at = list(acc)
    if not at or len(at) > limit:
        return False
    for m in range(1 << len(at)):
        asg = {x: bool(m >> i & 1) for i, x in enumerate(at)}
        if inconsistent(ctx, asg):
            continue
        memo = consts(asg)
        if not eq_terms(ctx, cof(ctx, a, asg, memo), cof(ctx, b, asg, memo)):
            return False
    return True


def consts(asg):
    """terms an assignment pins to a constant"""
    m = {}
    for t, v in asg.items():
        if v and t.op == 'eq':
            for x, y in (t.a, t.a[::-1]):
                if x.op == 'con' and y.op != 'con':
                    m[y] = x
        elif v and t.op == 'eqinf':
            m[t.a[0]] = PINF_T if t.a[1] > 0 else NINF_T
    return m


def congruence(ctx, asg):
    """equalities of an assignment are contradictory"""
    par = {}

    def find(x):
        while par.get(x, x) is not x:
            x = par[x]
        return x
    terms = set()
    for t, v in asg.items():
        if t.op == 'eq':
            terms.update(t.a)
            if v:
                par[find(t.a[0])] = find(t.a[1])
    if not terms:
        return False
    for t in list(terms):
        if t.op in RINTS and t.a[0] in terms and asg.get(mk('eq', *sorted((t.a[0], mk('floor', t.a[0])), key=lambda z: z.id))) is True:
            par[find(t)] = find(t.a[0])
    for _ in range(3):
        cl = {}
        for t in terms:
            cl.setdefault(find(t), []).append(t)
        # anything equal to an integer is its own floor / ceiling / ...
        for ms in cl.values():
            if any(t.op in RINTS for t in ms):
                for t in ms:
                    for r in terms:
                        if r.op in RINTS and r.a[0] is t and find(r) is not find(t):
                            par[find(r)] = find(t)
        # floor(a) = floor(b) = b <= a ... and a <= b forces a = b
        for ms in cl.values():
            for f in ms:
                if f.op in ('floor', 'ceil'):
                    a = f.a[0]
                    for b in ms:
                        if b is not a and b in terms and a in terms and find(a) is not find(b) and \
                                (ctx.le_struct(a, b) if f.op == 'floor' else ctx.le_struct(b, a)):
                            par[find(a)] = find(b)
    cl = {}
    for t in terms:
        cl.setdefault(find(t), []).append(t)
    for ms in cl.values():
        k = 63
        for t in ms:
            k &= ctx.kinds(t)
        if not k & 31:
            return True
        ns = [n for n in map(ctx.node, ms) if n is not None]
        for i, n in enumerate(ns):
            for m in ns[:i]:
                if ctx.cell.rel(n, m) in ('<', '>'):
                    return True
    for t, v in asg.items():
        if t.op == 'eq' and not v and find(t.a[0]) is find(t.a[1]) and not (ctx.kinds(t.a[0]) | ctx.kinds(t.a[1])) & KNAN:
            return True
        if t.op == 'lt' and v and find(t.a[0]) is find(t.a[1]) and t.a[0] in terms and t.a[1] in terms:
            return True
    return False


def order_conflict(ctx, asg):
    """comparisons of rounded sums, of their TwoSum errors and of the exact sums contradict each other"""
    def val(c):
        if isinstance(c, bool):
            return c
        if c.op == 'not':
            v = asg.get(c.a[0])
            return None if v is None else not v
        return asg.get(c)
    def exact(x):
        return x.a[2] if x.op == 'rnd' and x.a[1] == 'N' else x if x.op in ('var', 'neg', 'con') else None
    for t, v in asg.items():
        if t.op != 'lt':
            continue
        a, b = t.a
        if a.op != 'rnd' and b.op != 'rnd' or a.op == b.op == 'rnd' and a.a[:2] != b.a[:2]:
            continue
        e = asg.get(mk('eq', *sorted((a, b), key=lambda z: z.id)))
        if v and e:
            return True
        ts, us = ctx.twosum(a), ctx.twosum(b)
        cand = []
        if ts is not None and us is not None:
            if val(ctx.eq(ts[0], us[0])):
                cand = [(ts[1], us[1])]
        elif (a is ZERO_T and us is not None) or (b is ZERO_T and ts is not None):
            s, x = us or ts
            for u, w in asg.items():         # the other sum is exact: it is the term itself
                if w and u.op == 'eq' and (s in u.a or x in u.a):
                    q = u.a[0] if u.a[1] in (s, x) else u.a[1]
                    if q.op != 'rnd':
                        cand.append((q, x) if us else (x, q))
        for x1, x2 in cand:
            if ts is None or us is None or not ctx.both_overflow(x1, x2):
                w = val(ctx.lt(x1, x2))
                if w is not None and w != v:
                    return True
        p, q = exact(a), exact(b)
        if p is not None and q is not None and 'add' in (p.op, q.op):
            w, r = val(ctx.lt(p, q)), val(ctx.lt(q, p))
            if v and (w is False or r is True):
                return True
            if not v and e is False and w is True:
                return True
    return False


def inconsistent(ctx, asg):
    pins = [(x, y) for t, v in asg.items() if v and t.op == 'eq' for x, y in (t.a, t.a[::-1]) if y.op == 'con']
    for x, k in pins:           # x = k pins every rounding of x
        for t, v in asg.items():
            if t.op == 'eq':
                for r, q in (t.a, t.a[::-1]):
                    if q.op == 'con' and r.op == 'rnd' and r.a[2] is x:
                        z = ctx.rnd(r.a[0], r.a[1], k)
                        if z.op == 'con' and eq_terms(ctx, z, q) != v:
                            return True
        for t, v in asg.items():        # x = max(.., y, ..) finite: y is not +inf
            if v and t.op == 'eqinf' and x.op == ('max' if t.a[1] > 0 else 'min') and any(z is t.a[0] for z in x.a) and \
                    not ctx.kinds(k) & (KPI | KNI):
                return True
    if congruence(ctx, asg):
        return True
    ext = dict(asg)
    for t, v in asg.items():        # outward roundings cross only if the exact values do
        if v and t.op == 'lt':
            x, y = t.a
            if x.op == 'rnd' and x.a[1] == 'U' and x.a[2].op == 'add':
                x = x.a[2]
            if y.op == 'rnd' and y.a[1] == 'D' and y.a[2].op == 'add':
                y = y.a[2]
            if x is t.a[0] and y is t.a[1]:
                continue
            c, w = ctx.lt(x, y), True
            if isinstance(c, Term) and c.op == 'not':
                c, w = c.a[0], False
            if c is (not w) or isinstance(c, Term) and ext.get(c, w) != w:
                return True
            if isinstance(c, Term):
                ext[c] = w
    if order_conflict(ctx, ext):
        return True
    for t, v in asg.items():
        if not v:
            continue
        if t.op == 'lt':
            o = mk('lt', t.a[1], t.a[0])
            if asg.get(o):
                return True
        if t.op == 'eqinf':
            o = mk('eqinf', t.a[0], -t.a[1])
            if asg.get(o):
                return True
            n = mk('isnan', t.a[0])
            if asg.get(n):
                return True
            if t.a[0].op == 'rnd':
                for u, w in asg.items():
                    if w and u.op == 'eq' and any(x is t.a[0].a[2] and y.op == 'con' for x, y in (u.a, u.a[::-1])):
                        return True
                    if not w and u.op == 'eqinf' and u.a[1] == t.a[1] and u.a[0].op == 'rnd' and u.a[0].a[1:] == t.a[0].a[1:] and \
                            sub_fmt(u.a[0].a[0], t.a[0].a[0]):
                        return True
                    # overflow in the finer format, finite in the coarser one (same direction, same value)
                    if w and u.op == 'eq' and any(y.op == 'con' and not ctx.kinds(y) & (KPI | KNI) and x.op == 'rnd' and
                                                  x.a[1:] == t.a[0].a[1:] and sub_fmt(x.a[0], t.a[0].a[0]) for x, y in (u.a, u.a[::-1])):
                        return True
    return False


def value_of(x, env):
    if isinstance(x, Term):
        if isbool(x):
            return bool(evalt.evb(x, env))
        if x.op in ('lin', 'lsum', 'orb', 'tern', 'cmp3', 'toint', 'iopq'):
            return evalt.evi(x, env)
        if x.op == 'ite':
            return value_of(x.a[1] if evalt.evb(x.a[0], env) else x.a[2], env)
        return evalt.ev(x, env)
    return x


def same_value(a, b, kind):
    if kind == 'num':
        if isinstance(a, (bool, int)) or isinstance(b, (bool, int)):
            return int(a) == int(b)
        if a == NV.NAN or b == NV.NAN:
            return a == b
        return NV.cmpv(a, b) == 0
    if kind in ('snum', 'text'):           # sign of zero matters
        return a == b
    return int(a) == int(b)


def fmtv(v):
    if isinstance(v, Fraction):
        return evalt.show_num(v)
    return str(v)


class Entry:
    """one wrapper function, its operands and its specification

    spec(S, ivs, extra) -> list of (label, expected abstract value, kind)
    outs(out) -> list of observed abstract values in the same order"""

    def __init__(self, prop, name, code, operands, spec, outs, where, rootkinds, extra=None, setup=None, args=None, after=None, presig=None):
        self.prop, self.name, self.code, self.operands = prop, name, code, operands
        self.spec, self.outs, self.where, self.rootkinds = spec, outs, where, rootkinds
        self.extra = extra or {}
        self.setup = setup
        self.args = args
        self.after = after


class Spec:
    """context handed to a specification"""

    def __init__(self, I):
        self.I, self.c, self.cell = I, I.ctx, I.cell

    def sign(self, t):
        """-1 / 0 / 1 of a leaf term, refining the cell if undecided"""
        c = self.c
        k = c.kinds(t)
        if not k & ~(KN | KNI):
            return -1
        if k == KZ:
            return 0
        if not k & ~(KP | KPI):
            return 1
        n = c.node(t)
        if n is None:
            raise Abort('spec: sign of a non-leaf')
        raise Split('fp', n, ('c', Fraction(0)))

    def cmp(self, a, b):
        """-1/0/1 for leaves"""
        c = self.c
        if c.lt(a, b) is True:
            return -1
        if c.lt(b, a) is True:
            return 1
        return 0

    def isinf(self, t):
        c = self.c
        r = c.bor(c.eq_inf(t, 1), c.eq_inf(t, -1))
        return r

    def R(self, ty, m, e):
        return self.c.rnd(ty, m, e)


LAST = None


def run_cell(entry, mod, cell, kinds, seed):
    """-> list of child cells (on Split) or a verdict tuple"""
    I = Interp(mod, cell, externals=entry.extra.get('stubs'), opts={'ro': set(o.name for o in entry.operands), 'splitthrow': entry.extra.get('splitthrow'), 'sums': entry.extra.get('sums')})
    global LAST
    LAST = I
    st = new_state()
    ctx = I.ctx
    ctx.splitsign = entry.extra.get('splitsign', False)
    ivs = []
    for o, k in zip(entry.operands, kinds):
        v = make_iv(ctx, o, k)
        put_iv(st, o.name, v, o.ty, o.dec)
        ivs.append(v)
    st.mem['out'] = {}
    st.own.add('out')
    args = [('P', 'out', 0)] + [('P', o.name, 0) for o in entry.operands]
    I.kinds = kinds
    if entry.setup:
        args = entry.setup(I, st, args)
    kind, st, ret = I.call(entry.code, args, st, None)
    out = Outcome()
    out.I, out.st, out.ret, out.kind = I, st, ret, kind
    out.exc = I.lastexc
    return I, out, ivs


def check_entry(entry, mod, rng_seed, maxcells=4000, tlimit=None, nsamp=None, shard=None):
    res = Result()
    rng = random.Random(f"{rng_seed}:{entry.name}")
    nsamp = nsamp or NSAMP
    t0 = time.time()
    nviol = 0
    for kinds in entry.rootkinds:
        reset_terms()
        root = Cell()
        try:
            for o, k in zip(entry.operands, kinds):
                declare_iv(root, o, k)
            if entry.extra.get('ints'):
                for n, d in entry.extra['ints'].items():
                    root.ints[n] = d
            if entry.extra.get('decl'):
                entry.extra['decl'](root, kinds)
            for o, k in zip(entry.operands, kinds):
                r = (shard or {}).get(o.name)
                if r and k in ('N', 'com', 'ncom'):
                    root.fact(V(o.name + 'l'), r, Cn(0))
                elif r and r != '<':
                    raise Inconsistent()
        except Inconsistent:
            continue
        roots = []
        if 'Xcom' in kinds:
            # unbounded: at least one infinite bound
            o = [o for o, k in zip(entry.operands, kinds) if k == 'Xcom'][0]
            c1, c2 = root.copy(), root.copy()
            c1.fact(V(o.name + 'l'), '=', Cn('ninf'))
            c2.fact(V(o.name + 'l'), '>', Cn('ninf'))
            c2.fact(V(o.name + 'u'), '=', Cn('pinf'))
            roots = [c1, c2]
        else:
            roots = [root]
        work = roots
        while work:
            cell = work.pop()
            if res.cells >= maxcells or (tlimit and time.time() - t0 > tlimit):
                res.undecided += 1
                res.reasons['cell/time budget'] = res.reasons.get('cell/time budget', 0) + 1 + len(work)
                work = []
                break
            if len(Term.table) > 400000:
                reset_terms()
            judge = entry.extra.get('judge')
            try:
                I, out, ivs = run_cell(entry, mod, cell, kinds, rng)
                if judge:
                    judged(entry, judge, I, out, None, cell, kinds, rng, nsamp, res)
                    continue
                S = Spec(I)
                exp = entry.spec(S, ivs, out)
                obs = entry.outs(out)
                undec = []
                bad = None
                for (label, e, k), o in zip(exp, obs):
                    if k == 'skip':
                        continue
                    if o == UNDEF or o is None:
                        bad = (label, 'indeterminate value', e, None)
                        break
                    if k == 'text':
                        if o != e:
                            undec.append((label, e, k, o))
                        continue
                    if k != 'snum' and (eq_cases(I.ctx, o, e) or isinstance(o, Term) and isinstance(e, (Term, bool, int)) and order.prove_eq(I.ctx, o, e, eq_terms)) or k == 'snum' and o is e:
                        continue
                    undec.append((label, e, k, o))
            except Split as s:
                ch = cell.split(s)
                res.splits += 1
                work.extend(ch)
                continue
            except Inconsistent:
                continue
            except Abort as a:
                if judge and judged(entry, judge, LAST, None, a, cell, kinds, rng, nsamp, res):
                    continue
                res.cells += 1
                res.undecided += 1
                key = a.why
                res.reasons[key] = res.reasons.get(key, 0) + 1
                continue
            res.cells += 1
            res.funcs |= I.funcs
            res.insts += I.steps
            if bad is None and not undec:
                res.proved += 1
                continue
            # refute or leave undecided
            w = bad and (bad[0], 'indeterminate value', None, None, None)
            if w is None:
                w = refute(I, cell, undec, rng, nsamp, res)
            if w is None:
                res.undecided += 1
                key = 'terms neither equal nor refuted: ' + undec[0][0]
                res.reasons[key] = res.reasons.get(key, 0) + 1
                if os.environ.get('VERIF_DEBUG'):
                    print('UNDEC', entry.name, cell.describe(), [(l, show(o) if isinstance(o, Term) else o, show(e) if isinstance(e, Term) else e) for l, e, k, o in undec][:3])
            else:
                nviol += 1
                if nviol <= 3:
                    res.violations.append(report(entry, I, cell, kinds, w, undec))
                else:
                    res.violations.append(None)
                if nviol > 12:
                    work = []
                    break
        if nviol > 12:
            break
    return res


def judged(entry, judge, I, out, abort, cell, kinds, rng, nsamp, res):
    """effects of one run: judge yields (component, why, location, path conditions, extra conditions by point)"""
    fs = judge(I, out, abort)
    if abort is not None and not fs:
        return False
    res.cells += 1
    res.funcs |= I.funcs
    res.insts += I.steps
    if not fs:
        res.proved += 1
        return True
    why = None
    for comp, text, loc, conds, test in fs:
        w = point(cell, conds, test, rng, nsamp * 4, res)
        if w is None:
            why = why or comp
            continue
        tr = []
        d = dict(entry=entry.name, function=entry.where, component=comp, why=text, operands=list(kinds), cell=cell.describe(), example=w)
        if loc and loc[0]:
            d['at'] = f"{loc[0].split('/p1788/')[-1]}:{loc[1]}"
        if sum(1 for v in res.violations if v) < 3:
            res.violations.append(d)
        else:
            res.violations.append(None)
        return True
    res.undecided += 1
    key = 'possible but not shown: ' + why
    res.reasons[key] = res.reasons.get(key, 0) + 1
    if os.environ.get('VERIF_DEBUG'):
        print('UNDEC', entry.name, cell.describe(), [(f[0], f[1], f[2], [show(c) if isinstance(c, Term) else c for c in f[3]]) for f in fs])
    return True


def point(cell, conds, test, rng, n, res):
    """a point of the cell satisfying the path conditions (and the test, which returns a description)"""
    for _ in range(n):
        pt = evalt.sample(cell, rng)
        if pt is None:
            continue
        res.samples += 1
        env = evalt.Env(pt[0], pt[1], h=0, dyn='N')
        try:
            if all((c if isinstance(c, bool) else evalt.evb(c, env)) for c in conds):
                r = test(pt) if test else env.show()
                if r:
                    return r
        except NV.Cannot:
            continue
    return None


def aims(ctx, undec):
    """comparisons of an operand bound with a compound value in the compared terms: (bound, sign, value)"""
    seen, out = set(), {}
    todo = [t for _, e, _, o in undec for t in (e, o)]
    while todo:
        t = todo.pop()
        if not isinstance(t, Term) or t in seen:
            continue
        seen.add(t)
        todo.extend(t.a)
        if t.op in ('lt', 'eq', 'min', 'max', 'cmp3'):
            for x, y in itertools.permutations([x for x in t.a if isinstance(x, Term)], 2):
                n = ctx.node(x) if not isbool(x) else None
                if n is not None and n[0] == 'v' and ctx.node(y) is None:
                    while y.op == 'rnd' and y.a[0] == ctx.cell.vtype[n[1]]:
                        y = y.a[2]
                    out[(n[1], n[2], y)] = None
    return list(out)


def aimed(cell, pt, aim, rng):
    """move the bound to the value it is compared with, or next to it"""
    name, sg, t = aim
    fmt = cell.vtype[name]
    try:
        v = None
        for f in (fmt, 'l'):       # the value itself, else enclosed
            try:
                v = evalt.ev(mk('rnd', fmt, rng.choice('DU'), t), evalt.Env(pt[0], pt[1], h=0, dyn='N'))
                break
            except NV.Cannot:
                continue
        if not isinstance(v, Fraction):
            return None
        for _ in range(rng.choice((0, 0, 0, 1, 1, 2, 3))):
            v = NV.next_val(v, fmt, rng.random() < 0.5)
            if not isinstance(v, Fraction):
                return None
    except (NV.Cannot, AssertionError):
        return None
    val = dict(pt[0])
    val[name] = v if sg > 0 else -v
    return (val, pt[1]) if evalt.incell(cell, val) and evalt.trigsigns(cell, (val, pt[1])) else None


EFFORT = {}


def refute(I, cell, undec, rng, nsamp, res):
    am = aims(I.ctx, undec)
    EFFORT['left'] = EFFORT.get('left', 100.0)       # seconds of this process for points beyond the first nsamp
    own = min(6.0, EFFORT['left'])
    t0, n = time.time(), -1
    while True:
        n += 1
        if n >= nsamp and (time.time() - t0 > own or n > 6000):
            EFFORT['left'] -= min(own, time.time() - t0)
            return None
        pt = evalt.sample(cell, rng)
        if pt is None:
            continue
        if am and n & 1:
            pt = aimed(cell, pt, rng.choice(am), rng) or pt
        res.samples += 1
        for hh in range(3):
            env = evalt.Env(pt[0], pt[1], h=hh, dyn='NDU'[hh])
            for label, e, k, o in undec:
                try:
                    a, b = value_of(o, env), value_of(e, env)
                except NV.Cannot:
                    continue
                if not same_value(a, b, k):
                    return (label, None, env, a, b)
            if hh == 0 and not any(uses_history(o) for _, _, _, o in undec):
                break


def uses_history(t, memo=None):
    s = show_all(t)
    return s


def show_all(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'rnd':
                f, m, e = x.a
                if m == 'dyn' or (isinstance(f, tuple) and not all(isinstance(z, int) for z in f[1:])):
                    return True
            if x.op in ('rintdyn', 'hist'):
                return True
            st.extend(x.a)
        elif isinstance(x, tuple):
            if 'h' in x:
                return True
            st.extend(x)
    return False


def report(entry, I, cell, kinds, w, undec):
    label, why, env, a, b = w
    tr = []
    for loc, v in I.trace:
        if loc and '/p1788/' in loc[0]:
            s = f"{loc[0].split('/p1788/')[-1]}:{loc[1]}={'T' if v is True else 'F' if v is False else v}"
            if not tr or tr[-1] != s:
                tr.append(s)
    d = dict(entry=entry.name, function=entry.where, component=label, operands=list(kinds), cell=cell.describe(), branches=tr[-12:])
    if why:
        d['why'] = why
    else:
        d['witness'] = env.show()
        if 'sums' in entry.extra or 'stubs' in entry.extra:
            d['witness'] = {k: v for k, v in d['witness'].items() if not (k[0] == 'w' and k[1:].isdigit())} if isinstance(d['witness'], dict) else d['witness']
        d['code_value'], d['required_value'] = fmtv(a), fmtv(b)
        for l, e, k, o in undec:
            if l == label:
                d['code_term'] = show(o)[:300] if isinstance(o, Term) else str(o)
                d['required_term'] = show(e)[:300] if isinstance(e, Term) else str(e)
                loc = find_loc(o)
                if loc:
                    d['at'] = f"{loc[0]}:{loc[1]}"
    return d


def find_loc(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term) and x.id not in seen:
            seen.add(x.id)
            if x.loc and '/p1788/' in x.loc[0]:
                return x.loc
            st.extend(y for y in x.a if isinstance(y, Term))
    return None
