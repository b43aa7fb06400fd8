"""Abstract interpreter over LLVM IR (clang -O0 + sroa) in the value-graph domain of terms.py.

For one order cell, every function is interpreted once per call over abstract memory; a branch the cell
does not decide has BOTH arms analysed up to the branch block's immediate post-dominator and the results
merged with a gate (ite) -- a dataflow join, not path enumeration.  A comparison between two input leaves
the cell leaves open raises Split, and the caller refines the cell.  Anything without a model raises
Abort: the obligation is then reported as 'undecided' in the evidence, never as a violation."""
import sys
from fractions import Fraction
import numeval as NV
from cells import Split, Cell, Inconsistent
from terms import (Ctx, mk, Term, con, is_con, NAN_T, PINF_T, NINF_T, ZERO_T, NZERO_T, ONE_T, KN, KZ, KP, KPI, KNI, KNAN)

sys.setrecursionlimit(20000)
RM = {0: 'N', 1: 'Z', 2: 'U', 3: 'D', 4: 'A'}
NULL = ('P', None, 0)
UNDEF = ('U',)
STD = {(24, -148, 128): 'f', (53, -1073, 1024): 'd', (64, -16444, 16384): 'l'}
FPSZ = {'f': 4, 'd': 8, 'l': 16}


class Abort(Exception):
    def __init__(self, why, loc=None):
        Exception.__init__(self, why)
        self.why, self.loc = why, loc


class State:
    __slots__ = ('mem', 'own', 'ev')

    def __init__(self):
        self.mem, self.own, self.ev = {}, set(), ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.ev = self.ev
        return s

    def wr(self, obj):
        d = self.mem.get(obj)
        if d is None:
            d = self.mem[obj] = {}
            self.own.add(obj)
        elif obj not in self.own:
            d = self.mem[obj] = dict(d)
            self.own.add(obj)
        return d


def wrap(v, bits):
    if bits == 1:
        return bool(v & 1)
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def uns(v, bits):
    return v & ((1 << bits) - 1)


def isbool(t):
    return isinstance(t, bool) or (isinstance(t, Term) and t.op in
                                   ('lt', 'eq', 'not', 'and', 'isnan', 'eqinf', 'inexact', 'bopq', 'sgn0', 'iscls', 'band2') or
                                   isinstance(t, Term) and t.op == 'ite' and isbool(t.a[1]) and isbool(t.a[2]))


class _I64:
    k, bits = 'int', 64


I64 = _I64()


class Frame:
    __slots__ = ('fn', 'regs', 'allocas', 'depth')


class Interp:
    MAXSTEPS = 400000
    MAXDEPTH = 60
    MAXLOOP = 40

    def __init__(self, mod, cell, externals=None, opts=None):
        self.m = mod
        self.cell = cell
        self.ctx = Ctx(cell)
        self.steps = 0
        self.nobj = 0
        self.path = []          # stack of gate conditions
        self.trace = []         # decided/undecided branches: (loc, outcome)
        self.cur = None
        self.funcs = set()
        self.calls = 0
        self.opts = opts or {}
        self.stubs = externals or {}
        self.ngates = 0
        self.lastexc = None
        self.tids = {}
        self.cname = {}
        self.depth = 0
        self.evlog = []
        self.maybe = {}
        self.hform = {}
        self.thread = 1

    # ---- helpers --------------------------------------------------------------------------------
    def newobj(self, tag):
        self.nobj += 1
        return (tag, self.nobj)

    def event(self, st, kind, detail=''):
        e = (kind, detail, self.cur, tuple(self.path))
        st.ev = st.ev + (e,)
        self.evlog.append(e)

    def gwrite(self, st, name, v):
        self.event(st, 'global-write', (name, v, bool(self.reg(st, 'guard'))))

    def const(self, v, st):
        k = v.k
        if k == 'int':
            return bool(v.v) if v.ty.bits == 1 else v.v
        if k == 'fp':
            t = v.v
            if t[0] == 'fin':
                return NZERO_T if t[2] else con(t[1])
            if t[0] == 'inf':
                return PINF_T if t[1] > 0 else NINF_T
            return NAN_T
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(v.ty)
        if k == 'zero':
            return self.zero(v.ty)
        if k == 'func':
            return ('F', v.v)
        if k == 'gvar':
            return ('P', ('G', v.v), 0)
        if k == 'agg':
            return ('A', tuple(self.const(x, st) for x in v.v))
        if k == 'str':
            return ('A', tuple(wrap(b, 8) for b in v.v))
        if k == 'cexpr':
            op, ops, src = v.v
            if op == 'gep':
                base = self.const(ops[0], st)
                return self.gep(base, src, [self.const(o, st) for o in ops[1:]])
            if op in ('bitcast', 'addrspacecast'):
                return self.const(ops[0], st)
            raise Abort('constant expression ' + op)
        if k == 'md':
            return None
        raise Abort('constant ' + k)

    def undef(self, ty):
        if ty.k in ('struct',):
            return ('A', tuple(self.undef(e) for e in ty.elems))
        if ty.k in ('array', 'vec') and ty.n <= 64:
            return ('A', tuple(self.undef(ty.elem) for _ in range(ty.n)))
        return UNDEF

    def zero(self, ty):
        if ty.k == 'int':
            return False if ty.bits == 1 else 0
        if ty.k in ('f', 'd', 'l'):
            return ZERO_T
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'struct':
            return ('A', tuple(self.zero(e) for e in ty.elems))
        if ty.k in ('array', 'vec'):
            return ('A', tuple(self.zero(ty.elem) for _ in range(ty.n)))
        raise Abort('zero of ' + ty.k)

    def val(self, v, fr, st):
        if v.k == 'reg':
            try:
                return fr.regs[v.v]
            except KeyError:
                raise Abort('undefined register')
        return self.const(v, st)

    def gep(self, base, src, idx):
        if isinstance(base, Term) and base.op == 'ite':
            return self.ite(base.a[0], self.gep(base.a[1], src, idx), self.gep(base.a[2], src, idx))
        if not isinstance(base, tuple) or base[0] != 'P':
            raise Abort('gep on ' + str(base)[:40])
        off = base[2]
        ty = src
        for n, i in enumerate(idx):
            if not isinstance(i, int):
                raise Abort('symbolic index')
            if n == 0:
                off += i * ty.size
            elif ty.k == 'struct':
                off += ty.offs[i]
                ty = ty.elems[i]
            else:
                ty = ty.elem
                off += i * ty.size
        return ('P', base[1], off)

    def ite(self, c, x, y):
        if isinstance(c, bool):
            return x if c else y
        if x is y or (not isinstance(x, Term) and not isinstance(y, Term) and x == y and type(x) == type(y)):
            return x
        if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == 'A' and y[0] == 'A' and len(x[1]) == len(y[1]):
            return ('A', tuple(self.ite(c, a, b) for a, b in zip(x[1], y[1])))
        if isinstance(x, tuple) and x and x[0] == 'U':
            return y
        if isinstance(y, tuple) and y and y[0] == 'U':
            return x
        if isbool(x) and isbool(y):
            return self.ctx.bite(c, x, y)
        if isinstance(x, Term) and isinstance(y, Term):
            return self.ctx.ite(c, x, y)
        if isinstance(c, Term) and c.op == 'not':
            c, x, y = c.a[0], y, x
        try:
            return mk('ite', c, x, y)
        except TypeError:
            raise Abort('merge of unhashable values')

    # ---- memory ---------------------------------------------------------------------------------
    def ginit(self, st, obj):
        name = obj[1]
        g = self.m.gvar(name)
        d = st.wr(obj)
        if g['init'] is not None:
            v = self.const(g['init'], st)
            self.put(d, 0, g['ty'], v)
        else:
            self.event(st, 'extern-global', name)
        return d

    def objd(self, st, obj):
        d = st.mem.get(obj)
        if d is None:
            if isinstance(obj, tuple) and obj[0] == 'G':
                if obj[1] not in self.m.gnames:
                    raise Abort('unknown global')
                return self.ginit(st, obj)
            self.event(st, 'dead-object', str(obj))
            raise Abort('access to a dead object')
        return d

    def put(self, d, off, ty, v):
        if isinstance(v, tuple) and v and v[0] == 'A' and ty.k in ('struct', 'array', 'vec'):
            if ty.k == 'struct':
                for e, o, x in zip(ty.elems, ty.offs, v[1]):
                    self.put(d, off + o, e, x)
            else:
                sz = ty.elem.size
                for i, x in enumerate(v[1]):
                    self.put(d, off + i * sz, ty.elem, x)
            return
        size = ty.store
        if isinstance(v, tuple) and v and v[0] == 'B':
            self.clear_range(d, off, size)
            for (o, s, x) in v[2]:
                d[off + o] = (s, x)
            return
        self.raw_put(d, off, size, v)

    def raw_put(self, d, off, size, v):
        e = d.get(off)
        if e is None or e[0] != size or True:
            self.clear_range(d, off, size)
        d[off] = (size, v)

    @staticmethod
    def clear_range(d, off, size):
        if not d:
            return
        end = off + size
        kill = [o for o, (s, _) in d.items() if o < end and o + s > off]
        for o in kill:
            s, v = d.pop(o)
            # keep non-overlapped bytes of constants is not needed: partial overwrite loses the rest
            if o < off or o + s > end:
                if o < off:
                    d[o] = (off - o, UNDEF)
                if o + s > end:
                    d[end] = (o + s - end, UNDEF)

    def store(self, st, ptr, ty, v):
        for c, p in self.ptrs(ptr):
            if p[1] is None:
                self.event(st, 'null-write')
                raise Abort('null write')
            obj = p[1]
            if obj not in st.mem:
                self.objd(st, obj)
            if isinstance(obj, tuple) and obj[0] == 'G' and self.m.gvar(obj[1])['const']:
                self.event(st, 'const-write', obj[1])
            if obj in self.opts.get('ro', ()):
                self.event(st, 'operand-write', str(obj))
            if isinstance(obj, tuple) and obj[0] == 'G':
                self.gwrite(st, obj[1], v)
            d = st.wr(obj)
            if c is True:
                self.put(d, p[2], ty, v)
            else:
                old = self.load1(st, p, ty)
                self.put(d, p[2], ty, self.ite(c, v, old))

    def ptrs(self, ptr):
        """[(cond, pointer)]"""
        if isinstance(ptr, tuple) and ptr and ptr[0] == 'P':
            return [(True, ptr)]
        if isinstance(ptr, Term) and ptr.op == 'ite':
            out = []
            for c, p in self.ptrs(ptr.a[1]):
                out.append((self.ctx.band(ptr.a[0], c), p))
            for c, p in self.ptrs(ptr.a[2]):
                out.append((self.ctx.band(self.ctx.bnot(ptr.a[0]), c), p))
            return out
        raise Abort('pointer ' + str(ptr)[:40])

    def load(self, st, ptr, ty):
        ps = self.ptrs(ptr)
        r = None
        for c, p in reversed(ps):
            v = self.load1(st, p, ty)
            r = v if r is None else self.ite(c, v, r)
        return r

    def load1(self, st, p, ty):
        if p[1] is None:
            self.event(st, 'null-read')
            raise Abort('null read')
        d = self.objd(st, p[1])
        if isinstance(p[1], tuple) and p[1][0] == 'G' and not self.m.gvar(p[1][1])['const']:
            self.event(st, 'global-read', p[1][1])
        return self.get(st, d, p[2], ty)

    def get(self, st, d, off, ty):
        if ty.k == 'struct':
            return ('A', tuple(self.get(st, d, off + o, e) for e, o in zip(ty.elems, ty.offs)))
        if ty.k in ('array', 'vec'):
            sz = ty.elem.size
            return ('A', tuple(self.get(st, d, off + i * sz, ty.elem) for i in range(ty.n)))
        size = ty.store
        e = d.get(off)
        if e is not None and e[0] == size:
            return e[1]
        if e is not None and e[0] == 16 and size == 10 or e is not None and e[0] == 10 and size == 16:
            return e[1]
        inside = [(o - off, s, v) for o, (s, v) in d.items() if o >= off and o + s <= off + size]
        if inside and ty.k in ('int', 'd', 'f'):
            inside.sort()
            if all(isinstance(x[2], int) for x in inside):
                # little endian assembly of concrete bytes
                tot, pos = 0, 0
                for o, s, v in inside:
                    if o != pos:
                        break
                    tot |= uns(v, 8 * s) << (8 * pos)
                    pos += s
                if pos == size and ty.k == 'int':
                    return wrap(tot, ty.bits)
            return ('B', size, tuple(inside))
        if e is not None and isinstance(e[1], int) and ty.k == 'int' and e[0] > size:
            return wrap(e[1], ty.bits)
        if e is None and not inside:
            return UNDEF
        raise Abort('mixed-size read')

    # ---- calls ----------------------------------------------------------------------------------
    def call(self, name, args, st, loc):
        """-> (kind, state, value) ; kind 'ret' | 'throw' | 'dead'"""
        self.calls += 1
        stub = self.stubs.get(name)
        if stub is not None:
            return stub(self, st, args)
        import models
        h = models.lookup(name)
        if h is not None:
            r = h(self, st, args, name)
            if isinstance(r, tuple) and r and r[0] in ('#throw', '#dead'):
                return r[0][1:], st, None
            return 'ret', st, r
        if name not in self.m.fnames:
            raise Abort('external ' + name, loc)
        F = self.m.func(name)
        if F.decl:
            raise Abort('external ' + name, loc)
        return self.exec(F, args, st)

    def exec(self, F, args, st):
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            self.depth -= 1
            raise Abort('call depth')
        self.funcs.add(F.name)
        fr = Frame()
        fr.fn, fr.regs, fr.allocas, fr.depth = F, {}, [], {}
        for i, a in enumerate(args[:len(F.params)]):
            fr.regs[i] = a
        # byval aggregates are not copied at the IR level: the caller's copy is used
        try:
            kind, st, v, _ = self.run(fr, st, F.entry, None, -1)
        finally:
            self.depth -= 1
        for o in fr.allocas:
            d = st.mem.pop(o, None)
            if d:
                for off, (s, x) in d.items():
                    if isinstance(x, tuple) and x and x[0] == 'M' and x[2] == (o, off):
                        self.leak(st, x[1], F.name)
            st.own.discard(o)
        return kind, st, v

    def leak(self, st, h, why):
        mp = st.mem['mp'].get(h)
        if mp is None:
            return
        s = self.known_status(mp[1][2])
        if s == 'live' or s in self.maybe:
            self.cevent(st, 'mpfr-leak', why, self.livecond(s))
            st.wr('mp')[h] = (0, (mp[1][0], mp[1][1], 'leaked'))

    def cevent(self, st, kind, why, c):
        self.path.append(c)
        self.event(st, kind, why)
        self.path.pop()

    def phis(self, fr, st, B, prev):
        out = {}
        for I in B.phis:
            for b, v in I.x:
                if b == prev:
                    out[I.id] = self.val(v, fr, st)
                    break
            else:
                raise Abort('phi')
        return out

    def run(self, fr, st, blk, prev, stop):
        """execute from blk until stop (block id) / return; -> (kind, state, value, phi-values at stop)"""
        F = fr.fn
        visits = {}
        nophi = False
        while True:
            B = F.blocks[blk]
            if B.phis and not nophi:
                fr.regs.update(self.phis(fr, st, B, prev))
            nophi = False
            visits[blk] = visits.get(blk, 0) + 1
            if visits[blk] > self.opts.get('maxloop', 2000):
                raise Abort('loop')
            nxt = None
            for I in B.insts:
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise Abort('step limit')
                if I.loc:
                    self.cur = I.loc
                op = I.op
                if op == 'br':
                    if not I.ops:
                        nxt = I.x[0]
                        break
                    c = self.boolv(self.val(I.ops[0], fr, st))
                    c = self.ctx.known(c) if not isinstance(c, bool) else c
                    if isinstance(c, bool):
                        self.trace.append((I.loc, c))
                        nxt = I.x[0] if c else I.x[1]
                        break
                    r = self.fork(fr, st, blk, [(c, I.x[0]), (None, I.x[1])], stop, I)
                    if r[0] != 'go':
                        return r
                    _, st, nxt, ph = r
                    if nxt == stop:
                        return 'stop', st, None, ph
                    fr.regs.update(ph)
                    prev = None
                    # continue in nxt with phis already evaluated
                    blk, nophi = nxt, True
                    nxt = 'phi-done'
                    break
                elif op == 'switch':
                    v = self.val(I.ops[0], fr, st)
                    dflt, cases = I.x
                    if isinstance(v, Term) and v.op == 'ite':
                        arms = self.switch_arms(v, dflt, cases)
                        if arms is not None and arms[0][0] is True:
                            nxt = arms[0][1]
                            break
                        if arms is not None:
                            r = self.fork(fr, st, blk, arms, stop, I)
                            if r[0] != 'go':
                                return r
                            _, st, nxt, ph = r
                            if nxt == stop:
                                return 'stop', st, None, ph
                            fr.regs.update(ph)
                            blk, nophi = nxt, True
                            nxt = 'phi-done'
                            break
                    nxt = dflt
                    if isinstance(v, Term):
                        done = False
                        for k, b in cases:
                            e = self.icmp('eq', v, k, 32)
                            if e is True:
                                nxt, done = b, True
                                break
                            if e is not False:
                                raise Abort('switch')
                    elif isinstance(v, int):
                        for k, b in cases:
                            if k == v:
                                nxt = b
                                break
                        self.trace.append((I.loc, v))
                    else:
                        raise Abort('switch on ' + str(v)[:30])
                    break
                elif op == 'ret':
                    v = self.val(I.ops[0], fr, st) if I.ops else None
                    return 'ret', st, v, None
                elif op == 'unreachable':
                    return 'dead', st, None, None
                elif op == 'resume':
                    return 'throw', st, None, None
                elif op in ('call', 'invoke'):
                    x = I.x[0] if op == 'invoke' else I.x
                    callee = self.val(x, fr, st) if x.k != 'md' else None
                    if callee is None:
                        raise Abort('inline asm')
                    args = [self.val(o, fr, st) for o in I.ops]
                    if not (isinstance(callee, tuple) and callee[0] == 'F'):
                        raise Abort('indirect call')
                    kind, st, v = self.call(callee[1], args, st, I.loc)
                    self.cur = I.loc or self.cur
                    if kind == 'throw':
                        if op == 'invoke':
                            nxt = I.x[2]
                            break
                        return 'throw', st, None, None
                    if kind == 'dead':
                        return 'dead', st, None, None
                    fr.regs[I.id] = v
                    if op == 'invoke':
                        nxt = I.x[1]
                        break
                else:
                    fr.regs[I.id] = self.inst(I, fr, st)
            if nxt == 'phi-done':
                continue
            if nxt is None:
                raise Abort('block without terminator')
            if nxt == stop:
                ph = self.phis(fr, st, F.blocks[nxt], blk) if F.blocks[nxt].phis else {}
                return 'stop', st, None, ph
            prev, blk = blk, nxt

    def switch_arms(self, v, dflt, cases):
        """ite tree of concrete ints -> arms"""
        def leaf(t):
            if isinstance(t, int):
                for k, b in cases:
                    if k == t:
                        return b
                return dflt
            return None
        a, b = leaf(v.a[1]), leaf(v.a[2])
        if a is not None and b is not None:
            return [(v.a[0], a), (None, b)]
        # nested: two targets in all
        seen = []

        def cond(t):
            if isinstance(t, Term) and t.op == 'ite':
                x, y = cond(t.a[1]), cond(t.a[2])
                return None if x is None or y is None else self.ite(t.a[0], x, y)
            x = leaf(t)
            if x is None:
                return None
            if x not in seen:
                seen.append(x)
            return x == seen[0]
        c = cond(v)
        if c is None or len(seen) > 2:
            return None
        if isinstance(c, bool):
            return [(True, seen[0]), (None, seen[0])]
        return [(c, seen[0]), (None, seen[1])]

    def fork(self, fr, st, blk, arms, stop, I):
        F = fr.fn
        rb = blk
        join = F.ipdom.get(rb, -1)
        c = arms[0][0]
        nc = self.ctx.bnot(c)
        self.ngates += 1
        if self.ngates > self.opts.get('maxgates', 4000):
            raise Abort('gate limit')
        fr.depth[rb] = fr.depth.get(rb, 0) + 1
        if fr.depth[rb] > self.MAXLOOP:
            raise Abort('loop with undecided exit')
        res = []
        base = st
        for cond, tgt in ((c, arms[0][1]), (nc, arms[1][1])):
            s2 = base.copy()
            saved = dict(self.ctx.assume)
            self.assume(cond, True)
            self.path.append(cond)
            regs = fr.regs
            fr.regs = dict(regs)
            try:
                if tgt == join:
                    ph = self.phis(fr, s2, F.blocks[tgt], rb) if F.blocks[tgt].phis else {}
                    r = ('stop', s2, None, ph)
                else:
                    r = self.run(fr, s2, tgt, rb, join)
            finally:
                fr.regs = regs
                self.path.pop()
                self.ctx.assume = saved
            if r[0] == 'throw':
                self.event(r[1], 'throw', self.lastexc)
            res.append(r)
        fr.depth[rb] -= 1
        a, b = res
        bad = ('dead', 'throw')
        if a[0] in bad and b[0] in bad:
            s = self.merge(c, a[1], b[1])
            return ('throw' if 'throw' in (a[0], b[0]) else 'dead'), s, None, None
        if a[0] in bad or b[0] in bad:
            g, o = (b, a) if a[0] in bad else (a, b)
            if o[0] == 'throw' and self.opts.get('splitthrow'):
                self.split_on(c)
                raise Abort('exception under an undecided condition')
            s = g[1]
            extra = [e for e in o[1].ev if e not in s.ev]
            s.ev = s.ev + tuple(extra)
            cond = nc if a[0] in bad else c
            # the surviving arm: from here on the condition holds
            self.assume(cond, True)
            if g[0] == 'ret':
                return 'ret', s, g[2], None
            return self._after(join, stop, s, g[3])
        s = self.merge(c, a[1], b[1])
        if a[0] == 'ret' and b[0] == 'ret':
            v = a[2] if a[2] is None else self.ite(c, a[2], b[2])
            return 'ret', s, v, None
        if a[0] == 'stop' and b[0] == 'stop':
            ph = {k: self.ite(c, a[3][k], b[3][k]) for k in a[3]}
            return self._after(join, stop, s, ph)
        raise Abort('irregular control flow')

    @staticmethod
    def _after(join, stop, s, ph):
        return 'go', s, join, ph

    def assume(self, c, v):
        if isinstance(c, bool):
            return
        a = self.ctx.assume
        a[c] = v
        if c.op == 'not':
            self.assume(c.a[0], not v)
        elif c.op == 'and' and v:
            for x in c.a:
                self.assume(x, True)
        elif c.op == 'lt' and v:
            a[mk('lt', c.a[1], c.a[0])] = False
            e = mk('eq', *sorted(c.a, key=lambda t: t.id))
            a[e] = False
        elif c.op == 'eq' and v:
            a[mk('lt', c.a[0], c.a[1])] = False
            a[mk('lt', c.a[1], c.a[0])] = False

    def merge(self, c, s1, s2):
        s = State()
        s.ev = s1.ev + tuple(e for e in s2.ev if e not in s1.ev) if s1.ev is not s2.ev else s1.ev
        m1, m2 = s1.mem, s2.mem
        for o, d1 in m1.items():
            d2 = m2.get(o)
            if d2 is None or d1 is d2:
                s.mem[o] = d1
                continue
            d = {}
            mp = o == 'mp'
            for off, e1 in d1.items():
                e2 = d2.get(off)
                if e2 is None:
                    d[off] = e1 if not mp else self.onearm(c, e1)
                elif e1 is e2 or e1 == e2:
                    d[off] = e1
                elif e1[0] == e2[0]:
                    d[off] = (e1[0], self.mval(c, e1[1], e2[1]))
                else:
                    d[off] = (e1[0], UNDEF)
            for off, e2 in d2.items():
                if off not in d1:
                    d[off] = e2 if not mp else self.onearm(self.ctx.bnot(c), e2)
            s.mem[o] = d
        for o, d2 in m2.items():
            if o not in m1:
                s.mem[o] = d2
        return s

    def onearm(self, c, e):
        """mpfr record that exists only under c"""
        r = e[1]
        if r[2] in ('cleared', 'leaked'):
            return e
        return (e[0], (r[0], r[1], self.status(self.ctx.band(c, self.livecond(r[2])))))

    # an mpfr record is 'live', 'cleared', 'leaked' or live under a condition
    def livecond(self, s):
        return self.maybe[s] if s in self.maybe else s == 'live'

    def status(self, c):
        if isinstance(c, bool):
            return 'live' if c else 'cleared'
        n = 'maybe%d' % len(self.maybe)
        self.maybe[n] = c
        return n

    def known_status(self, s):
        if s in self.maybe:
            c = self.ctx.known(self.maybe[s])
            if isinstance(c, bool):
                return 'live' if c else 'cleared'
        return s

    def mval(self, c, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 3 and isinstance(x[2], str) and isinstance(y[2], str) and not isinstance(x[0], str):
            # mpfr record (prec, term, live)
            if x[0] != y[0]:
                raise Abort('mpfr precision merge')
            live = x[2] if x[2] == y[2] else self.status(self.ctx.bite(c, self.livecond(x[2]), self.livecond(y[2])))
            return (x[0], self.ite(c, x[1], y[1]), live)
        return self.ite(c, x, y)

    # ---- instructions ---------------------------------------------------------------------------
    def boolv(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v)
        if isinstance(v, Term):
            if isbool(v):
                return v
            if v.op == 'ite':
                return self.ctx.bite(v.a[0], self.boolv(v.a[1]), self.boolv(v.a[2]))
        if v == UNDEF:
            raise Abort('branch on an indeterminate value')
        raise Abort('bool ' + str(v)[:40])

    def inst(self, I, fr, st):
        op = I.op
        if op == 'load':
            return self.load(st, self.val(I.ops[0], fr, st), I.ty)
        if op == 'store':
            v = self.val(I.ops[0], fr, st)
            ty = self.valty(I.ops[0], fr)
            self.store(st, self.val(I.ops[1], fr, st), ty or self.guess(I, v), v)
            return None
        if op == 'alloca':
            o = self.newobj('A')
            st.mem[o] = {}
            st.own.add(o)
            fr.allocas.append(o)
            return ('P', o, 0)
        if op == 'gep':
            return self.gep(self.val(I.ops[0], fr, st), I.x, [self.val(o, fr, st) for o in I.ops[1:]])
        if op == 'icmp':
            a, b = (self.val(o, fr, st) for o in I.ops)
            return self.icmp(I.x, a, b)
        if op == 'fcmp':
            a, b = (self.val(o, fr, st) for o in I.ops)
            return self.fcmp(I.x, a, b)
        if op == 'select':
            c, a, b = (self.val(o, fr, st) for o in I.ops)
            c = self.boolv(c)
            return self.ite(self.ctx.known(c), a, b)
        if op in ('zext', 'sext', 'trunc'):
            return self.intcast(op, self.val(I.ops[0], fr, st), I.x, I.ty)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = (self.val(o, fr, st) for o in I.ops)
            return self.intop(op, a, b, I.ty)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = (self.fp(self.val(o, fr, st)) for o in I.ops)
            f = {'fadd': self.ctx.add, 'fsub': self.ctx.sub, 'fmul': self.ctx.mul, 'fdiv': self.ctx.div}[op]
            return self.fround(I.ty.k, f(a, b), st)
        if op == 'fneg':
            return self.fpmap(self.ctx.neg, self.val(I.ops[0], fr, st))
        if op == 'fpext':
            return self.val(I.ops[0], fr, st)
        if op == 'fptrunc':
            return self.fround(I.ty.k, self.fp(self.val(I.ops[0], fr, st)), st)
        if op in ('sitofp', 'uitofp'):
            v = self.val(I.ops[0], fr, st)
            if isinstance(v, bool) or isinstance(v, int):
                if op == 'uitofp':
                    v = uns(int(v), I.x.bits)
                return self.fround(I.ty.k, con(Fraction(int(v))), st)
            if isbool(v):
                return self.ite(v, ONE_T if op == 'uitofp' else con(-1), ZERO_T)
            return self.fround(I.ty.k, mk('conv', v), st)
        if op in ('fptosi', 'fptoui'):
            v = self.val(I.ops[0], fr, st)
            if is_con(v) and isinstance(v.a[0], Fraction):
                return wrap(int(v.a[0]), I.ty.bits)
            return mk('toint', v)
        if op == 'bitcast':
            v = self.val(I.ops[0], fr, st)
            s, d = I.x, I.ty
            if s.k == d.k and s.k in ('ptr', 'int', 'f', 'd', 'l'):
                return v
            if s.k in ('f', 'd', 'l') and d.k == 'int':
                if isinstance(v, tuple):
                    return v
                return mk('bits', v, s.k)
            if s.k == 'int' and d.k in ('f', 'd', 'l') and isinstance(v, Term) and v.op == 'bits' and v.a[1] == d.k:
                return v.a[0]
            if isinstance(v, tuple) and v[0] == 'A' or d.k in ('vec', 'array') or s.k in ('vec',):
                d0 = {}
                self.put(d0, 0, s, v)
                return self.get(st, d0, 0, d)
            if isinstance(v, tuple) and v[0] == 'B':
                return v
            raise Abort('bitcast')
        if op == 'extractvalue':
            v = self.val(I.ops[0], fr, st)
            for i in I.x:
                if v == UNDEF:
                    return UNDEF
                v = self.elem(v, i)
            return v
        if op == 'insertvalue':
            a, v = self.val(I.ops[0], fr, st), self.val(I.ops[1], fr, st)
            return self.insertv(a, I.x, v)
        if op == 'extractelement':
            v, i = (self.val(o, fr, st) for o in I.ops)
            return self.elem(v, i)
        if op == 'insertelement':
            v, x, i = (self.val(o, fr, st) for o in I.ops)
            return self.insertv(v, [i], x)
        if op == 'shufflevector':
            raise Abort('shuffle')
        if op == 'landingpad':
            return ('A', (('EXC',), self.selector(I)))
        if op == 'freeze':
            return self.val(I.ops[0], fr, st)
        if op in ('ptrtoint',):
            return ('PI', self.val(I.ops[0], fr, st))
        if op == 'inttoptr':
            v = self.val(I.ops[0], fr, st)
            if isinstance(v, tuple) and v[0] == 'PI':
                return v[1]
        raise Abort('instruction ' + op, I.loc)

    def selector(self, I):
        for o in I.ops:
            if o.k == 'null':
                return 1
            if o.k == 'gvar' and self.derives(self.lastexc, o.v):
                return self.typeid(o.v)
        return 0

    def typeid(self, sym):
        return self.tids.setdefault(sym, len(self.tids) + 2)

    STDEXC = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
              '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
              '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt11range_error': '_ZTISt13runtime_error'}

    def derives(self, ti, base):
        while ti is not None and ti != base:
            nxt = self.STDEXC.get(ti)
            if nxt is None and ti in self.m.gnames:
                g = self.m.gvar(ti)['init']
                if g is not None and g.k == 'agg' and len(g.v) > 2 and g.v[2].k == 'gvar':
                    nxt = g.v[2].v
            ti = nxt
        return ti == base

    def split_on(self, c):
        """refine the cell so that the condition becomes decided"""
        st = [c]
        while st:
            t = st.pop()
            if not isinstance(t, Term):
                continue
            if t.op in ('not', 'and') or t.op == 'ite':
                st.extend(t.a)
            elif t.op in ('lt', 'eq', 'le'):
                a, b = (self.ctx.node(x) for x in t.a)
                if a is not None and b is not None:
                    raise Split('fp', a, b)
            elif t.op == 'eqinf':
                a = self.ctx.node(t.a[0])
                if a is not None:
                    raise Split('fp', a, ('c', 'pinf' if t.a[1] > 0 else 'ninf'))

    def elem(self, v, i):
        if isinstance(v, Term) and v.op == 'ite':
            return self.ite(v.a[0], self.elem(v.a[1], i), self.elem(v.a[2], i))
        if isinstance(v, tuple) and v[0] == 'A':
            return v[1][i]
        raise Abort('aggregate')

    def insertv(self, a, idx, v):
        if a == UNDEF:
            raise Abort('insert into undef')
        l = list(a[1])
        l[idx[0]] = v if len(idx) == 1 else self.insertv(l[idx[0]], idx[1:], v)
        return ('A', tuple(l))

    def valty(self, o, fr):
        if o.ty is not None:
            return o.ty
        t = self.regty(fr.fn, o.v)
        return t

    def regty(self, F, r):
        tab = self.cname.get(F.name)
        if tab is None:
            tab = {}
            for i, t in enumerate(F.ptys):
                tab[i] = t
            for B in F.blocks.values():
                for I in B.insts:
                    tab[I.id] = I.ty
                for I in B.phis:
                    tab[I.id] = I.ty
            self.cname[F.name] = tab
        return tab[r]

    def fp(self, v):
        if isinstance(v, Term):
            return v
        if v == UNDEF:
            raise Abort('indeterminate floating point value')
        raise Abort('fp value ' + str(v)[:30])

    def fpmap(self, f, v):
        if isinstance(v, tuple) and v[0] == 'A':
            return ('A', tuple(self.fpmap(f, x) for x in v[1]))
        return f(self.fp(v))

    def fround(self, k, t, st):
        return self.ctx.rnd(k, self.fe(st), t)

    def fe(self, st):
        m = self.reg(st, 'fe')
        return {0: 'N', 0x400: 'D', 0x800: 'U', 0xc00: 'Z'}.get(m, 'dyn')

    def reg(self, st, k):
        return st.mem['fp'][k][1]

    def setreg(self, st, k, v):
        st.wr('fp')[k] = (0, v)

    def icmp(self, p, a, b, bits=None):
        if isinstance(a, Term) and a.op == 'ite' and not isbool(a):
            return self.ctx.bite(a.a[0], self.icmp(p, a.a[1], b), self.icmp(p, a.a[2], b))
        if isinstance(b, Term) and b.op == 'ite' and not isbool(b):
            return self.ctx.bite(b.a[0], self.icmp(p, a, b.a[1]), self.icmp(p, a, b.a[2]))
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == 'u':
                a, b = int(a), int(b)
                if a < 0:
                    a += 1 << 64
                if b < 0:
                    b += 1 << 64
                p = p[1:]
                return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p]
            if p in ('eq', 'ne'):
                return (a == b) == (p == 'eq')
            return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p[1:]]
        if isinstance(a, tuple) and isinstance(b, tuple) and p in ('eq', 'ne') and a[0] in 'PF' and b[0] in 'PF':
            return (a == b) == (p == 'eq')
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'P' and b[0] == 'P' and a[1] == b[1] and a[1] is not None:
            return {'gt': a[2] > b[2], 'ge': a[2] >= b[2], 'lt': a[2] < b[2], 'le': a[2] <= b[2]}[p[1:]]
        if isbool(a) and isbool(b):
            x = self.ctx.bite(a, self.ctx.bnot(b), b)      # xor
            if p == 'ne':
                return x
            if p == 'eq':
                return self.ctx.bnot(x)
            na, nb = self.ctx.bnot(a), self.ctx.bnot(b)
            if p[0] == 's':        # i8 bools, non-negative
                p = 'u' + p[1:]
            return {'ugt': self.ctx.band(a, nb), 'uge': self.ctx.bor(a, nb), 'ult': self.ctx.band(na, b), 'ule': self.ctx.bor(na, b)}[p]
        if isbool(a) and isinstance(b, int) and not isinstance(b, bool):
            x, y = self.icmp(p, 1, b), self.icmp(p, 0, b)
            return self.ctx.bite(a, x, y)
        if isbool(b) and isinstance(a, int) and not isinstance(a, bool):
            return self.ctx.bite(b, self.icmp(p, a, 1), self.icmp(p, a, 0))
        if isinstance(a, Term) and isinstance(b, int):
            return self.icmp_term(p, a, int(b))
        if isinstance(b, Term) and isinstance(a, int):
            sw = {'eq': 'eq', 'ne': 'ne'}.get(p) or p[0] + {'gt': 'lt', 'ge': 'le', 'lt': 'gt', 'le': 'ge'}[p[1:]]
            return self.icmp_term(sw, b, int(a))
        if isinstance(a, Term) and isinstance(b, Term):
            if a is b:
                return p in ('eq', 'sge', 'sle', 'uge', 'ule')
            if self.opts.get('sums') and self.lsum(a) and self.lsum(b):
                return self.icmp_sums(p, a, b)
            if a.op == b.op == 'lin':
                r = self.icmp_lins(p, a, b)
                if r is not None:
                    return r
            if a.op == 'cmp3' or b.op == 'cmp3':
                return self.icmp(p, self.cmp3int(a), self.cmp3int(b))
            return mk('bopq', 'icmp', p, a, b)
        if UNDEF in (a, b):
            raise Abort('comparison with an indeterminate value')
        raise Abort(f'icmp {p} {str(a)[:30]} {str(b)[:30]}')

    def cmp3int(self, a):
        """the sign of a comparison as a gated number (MPFR only fixes the sign; -1, 0, 1 stand for it)"""
        if not (isinstance(a, Term) and a.op == 'cmp3'):
            return a
        c, (x, y) = self.ctx, a.a
        return self.ite(c.lt(x, y), -1, self.ite(c.lt(y, x), 1, 0))

    def icmp_term(self, p, a, k):
        c = self.ctx
        if a.op == 'lin':
            return self.icmp_lin(p, a, k)
        if a.op == 'lsum':
            return self.icmp_sums(p, a, k)
        if a.op == 'orb':
            n, base = a.a
            _, l, h, _ = self.cell.ints[n]
            if l == h:
                return self.icmp(p, l | base, k)
            if p in ('eq', 'ne') and base & ~k:
                return p == 'ne'
            raise Split('icmp', n, (l + h) // 2)
        if a.op == 'tern':
            fmt, mode, e = a.a
            inex = self.inexact(fmt, e)
            if k == 0:
                if p in ('eq', 'ne'):
                    return inex if p == 'ne' else c.bnot(inex)
                if mode in 'DU':
                    pos = inex if mode == 'U' else False
                    neg = inex if mode == 'D' else False
                    return {'sgt': pos, 'slt': neg, 'sge': c.bnot(neg), 'sle': c.bnot(pos)}[p]
            return mk('bopq', 'tern', p, a, k)
        if a.op == 'cmp3':      # sign of comparison
            x, y = a.a
            if k == 0:
                f = {'eq': lambda: c.eq(x, y), 'ne': lambda: c.bnot(c.bor(c.lt(x, y), c.lt(y, x))) if False else c.bor(c.lt(x, y), c.lt(y, x)),
                     'sgt': lambda: c.lt(y, x), 'slt': lambda: c.lt(x, y), 'sge': lambda: c.bnot(c.lt(x, y)), 'sle': lambda: c.bnot(c.lt(y, x))}
                if p == 'eq':
                    return c.bnot(c.bor(c.lt(x, y), c.lt(y, x)))
                return f[p]()
            return self.icmp(p, self.cmp3int(a), k)
        if a.op == 'bits' and p == 'slt' and k == 0:
            return self.signbit(a.a[0])
        if a.op == 'bits' and p == 'sgt' and k == -1:
            return c.bnot(self.signbit(a.a[0]))
        if a.op == 'sgnbit':
            s = self.signbit(a.a[0])
            return {'ne': s, 'eq': c.bnot(s)}[p] if k == 0 and p in ('eq', 'ne') else mk('bopq', 'icmp', p, a, k)
        return mk('bopq', 'icmp', p, a, k)

    def signbit(self, t):
        k = self.ctx.kinds(t)
        if not k & (KZ | KP | KPI | KNAN):
            return True
        if k == KZ and is_con(t):
            return t.a[0] == 'nzero'
        if not k & (KZ | KN | KNI | KNAN):
            return False
        if t.op == 'ite':
            return self.ctx.bite(t.a[0], self.signbit(t.a[1]), self.signbit(t.a[2]))
        n = self.ctx.node(t)
        if n is not None and k != KZ and not k & KNAN:
            raise Split('fp', n, ('c', Fraction(0)))
        return mk('sgn0', t)

    def inexact(self, fmt, e):
        if self.ctx.infmt(e, fmt):
            return False
        k = self.ctx.kinds(e)
        if not k & (KN | KP):
            return False
        if e.op == 'ite':
            return self.ctx.bite(e.a[0], self.inexact(fmt, e.a[1]), self.inexact(fmt, e.a[2]))
        if e.op == 'neg':
            return self.inexact(fmt, e.a[0])
        if e.op in ('pi',):
            return True
        if e.op == 'div' and e.a[0].op == 'con' and e.a[0].a[0] in (1, -1) and self.ctx.node(e.a[1]) is not None and not isinstance(fmt, str):
            # a reciprocal is exact in p bits only for powers of two, whose reciprocals are exact down to the subnormal range
            for f in 'fdl':
                if NV.fparams(f)[0] == NV.fparams(fmt)[0] and NV.fparams(f)[2] == NV.fparams(fmt)[2]:
                    fmt = f
        return mk('inexact', fmt, e)

    # symbolic integers: lin(name, coef, const)
    def lin_range(self, a):
        n, co, k = a.a
        _, lo, hi, par = self.cell.ints[n]
        v = sorted((co * lo + k, co * hi + k))
        return v[0], v[1], (None if par is None else (par * abs(co) + k) & 1)

    def icmp_lins(self, p, a, b):
        l1, h1, _ = self.lin_range(a)
        l2, h2, _ = self.lin_range(b)
        if l1 < 0 or l2 < 0 and p[0] == 'u':
            return None
        q = p[1:] if p not in ('eq', 'ne') else p
        if h1 < l2:
            return q in ('lt', 'le', 'ne')
        if h2 < l1:
            return q in ('gt', 'ge', 'ne')
        if h1 <= l2 and q in ('le', 'gt'):
            return q == 'le'
        if h2 <= l1 and q in ('ge', 'lt'):
            return q == 'ge'
        for t, l, h in ((a, l1, h1), (b, l2, h2)):
            n = t.a[0]
            _, l, h, _ = self.cell.ints[n]
            if 0 < h - l <= 32:
                raise Split('icmp', n, (l + h) // 2)
        return None

    def icmp_lin(self, p, a, k):
        lo, hi, par = self.lin_range(a)
        if p[0] == 'u' and p not in ('uge', 'ugt', 'ule', 'ult'):
            raise Abort('unsigned compare')
        if p[0] == 'u':
            if lo < 0 <= hi:
                n, co, c0 = a.a
                if abs(co) != 1:
                    raise Abort('unsigned compare')
                raise Split('icmp', n, -c0 * co)
            if (lo < 0) != (k < 0):      # the negative one is the larger
                return (lo < 0) == (p[1] == 'g')
            p = 's' + p[1:]
        dec = None
        if p in ('eq', 'ne'):
            if k < lo or k > hi or (par is not None and (k & 1) != par):
                dec = False
            elif lo == hi == k:
                dec = True
            if dec is not None:
                return dec == (p == 'eq')
        else:
            f = {'sgt': (lo > k, hi <= k), 'sge': (lo >= k, hi < k), 'slt': (hi < k, lo >= k), 'sle': (hi <= k, lo > k)}[p]
            if f[0]:
                return True
            if f[1]:
                return False
        n, co, c0 = a.a
        v = k - c0
        if v % co == 0:
            raise Split('icmp', n, v // co)
        raise Split('icmp', n, v // co + (1 if co > 0 else 0))

    def intcast(self, op, v, s, d):
        if isinstance(v, Term):
            if v.op == 'ite' and not isbool(v):
                return self.ite(v.a[0], self.intcast(op, v.a[1], s, d), self.intcast(op, v.a[2], s, d))
            if isbool(v):
                if op == 'sext':
                    return self.ite(v, -1, 0)
                return v
            if v.op == 'lin':
                lo, hi, _ = self.lin_range(v)
                if op == 'trunc':
                    if d.bits == 1:
                        return self.parity(v)
                    if lo < -(1 << (d.bits - 1)) or hi >= 1 << (d.bits - 1):
                        m = 1 << d.bits
                        w = (lo + m // 2) // m
                        if w == (hi + m // 2) // m:         # the same multiple of 2^bits over the whole range
                            n, co, k = v.a
                            return mk('lin', n, co, k - w * m)
                        raise Abort('truncation of a symbolic integer')
                elif op == 'zext' and lo < 0:
                    if hi >= 0:
                        raise Split('icmp', v.a[0], 0)
                    n, co, k = v.a
                    return mk('lin', n, co, k + (1 << s.bits))
                return v
            if v.op == 'orb':
                if d.bits >= 8:
                    return v
                n, base = v.a
                _, l, h, _ = self.cell.ints[n]
                if d.bits == 1 and base & 1:
                    return True
                if l == h:
                    return bool((l | base) & 1)
                raise Split('icmp', n, (l + h) // 2)
            if op == 'trunc' and d.bits == 1:
                return mk('bopq', 'trunc', v)
            if v.op == 'bits':
                if op == 'trunc':
                    return mk('iopq', 'trunc', v)
                return v
            return v if op != 'trunc' else mk('iopq', 'trunc', v, d.bits)
        if isinstance(v, tuple):
            if v == UNDEF:
                return UNDEF
            if v[0] == 'B' and op == 'trunc':
                n = d.bits // 8
                for o, sz, x in v[2]:
                    if o == 0 and sz == n:
                        return x if isinstance(x, int) else ('B', n, ((0, n, x),))
                inside = tuple(e for e in v[2] if e[0] + e[1] <= n)
                return ('B', n, inside)
            if v[0] == 'B':
                return ('B', d.bits // 8, v[2])
            raise Abort('intcast')
        if s.bits == 1:
            if op == 'zext':
                return v if d.bits != 1 else v
            if op == 'sext':
                return -int(v)
        if op == 'zext':
            return uns(int(v), s.bits) if d.bits > s.bits else v
        if op == 'sext':
            return int(v)
        return wrap(int(v), d.bits)

    def parity(self, v):
        n, co, k = v.a
        lo, hi, par = self.lin_range(v)
        if lo == hi:
            return bool(lo & 1)
        if co % 2 == 0:
            return bool(k & 1)
        if par is None:
            raise Split('par', n)
        return bool(par)

    def intop(self, op, a, b, ty):
        bits = ty.bits
        c = self.ctx
        if isinstance(a, tuple) and a and a[0] == 'A':
            raise Abort('vector integer op')
        if bits == 1 or (isbool(a) and isbool(b) and op in ('and', 'or', 'xor')):
            a, b = self.boolv(a), self.boolv(b)
            if op == 'and':
                return c.band(a, b)
            if op == 'or':
                return c.bor(a, b)
            if op == 'xor':
                return c.bite(a, c.bnot(b), b)
            raise Abort('i1 ' + op)
        if isinstance(a, int) and isinstance(b, int):
            a, b = int(a), int(b)
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            elif op == 'shl':
                r = a << b
            elif op == 'lshr':
                r = uns(a, bits) >> b
            elif op == 'ashr':
                r = a >> b
            else:
                if b == 0:
                    raise Abort('integer division by zero')
                if op in ('udiv', 'urem'):
                    a, b = uns(a, bits), uns(b, bits)
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                r = q if op in ('udiv', 'sdiv') else a - q * b
            return wrap(r, bits)
        if isinstance(a, Term) and a.op == 'ite' and isinstance(b, int):
            return self.ite(a.a[0], self.intop(op, a.a[1], b, ty), self.intop(op, a.a[2], b, ty))
        if isinstance(b, Term) and b.op == 'ite' and isinstance(a, int):
            return self.ite(b.a[0], self.intop(op, a, b.a[1], ty), self.intop(op, a, b.a[2], ty))
        if isbool(a) and isinstance(a, Term) and isinstance(b, int):
            return self.ite(a, self.intop(op, 1, b, ty), self.intop(op, 0, b, ty))
        if isbool(b) and isinstance(b, Term) and isinstance(a, int):
            return self.ite(b, self.intop(op, a, 1, ty), self.intop(op, a, 0, ty))
        if isinstance(b, Term) and b.op == 'orb' and isinstance(a, int) and op in ('or', 'and'):
            a, b = b, a
        if isinstance(a, Term) and a.op in ('lin', 'orb') and op == 'or' and isinstance(b, int) and a.a[0] in ('s', 'cw'):
            # a word of flags with bits added: kept symbolic
            n, base = (a.a[0], 0) if a.op == 'lin' else a.a
            _, l, h, _ = self.cell.ints[n]
            if l == h:
                return l | base | b
            return mk('orb', n, base | b)
        if isinstance(a, Term) and a.op == 'orb':
            n, base = a.a
            _, l, h, _ = self.cell.ints[n]
            if l == h:
                return self.intop(op, l | base, b, ty)
            if op == 'and' and isinstance(b, int) and b & ~base == 0:
                return b
            raise Split('icmp', n, (l + h) // 2)
        if isinstance(a, Term) and a.op == 'lin' and isinstance(b, int):
            n, co, k = a.a
            b = int(b)
            if op == 'add':
                return self.fit(mk('lin', n, co, k + b), bits)
            if op == 'sub':
                return self.fit(mk('lin', n, co, k - b), bits)
            if op == 'mul' and b:
                return self.fit(mk('lin', n, co * b, k * b), bits)
            if op == 'and' and b == 1:
                return int(self.parity(a))
            if op == 'srem' and b in (2, -2):
                if not self.parity(a):
                    return 0
                return 1 if self.icmp_lin('sgt', a, 0) else -1
            if op == 'urem' and b == 2:
                return int(self.parity(a))
        if bits == 64 and op in ('add', 'sub') and self.opts.get('sums'):
            x, y = self.lsum(a), self.lsum(b)
            if x and y:
                r = dict(x[1])
                for n, co in y[1]:
                    r[n] = r.get(n, 0) + (co if op == 'add' else -co)
                return self.mksum(x[0] + (y[0] if op == 'add' else -y[0]), r)
            for u, v, f in ((a, b, lambda w, v: self.intop(op, w, v, ty)), (b, a, lambda w, v: self.intop(op, v, w, ty))):
                if isinstance(u, Term) and u.op == 'ite' and not isbool(u):
                    return self.ite(u.a[0], f(u.a[1], v), f(u.a[2], v))
        for z in (a, b):
            if isinstance(z, Term) and z.op == 'lin' and op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'add', 'sub', 'mul'):
                lo, hi, _ = self.lin_range(z)
                if op in ('add', 'sub', 'mul') and not (isinstance(a, Term) and isinstance(b, Term)):
                    continue
                n = z.a[0]
                _, l, h, _ = self.cell.ints[n]
                if l == h:
                    v = wrap(lo, bits)
                    return self.intop(op, v if z is a else a, v if z is b else b, ty)
                if h - l <= 256:
                    raise Split('icmp', n, (l + h) // 2)
        if isinstance(b, Term) and b.op == 'lin' and isinstance(a, int) and op in ('add', 'sub', 'mul'):
            n, co, k = b.a
            if op == 'add':
                return self.fit(mk('lin', n, co, k + int(a)), bits)
            if op == 'sub':
                return self.fit(mk('lin', n, -co, int(a) - k), bits)
            if op == 'mul' and a:
                return self.fit(mk('lin', n, co * a, k * a), bits)
        if isinstance(a, tuple) and a[0] == 'PI' and isinstance(b, tuple) and b[0] == 'PI' and op == 'sub':
            p, q = a[1], b[1]
            if isinstance(p, tuple) and isinstance(q, tuple) and p[1] == q[1]:
                return p[2] - q[2]
        if isinstance(a, Term) and isinstance(b, (int, Term)) or isinstance(b, Term) and isinstance(a, int):
            if op == 'or' and isinstance(a, Term) and a.op == 'iopq' and a.a[0] == 'tern':
                pass
            return mk('iopq', op, a, b)
        if isinstance(a, tuple) and a[0] == 'B' and isinstance(b, int) and op in ('lshr', 'shl'):
            sh = b // 8
            if b % 8 == 0:
                if op == 'lshr':
                    return ('B', a[1], tuple((o - sh, s, v) for o, s, v in a[2] if o >= sh))
                return ('B', a[1], tuple((o + sh, s, v) for o, s, v in a[2] if o + sh + s <= a[1]))
        if isinstance(a, tuple) and a[0] == 'B' and isinstance(b, tuple) and b[0] == 'B' and op == 'or':
            return ('B', a[1], tuple(sorted(a[2] + b[2])))
        raise Abort(f'integer {op} {str(a)[:30]} {str(b)[:30]}')

    def lsum(self, a):
        """(constant, ((name, coefficient), ...)) of a linear expression over the symbolic integers"""
        if isinstance(a, int):
            return int(a), ()
        if isinstance(a, Term) and a.op == 'lin':
            return a.a[2], ((a.a[0], a.a[1]),)
        if isinstance(a, Term) and a.op == 'lsum':
            return a.a
        return None

    def mksum(self, k, r):
        r = {n: co for n, co in r.items() if co}
        if not r:
            return k
        if len(r) == 1:
            (n, co), = r.items()
            return mk('lin', n, co, k)
        lo = hi = k
        for n, co in r.items():
            _, l, h, _ = self.cell.ints[n]
            lo, hi = lo + min(co * l, co * h), hi + max(co * l, co * h)
        if lo < -(1 << 63) or hi >= 1 << 63:
            raise Abort('integer overflow')
        return mk('lsum', k, tuple(sorted(r.items())))

    def icmp_sums(self, p, a, b):
        d = self.intop('sub', a, b, I64)
        if not (isinstance(d, Term) and d.op == 'lsum'):
            return self.icmp(p, d, 0)
        if p in ('eq', 'ne'):
            if d.a[1][0][1] < 0:
                d = self.intop('sub', 0, d, I64)
            return mk('bopq', 'icmp', p, d, 0)
        if p[0] == 'u':
            raise Abort('unsigned compare')
        # d > 0 with a positive first coefficient
        c = self.ctx
        if p in ('slt', 'sle'):
            return c.bnot(self.icmp_sums('sge' if p == 'slt' else 'sgt', a, b))
        if p == 'sge':
            d = self.intop('add', d, 1, I64)
        if d.a[1][0][1] < 0:
            return c.bnot(mk('bopq', 'icmp', 'sgt', self.intop('sub', 1, d, I64), 0))
        return mk('bopq', 'icmp', 'sgt', d, 0)

    def fit(self, t, bits):
        n, co, k = t.a
        lo, hi, _ = self.lin_range(t)
        if lo == hi:
            return wrap(lo, bits)
        mn, mx = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        if lo < mn or hi > mx:
            # split at the offending edge value of the input
            _, l, h, _ = self.cell.ints[n]
            for e in (l, h):
                if not mn <= co * e + k <= mx:
                    raise Split('icmp', n, e)
        return t

    def fcmp(self, p, a, b):
        c = self.ctx
        a, b = self.fp(a), self.fp(b)
        uno = lambda: c.bor(c.isnan(a), c.isnan(b))
        r = {'oeq': lambda: c.eq(a, b), 'olt': lambda: c.lt(a, b), 'ogt': lambda: c.lt(b, a), 'ole': lambda: c.le(a, b),
             'oge': lambda: c.le(b, a), 'one': lambda: c.band(c.bnot(uno()), c.bnot(c.eq(a, b))), 'ord': lambda: c.bnot(uno()),
             'uno': uno, 'ueq': lambda: c.bor(uno(), c.eq(a, b)), 'ult': lambda: c.bnot(c.le(b, a)), 'ugt': lambda: c.bnot(c.le(a, b)),
             'ule': lambda: c.bnot(c.lt(b, a)), 'uge': lambda: c.bnot(c.lt(a, b)), 'une': lambda: c.bnot(c.eq(a, b)),
             'true': lambda: True, 'false': lambda: False}[p]()
        return c.known(r)

    def guess(self, I, v):
        raise Abort('store type')


def stdfmt(prec, emin, emax, sub):
    if sub:
        f = STD.get((prec, emin, emax))
        if f:
            return f
    return ('s' if sub else 'm', prec, emin, emax)


def new_state():
    st = State()
    st.mem['fp'] = {'emin': (0, 'h'), 'emax': (0, 'h'), 'fe': (0, 'dyn'), 'guard': (0, 0), 'thr': (0, 1)}
    st.mem['mp'] = {}
    st.own.update(('fp', 'mp'))
    return st
