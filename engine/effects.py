"""Effect analyses: purity (C21), resources (C22), thread confinement (C20), linkage and instantiation (C29).

The judges look at the events of an interpreted call (harness.judged); the scans look at the instructions of every
function of a module that is defined in the library's headers."""
import os, re, subprocess
from terms import Term, mk
from interp import Interp
import evalt, numeval as NV
import irload

STATE, CWD = '_ZN5p17889exception5stateEv', '_ZN5p17889exception3cwdEv'


def in_lib(f):
    return bool(f) and '/p1788/' in f


# ---- the documented mutable objects -----------------------------------------------------------------------------
def accessor_objects(mod):
    """names of the globals state() and cwd() return (any function that returns the address of a global)"""
    r = set()
    for fn in mod.fnames:
        if not re.match(r'_ZN5p17889exceptionL?(5state|3cwd)Ev$', fn):
            continue
        F = mod.func(fn)
        for B in F.blocks.values():
            for i in B.insts:
                for o in list(i.ops or ()):
                    if o.k == 'gvar' and not mod.gvar(o.v)['const']:
                        r.add(o.v)
    return r


_acc = {}


def allowed(I):
    k = id(I.m)
    if k not in _acc:
        _acc[k] = (I.m, accessor_objects(I.m))
    return _acc[k][1]


# ---- judges --------------------------------------------------------------------------------------------------------
def leaves(t, out=None):
    """operand variables a value depends on"""
    out = set() if out is None else out
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'var':
                out.add(x.a[0])
            if x.op in ('lin', 'orb') and x.a and isinstance(x.a[0], str):
                out.add(x.a[0])
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def events(I, out):
    return list(out.st.ev) if out is not None else list(I.evlog)


def cond_of(path):
    return [c for c in path]


def judge_pure(base):
    """base: offset of the flag bytes in the result object (everything before it is the value of the call)"""
    def j(I, out, abort):
        fs = []
        ok = allowed(I)
        for kind, detail, loc, path in events(I, out):
            if kind == 'operand-write':
                fs.append(('operand modified', f'operand {detail} is written', loc, path, None))
            elif kind == 'const-write':
                fs.append(('constant modified', f'constant object {detail} is written', loc, path, None))
            elif kind == 'global-write':
                name, val, guarded = detail if isinstance(detail, tuple) else (detail, None, False)
                if name in ok or name.startswith('_ZGV'):
                    continue
                if guarded and not leaves(val):
                    continue
                fs.append(('state kept between calls', f'static object {demangle(name)} ' +
                           ('is initialised from the operands of the first call' if guarded else 'is written by the operation'), loc, path, None))
        if out is None:
            return fs
        if out.kind not in ('ret', 'throw'):
            return fs
        st = out.st
        fe = st.mem['fp'].get('fe')
        fe = fe[1] if fe else 'dyn'
        if fe != 'dyn':
            fs.append(('floating-point environment', 'the rounding mode is not restored', None, [], fe_test(fe)))
        vals = [(off, v) for off, (s, v) in sorted(st.mem.get('out', {}).items()) if off < base and (isinstance(v, Term) or isinstance(v, tuple))]
        import harness
        for off, v in vals:
            if isinstance(v, Term) and (harness.uses_history(v) or 's' in leaves(v)):
                fs.append(('value depends on earlier calls', 'the result depends on the state left by earlier calls or by the caller', None, [], hist_test(v)))
        return fs
    return j


def fe_test(fe):
    def t(pt):
        env = evalt.Env(pt[0], pt[1], h=0, dyn='N')
        x = fe
        while isinstance(x, Term) and x.op == 'ite':
            x = x.a[1] if evalt.evb(x.a[0], env) else x.a[2]
        if isinstance(x, Term):
            return None
        return None if x == 'dyn' else env.show()
    return t


def hist_test(v):
    import harness

    def t(pt):
        vals = []
        for h in range(3):
            for s in ((0, 15, 8, 1) if 's' in pt[1] else (None,)):
                i = dict(pt[1])
                if s is not None:
                    i['s'] = s
                try:
                    vals.append(harness.value_of(v, evalt.Env(pt[0], i, h=h, dyn='NDU'[h])))
                except NV.Cannot:
                    return None
        if any(not harness.same_value(vals[0], x, 'num') for x in vals[1:]):
            return evalt.Env(pt[0], pt[1], h=0, dyn='N').show()
        return None
    return t


MP = {'mpfr-leak': 'multiple-precision variable not released', 'mpfr-double-clear': 'multiple-precision variable released twice',
      'mpfr-use-after-clear': 'multiple-precision variable used after its release', 'mpfr-uninitialised': 'multiple-precision variable used before its initialisation',
      'double-free': 'heap object released twice', 'dead-object': 'object used after its lifetime', 'delete-form': 'heap object released with the wrong form of delete',
      'mp-leak': 'multiple-precision variable not released', 'mp-double-clear': 'multiple-precision variable released twice',
      'mp-use-after-clear': 'multiple-precision variable used after its release', 'mp-uninitialised': 'multiple-precision variable used before its initialisation'}


def judge_res(I, out, abort):
    fs = []
    for kind, detail, loc, path in events(I, out):
        if kind in MP:
            fs.append((MP[kind], f'{detail}', loc, path, None))
    if out is None:
        return fs
    if out.kind not in ('ret', 'throw'):
        return fs
    st = out.st
    static = set()
    for o, d in st.mem.items():
        if isinstance(o, tuple) and o[0] == 'G':
            for off, (s, x) in d.items():
                if isinstance(x, tuple) and x and x[0] == 'M':
                    static.add(x[1])
                if isinstance(x, tuple) and x and x[0] == 'P':
                    static.add(x[1])
    for h, (z, r) in st.mem.get('mp', {}).items():
        if h in static:
            continue
        s = I.known_status(r[2])
        if s == 'live' or s in I.maybe:
            fs.append((MP['mpfr-leak'], 'still initialised when the operation ends', None, [I.livecond(s)], None))
    for o in st.mem:
        if isinstance(o, tuple) and o[0] == 'H' and o not in static:
            fs.append(('heap object not released', 'still allocated when the operation ends', None, [], None))
    return fs


# ---- scans ---------------------------------------------------------------------------------------------------------
def demangle(n):
    try:
        return subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip() or n
    except OSError:
        return n


def demangle_all(names):
    names = list(names)
    if not names:
        return {}
    try:
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.splitlines()
        return dict(zip(names, out))
    except OSError:
        return {n: n for n in names}


PURE_C = re.compile(r'^(llvm\.(dbg|lifetime|threadlocal|assume)|__cxa_guard|strlen|memcmp)')


def guard_blocks(F):
    """blocks executed only while a guard variable of a static object is held"""
    held = set()
    acq = []
    for b, B in F.blocks.items():
        for i in B.insts:
            if i.op in ('call', 'invoke'):
                c = i.x[0] if i.op == 'invoke' else i.x
                if c.k == 'func' and c.v == '__cxa_guard_acquire':
                    acq.append(b)
    for a in acq:
        # successors until the block that releases
        B = F.blocks[a]
        work = [s for s in B.succs[:1]] + ([B.unw] if B.unw is not None else [])
        while work:
            b = work.pop()
            if b in held:
                continue
            held.add(b)
            X = F.blocks[b]
            if any(i.op in ('call', 'invoke') and (i.x[0] if i.op == 'invoke' else i.x).k == 'func' and (i.x[0] if i.op == 'invoke' else i.x).v in ('__cxa_guard_release', '__cxa_guard_abort')
                   for i in X.insts):
                continue
            work += list(X.succs) + ([X.unw] if X.unw is not None else [])
    return held


def base_gvar(v, defs):
    """the global an address is derived from"""
    n = 0
    while n < 50:
        n += 1
        if v.k == 'gvar':
            return v.v
        if v.k == 'cexpr' and v.v[0] in ('gep', 'bitcast', 'addrspacecast'):
            v = v.v[1][0]
            continue
        if v.k == 'reg':
            i = defs.get(v.v)
            if i is None:
                return None
            if i.op in ('gep', 'bitcast', 'addrspacecast'):
                v = i.ops[0]
                continue
            if i.op == 'call' and i.x.k == 'func' and i.x.v.startswith('llvm.threadlocal.address'):
                v = i.ops[0]
                continue
        return None
    return None


def scan_static_writes(mod):
    """writes to static objects by functions of the library, outside the initialisation of the object:
    -> ([(global, function, loc, what)], functions scanned, globals)"""
    out, nf, gl, readers = [], 0, set(), set()
    ok = accessor_objects(mod)
    memo = {}
    cands = []
    for name in mod.fnames:
        if '5p1788' not in name and 'GLOBAL__sub_I' not in name and not name.startswith('__cxx_global'):
            continue
        F = mod.func(name)
        if F.decl or not any(in_lib(i.loc[0]) for B in F.blocks.values() for i in B.insts if i.loc):
            continue
        if name.startswith('__cxx_global') or 'GLOBAL__sub_I' in name or name.startswith('__tls_init'):
            continue
        nf += 1
        defs = {i.id: i for B in F.blocks.values() for i in B.insts}
        held = guard_blocks(F)
        for b, B in F.blocks.items():
            for i in B.insts:
                if i.op == 'load':
                    readers.add(base_gvar(i.ops[0], defs))
                if i.op == 'store':
                    g = base_gvar(i.ops[1], defs)
                    if g and not g.startswith('_ZGV') and b not in held:
                        cands.append((g, F, i.loc, 'store', None, None))
                elif i.op in ('atomicrmw', 'cmpxchg'):
                    g = base_gvar(i.ops[0], defs)
                    if g:
                        cands.append((g, F, i.loc, 'store', None, None))
                elif i.op in ('call', 'invoke') and b not in held:
                    c = i.x[0] if i.op == 'invoke' else i.x
                    for k, o in enumerate(i.ops):
                        g = base_gvar(o, defs)
                        readers.add(g)
                        if g and not g.startswith('_ZGV'):
                            cands.append((g, F, i.loc, 'call', c.v if c.k == 'func' else None, k))
    for g, F, loc, what, callee, k in cands:
        if g in ok or g not in mod.gnames:
            continue
        gv = mod.gvar(g)
        if gv['const']:
            continue
        gl.add(g)
        # objects of the C++ library are not the library's state (std::cout etc.)
        if gv['init'] is None and '5p1788' not in g:
            continue
        if what == 'call' and (callee is None or not writes_param(mod, callee, k, memo)):
            continue
        out.append((g, F.name, loc, 'is written' if what == 'store' else 'is passed to a function that writes it'))
    return out, nf, gl, readers


def c_writes(callee, k):
    if PURE_C.match(callee):
        return False
    if callee.startswith('llvm.mem'):
        return k == 0
    if re.match(r'(__g)?mp[fzq]r?_', callee):
        return k == 0 and not re.search(r'_(cmp|get|sgn|nan_p|inf_p|zero_p|regular|equal|less|greater|integer|number)', callee)
    return False


EXT_READ = re.compile(r'::(begin|end|rbegin|rend|operator\[\]|at|data|front|back|find|c_str|size|length|empty|count|str)\(')


def writes_param(mod, name, k, memo, depth=0):
    """the function stores through its k-th parameter (followed through calls inside the module)"""
    key = (name, k)
    if key in memo:
        return memo[key]
    memo[key] = False
    if depth > 12:
        return False
    if name not in mod.fnames:
        return c_writes(name, k)
    F = mod.func(name)
    if F.decl:
        r = c_writes(name, k)
        if not r and name.startswith('_ZNS') and k == 0 and not re.match(r'_ZN[SK]*K', name):
            sig = demangle(name)
            r = not EXT_READ.search(sig) and not re.search(r'::~', sig)
        memo[key] = r
        return r
    if k >= len(F.params):
        return False
    # registers holding an address derived from the parameter (through its stack slot, too: sroa has run)
    der = {F.params[k]}
    ch = True
    while ch:
        ch = False
        for B in F.blocks.values():
            for i in list(B.phis) + B.insts:
                if i.id in der:
                    continue
                if i.op in ('gep', 'bitcast', 'addrspacecast') and i.ops[0].k == 'reg' and i.ops[0].v in der or \
                        i.op == 'phi' and any(v.k == 'reg' and v.v in der for _, v in i.x) or \
                        i.op == 'select' and any(v.k == 'reg' and v.v in der for v in i.ops[1:]):
                    der.add(i.id)
                    ch = True
    for B in F.blocks.values():
        for i in B.insts:
            if i.op == 'store' and i.ops[1].k == 'reg' and i.ops[1].v in der:
                memo[key] = True
                return True
            if i.op in ('call', 'invoke'):
                c = i.x[0] if i.op == 'invoke' else i.x
                if c.k != 'func':
                    continue
                for j, o in enumerate(i.ops):
                    if o.k == 'reg' and o.v in der and writes_param(mod, c.v, j, memo, depth + 1):
                        memo[key] = True
                        return True
    return False


# ---- drivers ---------------------------------------------------------------------------------------------------------
IO_DRIVER = '''
#include <sstream>
#include <vector>
template<typename T> void io_use(std::ostream& os, std::istream& is, std::string const& s)
{
    IV<T> x(s), y; DI<T> d(s), e;
    os << x << d; is >> y >> e;
    p1788::decoration::decoration dec; os << p1788::io::dec_alpha << dec << p1788::io::dec_numeric; is >> dec;
    os << IV<T>::overlap(x, y);
}
template<typename T> T red_use(std::vector<T> const& v, p1788::reduction::rnd_mode r)
{
    using namespace p1788::reduction;
    return sum(v.begin(), v.end(), r) + sum_abs(v.begin(), v.end(), r) + sum_sqr(v.begin(), v.end(), r) + dot(v.begin(), v.end(), v.begin(), r)
         + sum({v[0], v[1]}, r) + sum_abs({v[0], v[1]}, r) + sum_sqr({v[0], v[1]}, r) + dot({v[0], v[1]}, {v[0], v[1]}, r);
}
void manip_use(std::ostream& os)
{
    using namespace p1788::io;
    os << lower_case << upper_case << string_width(3) << inf_sup_form << uncertain_form << uncertain_up_form << uncertain_down_form << decimal_scientific
       << decimal << p1788::io::scientific << p1788::io::hex << width(2) << precision(3) << special_text << special_bounds << special_no_bounds
       << punctuation << no_punctuation << uncertain_exponent << no_uncertain_exponent << dec_alpha << dec_numeric << overlapping_alpha << overlapping_numeric;
}
template void io_use<float>(std::ostream&, std::istream&, std::string const&);
template void io_use<double>(std::ostream&, std::istream&, std::string const&);
template void io_use<long double>(std::ostream&, std::istream&, std::string const&);
template float red_use(std::vector<float> const&, p1788::reduction::rnd_mode);
template double red_use(std::vector<double> const&, p1788::reduction::rnd_mode);
template long double red_use(std::vector<long double> const&, p1788::reduction::rnd_mode);
'''


# process-wide settings no operation may change
SETTERS = {'setlocale': 'the C locale', 'uselocale': 'the thread locale', '_ZNSt6locale6globalERKS_': 'the global C++ locale',
           'mpfr_set_default_prec': 'the default MPFR precision', 'mpfr_set_default_rounding_mode': 'the default MPFR rounding mode',
           'mp_set_memory_functions': 'the GMP allocation functions', '__gmp_set_memory_functions': 'the GMP allocation functions',
           'srand': 'the random number generator', 'setenv': 'the environment', 'putenv': 'the environment'}


def callee_of(i):
    c = i.x[0] if i.op == 'invoke' else i.x
    return c.v if c is not None and c.k == 'func' else None


def lib_functions(mod):
    for name in mod.fnames:
        if 'p1788' not in name:
            continue
        F = mod.func(name)
        if F.decl or not in_lib(F.file):
            continue
        yield F


def scan_purity(bc):
    mod = irload.Module(bc)
    w, nf, gl, readers = scan_static_writes(mod)
    fs = []
    for g, fn, loc, what in w:
        if g not in readers:
            continue
        fs.append(dict(entry='static storage', function=demangle(fn)[:200], component='state kept between calls', object=demangle(g),
                       why=f'static object {demangle(g)} {what} outside its initialisation', at=place(loc)))
    ncall = 0
    for F in lib_functions(mod):
        for B in F.blocks.values():
            for i in B.insts:
                if i.op in ('call', 'invoke'):
                    ncall += 1
                    c = callee_of(i)
                    if c in SETTERS:
                        fs.append(dict(entry='process-wide settings', function=demangle(F.name)[:200], component='changes ' + SETTERS[c], why='call of ' + c, at=place(i.loc)))
    return fs, dict(functions_scanned=nf, call_sites_scanned=ncall, static_objects_seen=sorted(demangle_all(gl).values()))


def place(loc):
    return f"{loc[0].split('/p1788/')[-1]}:{loc[1]}" if loc else None


def merge_scans(results):
    fs, cov, seen = [], {}, set()
    for f, c in results:
        for d in f:
            k = (d.get('component'), d.get('why'), d.get('at'))
            if k not in seen:
                seen.add(k)
                fs.append(d)
        for k, v in c.items():
            if isinstance(v, int):
                cov[k] = cov.get(k, 0) + v
            else:
                cov[k] = sorted(set(cov.get(k, [])) | set(v))
    return fs, cov


# ---- resources: typestate of multiple-precision objects in local storage ---------------------------------------------
MP_INIT = re.compile(r'^(__gmp[zqf]|mp[zqf]|mpfr)_(init|init2|init_set\w*)$')
MP_CLEAR = re.compile(r'^(__gmp[zqf]|mp[zqf]|mpfr)_clear$')
MP_ANY = re.compile(r'^(__gmp[zqf]|mp[zqf]|mpfr)_')


class Resources:
    """flow-sensitive, interprocedural through summaries: U not initialised, L live, C cleared, E as at entry, T unknown"""

    def __init__(self, mod):
        self.m, self.memo, self.viol, self.nobj, self.nfun, self.nsite = mod, {}, [], 0, 0, 0

    def addr(self, v, defs, params):
        """(object, offset) of an address or None"""
        off = 0
        for _ in range(60):
            if v.k != 'reg':
                return None
            if v.v in params:
                return ('p', params[v.v]), off
            i = defs.get(v.v)
            if i is None:
                return None
            if i.op == 'alloca':
                return ('a', i.id), off
            if i.op in ('bitcast', 'addrspacecast'):
                v = i.ops[0]
            elif i.op == 'gep':
                ty = i.x
                for n, o in enumerate(i.ops[1:]):
                    if o.k != 'int':
                        return None
                    k = o.v
                    if n == 0:
                        off += k * ty.size
                    elif ty.k == 'struct':
                        off += ty.offs[k]
                        ty = ty.elems[k]
                    else:
                        ty = ty.elem
                        off += k * ty.size
                v = i.ops[0]
            else:
                return None
        return None

    def effects(self, name):
        """{(parameter, offset): set of states at return} of a function"""
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = {}
        if name not in self.m.fnames:
            return {}
        F = self.m.func(name)
        if F.decl:
            return {}
        r = self.run(F, report=False)
        self.memo[name] = r
        return r

    def interesting(self, F):
        for B in F.blocks.values():
            for i in B.insts:
                if i.op in ('call', 'invoke'):
                    c = callee_of(i)
                    if c and (MP_INIT.match(c) or MP_CLEAR.match(c) or self.effects(c)):
                        return True
        return False

    def run(self, F, report):
        if not self.interesting(F):
            return {}
        params = {p: k for k, p in enumerate(F.params)}
        defs = {i.id: i for B in F.blocks.values() for i in list(B.phis) + B.insts}
        inst = {F.entry: {}}
        work = [F.entry]
        exits = {}
        found = {}

        def get(st, key):
            return st.get(key) or (frozenset('E') if key[0][0] == 'p' else frozenset('U'))

        def note(key, i, what):
            if report:
                found[(key, i.loc, what)] = True

        def apply(st, i, do):
            c = callee_of(i)
            if c is None or c.startswith('llvm.'):
                return st
            st = dict(st)
            for k, o in enumerate(i.ops):
                a = self.addr(o, defs, params)
                if a is None:
                    continue
                obj, off = a
                key = (obj, off)
                if MP_INIT.match(c) and k == 0:
                    if do:
                        st[key] = frozenset('L')
                    continue
                if MP_CLEAR.match(c) and k == 0:
                    cur = get(st, key)
                    if not cur & set('LTE') or 'C' in cur and not cur & set('UT'):
                        note(key, i, MP['mp-double-clear'] if 'C' in cur else 'multiple-precision variable released without having been initialised')
                    st[key] = frozenset('C')
                    continue
                if MP_ANY.match(c):
                    if obj[0] == 'a' and defs[obj[1]].x.size < 16:      # a number the function returns through a pointer
                        continue
                    cur = get(st, key)
                    if not cur & set('LTE'):
                        note(key, i, MP['mp-use-after-clear'] if 'C' in cur else MP['mp-uninitialised'])
                    continue
                eff = self.effects(c)
                hit = False
                for (pk, poff), ss in eff.items():
                    if pk != k:
                        continue
                    hit = True
                    kk = (obj, off + poff)
                    cur = get(st, kk)
                    new = set()
                    for s in ss:
                        new |= cur if s == 'E' else {s}
                    if ss == {'C'} and (not cur & set('LTE') or 'C' in cur and not cur & set('UT')):
                        note(kk, i, MP['mp-double-clear'] if 'C' in cur else 'multiple-precision variable released without having been initialised')
                    if do or ss <= {'C'}:
                        st[kk] = frozenset(new)
                if not hit and (c not in self.m.fnames or self.m.func(c).decl):
                    for kk in [x for x in st if x[0] == obj]:
                        st[kk] = frozenset('T')
            return st

        steps = 0
        while work and steps < 20000:
            steps += 1
            b = work.pop()
            B = F.blocks[b]
            st = inst[b]
            outs = None
            for i in B.insts:
                if i.op == 'call':
                    st = apply(st, i, True)
                elif i.op == 'invoke':
                    outs = [(s, apply(st, i, True)) for s in B.succs if s != B.unw] + ([(B.unw, apply(st, i, False))] if B.unw is not None else [])
                elif i.op == 'store':
                    a = self.addr(i.ops[0], defs, params)
                    if a is not None:
                        st = dict(st)
                        for kk in [x for x in st if x[0] == a[0]]:
                            st[kk] = frozenset('T')
                elif i.op in ('ret', 'resume'):
                    exits[(b, i.op)] = (st, i.loc)
            if outs is None:
                outs = [(s, st) for s in list(B.succs) + ([B.unw] if B.unw is not None else [])]
            for s, ns in outs:
                old = inst.get(s)
                if old is None:
                    inst[s] = dict(ns)
                    work.append(s)
                    continue
                ch = False
                for key in set(old) | set(ns):
                    u = get(old, key) | get(ns, key)
                    if u != old.get(key):
                        old[key] = u
                        ch = True
                if ch:
                    work.append(s)
        summ = {}
        for (b, kind), (st, loc) in exits.items():
            for key, ss in st.items():
                if key[0][0] == 'p':
                    if kind == 'ret':
                        summ.setdefault((key[0][1], key[1]), set()).update(ss)
                elif report and 'L' in ss and 'T' not in ss and ('U' not in ss or 'C' not in ss):
                    found[(key, defs[key[0][1]].loc or loc, MP['mp-leak'])] = True
        # a parameter not touched on some path keeps its state there
        for (b, kind), (st, loc) in exits.items():
            if kind == 'ret':
                for k in summ:
                    if (('p', k[0]), k[1]) not in st:
                        summ[k].add('E')
        if report:
            self.nfun += 1
            self.nobj += len({k for st in inst.values() for k in st if k[0][0] == 'a'})
            for (key, loc, what) in found:
                self.viol.append(dict(entry='storage of multiple-precision variables', function=demangle(F.name)[:200], component=what, why=what, at=place(loc)))
        return {k: v for k, v in summ.items() if v != {'E'}}


def scan_resources(bc):
    mod = irload.Module(bc)
    R = Resources(mod)
    ctor = 0
    for F in lib_functions(mod):
        R.run(F, True)
        if R.effects(F.name):
            ctor += 1
    return R.viol, dict(functions_scanned=R.nfun, local_objects=R.nobj, functions_with_release_summaries=ctor)


def scan_threads(bc):
    """every static object the library writes after its initialisation is thread-local"""
    mod = irload.Module(bc)
    w, nf, gl, readers = scan_static_writes(mod)
    fs = []
    nacc = 0
    for g in sorted(accessor_objects(mod)):
        nacc += 1
        if not mod.gvar(g)['tls']:
            fs.append(dict(entry='storage class', function=demangle(g), component='shared between threads', object=demangle(g),
                           why=f'{demangle(g)} is one object for all threads', at=None))
    for g, fn, loc, what in w:
        if not mod.gvar(g)['tls']:
            fs.append(dict(entry='static storage', function=demangle(fn)[:200], component='unsynchronised access to a shared object', object=demangle(g),
                           why=f'static object {demangle(g)} {what} and is shared between threads', at=place(loc)))
    return fs, dict(functions_scanned=nf, exception_word_objects=nacc, static_objects_seen=sorted(demangle_all(gl).values()))


# ---- linkage -------------------------------------------------------------------------------------------------------
EXTERNAL, INTERNAL = 0, 8
XALLOC = '_ZNSt8ios_base6xallocEv'


def returns_xalloc(mod):
    """functions whose result is a fresh stream slot"""
    r = {XALLOC}
    ch = True
    while ch:
        ch = False
        for name in mod.fnames:
            if name in r or 'p1788' not in name and not name.startswith('__cxx_global'):
                continue
            F = mod.func(name)
            if F.decl:
                continue
            der = set()
            for B in F.blocks.values():
                for i in list(B.phis) + B.insts:
                    if i.op in ('call', 'invoke') and callee_of(i) in r:
                        der.add(i.id)
                    elif i.op in ('add', 'sub', 'zext', 'sext', 'trunc', 'select') and any(o.k == 'reg' and o.v in der for o in i.ops or ()):
                        der.add(i.id)
                    elif i.op == 'ret' and i.ops and i.ops[0].k == 'reg' and i.ops[0].v in der and name not in r:
                        r.add(name)
                        ch = True
    return r


def scan_linkage(bc):
    """header definitions that several translation units cannot share: external definitions, and state that each unit has its own copy of"""
    mod = irload.Module(bc)
    fs, nd, ng = [], 0, 0
    for name in mod.fnames:
        F = mod.func(name)
        if F.decl:
            if 'N5p1788' in name:
                fs.append(dict(entry='definitions', function=demangle(name)[:240], component='used but not defined', why='declared and used, but no header defines it', at=None))
            continue
        if not in_lib(F.file):
            continue
        nd += 1
        if mod.linkage(name) == EXTERNAL:
            loc = next((i.loc for B in F.blocks.values() for i in B.insts if i.loc), None)
            fs.append(dict(entry='linkage', function=demangle(name)[:240], component='multiply defined', at=place(loc),
                           why='a header defines this function with external linkage and not inline: every translation unit that includes it defines it again'))
    for g in mod.gnames:
        gv = mod.gvar(g)
        if gv['init'] is None or g.startswith(('llvm.', '.str', '_ZGV')):
            continue
        ng += 1
        if gv['linkage'] == EXTERNAL:
            fs.append(dict(entry='linkage', function=demangle(g), component='multiply defined', at=None,
                           why='a header defines this object with external linkage and not inline: every translation unit that includes it defines it again'))
    # state
    w, nf, gl, readers = scan_static_writes(mod)
    own = {}
    for g, fn, loc, what in w:
        own.setdefault(g, (f'{what} by {demangle(fn)[:120]}', loc))
    for g in accessor_objects(mod):
        own.setdefault(g, ('holds an exception word', None))
    fresh = returns_xalloc(mod)
    nx = 0
    for name in mod.fnames:
        F = mod.func(name)
        if F.decl:
            continue
        defs, der = None, set()
        for B in F.blocks.values():
            for i in list(B.phis) + B.insts:
                if i.op in ('call', 'invoke') and callee_of(i) in fresh:
                    der.add(i.id)
                    nx += 1
                elif i.op in ('add', 'sub', 'zext', 'sext', 'trunc', 'select') and any(o.k == 'reg' and o.v in der for o in i.ops or ()):
                    der.add(i.id)
                elif i.op == 'store' and i.ops[0].k == 'reg' and i.ops[0].v in der:
                    defs = defs or {j.id: j for X in F.blocks.values() for j in X.insts}
                    g = base_gvar(i.ops[1], defs)
                    if g:
                        own[g] = ('names a stream slot', i.loc)
    for g, (what, loc) in own.items():
        if g in mod.gnames and mod.gvar(g)['linkage'] in (INTERNAL, 9) and mod.gvar(g)['init'] is not None:
            fs.append(dict(entry='linkage', function=demangle(g), component='a copy per translation unit', at=place(loc),
                           why=f'this object {what} and has internal linkage: each translation unit has a copy of its own, and settings made through one are not seen through another'))
    return fs, dict(functions_scanned=nd, objects_scanned=ng, stream_slots=nx, state_objects=sorted(demangle_all(own).values()))


def instantiation_driver():
    """every class template for every format: all members that are not templates themselves"""
    s = ''
    for T in ('float', 'double', 'long double'):
        s += f'template class p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<{T}>;\n'
        s += f'template class p1788::infsup::interval<{T},F>;\ntemplate class p1788::infsup::decorated_interval<{T},F>;\n'
    for p in ('24,-148,128,true', '53,-1073,1024,true', '64,-16444,16384,true', '24,-125,128,false', '128,-16444,16384,true'):
        s += f'template class p1788::util::mpfr_var<{p}>;\n'
    return s
