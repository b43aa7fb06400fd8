"""Models of the C++ standard streams, std::string and the printing functions of MPFR, for the analysis of text input and output.

A stream object is a name with its state held beside it: ('ios', name) holds the format words (offset 8*i), the flags (4000),
the state (4004), the number of characters written (4008), the read position (4016) and the length of the input (4024);
('sb', name) the characters written, ('in', name) the characters to be read.  A std::string is a buffer object (offset 0 of the
string object), its size (offset 8).  Characters are integers, symbolic integers, or - text produced by MPFR - negative
integers that stand for the characters of one conversion (16 for each).
"""
import math
import re
from fractions import Fraction
from interp import Abort, NULL, Split, UNDEF, isbool
from terms import Term, con, mk
import models

BAD, EOF, FAIL = 1, 2, 4
ST = {}
S_ = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
SK = '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
NPOS = -1


def stub(*names):
    def d(f):
        for n in names:
            ST[n] = lambda I, st, a, f=f: _wrap(f(I, st, a), st)
        return f
    return d


def _wrap(r, st):
    if isinstance(r, tuple) and r and r[0] in ('#throw', '#dead'):
        return r[0][1:], st, None
    return 'ret', st, r


def base(p):
    if not (isinstance(p, tuple) and p and p[0] == 'P'):
        raise Abort('stream pointer')
    return p[1]


def fld(I, st, b, off, d=0):
    e = I.objd(st, ('ios', b)).get(off)
    return e[1] if e else d


def setfld(st, b, off, v, s=8):
    st.wr(('ios', b))[off] = (s, v)


FLAGS, STATE, COUNT, POS, LEN, WIDTH, PREC, FILL = 4000, 4004, 4008, 4016, 4024, 4032, 4040, 4048
SKIPWS = 0x1000
DEFFLAGS = 0x1002      # skipws | dec


def new_stream(st, name, iwords=0, text=None, flags=DEFFLAGS, subobjects=(0,)):
    st.mem[name] = {}
    for o in subobjects:        # the virtual base is at offset 512
        vt = ('vt', name, o)
        st.mem[vt] = {0: (8, 512 - o)}
        st.own.add(vt)
        st.mem[name][o] = (8, ('P', vt, 24))
    d = st.mem[('ios', name)] = {}
    if isinstance(iwords, int):
        iwords = [iwords] * 32
    for i, w in enumerate(iwords):
        d[8 * i] = (8, w)
    d[FLAGS], d[STATE], d[COUNT], d[POS], d[LEN] = (4, flags), (4, 0), (8, 0), (8, 0), (8, 0)
    d[WIDTH], d[PREC], d[FILL] = (8, 0), (8, 6), (1, 32)
    st.mem[('sb', name)] = {}
    st.mem[('in', name)] = {}
    st.own.update((name, ('ios', name), ('sb', name), ('in', name)))
    if text is not None:
        for i, c in enumerate(text):
            st.mem[('in', name)][i] = (1, c)
        d[LEN] = (8, len(text))
    return ('P', name, 0)


def written(I, st, b):
    n = fld(I, st, b, COUNT)
    if not isinstance(n, int):
        raise Abort('length of the text written')
    d = st.mem[('sb', b)]
    return [d[i][1] for i in range(n)]


def emit(I, st, b, chars):
    if fld(I, st, b, STATE) not in (0, EOF):
        return
    n = fld(I, st, b, COUNT)
    if not isinstance(n, int):
        raise Abort('length of the text written')
    d = st.wr(('sb', b))
    for i, c in enumerate(chars):
        d[n + i] = (1, c)
    setfld(st, b, COUNT, n + len(chars))


def insert(I, st, b, chars):
    """formatted output: padded to the width of the stream, which is used up"""
    w = fld(I, st, b, WIDTH)
    if not isinstance(w, int):
        raise Abort('symbolic width of the stream')
    if w > len(chars):
        f, fl = fld(I, st, b, FILL), fld(I, st, b, FLAGS)
        if not isinstance(fl, int) or fl & 0x10:
            raise Abort('adjustment of the stream')
        pad = [f] * (w - len(chars))
        chars = list(chars) + pad if fl & 0x20 else pad + list(chars)
    if w:
        setfld(st, b, WIDTH, 0)
    emit(I, st, b, chars)


def cstr(I, st, p, limit=4096):
    if not (isinstance(p, tuple) and p and p[0] == 'P'):
        ps = I.ptrs(p)
        cs = [(c, cstr(I, st, q)) for c, q in ps]
        if len(set(map(tuple, (s for _, s in cs)))) == 1:
            return cs[0][1]
        for c, _ in cs:
            if isinstance(c, Term):
                I.split_on(c)
        raise Abort('string pointer')
    d = I.objd(st, p[1])
    out = []
    for i in range(limit):
        e = d.get(p[2] + i)
        if e is None or e[0] != 1:
            raise Abort('string contents')
        c = e[1]
        if isinstance(c, int):
            if c == 0:
                return out
        elif truth(I, I.icmp('eq', c, 0, 8)):
            return out
        out.append(c)
    raise Abort('string length')


def truth(I, c):
    if isinstance(c, bool):
        return c
    if isinstance(c, int):
        return c != 0
    I.split_on(c)
    raise Abort('undecided condition on text')


def chars(I, st, p, n):
    if not isinstance(n, int):
        raise Abort('length of text')
    if n == 0:
        return []
    d = I.objd(st, p[1])
    out = []
    for i in range(n):
        e = d.get(p[2] + i)
        if e is None or e[0] != 1:
            raise Abort('string contents')
        out.append(e[1])
    return out


# ---- strings ------------------------------------------------------------------------------------------
def sset(I, st, p, cs):
    """give the string object at p the contents cs"""
    o = I.newobj('S')
    st.mem[o] = {i: (1, c) for i, c in enumerate(list(cs) + [0])}
    st.own.add(o)
    d = st.wr(p[1]) if p[1] in st.mem else I.objd(st, p[1])
    d[p[2]] = (8, ('P', o, 0))
    d[p[2] + 8] = (8, len(cs))


def sget(I, st, p):
    d = I.objd(st, p[1])
    e, n = d.get(p[2]), d.get(p[2] + 8)
    if e is None or n is None or not isinstance(n[1], int) or not (isinstance(e[1], tuple) and e[1][0] == 'P'):
        raise Abort('string object')
    return chars(I, st, e[1], n[1])


def sbuf(I, st, p):
    sget(I, st, p)
    return I.objd(st, p[1])[p[2]][1]


def num(n):
    if not isinstance(n, int):
        raise Abort('symbolic position in text')
    return n


def uns64(n):
    return num(n) % (1 << 64)


def oor(I):
    I.lastexc = '_ZTISt12out_of_range'
    return ('#throw',)


@stub(S_ + 'C1Ev', S_ + 'C2Ev', S_ + 'C1ERKS3_', S_ + 'C2ERKS3_')
def _s0(I, st, a):
    sset(I, st, a[0], [])


@stub(S_ + 'C1ERKS4_', S_ + 'C2ERKS4_', S_ + 'C1EOS4_', S_ + 'C2EOS4_', S_ + 'aSERKS4_', S_ + 'aSEOS4_', S_ + '6assignERKS4_', S_ + '6assignEOS4_')
def _scp(I, st, a):
    sset(I, st, a[0], sget(I, st, a[1]))
    return a[0]


@stub(S_ + 'C1EOS4_RKS3_', S_ + 'C1ERKS4_RKS3_')
def _scp2(I, st, a):
    sset(I, st, a[0], sget(I, st, a[1]))


@stub(S_ + 'C1ERKS4_mm', S_ + 'C2ERKS4_mm', S_ + 'C1ERKS4_m', S_ + 'C2ERKS4_m')
def _ssub0(I, st, a):
    s = sget(I, st, a[1])
    p, n = uns64(a[2]), uns64(a[3]) if len(a) > 3 else 1 << 62
    if p > len(s):
        return oor(I)
    sset(I, st, a[0], s[p:p + n])


@stub(S_ + 'C1EPKcRKS3_', S_ + 'C2EPKcRKS3_', S_ + 'C1IS3_EEPKcRKS3_', S_ + 'C2IS3_EEPKcRKS3_', S_ + 'aSEPKc', S_ + '6assignEPKc')
def _scs(I, st, a):
    sset(I, st, a[0], cstr(I, st, a[1]))
    return a[0]


@stub(S_ + 'C1EPKcmRKS3_', S_ + 'C2EPKcmRKS3_', S_ + '6assignEPKcm')
def _scsn(I, st, a):
    sset(I, st, a[0], chars(I, st, a[1], num(a[2])))
    return a[0]


@stub(S_ + 'C1EmcRKS3_', S_ + 'C2EmcRKS3_', S_ + 'C1IS3_EEmcRKS3_', S_ + 'C2IS3_EEmcRKS3_', S_ + '6assignEmc')
def _sfill(I, st, a):
    n = uns64(a[1])
    if n > 1 << 20:
        I.lastexc = '_ZTISt12length_error'
        return ('#throw',)
    sset(I, st, a[0], [a[2]] * n)
    return a[0]


@stub(S_ + 'aSEc')
def _sasc(I, st, a):
    sset(I, st, a[0], [a[1]])
    return a[0]


@stub(S_ + 'D1Ev', S_ + 'D2Ev')
def _sd(I, st, a):
    return None


@stub(SK + '4sizeEv', SK + '6lengthEv')
def _ssz(I, st, a):
    return len(sget(I, st, a[0]))


@stub(SK + '5emptyEv')
def _semp(I, st, a):
    return not sget(I, st, a[0])


@stub(S_ + '5clearEv')
def _sclr(I, st, a):
    sset(I, st, a[0], [])


@stub(S_ + '7reserveEm', S_ + '7reserveEv')
def _nop(I, st, a):
    return None


@stub(S_ + '6resizeEm', S_ + '6resizeEmc')
def _srs(I, st, a):
    s, n = sget(I, st, a[0]), uns64(a[1])
    if n > 1 << 20:
        I.lastexc = '_ZTISt12length_error'
        return ('#throw',)
    sset(I, st, a[0], s[:n] + [a[2] if len(a) > 2 else 0] * (n - len(s)))


@stub(S_ + 'ixEm', SK + 'ixEm')
def _six(I, st, a):
    p = sbuf(I, st, a[0])
    return ('P', p[1], p[2] + uns64(a[1]))


@stub(S_ + '2atEm', SK + '2atEm')
def _sat(I, st, a):
    if uns64(a[1]) >= len(sget(I, st, a[0])):
        return oor(I)
    return _six(I, st, a)


@stub(S_ + '5frontEv', SK + '5frontEv', SK + '4dataEv', S_ + '4dataEv', SK + '5c_strEv', S_ + '5beginEv', SK + '5beginEv', SK + '6cbeginEv')
def _sdt(I, st, a):
    return sbuf(I, st, a[0])


@stub(S_ + '3endEv', SK + '3endEv', SK + '4cendEv')
def _send(I, st, a):
    p = sbuf(I, st, a[0])
    return ('P', p[1], p[2] + len(sget(I, st, a[0])))


@stub(S_ + '4backEv', SK + '4backEv')
def _sback(I, st, a):
    p = sbuf(I, st, a[0])
    return ('P', p[1], p[2] + len(sget(I, st, a[0])) - 1)


@stub(S_ + '6appendERKS4_', S_ + 'pLERKS4_')
def _sap(I, st, a):
    sset(I, st, a[0], sget(I, st, a[0]) + sget(I, st, a[1]))
    return a[0]


@stub(S_ + '6appendERKS4_mm')
def _saps(I, st, a):
    s = sget(I, st, a[1])
    if uns64(a[2]) > len(s):
        return oor(I)
    sset(I, st, a[0], sget(I, st, a[0]) + s[uns64(a[2]):uns64(a[2]) + uns64(a[3])])
    return a[0]


@stub(S_ + '6appendEPKc', S_ + 'pLEPKc')
def _sapc(I, st, a):
    sset(I, st, a[0], sget(I, st, a[0]) + cstr(I, st, a[1]))
    return a[0]


@stub(S_ + '6appendEPKcm')
def _sapn(I, st, a):
    sset(I, st, a[0], sget(I, st, a[0]) + chars(I, st, a[1], num(a[2])))
    return a[0]


@stub(S_ + '6appendEmc')
def _sapf(I, st, a):
    n = uns64(a[1])
    if n > 1 << 20:
        raise Abort('length of text')
    sset(I, st, a[0], sget(I, st, a[0]) + [a[2]] * n)
    return a[0]


@stub(S_ + '9push_backEc', S_ + 'pLEc')
def _spb(I, st, a):
    sset(I, st, a[0], sget(I, st, a[0]) + [a[1]])
    return a[0]


@stub(S_ + '8pop_backEv')
def _spop(I, st, a):
    sset(I, st, a[0], sget(I, st, a[0])[:-1])


@stub(SK + '6substrEmm')
def _ssub(I, st, a):
    s = sget(I, st, a[1])
    p, n = uns64(a[2]), uns64(a[3])
    if p > len(s):
        return oor(I)
    sset(I, st, a[0], s[p:p + n])


@stub(S_ + '6insertEmPKc')
def _sins(I, st, a):
    s, p = sget(I, st, a[0]), uns64(a[1])
    if p > len(s):
        return oor(I)
    sset(I, st, a[0], s[:p] + cstr(I, st, a[2]) + s[p:])
    return a[0]


@stub(S_ + '6insertEmRKS4_')
def _sinss(I, st, a):
    s, p = sget(I, st, a[0]), uns64(a[1])
    if p > len(s):
        return oor(I)
    sset(I, st, a[0], s[:p] + sget(I, st, a[2]) + s[p:])
    return a[0]


@stub(S_ + '6insertEmmc')
def _sinsf(I, st, a):
    s, p = sget(I, st, a[0]), uns64(a[1])
    if p > len(s):
        return oor(I)
    sset(I, st, a[0], s[:p] + [a[3]] * uns64(a[2]) + s[p:])
    return a[0]


@stub(S_ + '5eraseEmm')
def _sera(I, st, a):
    s, p, n = sget(I, st, a[0]), uns64(a[1]), uns64(a[2])
    if p > len(s):
        return oor(I)
    sset(I, st, a[0], s[:p] + s[p + n:])
    return a[0]


def chareq(I, x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    return truth(I, I.icmp('eq', x, y, 8))


def find(I, s, t, p):
    for i in range(p, len(s) - len(t) + 1):
        if all(chareq(I, s[i + j], t[j]) for j in range(len(t))):
            return i
    return NPOS


@stub(SK + '4findEcm')
def _sfc(I, st, a):
    return find(I, sget(I, st, a[0]), [a[1]], uns64(a[2]))


@stub(SK + '4findEPKcm')
def _sfs(I, st, a):
    return find(I, sget(I, st, a[0]), cstr(I, st, a[1]), uns64(a[2]))


@stub(SK + '4findERKS4_m')
def _sfss(I, st, a):
    return find(I, sget(I, st, a[0]), sget(I, st, a[1]), uns64(a[2]))


@stub(SK + '13find_first_ofEPKcm')
def _sfo(I, st, a):
    s, t = sget(I, st, a[0]), cstr(I, st, a[1])
    for i in range(uns64(a[2]), len(s)):
        if any(chareq(I, s[i], c) for c in t):
            return i
    return NPOS


def cmp(I, s, t):
    for x, y in zip(s, t):
        if not chareq(I, x, y):
            if isinstance(x, int) and isinstance(y, int):
                return -1 if x % 256 < y % 256 else 1
            return -1 if truth(I, I.icmp('ult', x, y, 8)) else 1
    return (len(s) > len(t)) - (len(s) < len(t))


@stub(SK + '7compareEPKc')
def _scmp(I, st, a):
    return cmp(I, sget(I, st, a[0]), cstr(I, st, a[1]))


@stub(SK + '7compareERKS4_')
def _scmps(I, st, a):
    return cmp(I, sget(I, st, a[0]), sget(I, st, a[1]))


@stub(SK + '7compareEmmPKc')
def _scmpn(I, st, a):
    return cmp(I, sget(I, st, a[0])[uns64(a[1]):][:uns64(a[2])], cstr(I, st, a[3]))


@stub(SK + '13get_allocatorEv', S_ + '13shrink_to_fitEv')
def _sgal(I, st, a):
    return None


@stub(SK + '8capacityEv')
def _scap(I, st, a):        # at least the size; only used to choose between equivalent ways
    return max(15, len(sget(I, st, a[0])))


@stub(S_ + '4swapERS4_')
def _sswap(I, st, a):
    x, y = sget(I, st, a[0]), sget(I, st, a[1])
    sset(I, st, a[0], y)
    sset(I, st, a[1], x)


def rfind(I, s, t, p):
    for i in range(min(p, len(s) - len(t)), -1, -1):
        if all(chareq(I, s[i + j], t[j]) for j in range(len(t))):
            return i
    return NPOS


@stub(SK + '5rfindEcm')
def _srfc(I, st, a):
    return rfind(I, sget(I, st, a[0]), [a[1]], uns64(a[2]))


@stub(SK + '5rfindEPKcm')
def _srfs(I, st, a):
    return rfind(I, sget(I, st, a[0]), cstr(I, st, a[1]), uns64(a[2]))


@stub(SK + '17find_first_not_ofEPKcm')
def _sfno(I, st, a):
    s, t = sget(I, st, a[0]), cstr(I, st, a[1])
    for i in range(uns64(a[2]), len(s)):
        if not any(chareq(I, s[i], c) for c in t):
            return i
    return NPOS


@stub(SK + '17find_first_not_ofEcm')
def _sfnoc(I, st, a):
    s = sget(I, st, a[0])
    for i in range(uns64(a[2]), len(s)):
        if not chareq(I, s[i], a[1]):
            return i
    return NPOS


@stub(SK + '16find_last_not_ofEcm')
def _slnoc(I, st, a):
    s = sget(I, st, a[0])
    for i in range(min(uns64(a[2]), len(s) - 1), -1, -1):
        if not chareq(I, s[i], a[1]):
            return i
    return NPOS


def _replace(get):
    def f(I, st, a):
        s, p, n = sget(I, st, a[0]), uns64(a[1]), uns64(a[2])
        if p > len(s):
            return _wrap(oor(I), st)
        sset(I, st, a[0], s[:p] + get(I, st, a[3]) + s[p + n:])
        return 'ret', st, a[0]
    return f


ST[S_ + '7replaceEmmPKc'] = _replace(cstr)
ST[S_ + '7replaceEmmRKS4_'] = _replace(sget)


@stub('_ZNSaIcEC1Ev', '_ZNSaIcEC2Ev', '_ZNSaIcED1Ev', '_ZNSaIcED2Ev', '_ZNSaIcEC1ERKS_', '_ZNSaIcEC2ERKS_', '_ZNSt15__new_allocatorIcEC2Ev', '_ZNSt15__new_allocatorIcED2Ev',
      '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def _al(I, st, a):
    return None


# ---- C library ----------------------------------------------------------------------------------------
@stub('strlen')
def _strlen(I, st, a):
    return len(cstr(I, st, a[0]))


@stub('memcmp', 'strncmp', 'bcmp')
def _memcmp(I, st, a):
    return cmp(I, chars(I, st, a[0], num(a[2])), chars(I, st, a[1], num(a[2])))


@stub('strcmp')
def _strcmp(I, st, a):
    return cmp(I, cstr(I, st, a[0]), cstr(I, st, a[1]))


def within(I, c, *rs):
    if isinstance(c, int):
        return any(l <= c <= h for l, h in rs)
    for l, h in rs:
        if truth(I, I.icmp('sge', c, l, 32)) and truth(I, I.icmp('sle', c, h, 32)):
            return True
    return False


@stub('isspace')
def _isspace(I, st, a):
    return int(within(I, a[0], (9, 13), (32, 32)))


@stub('isdigit')
def _isdigit(I, st, a):
    if isinstance(a[0], int) and 128 <= a[0] < 256:
        if a[0] >= 192:
            raise Abort('class of a hexadecimal digit')
        return 1
    return int(within(I, a[0], (48, 57)))


@stub('isalpha')
def _isalpha(I, st, a):
    return int(within(I, a[0], (65, 90), (97, 122)))


@stub('isalnum')
def _isalnum(I, st, a):
    if isinstance(a[0], int) and 128 <= a[0] < 256:
        return 1
    return int(within(I, a[0], (48, 57), (65, 90), (97, 122)))


@stub('isxdigit')
def _isxdigit(I, st, a):
    if isinstance(a[0], int) and 128 <= a[0] < 256:
        return 1
    return int(within(I, a[0], (48, 57), (65, 70), (97, 102)))


@stub('isupper')
def _isupper(I, st, a):
    return int(within(I, a[0], (65, 90)))


@stub('islower')
def _islower(I, st, a):
    return int(within(I, a[0], (97, 122)))


@stub('tolower')
def _tolower(I, st, a):
    c = a[0]
    return I.intop('add', c, 32, I32) if within(I, c, (65, 90)) else c


@stub('toupper')
def _toupper(I, st, a):
    c = a[0]
    return I.intop('add', c, -32, I32) if within(I, c, (97, 122)) else c


class _T:
    k, bits = 'int', 32


I32 = _T()


# ---- streams ------------------------------------------------------------------------------------------
@stub('_ZNSt8ios_base6xallocEv')
def _xalloc(I, st, a):
    n = getattr(I, 'nxalloc', 0)
    I.nxalloc = n + 1
    return n


@stub('_ZNSt8ios_base5iwordEi')
def _iword(I, st, a):
    return ('P', ('ios', base(a[0])), 8 * num(a[1]))


@stub('_ZNKSt8ios_base5flagsEv')
def _flags(I, st, a):
    return fld(I, st, base(a[0]), FLAGS)


def _bits(v):
    if not isinstance(v, int):
        raise Abort('symbolic format flags')
    return v


@stub('_ZNSt8ios_base5flagsESt13_Ios_Fmtflags')
def _setflags(I, st, a):
    f = fld(I, st, base(a[0]), FLAGS)
    setfld(st, base(a[0]), FLAGS, a[1], 4)
    return f


@stub('_ZNSt8ios_base4setfESt13_Ios_Fmtflags')
def _setf(I, st, a):
    f = _bits(fld(I, st, base(a[0]), FLAGS))
    setfld(st, base(a[0]), FLAGS, f | _bits(a[1]), 4)
    return f


@stub('_ZNSt8ios_base4setfESt13_Ios_FmtflagsS0_')
def _setf2(I, st, a):
    f = _bits(fld(I, st, base(a[0]), FLAGS))
    setfld(st, base(a[0]), FLAGS, f & ~_bits(a[2]) | _bits(a[1]) & _bits(a[2]), 4)
    return f


@stub('_ZNSt8ios_base6unsetfESt13_Ios_Fmtflags')
def _unsetf(I, st, a):
    setfld(st, base(a[0]), FLAGS, _bits(fld(I, st, base(a[0]), FLAGS)) & ~_bits(a[1]), 4)


def _getset(off, get, put, size):
    def g(I, st, a):
        return fld(I, st, base(a[0]), off)

    def p(I, st, a):
        v = fld(I, st, base(a[0]), off)
        setfld(st, base(a[0]), off, a[1], size)
        return v
    ST[get], ST[put] = g, p


_getset(WIDTH, '_ZNKSt8ios_base5widthEv', '_ZNSt8ios_base5widthEl', 8)
_getset(PREC, '_ZNKSt8ios_base9precisionEv', '_ZNSt8ios_base9precisionEl', 8)
_getset(FILL, '_ZNKSt9basic_iosIcSt11char_traitsIcEE4fillEv', '_ZNSt9basic_iosIcSt11char_traitsIcEE4fillEc', 1)


def _setter(name, off, size):
    def p(I, st, a):
        setfld(st, base(a[0]), off, a[1], size)
        return a[0]
    ST[name] = p


_setter('_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw', WIDTH, 8)
_setter('_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St13_Setprecision', PREC, 8)
_setter('_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St8_SetfillIS3_E', FILL, 1)


@stub('_ZNSo5flushEv')
def _flush(I, st, a):
    return a[0]


@stub('_ZNSolsEPFRSoS_E', '_ZNSolsEPFRSt9basic_iosIcSt11char_traitsIcEES3_E', '_ZNSolsEPFRSt8ios_baseS0_E', '_ZNSirsEPFRSiS_E', '_ZNSirsEPFRSt8ios_baseS0_E')
def _omanip(I, st, a):
    raise Abort('manipulator')


def _omanip2(I, st, a):
    f = a[1]
    if not (isinstance(f, tuple) and f[0] == 'F'):
        raise Abort('indirect call')
    return I.call(f[1], [a[0]], st, None)


for _n in ('_ZNSolsEPFRSoS_E', '_ZNSolsEPFRSt9basic_iosIcSt11char_traitsIcEES3_E', '_ZNSolsEPFRSt8ios_baseS0_E', '_ZNSirsEPFRSiS_E', '_ZNSirsEPFRSt8ios_baseS0_E'):
    ST[_n] = _omanip2


@stub('_ZNSolsEi', '_ZNSolsEj', '_ZNSolsEl', '_ZNSolsEm', '_ZNSolsEx', '_ZNSolsEy', '_ZNSolsEs', '_ZNSolsEt')
def _oint(I, st, a):
    if isinstance(a[1], Term) and a[1].op == 'lin' and a[1].a[0] in I.cell.ints:
        _, l, h, _ = I.cell.ints[a[1].a[0]]
        if l < h:
            raise Split('icmp', a[1].a[0], (l + h) // 2)
        a = [a[0], a[1].a[1] * l + a[1].a[2]]
    if not isinstance(a[1], int):
        raise Abort('symbolic number written')
    fl = fld(I, st, base(a[0]), FLAGS)
    if not isinstance(fl, int) or fl & 0xa00 or fl & 8 and a[1] < 0:
        raise Abort('format of a number written')
    t = f'{a[1]:x}' if fl & 8 else f'{a[1]:o}' if fl & 0x40 else str(a[1])
    insert(I, st, base(a[0]), [ord(c) for c in (t.upper() if fl & 0x4000 else t)])
    return a[0]


@stub('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc')
def _ocs(I, st, a):
    insert(I, st, base(a[0]), cstr(I, st, a[1]))
    return a[0]


@stub('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c', '_ZNSo3putEc')
def _oc(I, st, a):
    insert(I, st, base(a[0]), [a[1]])
    return a[0]


@stub('_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE')
def _os(I, st, a):
    insert(I, st, base(a[0]), sget(I, st, a[1]))
    return a[0]


@stub('_ZNSo5writeEPKcl')
def _ow(I, st, a):
    emit(I, st, base(a[0]), chars(I, st, a[1], num(a[2])))
    return a[0]


@stub('_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev')
def _ssctor(I, st, a):
    p = a[0]
    keep = st.mem.get(p[1])
    new_stream(st, p[1], 0, subobjects=(0, 16))
    return None


@stub('_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev')
def _osctor(I, st, a):
    new_stream(st, a[0][1], 0, subobjects=(0,))
    return None


SS1 = 'IcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode'


@stub('_ZNSt7__cxx1119basic_istringstream' + SS1, '_ZNSt7__cxx1118basic_stringstream' + SS1)
def _issctor(I, st, a):
    new_stream(st, a[0][1], 0, text=sget(I, st, a[1]), subobjects=(0, 16))
    return None


@stub('_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEED1Ev', '_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev', '_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev')
def _ssdtor(I, st, a):
    return None


@stub('_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv', '_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv')
def _ssstr(I, st, a):
    sset(I, st, a[0], written(I, st, base(a[1])))


@stub('_ZNSt9basic_iosIcSt11char_traitsIcEE7copyfmtERKS2_')
def _copyfmt(I, st, a):
    d, s = st.wr(('ios', base(a[0]))), st.mem[('ios', base(a[1]))]
    for k, v in s.items():
        if k < FLAGS or k in (FLAGS, WIDTH, PREC, FILL):
            d[k] = v
    return a[0]


def smap(I, st, a, f):
    """a function of the state of the stream, which may depend on an undecided condition"""
    def go(s):
        if isinstance(s, int):
            return f(s)
        if isinstance(s, Term) and s.op == 'ite':
            k = I.ctx.known(s.a[0])
            if isinstance(k, bool):
                return go(s.a[1] if k else s.a[2])
            return I.ite(s.a[0], go(s.a[1]), go(s.a[2]))
        raise Abort('symbolic stream state')
    return go(fld(I, st, base(a[0]), STATE))


def state(I, st, a):
    s = smap(I, st, a, lambda s: s)
    if not isinstance(s, int):
        raise Abort('symbolic stream state')
    return s


@stub('_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv')
def _ok(I, st, a):
    return smap(I, st, a, lambda s: not s & (FAIL | BAD))


@stub('_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv', '_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv')
def _bad(I, st, a):
    return smap(I, st, a, lambda s: bool(s & (FAIL | BAD)))


@stub('_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv')
def _good(I, st, a):
    return smap(I, st, a, lambda s: s == 0)


@stub('_ZNKSt9basic_iosIcSt11char_traitsIcEE3badEv')
def _isbad(I, st, a):
    return smap(I, st, a, lambda s: bool(s & BAD))


@stub('_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv')
def _eof(I, st, a):
    return smap(I, st, a, lambda s: bool(s & EOF))


@stub('_ZNKSt9basic_iosIcSt11char_traitsIcEE7rdstateEv')
def _rd(I, st, a):
    return smap(I, st, a, lambda s: s)


@stub('_ZNSt9basic_iosIcSt11char_traitsIcEE8setstateESt12_Ios_Iostate')
def _ss(I, st, a):
    setfld(st, base(a[0]), STATE, smap(I, st, a, lambda s: s | num(a[1])), 4)


@stub('_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate')
def _clr(I, st, a):
    setfld(st, base(a[0]), STATE, num(a[1]), 4)


def avail(I, st, b):
    return fld(I, st, b, POS), fld(I, st, b, LEN)


@stub('_ZNSi4peekEv')
def _peek(I, st, a):
    b = base(a[0])
    s = state(I, st, a)
    p, n = avail(I, st, b)
    if s:
        setfld(st, b, STATE, s | FAIL, 4)
        return -1
    if p >= n:
        setfld(st, b, STATE, s | EOF, 4)
        return -1
    return uchar(I, st.mem[('in', b)][p][1])


def uchar(I, c):
    if isinstance(c, int):
        return c & 255
    if truth(I, I.icmp('sge', c, 0, 8)):
        return c
    return I.intop('add', c, 256, I32)


@stub('_ZNSi3getEv')
def _get(I, st, a):
    b = base(a[0])
    s = state(I, st, a)
    p, n = avail(I, st, b)
    if s:
        setfld(st, b, STATE, s | FAIL, 4)
        return -1
    if p >= n:
        setfld(st, b, STATE, s | EOF | FAIL, 4)
        return -1
    setfld(st, b, POS, p + 1)
    return uchar(I, st.mem[('in', b)][p][1])


@stub('_ZNSi3getERc')
def _getc(I, st, a):
    b = base(a[0])
    s = state(I, st, a)
    p, n = avail(I, st, b)
    if s or p >= n:
        setfld(st, b, STATE, s | FAIL | (0 if s else EOF), 4)
        return a[0]
    setfld(st, b, POS, p + 1)
    st.wr(a[1][1])[a[1][2]] = (1, st.mem[('in', b)][p][1])
    return a[0]


@stub('_ZNSi4readEPcl')
def _read(I, st, a):
    b = base(a[0])
    s = state(I, st, a)
    p, n = avail(I, st, b)
    k = num(a[2])
    if s:
        setfld(st, b, STATE, s | FAIL, 4)
        return a[0]
    m = min(k, n - p)
    d = st.wr(a[1][1])
    for i in range(m):
        d[a[1][2] + i] = (1, st.mem[('in', b)][p + i][1])
    setfld(st, b, POS, p + m)
    if m < k:
        setfld(st, b, STATE, s | EOF | FAIL, 4)
    return a[0]


@stub('_ZNSi5ungetEv')
def _unget(I, st, a):
    b = base(a[0])
    s = state(I, st, a) & ~EOF
    p, n = avail(I, st, b)
    if s or p == 0:
        setfld(st, b, STATE, s | (FAIL if s else BAD), 4)
        return a[0]
    setfld(st, b, STATE, s, 4)
    setfld(st, b, POS, p - 1)
    return a[0]


@stub('_ZNSirsERj', '_ZNSirsERi', '_ZNSirsERm', '_ZNSirsERl')
def _inum(I, st, a):
    """the number at the read position: a symbolic value chosen by the analysis ('number read'), or a failure"""
    b = base(a[0])
    s = state(I, st, a)
    v = getattr(I, 'numread', None)
    if s:
        setfld(st, b, STATE, s | FAIL, 4)
        return a[0]
    if v is None:
        raise Abort('number read')
    d = st.wr(a[1][1])
    if v == 'overflow':
        d[a[1][2]] = (4, -1)
        setfld(st, b, STATE, s | FAIL, 4)
    else:
        d[a[1][2]] = (4, v)
    setfld(st, b, POS, avail(I, st, b)[1])
    return a[0]


# ---- MPFR conversion to text ---------------------------------------------------------------------------
TOKENS = (5, 8, 6, 7, 9, 4, 10, 11)     # lengths of the texts of the conversions, in their order


def token(I, k, d):
    f = getattr(I, 'tokens', None)
    return f(k, d) if f else [-128 + 16 * k + i for i in range(TOKENS[k])]


def convert(I, st, fmt, args):
    """one conversion of an MPFR variable: logs (format, rounding, value), -> its characters"""
    f = bytes(num(c) for c in cstr(I, st, fmt)).decode()
    m = re.fullmatch(r'%(-?[0-9]*)(?:\.([0-9]+))?R([*UDYZN]?)([fFeEgGaA])', f)
    if not m:
        raise Abort('format ' + f)
    r = {0: 'N', 1: 'Z', 2: 'U', 3: 'D', 4: 'Y'}[num(args[0])] if m.group(3) == '*' else m.group(3) or 'N'
    v = models.term(I, st, args[1] if m.group(3) == '*' else args[0])
    k = len(st.mem.get('conv', {}))
    if k >= 7:
        raise Abort('number of conversions')
    d = (m.group(1), m.group(2), r, m.group(4), v)
    return k, token(I, k, d), d


@stub('mpfr_snprintf')
def _snp(I, st, a):
    k, cs, d = convert(I, st, a[2], a[3:])
    if a[1] == 0:
        return len(cs)
    logged(I, st, k, d)
    put(I, st, a[0], cs[:max(num(a[1]) - 1, 0)])
    return len(cs)


def logged(I, st, k, d):
    if 'conv' not in st.mem:
        st.mem['conv'] = {}
        st.own.add('conv')
    st.wr('conv')[k] = (1, d)


def put(I, st, p, cs):
    d = st.wr(p[1])
    for i, c in enumerate(list(cs) + [0]):
        d[p[2] + i] = (1, c)


@stub('mpfr_sprintf')
def _sp(I, st, a):
    k, cs, d = convert(I, st, a[1], a[2:])
    logged(I, st, k, d)
    put(I, st, a[0], cs)
    return len(cs)


@stub('mpfr_asprintf')
def _asp(I, st, a):
    k, cs, d = convert(I, st, a[1], a[2:])
    logged(I, st, k, d)
    o = I.newobj('S')
    st.mem[o] = {}
    st.own.add(o)
    put(I, st, ('P', o, 0), cs)
    st.wr(a[0][1])[a[0][2]] = (8, ('P', o, 0))
    return len(cs)


@stub('mpfr_free_str')
def _fstr(I, st, a):
    return None


def conversions(st):
    d = st.mem.get('conv', {})
    return [d[k][1] for k in sorted(d)]


# ---- numbers and their texts -----------------------------------------------------------------------------
def invalid_argument(I):
    I.lastexc = '_ZTISt16invalid_argument'
    return ('#throw',)


def number(I, cs, digits):
    """the integer written by cs; a run of codes of one conversion is a symbolic integer named by the run"""
    i = 0
    while i < len(cs) and cs[i] in (32, 9, 10, 11, 12, 13):
        i += 1
    neg = False
    if i < len(cs) and cs[i] in (43, 45):
        neg = cs[i] == 45
        i += 1
    ds = []
    while i < len(cs) and (48 <= cs[i] <= 57 or cs[i] < 0):
        ds.append(cs[i])
        i += 1
    if not ds:
        return invalid_argument(I)
    while ds and ds[0] == 48:
        ds.pop(0)
    if len(ds) > digits:
        return oor(I)
    if all(c > 0 for c in ds):
        return (-1 if neg else 1) * int(''.join(map(chr, ds)) or '0')
    z = 0
    while ds[-1] == 48:
        ds.pop()
        z += 1
    if any(c > 0 or c != ds[0] + k for k, c in enumerate(ds)) or (ds[0] + 128) // 16 != (ds[-1] + 128) // 16:
        raise Abort('digits of different numbers')
    n = digits_name(ds[0], ds[-1])
    if I.cell.ints.get(n, (0, 0, 1))[1:3] == (0, 0):
        return 0
    return mk('lin', n, (-1 if neg else 1) * 10 ** z, 0)


def digits_name(a, b):
    return f'digits{(a + 128) // 16}_{(a + 128) % 16}_{(b + 128) % 16}'


@stub('_ZNSt7__cxx114stoiERKNS_12basic_stringIcSt11char_traitsIcESaIcEEEPmi')
def _stoi(I, st, a):
    return number(I, sget(I, st, a[0]), 9)


@stub('_ZNSt7__cxx115stollERKNS_12basic_stringIcSt11char_traitsIcESaIcEEEPmi', '_ZNSt7__cxx114stolERKNS_12basic_stringIcSt11char_traitsIcESaIcEEEPmi')
def _stoll(I, st, a):
    return number(I, sget(I, st, a[0]), 18)


NUMBER = [-16, -15, -14, -13]     # the text of a symbolic integer


def tostring(I, st, a, mod):
    v = a[1]
    if isinstance(v, int):
        sset(I, st, a[0], [ord(c) for c in str(v % mod if mod else v)])
        return
    if 'numtext' in st.mem:
        raise Abort('two symbolic numbers written')
    st.mem['numtext'] = {0: (8, v)}
    st.own.add('numtext')
    sset(I, st, a[0], NUMBER)


for _c, _m in (('i', 0), ('l', 0), ('x', 0), ('j', 1 << 32), ('m', 1 << 64), ('y', 1 << 64)):
    stub('_ZNSt7__cxx119to_stringE' + _c)(lambda I, st, a, m=_m: tostring(I, st, a, m))


def startup(I, st):
    """run the initialisers of the translation unit's static objects"""
    for n in sorted(I.m.fnames):
        if n.startswith('_GLOBAL__sub_I_'):
            k, s2, _ = I.call(n, [], st, None)
            if k != 'ret' or s2 is not st:
                st = s2
    return st


# ---- exact numbers of GMP --------------------------------------------------------------------------------
# a value is a linear form over the integers written by runs of digits: (constant, ((name, coefficient), ...))
def lin(c, vs=()):
    return ('LIN', Fraction(c), tuple(sorted((n, Fraction(k)) for n, k in dict(vs).items() if k)))


def gkey(p):
    if not (isinstance(p, tuple) and p and p[0] == 'P'):
        raise Abort('GMP object')
    return p[1:3]


def gset(I, st, p, v):
    if 'gmp' not in st.mem:
        st.mem['gmp'] = {}
        st.own.add('gmp')
    if isinstance(p[1], tuple) and p[1][0] == 'G':
        raise Abort('global GMP object')
    st.wr('gmp')[gkey(p)] = (0, v)


def gget(I, st, p):
    e = st.mem.get('gmp', {}).get(gkey(p))
    if e is None or e[1] is None:
        raise Abort('GMP object without value')
    return e[1]


def gmap(v, k):
    return lin(v[1] * k, {n: c * k for n, c in v[2]})


def gadd(x, y):
    d = dict(x[2])
    for n, c in y[2]:
        d[n] = d.get(n, 0) + c
    return lin(x[1] + y[1], d)


def gmul(x, y):
    if x[2] and y[2]:
        raise Abort('product of two symbolic numbers')
    return gmap(y, x[1]) if not x[2] else gmap(x, y[1])


def gterm(I, v):
    """the exact value as a term"""
    c = I.ctx
    den = 1
    for k in [v[1]] + [k for _, k in v[2]]:
        den = den * k.denominator // math.gcd(den, k.denominator)
    if den & (den - 1) == 0 and not (v[1] and v[2]):
        s, den = Fraction(1, den), 1
    else:
        s = Fraction(1)
    t = None if v[2] and not v[1] else con(v[1] * s * den if den == 1 else v[1] * den) if den != 1 else con(v[1])
    for n, k in v[2]:
        k = k * den
        x = c.var(n)
        x = x if abs(k) == 1 else c.mul(x, con(abs(k)))
        x = c.neg(x) if k < 0 else x
        t = x if t is None else c.add(t, x)
    if den != 1:
        t = con(v[1]) if not v[2] else c.div(t, con(den))
    return t


def gcmp(I, x, y):
    """sign of x - y, decided by splitting on the digits when one of them determines it"""
    d = gadd(x, gmap(y, -1))
    c = I.ctx
    if not d[2]:
        return (d[1] > 0) - (d[1] < 0)
    if len(d[2]) == 1:
        n, k = d[2][0]
        b = -d[1] / k
        v, f = c.var(n), con(math.floor(b))
        if truth(I, c.known(c.lt(f, v))):
            return 1 if k > 0 else -1
        return 0 if b == math.floor(b) and truth(I, c.known(c.eq(f, v))) else -1 if k > 0 else 1
    if not d[1] and len(d[2]) == 2 and d[2][0][1] == -d[2][1][1]:
        p, q = (c.var(d[2][i][0]) for i in ((0, 1) if d[2][0][1] > 0 else (1, 0)))
        return 1 if truth(I, c.known(c.lt(q, p))) else 0 if truth(I, c.known(c.eq(p, q))) else -1
    return models.cmp3(I, gterm(I, x), gterm(I, y))


@stub('__gmpz_init', '__gmpq_init')
def _ginit(I, st, a):
    gset(I, st, a[0], lin(0))


@stub('__gmpz_clear', '__gmpq_clear')
def _gclear(I, st, a):
    gget(I, st, a[0])
    gset(I, st, a[0], None)


@stub('__gmpz_set_si', '__gmpz_init_set_si', '__gmpz_set_ui', '__gmpz_init_set_ui')
def _gsi(I, st, a):
    gset(I, st, a[0], lin(num(a[1])))


@stub('__gmpz_set', '__gmpq_set', '__gmpq_set_z', '__gmpz_init_set')
def _gsetz(I, st, a):
    gset(I, st, a[0], gget(I, st, a[1]))


@stub('__gmpz_mul_si', '__gmpz_mul_ui')
def _gmuls(I, st, a):
    gset(I, st, a[0], gmap(gget(I, st, a[1]), num(a[2])))


@stub('__gmpz_add_ui')
def _gaddui(I, st, a):
    gset(I, st, a[0], gadd(gget(I, st, a[1]), lin(uns64(a[2]))))


@stub('__gmpz_sub_ui')
def _gsubui(I, st, a):
    gset(I, st, a[0], gadd(gget(I, st, a[1]), lin(-uns64(a[2]))))


@stub('__gmpz_add', '__gmpq_add')
def _gadd(I, st, a):
    gset(I, st, a[0], gadd(gget(I, st, a[1]), gget(I, st, a[2])))


@stub('__gmpz_sub', '__gmpq_sub')
def _gsub(I, st, a):
    gset(I, st, a[0], gadd(gget(I, st, a[1]), gmap(gget(I, st, a[2]), -1)))


@stub('__gmpz_mul', '__gmpq_mul')
def _gmul(I, st, a):
    gset(I, st, a[0], gmul(gget(I, st, a[1]), gget(I, st, a[2])))


@stub('__gmpz_neg', '__gmpq_neg')
def _gneg(I, st, a):
    gset(I, st, a[0], gmap(gget(I, st, a[1]), -1))


@stub('__gmpq_inv')
def _ginv(I, st, a):
    v = gget(I, st, a[1])
    if v[2] or not v[1]:
        raise Abort('inverse of a symbolic number')
    gset(I, st, a[0], lin(1 / v[1]))


@stub('__gmpq_div')
def _gdiv(I, st, a):
    v = gget(I, st, a[2])
    if v[2] or not v[1]:
        raise Abort('division by a symbolic number')
    gset(I, st, a[0], gmap(gget(I, st, a[1]), 1 / v[1]))


@stub('__gmpz_ui_pow_ui')
def _gpow(I, st, a):
    b, e = uns64(a[1]), uns64(a[2])
    if e > 100000:
        raise Abort('power of a huge exponent')
    gset(I, st, a[0], lin(b ** e))


@stub('__gmpz_pow_ui')
def _gpowz(I, st, a):
    v, e = gget(I, st, a[1]), uns64(a[2])
    if v[2] or e > 100000:
        raise Abort('power of a symbolic number')
    gset(I, st, a[0], lin(v[1] ** e))


@stub('__gmpq_mul_2exp')
def _gm2(I, st, a):
    gset(I, st, a[0], gmap(gget(I, st, a[1]), Fraction(2) ** uns64(a[2])))


@stub('__gmpq_div_2exp')
def _gd2(I, st, a):
    gset(I, st, a[0], gmap(gget(I, st, a[1]), Fraction(1, 2 ** uns64(a[2]))))


@stub('__gmpq_canonicalize')
def _gcan(I, st, a):
    gget(I, st, a[0])


@stub('__gmpq_cmp', '__gmpz_cmp')
def _gcmp(I, st, a):
    return gcmp(I, gget(I, st, a[0]), gget(I, st, a[1]))


@stub('mpfr_set_q', 'mpfr_set_z')
def _mpfrq(I, st, a):
    return models.setmp(I, st, a[0], gterm(I, gget(I, st, a[1])), a[2])


def schar(c):
    return c - 256 if isinstance(c, int) and c > 127 else c


def integer(cs, b):
    """the integer written by cs in base b, as a linear form; None if it is not one"""
    cs = [schar(c) for c in cs]
    if any(not isinstance(c, int) for c in cs):
        raise Abort('digits of a number')
    cs = [c for c in cs if c not in (32, 9, 10, 11, 12, 13)]
    neg = cs[:1] == [45]
    cs = cs[neg:]
    if b == 0:
        if len(cs) > 1 and cs[0] == 48 and cs[1] in (120, 88):
            b, cs = 16, cs[2:]
        elif len(cs) > 1 and cs[0] == 48 and cs[1] in (98, 66):
            b, cs = 2, cs[2:]
        elif len(cs) > 1 and cs[0] == 48:
            b = 8
        elif cs and cs[0] < 0:
            raise Abort('base of a number')
        else:
            b = 10
    if not cs:
        return None
    v = lin(0)
    i = 0
    while i < len(cs):
        if cs[i] < 0:
            j = i
            while j < len(cs) and cs[j] == cs[i] + j - i and (cs[j] + 128) // 16 == (cs[i] + 128) // 16:
                j += 1
            k = (cs[i] + 128) // 16
            if b != (10 if k < 4 else 16):
                if b > 10 and k < 4:
                    raise Abort('digits of another base')
                return None
            v = gadd(gmap(v, b ** (j - i)), lin(0, {run_name(cs[i], cs[j - 1]): 1}))
            i = j
            continue
        d = '0123456789abcdef'.find(chr(cs[i]).lower())
        if d < 0 or d >= b:
            return None
        v = gadd(gmap(v, b), lin(d))
        i += 1
    return gmap(v, -1) if neg else v


def run_name(a, b):
    return f'N{(a + 128) // 16}_{(a + 128) % 16}_{(b + 128) % 16}'


@stub('__gmpz_set_str', '__gmpz_init_set_str')
def _gstr(I, st, a):
    v = integer(cstr(I, st, a[1]), num(a[2]))
    if v is None:
        return -1
    gset(I, st, a[0], v)
    return 0


@stub('__gmpq_set_str')
def _gqstr(I, st, a):
    cs = cstr(I, st, a[1])
    if 47 not in cs:
        v, w = integer(cs, num(a[2])), lin(1)
    else:
        i = cs.index(47)
        v, w = integer(cs[:i], num(a[2])), integer(cs[i + 1:], num(a[2]))
    if v is None or w is None:
        return -1
    if w[2] or not w[1]:
        raise Abort('symbolic denominator')
    gset(I, st, a[0], gmap(v, 1 / w[1]))
    return 0


# ---- regular expressions ----------------------------------------------------------------------------------
RX = '_ZNSt7__cxx1111basic_regexIcNS_12regex_traitsIcEEE'
IT_ = 'N9__gnu_cxx17__normal_iteratorIPKcNS_12basic_stringIcSt11char_traitsIcESaIcEEEEE'


@stub(RX + 'C2EPKcNSt15regex_constants18syntax_option_typeE', RX + 'C1EPKcNSt15regex_constants18syntax_option_typeE')
def _rxctor(I, st, a):
    pat = cstr(I, st, a[1])
    if any(not isinstance(c, int) or c < 0 for c in pat):
        raise Abort('regular expression')
    if num(a[2]) & ~0x11:
        raise Abort('syntax of a regular expression')
    if 'regex' not in st.mem:
        st.mem['regex'] = {}
        st.own.add('regex')
    st.wr('regex')[a[0][1:3]] = (0, ('RX', ''.join(map(chr, pat)), num(a[2])))


@stub(RX + 'D2Ev', RX + 'D1Ev')
def _rxdtor(I, st, a):
    return None


RX_CHARS = {}


def rxtext(cs):
    """the characters the pattern sees: a digit stands for all digits of its base"""
    out = []
    for c in map(schar, cs):
        if not isinstance(c, int):
            raise Abort('regular expression on symbolic text')
        out.append(chr(c) if c >= 0 else '7' if (c + 128) // 16 < 4 else 'B')
    return ''.join(out)


def regex(pat, flags):
    k = (pat, flags)
    if k not in RX_CHARS:
        if re.search(r'\[\[|\[[:.=]|\\[pPkuUaAzZG]|\(\?[<P]', pat):
            raise Abort('regular expression')
        try:
            RX_CHARS[k] = re.compile(pat, re.ASCII | (re.I if flags & 1 else 0))
        except re.error:
            raise Abort('regular expression')
    return RX_CHARS[k]


def rxmatch(I, st, a):
    # (string, results, regex, flags)
    cs = sget(I, st, a[0])
    e = st.mem.get('regex', {}).get(a[2][1:3])
    if e is None:
        raise Abort('regular expression')
    log = getattr(I, 'regexes', None)
    if log is not None:
        log.append((tuple(cs), e[1][1], e[1][2] & 1))
        if I.scanning:
            return False
    m = regex(*e[1][1:]).fullmatch(rxtext(cs))
    if 'match' not in st.mem:
        st.mem['match'] = {}
        st.own.add('match')
    st.wr('match')[a[1][1:3]] = (0, None if m is None else ('M', a[0], tuple((m.start(i), m.end(i)) for i in range(m.re.groups + 1))))
    return m is not None


def rxname(n):
    """the stub for a function of the regular expression library, by its demangled shape"""
    if n.startswith('_ZSt11regex_matchI') and 'RKNS' in n and 'match_results' in n:
        return rxmatch
    if '13match_resultsI' in n:
        if n.startswith('_ZNK') and n.endswith('ixEm'):
            return mrix
        if n.endswith(('C2Ev', 'C1Ev', 'D2Ev', 'D1Ev', 'D0Ev')):
            return lambda I, st, a: None
    if '9sub_matchI' in n and n.startswith('_ZNK'):
        if n.endswith('6lengthEv'):
            return lambda I, st, a: len(sub(I, st, a[0]))
        if n.endswith('3strEv'):
            return lambda I, st, a: sset(I, st, a[0], sub(I, st, a[1]))
    if n.startswith('_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EE'):
        return plus(n)
    return None


def plus(n):
    kinds = re.findall(r'OS8_|RKS8_|PKS5_|S5_|S[9A-Z]_', n[n.index('T1_EE') + 5:])
    if len(kinds) != 2:
        return None
    get = lambda I, st, k, v: cstr(I, st, v) if k == 'PKS5_' else [v] if k == 'S5_' else sget(I, st, v)
    return lambda I, st, a: sset(I, st, a[0], get(I, st, kinds[0], a[1]) + get(I, st, kinds[1], a[2]))


class Stubs(dict):
    """the stubs of a dictionary and those recognised by the shape of the name"""

    def get(self, n, d=None):
        if n in self:
            return self[n]
        f = rxname(n) if n[:3] in ('_ZN', '_ZS') else None
        self[n] = None if f is None else lambda I, st, a: _wrap(f(I, st, a), st)
        return self[n]


def mrix(I, st, a):
    e = st.mem.get('match', {}).get(a[0][1:3])
    if e is None:
        raise Abort('match results without a match')
    o = I.newobj('M')
    st.mem[o] = {}
    st.own.add(o)
    g = e[1]
    i = uns64(a[1])
    b, t = (-1, -1) if g is None or i >= len(g[2]) else g[2][i]
    cs = [] if b < 0 else sget(I, st, g[1])[b:t]
    st.mem[o] = {16: (1, int(b >= 0)), 4096: (0, ('SUB',) + tuple(cs))}
    return ('P', o, 0)


def sub(I, st, p):
    e = I.objd(st, p[1]).get(4096)
    if e is None or p[2] != 0:
        raise Abort('sub-match')
    return list(e[1][1:])
