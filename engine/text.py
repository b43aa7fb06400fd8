"""Entries about text input and output: the streams, strings and conversions are those of iostub."""
from ops import *
from ops import generic, decide
from harness import Inconsistent
import iostub
import grammar
import harness

NSLOT = 24
GROUPS = [('letter case', ['lower_case', 'upper_case']), ('interval width', ['string_width']),
          ('form', ['inf_sup_form', 'uncertain_form', 'uncertain_up_form', 'uncertain_down_form']),
          ('number format', ['decimal_scientific', 'decimal', 'scientific', 'hex']), ('number width', ['width']), ('precision', ['precision']),
          ('special values', ['special_text', 'special_bounds', 'special_no_bounds']), ('punctuation', ['punctuation', 'no_punctuation']),
          ('uncertain exponent', ['no_uncertain_exponent', 'uncertain_exponent']), ('decoration', ['dec_alpha', 'dec_numeric']),
          ('overlap state', ['overlapping_alpha', 'overlapping_numeric'])]
NUMERIC = ('string_width', 'width', 'precision')
SLOTR = ('rng', -5, 70, None)


def slots():
    return [mk('lin', f'w{i}', 1, 0) for i in range(NSLOT)]


def slotdecl(names=None):
    return {f'w{i}': SLOTR for i in range(NSLOT)}


def words(I, st, b):
    return [iostub.fld(I, st, b, 8 * i) for i in range(NSLOT)] + [iostub.fld(I, st, b, k) for k in (iostub.FLAGS, iostub.PREC, iostub.FILL, iostub.WIDTH)]


def ended(o):
    if o.kind != 'ret':
        raise Abort('operation ends in ' + o.kind)


def manip_unit():
    """every manipulator applied to a stream with arbitrary settings"""
    ms = [m for _, g in GROUPS for m in g]
    params = ', '.join(f'std::ostream& s{i}' for i in range(len(ms)))
    body = ' '.join(f's{i} << p1788::io::{m}{"(n)" if m in NUMERIC else ""};' for i, m in enumerate(ms))

    def setup(I, st, args):
        iostub.startup(I, st)
        return args[:1] + [iostub.new_stream(st, f's{i}', slots()) for i in range(len(ms))] + [mk('lin', 'n', 1, 0)]

    def outs(o):
        ended(o)
        w0 = slots()
        new = [0] * NSLOT + [iostub.DEFFLAGS, 6, 32, 0]
        n = mk('lin', 'n', 1, 0)
        ch = {}
        res = []
        for i, m in enumerate(ms):
            w = words(o.I, o.st, f's{i}')
            c = [(k, w[k]) for k in range(NSLOT) if w[k] is not w0[k]] + [(k, w[k]) for k in range(NSLOT, len(w)) if w[k] != new[k]]
            ch[m] = c
        used = {}
        for g, names in GROUPS:
            ss = sorted(set(k for m in names for k, _ in ch[m]))
            for j, m in enumerate(names):
                c = ch[m]
                if len(c) != 1:
                    res.append(f'changes {len(c)} settings')
                elif len(ss) != 1:
                    res.append('changes another setting than the other manipulators for the same thing')
                elif ss[0] in used:
                    res.append(f'changes the setting of {used[ss[0]]}')
                elif isinstance(c[0][1], Term) and m not in NUMERIC:
                    raise Abort('symbolic setting')
                elif m in NUMERIC:
                    res.append('argument' if c[0][1] is n else f'stores {show(c[0][1]) if isinstance(c[0][1], Term) else c[0][1]}')
                elif j == 0:
                    res.append('default' if c[0][1] == 0 else f'stores {c[0][1]}, not the setting of a new stream')
                else:
                    d = [x for x in names[:j] if len(ch[x]) == 1 and ch[x][0][1] == c[0][1]]
                    res.append(f'stores the same value as {d[0]}' if d else 'distinct')
            if len(ss) == 1:
                used.setdefault(ss[0], g)
        res += [bool(iostub.fld(o.I, o.st, f's{i}', iostub.COUNT)) and 'writes text' or 'silent' for i in range(len(ms))]
        return res

    def spec(S, ivs, out):
        r = []
        for g, names in GROUPS:
            for j, m in enumerate(names):
                r.append((f'{m}: what it stores, for arbitrary earlier settings', 'argument' if m in NUMERIC else 'distinct' if j else 'default', 'text'))
        return r + [(f'{m}: text written', 'silent', 'text') for m in ms]
    ints = slotdecl()
    ints['n'] = ('rng', 0, 2 ** 31 - 1, None)
    return generic('manipulators', 'void', body, [], spec, outs, 'p1788::io manipulators', [()], params=params + ', unsigned n', setup=setup,
                   extra={'stubs': iostub.ST, 'ints': ints})


def settings_only(units):
    """the same entries, judged by the settings of the stream alone"""
    for u in units:
        def spec(S, ivs, out, f=u.entry.spec):
            r = f(S, ivs, out)
            return [c if c[0] == 'settings of the stream' else ('', 0, 'skip') for c in r]
        u.entry.spec = spec
    return units


# ---- decorations and overlap states ---------------------------------------------------------------------
MARK = 'void verif_mark(std::ostream&);\n'
DECS = {'ill': 0, 'trv': 4, 'def': 8, 'dac': 12, 'com': 16}
STATES = ['both_empty', 'first_empty', 'second_empty', 'before', 'meets', 'overlaps', 'starts', 'contained_by', 'finishes', 'equal', 'finished_by', 'contains',
          'started_by', 'overlapped_by', 'met_by', 'after']


def _mark(I, st, a):
    I.marked = words(I, st, iostub.base(a[0]))
    return 'ret', st, None


STUBS = dict(iostub.ST)
STUBS['_Z10verif_markRSo'] = _mark


def txt(cs):
    return ''.join(chr(c) if c > 0 else f'<{c + 128}>' for c in cs)


def kept(o, b):
    w = words(o.I, o.st, b)
    return 'unchanged' if all(x is y or isinstance(x, int) and x == y for x, y in zip(w, o.I.marked)) else 'changed'


def enum_unit(name, expr, manips, expected, where):
    """expr written to a stream with arbitrary settings after manips (None: a new stream)"""
    body = f'{" ".join(f"s << p1788::io::{m};" for m in manips or ())} verif_mark(s); s << {expr};'

    def setup(I, st, args):
        iostub.startup(I, st)
        return args[:1] + [iostub.new_stream(st, 's', slots() if manips is not None else [0] * NSLOT)]

    def outs(o):
        ended(o)
        return [txt(iostub.written(o.I, o.st, 's')), kept(o, 's'), iostub.fld(o.I, o.st, 's', iostub.STATE)]

    def spec(S, ivs, out):
        return [('text written', expected, 'text'), ('settings of the stream', 'unchanged', 'text'), ('state of the stream', 0, 'int')]
    return generic(name, 'void', body, [], spec, outs, where, [()], params='std::ostream& s', setup=setup,
                   extra={'stubs': STUBS, 'ints': slotdecl()}, pre=MARK)


def enum_units():
    us = []
    for cls, ty, tab, man in (('dec', 'p1788::decoration::decoration', DECS, ['dec_alpha', 'dec_numeric']),
                              ('ovl', 'p1788::overlapping::overlapping_state', dict([('undefined', 0)] + [(n, 1 << i) for i, n in enumerate(STATES)]),
                               ['overlapping_alpha', 'overlapping_numeric'])):
        for n, v in tab.items():
            e = f'{ty}::{n}'
            w = f'operator<< of {ty.split("::")[-1]}'
            us.append(enum_unit(f'{cls}_{n}_new', e, None, n, w))
            for num in (0, 1):
                for up in (0, 1):
                    ms = [man[num], 'upper_case' if up else 'lower_case']
                    us.append(enum_unit(f'{cls}_{n}_{num}{up}', e, ms, str(v) if num else n.upper() if up else n, w))
    return us


SPACE = ((9, 13), (32, 32))


def decin_unit(ws):
    body = '*o = d; s >> reinterpret_cast<p1788::decoration::decoration&>(*o);'
    kinds = [('text', n) for n in range(5)] + [('value', n) for n in range(3 if ws else 2)] + [('overflow', n) for n in range(3 if ws else 2)]
    # numbers that agree with those of the table in their low bits
    kinds += [('number', v) for v in sorted({(k | b) & 2 ** 32 - 1 for k in [*DECS.values(), 1] for b in (0, 1, 2, 32, 64, 128, 256, 512, 2 ** 15, 2 ** 16, 2 ** 24, 2 ** 31)})]

    def text(I):
        how, n = I.kinds
        if how == 'number':
            n = 0
        cs = [mk('lin', f'c{i}', 1, 0) for i in range(n)]
        if how != 'text':
            cs.append(mk('lin', 'g', 1, 0))
        return cs

    def setup(I, st, args):
        iostub.startup(I, st)
        how, n = I.kinds
        I.numread = 'overflow' if how == 'overflow' else n if how == 'number' else mk('lin', 'v', 1, 0)
        return args[:1] + [iostub.new_stream(st, 's', slots(), text=text(I), flags=iostub.DEFFLAGS if ws else 2, subobjects=(0,)), mk('lin', 'd', 1, 0)]

    def outs(o):
        ended(o)
        s = iostub.fld(o.I, o.st, 's', iostub.STATE)
        if not isinstance(s, int):
            raise Abort('symbolic stream state')
        return [get_fp(o.st, 'out', 0, 'b'), 'failed' if s & 6 else 'good', o.I.posn if s & 6 else iostub.fld(o.I, o.st, 's', iostub.POS)]

    def spec(S, ivs, out):
        I = S.I
        how, n = I.kinds
        cs = text(I)
        within = lambda c, *rs: iostub.within(I, c, *rs)
        i = 0
        if ws:
            while i < len(cs) and within(cs[i], *SPACE):
                i += 1
        I.posn = 0
        d = mk('lin', 'd', 1, 0)
        fail = [('decoration after a failed extraction', d, 'int'), ('state of the stream', 'failed', 'text'), ('', 0, 'skip')]
        if i == len(cs):
            return fail
        if within(cs[i], (48, 57)):
            if how == 'overflow':
                return fail
            if how == 'text':
                if any(within(c, (48, 57)) for c in cs[i + 1:]) or True:
                    raise Inconsistent()
            for k in DECS.values():
                if iostub.truth(I, I.icmp('eq', I.numread, k, 32)):
                    return [('decoration read', k, 'int'), ('state of the stream', 'good', 'text'), ('', 0, 'skip')]
            return fail
        if how != 'text':
            raise Inconsistent()
        if len(cs) - i < 3:
            return fail
        for w, k in DECS.items():
            if all(within(c, (ord(x), ord(x)), (ord(x) - 32, ord(x) - 32)) for c, x in zip(cs[i:], w)):
                return [('decoration read', k, 'int'), ('state of the stream', 'good', 'text'), ('characters consumed', i + 3, 'int')]
        return fail
    ints = slotdecl()
    ints.update({f'c{i}': ('rng', -128, 127, None) for i in range(5)})
    ints.update(g=('rng', 48, 57, None), v=('rng', 0, 2**31 - 1, None), d=('rng', 0, 255, None))
    return generic(f'decin_{ws}', 'unsigned char', body, [], spec, outs, 'operator>> of decoration', kinds, params='std::istream& s, unsigned char d', setup=setup,
                   extra={'stubs': STUBS, 'ints': ints})


# ---- output of intervals --------------------------------------------------------------------------------
SETTINGS = ('case', 'nf', 'w', 'p', 'sp', 'pu', 'sw', 'dn', 'form', 'ue')
OUTBODY = '''switch (nf) { case 1: s << p1788::io::decimal; break; case 2: s << p1788::io::scientific; break; case 3: s << p1788::io::hex; break; case 0: s << p1788::io::decimal_scientific; }
if (cs == 0) s << p1788::io::lower_case; if (cs == 1) s << p1788::io::upper_case;
if (w >= 0) s << p1788::io::width(w); if (p >= 0) s << p1788::io::precision(p); if (sw >= 0) s << p1788::io::string_width(sw);
switch (sp) { case 0: s << p1788::io::special_text; break; case 1: s << p1788::io::special_bounds; break; case 2: s << p1788::io::special_no_bounds; }
if (pu == 0) s << p1788::io::punctuation; if (pu == 1) s << p1788::io::no_punctuation;
if (dn == 0) s << p1788::io::dec_alpha; if (dn == 1) s << p1788::io::dec_numeric;
switch (form) { case 0: s << p1788::io::inf_sup_form; break; case 1: s << p1788::io::uncertain_form; break; case 2: s << p1788::io::uncertain_up_form; break; case 3: s << p1788::io::uncertain_down_form; }
if (ue == 0) s << p1788::io::no_uncertain_exponent; if (ue == 1) s << p1788::io::uncertain_exponent;
verif_mark(s); s << *x;'''


def mantissa(t):
    return t[:[k for k, c in enumerate(t) if c in (69, 101)][0]] if any(c in (69, 101) for c in t) else t


def runs(o):
    """the text written with the digits of every complete conversion replaced by #, and the conversions in the order of their appearance"""
    cs = iostub.written(o.I, o.st, 's')
    conv = iostub.conversions(o.st)
    out, found, i = [], [], 0
    while i < len(cs):
        hit = False
        for k in range(len(conv)):
            t = mantissa(iostub.token(o.I, k, conv[k]))
            if any(c < 0 for c in t) and cs[i:i + len(t)] == t:
                out.append('#')
                found.append((conv[k], len(t)))
                i += len(t)
                hit = True
                break
        if not hit and cs[i:i + 4] == iostub.NUMBER:
            out.append('N')
            i += 4
        elif not hit:
            out.append(txt([cs[i]]))
            i += 1
    return ''.join(out), found


def half(n):
    return n // 2, n - n // 2


def pads(word, w):
    a = (len(word) - 1) // 2
    return ' ' * max(w - a, 0), ' ' * max(w - (len(word) - 1 - a), 0)


def bare_text(x, g, lens):
    """-> expected text with # for the conversions, [(direction, 'lo' | 'hi')]"""
    upper = g['case'] == 1
    punct = g['pu'] != 1
    l, m, r = ('[', ',', ']') if punct else ('', ' ', '')
    entire = x == 'entire'
    conv = []
    if (x == 'empty' or entire) and g['sp'] != 1:
        if g['sp'] == 2 and punct:
            m = ' ' if x == 'empty' else ','
        else:
            m = x.upper() if upper else x
        a, b = pads(m, max(g['w'], 0))
        na, nb = len(a), len(b)
    else:
        conv = [('D', 'lo'), ('U', 'hi')]
        a = b = '#'
        na, nb = (lens + [0, 0])[:2]
    w = max(max(g['sw'], 0) - len(l) - na - len(m) - nb - len(r), 0)
    w1, w2 = half(w)
    return l + ' ' * w1 + a + m + ' ' * w2 + b + r, conv


def fmt_of(g):
    c = {1: 'f', 2: 'e', 3: 'a'}.get(g['nf'], 'g')
    p = str(g['p']) if g['p'] > 0 else None if c == 'a' else '6'
    return str(g['w']) if g['w'] > 0 else '', p, c.upper() if g['case'] == 1 else c


def out_unit(t, dec, kinds, name):
    o = Operand('x', t, dec)
    no = len(SETTINGS)
    ints = slotdecl()

    def decl(root, kinds):
        if len(kinds) <= 1 + no or not isinstance(kinds[1 + no], tuple):
            return
        sc = kinds[1 + no]
        P = kinds[1 + SETTINGS.index('p')] or 6
        for k in range(3):
            zero = (sc[1][0], '', sc[1][1])[k] == 'z'
            n = max(sc[3]) + P if kinds[1 + SETTINGS.index('ue')] != 1 else 1 + P
            for i in range(n):
                for j in range(i, n):
                    root.ints[f'digits{k}_{i}_{j}'] = ('rng', 0, 0 if zero else 10 ** (j - i + 1) - 1, None)
        if sc[0] == 'part':
            return
        root.fact(V('xl'), '>', Cn('ninf'), False)
        root.fact(V('xu'), '<', Cn('pinf'), False)
        for b, s in zip(('xl', 'xu'), sc[1]):
            root.fact(V(b), {'n': '<', 'p': '>', 'z': '='}[s], Cn(0), False)

    def sets(I):
        return dict(zip(SETTINGS, I.kinds[1:]))

    def setup(I, st, args):
        iostub.startup(I, st)
        new = all(v == -1 for v in I.kinds[1:1 + no])
        g = sets(I)
        if g['form'] > 0:
            I.tokens = lambda k, d: uncertain_token(I.kinds[1 + no], g, k, d)
        return args + [iostub.new_stream(st, 's', [0] * NSLOT if new else slots())] + list(I.kinds[1:1 + no])

    def outs(o):
        I = o.I
        if o.kind == 'throw':
            return [f'exception {o.exc}', kept(o, 's'), iostub.fld(I, o.st, 's', iostub.STATE)] + [None] * 10
        ended(o)
        text, conv = runs(o)
        r = [text, kept(o, 's'), iostub.fld(I, o.st, 's', iostub.STATE)]
        conv = [d for d, _ in conv]
        if I.uncertain:
            conv = sorted(iostub.conversions(o.st), key=lambda d: d[2])
        for w, p, d, c, v in conv:
            r += [f'width {w or 0}, precision {p}, {c}, rounded {d}', v]
        r += [None] * (9 - len(r))
        if I.uncertain and 'numtext' in o.st.mem:
            r.append(o.st.mem['numtext'][0][1])
        return r + [None] * (10 - len(r))

    def spec(S, ivs, out):
        S.out = out
        g = sets(S.I)
        x = ivs[0]
        lens = []
        if out.kind == 'ret':
            _, conv = runs(out)
            lens = [n for _, n in conv]
        elif out.kind != 'throw':
            raise Abort('operation ends in ' + out.kind)
        number = None
        S.I.uncertain = False
        if x.invalid:
            return [('text written for an invalid operand', '', 'text'), ('settings of the stream', 'unchanged', 'text'), ('state of the stream', 0, 'int')]
        what = 'empty' if x.empty else 'entire' if decide(S, rel_spec(S, 'is_entire', x)) else 'other'
        tail = ''
        want = []
        if x.nai:
            l, r = ('', '') if g['pu'] == 1 else ('[', ']')
            a, b = pads('nai', max(g['w'], 0))
            l, r = l + a, b + r
            w1, w2 = half(max(max(g['sw'], 0) - len(l) - 3 - len(r), 0))
            text = l + ' ' * w1 + ('NAI' if g['case'] == 1 else 'nai') + ' ' * w2 + r
        else:
            if dec and what != 'empty':
                q = x.dec
                if isinstance(q, Term):
                    q = decide_int(S, q)
                n = [k for k, v in DECS.items() if v == q][0]
                tail = (' ' if g['pu'] == 1 else '_') + (str(q) if g['dn'] == 1 else n.upper() if g['case'] == 1 else n)
                g['sw'] = max(g['sw'], 0) - len(tail)
            if g['form'] > 0 and what != 'empty':
                text, want, number = uncertain_text(S, x, what, g, t)
                S.I.uncertain = True
            else:
                text, want = bare_text(what, g, lens)
            text += tail
        r = [('text written, numbers as #', text, 'text'), ('settings of the stream', 'unchanged', 'text'), ('state of the stream', 0, 'int')]
        if out.kind == 'throw':
            return r
        w, p, c = fmt_of(g) if not (g['form'] > 0 and what != 'empty') else ('', str(g['p']) if g['p'] > 0 else '6', ('e' if g['ue'] == 1 else 'f'))
        if g['form'] > 0 and g['case'] == 1:
            c = c.upper()
        for d, b in want:
            v = {'lo': PINF_T if x.empty else x.lo, 'hi': NINF_T if x.empty else x.hi, 'zero': ZERO_T}[b] if isinstance(b, str) else b
            r += [(f'{NAME[d]}: conversion', f'width {w or 0}, precision {p}, {c}, rounded {d}', 'text'), (f'{NAME[d]}: number converted', v, 'num')]
        r += [('', 0, 'skip')] * (9 - len(r))
        return r + [('radius in units of the last place', number, 'int') if number is not None else ('', 0, 'skip')]
    return generic(name, 'void', OUTBODY, [o], spec, outs, f'operator<< of {"decorated " if dec else ""}interval', kinds,
                   params='std::ostream& s, int cs, int nf, int w, int p, int sp, int pu, int sw, int dn, int form, int ue', setup=setup,
                   extra={'stubs': STUBS, 'ints': ints, 'sums': True, 'decl': decl}, pre=MARK, cost=8, exc='any')


def decide_int(S, q):
    _, l, h, _ = S.cell.ints[q.a[0]]
    if l == h:
        return q.a[1] * l + q.a[2]
    raise Split('icmp', q.a[0], (l + h) // 2)


NAME = {'D': 'lower bound', 'U': 'upper bound', 'N': 'midpoint'}


def exptext(g, e):
    return f"{'E' if g['case'] == 1 else 'e'}{'-' if e < 0 else '+'}{abs(e):02d}"


def uncertain_token(sc, g, k, d):
    """sc: ('part' | 'full', signs of the bounds, sign of the midpoint, digits before the point (l, m, u), exponents (l, m, u))"""
    w = {'D': 0, 'N': 1, 'U': 2}.get(d[2], 1)
    n = 1 if g['ue'] == 1 else sc[3][w]
    p = g['p'] or 6
    c = [-128 + 16 * w + i for i in range(n + p)]       # the digits are named by the direction of the conversion
    neg = (sc[1][0], sc[2], sc[1][1])[w] == 'n'
    return [45] * neg + c[:n] + [46] + c[n:] + ([ord(z) for z in exptext(g, sc[4][w])] if g['ue'] == 1 else [])


def uncertain_text(S, x, what, g, t):
    sc = S.I.kinds[1 + len(SETTINGS)]
    up = g['case'] == 1
    e = g['ue'] == 1
    p = g['p'] or 6
    number = None
    c = S.c
    tok = lambda w: len(mantissa(uncertain_token(sc, g, 0, (0, 0, w))))
    if what == 'entire':
        suf, want, i = '??', [('N', 'zero')], 'N'
    elif decide(S, c.eq_inf(x.lo, -1)):
        suf, want, i = '??d', [('U', 'hi')], 'U'
    elif decide(S, c.eq_inf(x.hi, 1)):
        suf, want, i = '??u', [('D', 'lo')], 'D'
    else:
        if sc[0] == 'part':
            raise Inconsistent()
        i = {1: 'N', 2: 'D', 3: 'U'}[g['form']]
        suf = '?N' + {1: '', 2: 'u', 3: 'd'}[g['form']]
        want = [('D', 'lo')] + ([('N', num_spec(S, 'mid', t, x))] if i == 'N' else []) + [('U', 'hi')]
        order = [d[2] for d in iostub.conversions(S.out.st)]
        if sorted(order) != [w for w, _ in want]:
            raise Abort('conversions')
        es = dict(zip('DNU', sc[4])) if e else dict(D=0, N=0, U=0)

        def val(w, down):
            """the number of units of the last place of the printed number in bound w, rounded down or up"""
            k = 'DNU'.index(w)
            n = (1 if e else sc[3]['DNU'.index(w)]) + p
            if dict(zip('DNU', (sc[1][0], sc[2], sc[1][1])))[w] == 'z':
                return 0
            neg = dict(zip('DNU', (sc[1][0], sc[2], sc[1][1])))[w] == 'n'
            sg = -1 if neg else 1
            z = es[w] - es[i]
            dig = lambda a, b: mk('lin', f'digits{k}_{a}_{b}', sg, 0)
            if z >= 0:
                return mk('lin', f'digits{k}_0_{n - 1}', sg * 10 ** z, 0)
            cut = min(-z, n)
            v = dig(0, n - 1 - cut) if cut < n else 0
            if neg == down:
                rest = decide(S, S.I.icmp('ne', dig(n - cut, n - 1), 0, 64))
                v = S.I.intop('add', v, (-1 if down else 1) if rest else 0, I64)
            return v
        sub = lambda a, b: S.I.intop('sub', a, b, I64)
        if S.out.kind == 'throw':
            number = 0
        elif i == 'N':
            a, b = sub(val('N', None), val('D', True)), sub(val('U', False), val('N', None))
            number = S.I.ite(S.I.icmp('slt', a, b, 64), b, a)
        else:
            number = sub(val('U', False), val('D', True))
    body = suf.upper() if up else suf
    text = '#' + body + (exptext(g, dict(zip('DNU', sc[4]))[i]) if e else '')
    n = len(text) - 1 + tok(i) + (3 if number is not None else 0)
    if isinstance(number, int):
        text = text.replace('N', str(number), 1)
        n = len(text) - 1 + tok(i)
        number = None
    return ' ' * max(max(g['sw'], 0) - n, 0) + text, want, number


def scenarios(g):
    """signs, digits and exponents of the bounds and the midpoint that can occur together"""
    if g['ue'] == 0:
        for s, m, ds in (('pp', 'p', [(1, 1, 1), (1, 2, 3), (2, 2, 2)]), ('nn', 'n', [(1, 1, 1), (3, 2, 1)]), ('np', 'p', [(1, 1, 1), (1, 2, 3)]),
                         ('np', 'n', [(1, 1, 1), (3, 2, 1)]), ('zp', 'p', [(1, 1, 2)]), ('nz', 'n', [(2, 1, 1)])):
            for d in ds:
                yield 'full', s, m, d, (0, 0, 0)
        return
    d = (1, 1, 1)
    for s, m, es in (('pp', 'p', [(0, 0, 0), (0, 0, 1), (0, 1, 1), (-1, 0, 0), (-2, 0, 0), (-3, 0, 0), (-6, 1, 2), (1, 9, 9)]),
                     ('nn', 'n', [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 0, -2), (0, 0, -3), (2, 1, -5)]),
                     ('np', 'p', [(0, 0, 0), (-1, 0, 0), (-2, -1, 0), (1, -2, 1), (0, 1, 1), (-7, 0, 0)]),
                     ('np', 'n', [(0, 0, 0), (0, 0, -1), (0, -1, -2), (1, -2, 1), (1, 1, 0), (0, 0, -7)]),
                     ('zp', 'p', [(0, 2, 2), (0, -1, 0), (0, -5, -5), (0, -4, -3)]), ('nz', 'n', [(2, 2, 0), (-5, -5, 0), (-3, -4, 0)])):
        for e in es:
            yield 'full', s, m, d, e


class I64:
    k, bits = 'int', 64


def out_units(tier, throwing=False):
    import itertools as it
    full = [k for k in it.product((0, 1), (0, 1, 2, 3), (0, 12), (0, 3), (0, 1, 2), (0, 1), (0, 40), (0, 1))]
    new = (-1,) * len(SETTINGS)
    kb = lambda k, ss: [(k,) + s for s in ss]
    f0 = [s + (0, 0) for s in full]
    bounds = [new] + [s + (0, 0) for s in full if s[4] == 0 and s[7] == 0]
    special = [new] + [s + (0, 0) for s in full if s[1] == 0 and s[3] == 0 and s[7] == 0]
    us = []
    for t in 'fdl':
        inv = [(k,) + new for k in ('XN1', 'XN2', 'XG', 'XP', 'XM')]
        us.append(out_unit(t, False, kb('N', bounds if t == 'd' else bounds[::3]), f'out_{t}_bounds'))
        us.append(out_unit(t, False, kb('N', special) + kb('E', special) + kb('E', [s for s in f0 if s[4] == 1][::5]) + inv, f'out_{t}_special'))
    for t in 'fdl':
        ks, wide = [], []
        for form in (1, 2, 3):
            for ue in (0, 1):
                for p in (2, 0):
                    for case in (0, 1):
                        for sw in (0, 40):
                            if t != 'd' and (case or sw):
                                continue
                            k = (case, 0, 0, p, 0, 0, sw, 0, form, ue)
                            for b in 'np':
                                ks.append(('N',) + k + (('part', b + b, b, (1, 1, 1), (0, 0, 0)),))
                            ks.append(('N',) + k + (('part', 'np', 'p', (1, 2, 1), (3, -2, 15)),))
                            if sw == 0 or p:
                                ks += [('N',) + k + (sc,) for sc in scenarios(dict(ue=ue))]
        us.append(out_unit(t, False, ks, f'out_{t}_uncertain'))
        # numbers of more than 18 digits
        ks = [('N', 0, 0, 0, 0, 0, 0, 0, 0, form, ue) + (sc,) for form in (1, 2, 3) for ue in (0, 1) for sc in
              ((('full', 'np', 'p', (21, 17, 21), (0, 0, 0)), ('full', 'pp', 'p', (21, 21, 22), (0, 0, 0))) if ue == 0 else
               (('full', 'np', 'p', (1, 1, 1), (20, 4, 20)), ('full', 'np', 'n', (1, 1, 1), (0, 14, 15)), ('full', 'pp', 'p', (1, 1, 1), (-20, 0, 1))))]
        us.append(out_unit(t, False, ks, f'out_{t}_uncertain_wide'))
        if throwing:
            us.append(out_unit(t, True, [('com',) + k[1:7] + (40,) + k[8:] for k in ks], f'outdec_{t}_uncertain_wide'))
        inv = [(k,) + new for k in ('XN1', 'XN2', 'XG', 'XP', 'XM', 'XEd', 'XId', 'Xcom')]
        deco = [s[:6] + (s[6], dn) + (0, 0) for s in full if s[3] == 0 and s[7] == 0 for dn in (0, 1)]
        ks = kb('ncom', [new] + deco[::2 if t == 'd' else 6]) + kb('com', [new] + deco[::2 if t == 'd' else 6]) + kb('I', [new] + deco) + kb('E', [new] + deco[::3]) + inv
        ks += kb('com', [s for s in deco[1::2] if s[4] == 0][::1 if t == 'd' else 5]) if t == 'd' else []
        us.append(out_unit(t, True, ks, f'outdec_{t}'))
        ks = []
        for form in (1, 2, 3):
            for ue in (0, 1):
                for dn in (0, 1):
                    for case, sw in ((0, 0), (1, 40)):
                        k = (case, 0, 0, 2, 0, form % 2, sw, dn, form, ue)
                        ks += [('com',) + k + (sc,) for sc in list(scenarios(dict(ue=ue)))[:: 4]] + [('ncom',) + k + (('part', 'np', 'p', (1, 2, 1), (3, -2, 15)),), ('E',) + k, ('I',) + k]
        us.append(out_unit(t, True, ks[:: 1 if t == 'd' else 3], f'outdec_{t}_uncertain'))
    return us


# ---- input of intervals -----------------------------------------------------------------------------------
# in a template # stands for a decimal digit and % for a hexadecimal one
class Bad(Exception):
    pass


def encode(t):
    """the characters of the template"""
    cs, k, i = [], {'#': 0, '%': 4}, {'#': 0, '%': 0}
    for c in t:
        if c in '#%':
            cs.append(-128 + 16 * k[c] + i[c])
            i[c] += 1
            continue
        if c != '.' and not c.isdigit():
            for d in '#%':
                if i[d]:
                    k[d], i[d] = k[d] + 1, 0
        cs.append(ord(c))
    return cs


def runs_of(cs):
    """names of the runs of digits: adjacent but for a point"""
    cs = [c for c in cs if c != 46]
    out, i = {}, 0
    while i < len(cs):
        j = i
        if cs[i] < 0:
            while j < len(cs) and cs[j] == cs[i] + j - i and (cs[j] + 128) // 16 == (cs[i] + 128) // 16:
                j += 1
            out[iostub.run_name(cs[i], cs[j - 1])] = (10 if cs[i] < -64 else 16) ** (j - i) - 1
        i = max(j, i + 1)
    return out


def digits(cs, base):
    """exact value of digits with an optional point"""
    v, frac, point, seen = iostub.lin(0), 0, False, 0
    i = 0
    while i < len(cs):
        c = cs[i]
        if c == 46:
            if point:
                raise Bad()
            point = True
            i += 1
            continue
        j, dig = i + 1, None
        n = 1
        if c < 0:
            if (10 if c < -64 else 16) > base:
                raise Bad()
            e = [c]
            skip = 0
            while j < len(cs) and (cs[j] == e[-1] + 1 or cs[j] == 46 and not point and j + 1 < len(cs) and cs[j + 1] == e[-1] + 1):
                if cs[j] == 46:
                    point = True
                    skip = len(e)
                else:
                    e.append(cs[j])
                j += 1
            n = len(e)
            dig = iostub.lin(0, {iostub.run_name(e[0], e[-1]): 1})
            frac += n - skip if point else 0
        else:
            d = '0123456789abcdef'.find(chr(c).lower())
            if not 0 <= d < base:
                raise Bad()
            dig = iostub.lin(d)
            frac += point
        v = iostub.gadd(iostub.gmap(v, base ** n), dig)
        seen += n
        i = j
    if not seen:
        raise Bad()
    return v, frac


def split_exp(cs, letters):
    for i, c in enumerate(cs):
        if c > 0 and chr(c).lower() in letters:
            t = ''.join(chr(x) if x > 0 else '?' for x in cs[i + 1:])
            s = t[1:] if t[:1] in ('+', '-') else t
            if not s.isdigit():
                raise Bad()
            return cs[:i], max(-10 ** 5, min(10 ** 5, int(t)))      # what is beyond this is beyond every number format
    return cs, None


def literal(cs):
    """exact value of a number literal: decimal, hexadecimal or rational"""
    neg = cs[:1] == [45]
    if cs[:1] in ([45], [43]):
        cs = cs[1:]
    if 47 in cs:
        i = cs.index(47)
        n, d = stripped(cs[:i]), stripped(cs[i + 1:])
        if 46 in n or not d or any(not 48 <= c <= 57 for c in d) or int(''.join(map(chr, d))) == 0:
            raise Bad()
        v = iostub.gmap(digits(n, 10)[0], Fraction(1, int(''.join(map(chr, d)))))
    elif len(cs) > 2 and cs[0] == 48 and cs[1] in (120, 88):
        m, e = split_exp(cs[2:], 'p')
        if e is None:
            raise Bad()
        v, f = digits(m, 16)
        v = iostub.gmap(v, Fraction(2) ** (e - 4 * f))
    else:
        m, e = split_exp(cs, 'e')
        v, f = digits(m, 10)
        v = iostub.gmap(v, Fraction(10) ** ((e or 0) - f))
    return iostub.gmap(v, -1) if neg else v


def stripped(cs):
    while cs and cs[0] in (32, 9):
        cs = cs[1:]
    while cs and cs[-1] in (32, 9):
        cs = cs[:-1]
    return cs


def bound(cs, upper):
    cs = stripped(cs)
    w = ''.join(chr(c) if c > 0 else '?' for c in cs).lower()
    if w == '' or w in (('inf', '+inf', 'infinity', '+infinity') if upper else ('-inf', '-infinity')):
        return None
    return literal(cs)


def read_interval(cs):
    """-> (what, lower, upper, characters used, decoration or None, largest decoration); raises Bad"""
    if cs[:1] == [91]:
        if 93 not in cs:
            raise Bad()
        n = cs.index(93) + 1
        body = cs[1:n - 1]
        w = ''.join(chr(c) if c > 0 else '?' for c in stripped(body)).lower()
        if 44 in body:
            i = body.index(44)
            lo, hi = bound(body[:i], False), bound(body[i + 1:], True)
            top = 12 if lo is None or hi is None else 16
            r = ('iv', lo, hi)
        elif w in ('', 'empty'):
            r, top = ('empty', None, None), 4
        elif w == 'entire':
            r, top = ('iv', None, None), 12
        elif w == 'nai':
            r, top = ('nai', None, None), 0
        else:
            v = literal(stripped(body))
            r, top = ('iv', v, v), 16
    else:
        if 63 not in cs:
            raise Bad()
        q = cs.index(63)
        num, neg = cs[:q], cs[:1] == [45]
        if num[:1] in ([45], [43]):
            num = num[1:]
        m, f = digits(num, 10)
        n = q + 1
        rad = iostub.lin(Fraction(1, 2))
        top, inf = 16, False
        if cs[n:n + 1] == [63]:
            inf, top, n = True, 12, n + 1
        else:
            j = n
            while j < len(cs) and (cs[j] < 0 or 48 <= cs[j] <= 57):
                j += 1
            if j > n:
                rad = digits(cs[n:j], 10)[0]
            n = j
        d = ''
        if n < len(cs) and cs[n] > 0 and chr(cs[n]) in 'uUdD':
            d = chr(cs[n]).lower()
            n += 1
        e = 0
        if n < len(cs) and cs[n] in (101, 69):
            j = n + 1
            if j < len(cs) and cs[j] in (43, 45):
                j += 1
            while j < len(cs) and 48 <= cs[j] <= 57:
                j += 1
            e = split_exp(cs[n:j], 'e')[1]
            n = j
        s = Fraction(10) ** (e - f)
        m = iostub.gmap(m, -s if neg else s)
        rad = iostub.gmap(rad, s)
        r = ('iv', None if inf and d != 'u' else m if d == 'u' else iostub.gadd(m, iostub.gmap(rad, -1)),
             None if inf and d != 'd' else m if d == 'd' else iostub.gadd(m, rad))
    dec = None
    if cs[n:n + 1] == [95]:
        w = ''.join(chr(c) if c > 0 else '?' for c in cs[n + 1:n + 4]).lower()
        if w not in DECS or DECS[w] == 0 or DECS[w] > top:
            raise Bad()
        dec, n = DECS[w], n + 4
    return r + (n, dec, top)


def read_unit(t, dec, templates, name, ws=True):
    o = Operand('x', t, dec)
    params = 'std::istream& s'
    body = '*o = *x; s >> *o;'

    def decl(root, kinds):
        for n, mx in runs_of(encode(kinds[1])).items():
            root.declare(n, ('s', mx.bit_length(), 1, mx.bit_length()))
            root.fact(V(n), '>=', Cn(0), False)
            root.fact(V(n), '<=', Cn(mx), False)

    def setup(I, st, args):
        iostub.startup(I, st)
        return args + [iostub.new_stream(st, 's', slots(), text=encode(I.kinds[1]), flags=iostub.DEFFLAGS if ws else 2, subobjects=(0,))]

    def outs(o):
        I = o.I
        if o.kind != 'throw':
            ended(o)
        s = iostub.fld(I, o.st, 's', iostub.STATE)
        s = I.intop('and', s, 6, iostub.I32)
        z = SZ[t]
        return [f'exception {o.exc}' if o.kind == 'throw' else int(s != 0) if isinstance(s, int) else I.ite(I.icmp('eq', s, 0, 32), 0, 1), get_fp(o.st, 'out', 0, t), get_fp(o.st, 'out', z, t), get_fp(o.st, 'out', 2 * z, 'b') if dec else None,
                iostub.fld(I, o.st, 's', iostub.POS), 'unchanged' if all(a is b for a, b in zip(words(I, o.st, 's'), slots())) else 'changed']

    def spec(S, ivs, out):
        I, x = S.I, ivs[0]
        cs = encode(I.kinds[1])
        i = 0
        if ws:
            while i < len(cs) and cs[i] in (32, 9, 10):
                i += 1
        dskip = ('', 0, 'skip')
        keep = ('settings of the stream', 'unchanged', 'text')
        if out.kind == 'throw':
            return [('exception', 'no exception', 'text')] + [dskip] * 5
        fail = [('failure', 1, 'int'), ('lower bound after a failed extraction', NAN_T if x.empty else x.lo, 'num'), ('upper bound after a failed extraction', NAN_T if x.empty else x.hi, 'num'),
                ('decoration after a failed extraction', x.dec, 'int') if dec else dskip, dskip, keep]
        try:
            what, lo, hi, n, d, top = read_interval(cs[i:])
            bad = False
        except Bad:
            return fail
        l, h, dd, bad = denoted(S, t, (what, lo, hi, n, d, top))
        if bad is True:
            return fail
        good = [('failure', 0, 'int'), ('lower bound', l, 'num'), ('upper bound', h, 'num'), ('decoration', dd, 'int') if dec else dskip, ('characters read', i + n, 'int'), keep]
        if bad is False:
            return good
        return [(g[0], g[1] if g[0] == f[0] and g[2] == 'skip' or f[2] == 'text' else I.ite(bad, outs(out)[4] if f[2] == 'skip' else f[1], g[1]), g[2]) for f, g in zip(fail, good)]
    return generic(name, rep(t, dec), body, [o], spec, outs, f'operator>> of {"decorated " if dec else ""}interval',
                   [('N' if not dec else 'com', t_) for t_ in templates], params=params, setup=setup, extra={'stubs': RSTUBS, 'decl': decl}, cost=4, exc='any')


RSTUBS = iostub.Stubs(STUBS)


def textdecl(root, kinds):
    for n, mx in runs_of(encode(kinds[0])).items():
        root.declare(n, ('s', mx.bit_length(), 1, mx.bit_length()))
        root.fact(V(n), '>=', Cn(0), False)
        root.fact(V(n), '<=', Cn(mx), False)


def either(I, bad, fail, good):
    return [(g[0], I.ite(bad, f[1], g[1]), g[2]) for f, g in zip(fail, good)]


def denoted(S, t, r):
    """bounds and decoration of a parsed literal, and the condition under which its bounds are out of order"""
    I = S.I
    what, lo, hi, n, d, top = r
    bad = False
    if what == 'iv' and lo is not None and hi is not None:
        c = iostub.gcmp(I, lo, hi)
        bad = c > 0 if isinstance(c, int) else I.icmp('sgt', c, 0, 32)
    if what != 'iv':
        return NAN_T, NAN_T, top, bad
    l = NINF_T if lo is None else S.R(t, 'D', iostub.gterm(I, lo))
    h = PINF_T if hi is None else S.R(t, 'U', iostub.gterm(I, hi))
    unb = S.c.bor(S.c.eq_inf(l, -1), S.c.eq_inf(h, 1))
    q = d if d is not None else 16
    return l, h, I.ite(unb, min(q, 12), q), bad


def string_unit(t, dec, templates, name):
    def setup(I, st, args):
        iostub.startup(I, st)
        st.mem['str'] = {}
        st.own.add('str')
        iostub.sset(I, st, ('P', 'str', 0), encode(I.kinds[0]))
        return args + [('P', 'str', 0)]

    def spec(S, ivs, out):
        cs = stripped3(encode(S.I.kinds[0]))
        fail = nai_res() if dec else iv_res(NAN_T, NAN_T)
        bad = False
        try:
            r = read_interval(cs)
            if r[3] != len(cs):
                raise Bad()
        except Bad:
            return fail, [1]
        l, h, d, bad = denoted(S, t, r)
        if bad is True:
            return fail, [1]
        good = iv_res(l, h, d if dec else None)
        if bad is False:
            return good, []
        return either(S.I, bad, fail, good), [S.I.ite(bad, 1, 0)]
    u = with_flags(name, t, dec, f'o->v = {rep(t, dec)}(str);', [], spec, f'construction of {"a decorated" if dec else "an"} interval from text', [(x,) for x in templates], params='std::string const& str',
                   setup=setup, decl=textdecl, cost=4)
    u.entry.extra['stubs'] = RSTUBS
    return u


def stripped3(cs):
    while cs and cs[0] in (32, 9, 10):
        cs = cs[1:]
    while cs and cs[-1] in (32, 9, 10):
        cs = cs[:-1]
    return cs


NUMS = ['##.#', '-#.##', '##', '#.', '.##', '-.#', '+##', '#.#e3', '##e-2', '-#E+1', '##.##e400', '-##e-400', '0', '-0.0', '#.0', '0.0#', '1e0', '00#', '#00', '+#.#e+0']
HEX = ['0x%.%p3', '-0x%%p-2', '0X.%%P+0', '0x1p-1074', '-0x%p2000', '+0x%%.%%p-1100', '0x0.%p1', '0x%.p0']
RAT = ['##/3', '-#/12', '+##/007', '0/5', '#/1', '22/7', '# / 8']
SEP = [('[', ',', ']'), ('[ ', ' , ', ' ]'), ('[', '  ,\t', ']')]
WORDS = ['[]', '[ ]', '[empty]', '[EMPTY]', '[ Empty ]', '[entire]', '[ENTIRE ]', '[,]', '[ , ]', '[-inf,inf]', '[-INFINITY, +Infinity]', '[-Inf,]', '[,+INF]', '[,infinity]']
RADII = ['', '?', '#', '##', '0', '7', '10']
BADTEXT = ['', '[', '[#', '[#,', '[#,#', 'x', ']', '#', '#.#', '[#]x'[1:], '[,,]', '[#,#,#]', '[inf,1]', '[1,-inf]', '[inf,inf]', '[-inf,-inf]', '[+inf,]', '[inf]', '[-inf]', '[-inf,inf', '[1e,2]', '[1,2e]', '[0x1,2]',
       '[0x1.8]', '[1/0,1]', '[1,2/0]', '[#/-2]', '[#/2.0]', '[#.#/2]', '[1 2]', '[1;2]', '[- 1,2]', '[--1,2]', '[+-1]', '[1.2.3,4]', '[.]', '[.,1]', '[-]', '[e1]', '[empty,1]', '[1,entire]', '[nan]', '[1,nan]', '[emptyy]', '[#,#e1.5]',
       '?', '??', '.?', '-?', '+-1?', '#.#.#?', '#e1?', 'e1?', '(1,2)', '{1,2}', '[0x,1]', '[0xp1]', '[%,1]', '[1p3]', '[0x1p]', '[0x%.%.%p1]', '[2,1]', '[-1,-2]', '[1,0.5]', '[1/2,1/3]', '[0x2p1,0x1p1]', '[1e1,9.5]', '[-1/3,-1/2]']


def read_templates(tier):
    """-> name -> templates"""
    g = {}
    g['single'] = ['[' + x + ']' for x in NUMS + HEX + RAT] + ['[ ' + x + ' ]' for x in (NUMS + HEX + RAT)[::3]]
    lo = ['-##.#', '##', '1.5', '-3/7', '0x1.8p0', '-#.#e2', '-inf', '', '-1e400', '1e-400', '-0x%%p-1', '+1', '0x1.00000000000000000008p0', '-0x%.00000000000000000000000001p3', '-0x1p-20000']
    up = ['##.#', '-#', '22/7', '0x1.%p4', '1e9', '+inf', '', '1e400', '-1e-400', '##/9', '2', 'infinity', '+#', '0x%.00000000000000000000000001p8', '-0x1.00000000000000000008p-2', '0x1p20000']
    g['pairs'] = [s[0] + a + s[1] + b + s[2] for i, a in enumerate(lo) for j, b in enumerate(up) for s in (SEP[:1] if (i + j) % 5 else SEP[1:])]
    g['words'] = WORDS + [' ' + w for w in WORDS[:4]] + ['\n\t' + WORDS[5]] + [w + ' 1' for w in WORDS]
    g['uncertain'] = [m + '?' + r + d + e for m in ('##.#', '-#.##', '##', '+#.', '.#', '-2.50', '0.0') for r in RADII for d, e in (('', ''), ('u', ''), ('d', ''), ('U', 'e3'), ('D', 'E-2'), ('', 'e+400'), ('u', 'e-400'))]
    g['uncertain'] += [x + y for x in ('#.#?#', '##?', '-#??u', '#?2dE1') for y in (' ', ' 3', ',', 'x', ']')]
    g['bad'] = BADTEXT
    return g


DECWORDS = ['com', 'dac', 'def', 'trv', 'ill', 'COM', 'Dac', 'xyz', 'co', '', 'trvx']


def decorated_templates():
    return [b + '_' + d for b in ('[#,1e2]', '[-##.#]', '[-inf,#]', '[empty]', '[entire]', '[,]', '#.#?', '-##??d', '3?1e400', '[nai]', '[1e400]') for d in DECWORDS]


def read_units(tier):
    us = []
    for t in 'fdl':
        for dec in (False, True):
            for n, ts in read_templates(tier).items():
                k = 1 if t == 'd' else 2
                if n == 'bad' and t != 'd':
                    k = 4
                us.append(read_unit(t, dec, ts[::k], f'in{"dec" if dec else ""}_{t}_{n}'))
        ts = decorated_templates()
        us.append(read_unit(t, True, ts + ['[nai]', '[ NaI ]'], f'indec_{t}_decorations'))
        us.append(read_unit(t, False, [x for x in ts[::2 if t == 'd' else 4] if 'nai' not in x], f'in_{t}_decorations'))
        if t == 'd':
            for dec in (False, True):
                us.append(read_unit(t, dec, ['[1e9999999999]', '[0,1e9999999999]', '[0x1p-9999999999]', '1?e9999999999'], f'in{"dec" if dec else ""}_{t}_hugeexponent'))
        for dec in (False, True):
            ss = [x for v in read_templates(tier).values() for x in v] + ts + ['[nai]'] + [x + y for x in ('[#,1e2]', '#.#?', '[empty]', '[-##.#]_com', '#??u_dac') for y in (' ', ' \t\n', ' x', '_', ']', ' [1]', '1')]
            us.append(string_unit(t, dec, [x for x in ss[::3 if t == 'd' else 7] if dec or 'nai' not in x], f'str{"dec" if dec else ""}_{t}'))
        us.append(read_unit(t, True, ['[#,1e2]', ' [#,1e2]', '\n##?', '##?'], f'indec_{t}_noskip', ws=False))
    return us


# ---- the language accepted -------------------------------------------------------------------------------
def lang_unit(t, dec):
    """the regular expressions that the text is matched with accept the literals; a text on which they differ is read to see"""
    o = Operand('x', t, dec)
    me = []
    ks = [('N' if not dec else 'com', x) for x in ('[7,7]', '7?')]
    body = '*o = *x; s >> *o;'

    def setup(I, st, args):
        iostub.startup(I, st)
        I.regexes, I.scanning = [], False
        return args + [iostub.new_stream(st, 's', slots(), text=encode(I.kinds[1]), flags=2, subobjects=(0,))]

    def failed(I, st):
        return iostub.fld(I, st, 's', iostub.STATE) & 6 != 0

    def outs(o):
        ended(o)
        I = o.I
        pats = {(p, f) for cs, p, f in I.regexes}
        if len(pats) != 1:
            raise Abort(f'{len(pats)} regular expressions')
        (p, f), = pats
        want = grammar.literals()[I.kinds[1] != '[7,7]']
        try:
            more, less, n = grammar.differ(grammar.parse(p, f), want)
        except grammar.Unsupported as e:
            raise Abort('regular expression: ' + str(e))
        if not more and not less:
            return ['the interval literals']
        kinds = I.kinds
        for w in less + more:
            if w[:1] == '[' and ']' in w[:-1]:
                continue
            J, out, ivs = harness.run_cell(me[0].entry, I.m, I.ctx.cell, (kinds[0], w), None)
            ended(out)
            try:
                r = read_interval(list(map(ord, w)))
                n = r[3]
                bad = r[1] is not None and r[2] is not None and r[0] == 'iv' and iostub.gcmp(J, r[1], r[2]) > 0
            except Bad:
                bad = True
            f = failed(J, out.st)
            if f != bad or not bad and iostub.fld(J, out.st, 's', iostub.POS) != n:
                return [('rejects' if f else 'accepts') + f' {w!r}']
        raise Abort('the regular expression differs from the grammar')

    def spec(S, ivs, out):
        return [('language of the texts accepted', 'the interval literals', 'text')]
    me.append(generic(f'lang{"dec" if dec else ""}_{t}', rep(t, dec), body, [o], spec, outs, f'operator>> of {"decorated " if dec else ""}interval', ks, params='std::istream& s', setup=setup, extra={'stubs': RSTUBS}))
    return me[0]


SCANS = ['__', '___', '[__', '[1_', '[,_]', '[]_', '7__', '7.5_', '-_7', '1?__', '1?7_', '1??__', '1?u_', '1?7d_', '1?e__', '1?e-_', '1?ue+7_', '1?7e7_', '1.-_', '1?7e-7_7', ' _', '\n_7', '7?7_7']


def scan_unit(t, dec, ws):
    """the part of the text that is matched: which characters are taken from the stream, each _ being any character"""
    body = '*o = *x; s >> *o;'
    o = Operand('x', t, dec)

    def text(I):
        k, cs = 0, []
        for c in I.kinds[1]:
            cs.append(mk('lin', f'c{k}', 1, 0) if c == '_' else ord(c))
            k += c == '_'
        return cs

    def setup(I, st, args):
        iostub.startup(I, st)
        I.regexes, I.scanning = [], True
        return args + [iostub.new_stream(st, 's', slots(), text=text(I), flags=iostub.DEFFLAGS if ws else 2, subobjects=(0,))]

    def outs(o):
        ended(o)
        I = o.I
        s = iostub.fld(I, o.st, 's', iostub.STATE)
        if not isinstance(s, int):
            raise Abort('symbolic stream state')
        tx = [tuple(c if isinstance(c, int) else str(c) for c in cs) for cs, p, f in I.regexes]
        return [tx[0] if tx and all(x == tx[0] for x in tx) else () if not tx else tuple(tx), 'failed' if s & 6 else 'good']

    def spec(S, ivs, out):
        I = S.I
        cs = text(I)
        w = lambda i, *rs: i < len(cs) and iostub.within(I, cs[i], *rs)
        one = lambda s: [(ord(c), ord(c)) for c in s]
        i = 0
        if ws:
            while w(i, *SPACE):
                i += 1
        a = i
        dig = (48, 57)
        if w(i, *one('[')):
            while i < len(cs) and not w(i, *one(']')):
                i += 1
            i += 1
            used = cs[a:i] if i <= len(cs) else []
        elif w(i, dig, *one('+-.')):
            while w(i, dig, *one('+-.?')):
                i += 1
                if w(i - 1, *one('?')):
                    break
            if w(i, *one('?')):
                i += 1
            else:
                while w(i, dig):
                    i += 1
            if w(i, *one('dDuU')):
                i += 1
            if w(i, *one('eE')):
                i += 1
                if w(i, *one('+-')):
                    i += 1
                while w(i, dig):
                    i += 1
            used = cs[a:i]
        else:
            used = []
        got = out_text(out)
        # what cannot be a literal may be rejected without being matched
        if not got and used and not maybe(I, used):
            used = []
        return [('text matched', tuple(c if isinstance(c, int) else str(c) for c in used), 'text'), ('state of the stream', 'failed', 'text')]

    def out_text(out):
        return out.I.regexes

    def maybe(I, used):
        """whether the characters can be a literal"""
        opts = [[c] if isinstance(c, int) else [x for x in b'7+-.?[],eEduDU xpn' if not iostub.within(I, c, (-128, x - 1), (x + 1, 127))] for c in used]
        return any(ok(list(x)) for x in itertools.product(*opts))

    def ok(cs):
        try:
            return read_interval(cs)[3] == len(cs)
        except Bad:
            return False
    return generic(f'scan{"dec" if dec else ""}_{t}_{int(ws)}', rep(t, dec), body, [o], spec, outs, f'operator>> of {"decorated " if dec else ""}interval', [('N' if not dec else 'com', x) for x in SCANS], params='std::istream& s',
                   setup=setup, extra={'stubs': RSTUBS, 'ints': {f'c{i}': ('rng', -128, 127, None) for i in range(3)}}, cost=20)


def grammar_units(tier):
    us = [u for u in read_units(tier) if u.entry.name.endswith(('_bad', '_words', '_decorations', '_noskip')) or u.entry.name.startswith('str')]
    for t in 'fdl':
        for dec in (False, True):
            us.append(lang_unit(t, dec))
            if t == 'd' or dec:
                us.append(scan_unit(t, dec, True))
    us.append(scan_unit('d', True, False))
    return us
