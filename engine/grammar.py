"""Languages of regular expressions (ECMAScript, the part without back references and assertions), decided by automata.

An expression is a tree: ('set', frozenset of codes), ('cat', trees), ('alt', trees), ('star', tree).  `differ` compares two
expressions by walking the product of their subset automata and returns shortest texts in one language and not in the other."""
from collections import deque

ALL = frozenset(range(128))


class Unsupported(Exception):
    pass


# ---- building blocks ------------------------------------------------------------------------------------
def chars(s, icase=False):
    r = set(map(ord, s))
    if icase:
        r |= {ord(c.lower()) for c in s} | {ord(c.upper()) for c in s}
    return ('set', frozenset(r))


def cat(*a):
    return ('cat', tuple(word(x) if isinstance(x, str) else x for x in a))


def alt(*a):
    return ('alt', tuple(word(x) if isinstance(x, str) else x for x in a))


def word(s):
    """a word in any letter case"""
    return ('cat', tuple(chars(c, True) for c in s))


def opt(a):
    return alt(a, ('cat', ()))


def star(a):
    return ('star', a)


def plus(a):
    return cat(a, star(a))


# ---- parsing --------------------------------------------------------------------------------------------
SPACE = frozenset((9, 10, 11, 12, 13, 32))
DIGIT = frozenset(range(48, 58))
WORD = frozenset(c for c in range(128) if chr(c).isalnum() or c == 95)
ESC = {'s': SPACE, 'S': ALL - SPACE, 'd': DIGIT, 'D': ALL - DIGIT, 'w': WORD, 'W': ALL - WORD}
CTRL = {'t': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13, '0': 0}


def fold(s):
    return frozenset(c for x in s for c in ((x, ord(chr(x).lower()), ord(chr(x).upper())) if chr(x).isalpha() else (x,)))


def parse(pat, icase):
    n = len(pat)

    def mkset(s):
        return ('set', fold(s) if icase else frozenset(s))

    def alternatives(i):
        out = []
        while True:
            e, i = sequence(i)
            out.append(e)
            if i < n and pat[i] == '|':
                i += 1
                continue
            return ('alt', tuple(out)) if len(out) > 1 else out[0], i

    def sequence(i):
        out = []
        while i < n and pat[i] not in '|)':
            e, i = atom(i)
            while i < n and pat[i] in '*+?{':
                if pat[i] == '{':
                    j = pat.index('}', i)
                    lo, _, hi = pat[i + 1:j].partition(',')
                    if not lo.isdigit() or hi and not hi.isdigit() or int(lo) > 50 or hi and int(hi) > 50:
                        raise Unsupported(pat[i:j + 1])
                    k = int(lo)
                    rest = star(e) if ',' in pat[i:j] and not hi else ('cat', tuple(opt(e) for _ in range((int(hi) if hi else k) - k)))
                    e = ('cat', (e,) * k + (rest,))
                    i = j + 1
                else:
                    e = {'*': star, '+': plus, '?': opt}[pat[i]](e)
                    i += 1
                if i < n and pat[i] == '?':         # a lazy repetition: the same language
                    i += 1
            out.append(e)
        return ('cat', tuple(out)), i

    def atom(i):
        c = pat[i]
        if c == '(':
            i += 1
            if pat[i:i + 2] == '?:':
                i += 2
            elif pat[i:i + 1] == '?':
                raise Unsupported(pat[i - 1:i + 2])
            e, i = alternatives(i)
            if i >= n or pat[i] != ')':
                raise Unsupported('parenthesis')
            return e, i + 1
        if c == '[':
            return bracket(i + 1)
        if c == '.':
            return ('set', ALL - {10, 13}), i + 1
        if c == '\\':
            s, i = escape(i + 1)
            return (mkset(s) if isinstance(s, (set, frozenset)) else mkset({s})), i
        if c in '^$*+?{':
            raise Unsupported(c)
        return mkset({ord(c)}), i + 1

    def escape(i):
        if i >= n:
            raise Unsupported('\\')
        c = pat[i]
        if c in ESC:
            return ESC[c], i + 1
        if c in CTRL:
            return CTRL[c], i + 1
        if c == 'x':
            return int(pat[i + 1:i + 3], 16), i + 3
        if c.isalnum():
            raise Unsupported('\\' + c)
        return ord(c), i + 1

    def bracket(i):
        neg = pat[i:i + 1] == '^'
        i += neg
        s = set()
        first = True
        while i < n and (pat[i] != ']' or first and False):
            first = False
            if pat[i] == '[' and pat[i + 1:i + 2] in ('.', '=', ':'):
                if pat[i + 1] != ':':
                    raise Unsupported('bracket')
                j = pat.index(':]', i)
                name = pat[i + 2:j]
                t = {'digit': DIGIT, 'space': SPACE, 'alpha': frozenset(c for c in ALL if chr(c).isalpha()), 'alnum': WORD - {95}, 'xdigit': frozenset(map(ord, '0123456789abcdefABCDEF')),
                     'blank': frozenset((9, 32))}.get(name)
                if t is None:
                    raise Unsupported(name)
                s |= t
                i = j + 2
                continue
            if pat[i] == '\\':
                a, i = escape(i + 1)
            else:
                a, i = ord(pat[i]), i + 1
            if isinstance(a, frozenset):
                s |= a
                continue
            if pat[i:i + 1] == '-' and pat[i + 1:i + 2] not in (']', ''):
                if pat[i + 1] == '\\':
                    b, i = escape(i + 2)
                else:
                    b, i = ord(pat[i + 1]), i + 2
                if isinstance(b, frozenset) or b < a:
                    raise Unsupported('range')
                s |= set(range(a, b + 1))
            else:
                s.add(a)
        if i >= n:
            raise Unsupported('bracket')
        if icase:
            s = fold(s)
        return ('set', frozenset(ALL - s if neg else s)), i + 1

    try:
        e, i = alternatives(0)
    except (ValueError, IndexError):
        raise Unsupported(pat)
    if i != n:
        raise Unsupported('parenthesis')
    return e


# ---- automata -------------------------------------------------------------------------------------------
def nfa(e):
    """-> (start, accepting state, edges: state -> [(set or None, state)])"""
    edges = []

    def new():
        edges.append([])
        return len(edges) - 1

    def build(e, a, b):
        k, x = e
        if k == 'set':
            edges[a].append((x, b))
        elif k == 'cat':
            for y in x:
                m = new()
                build(y, a, m)
                a = m
            edges[a].append((None, b))
        elif k == 'alt':
            for y in x:
                build(y, a, b)
        else:
            m = new()
            edges[a].append((None, m))
            build(x, m, m)
            edges[m].append((None, b))
    s, t = new(), new()
    build(e, s, t)
    return s, t, edges


def closure(states, edges):
    seen, todo = set(states), list(states)
    while todo:
        for c, q in edges[todo.pop()]:
            if c is None and q not in seen:
                seen.add(q)
                todo.append(q)
    return frozenset(seen)


PREFER = "[],? .+-/_0123456789xeupdainfty"


def classes(sets):
    """one representative of each class of characters that no set tells apart"""
    g = {}
    for c in sorted(ALL, key=lambda c: (PREFER.find(chr(c)) % 1000, c)):
        if chr(c) in '#%':
            continue
        g.setdefault(tuple(c in s for s in sets), c)
    return sorted(g.values())


def differ(a, b, n=3, most=200000):
    """-> (texts of a that are not of b, texts of b that are not of a, number of pairs of states); shortest first, at most n of each"""
    A, B = nfa(a), nfa(b)
    sets = list({s for m in (A, B) for es in m[2] for s, _ in es if s is not None})
    alpha = classes(sets)
    start = (closure([A[0]], A[2]), closure([B[0]], B[2]))
    seen, todo = {start: None}, deque([start])
    one, two = [], []

    def text(p):
        r = []
        while seen[p] is not None:
            p, c = seen[p]
            r.append(chr(c))
        return ''.join(reversed(r))
    while todo:
        p = todo.popleft()
        x, y = A[1] in p[0], B[1] in p[1]
        if x != y:
            w = one if x else two
            if len(w) < n:
                w.append(text(p))
            if len(one) >= n and len(two) >= n:
                break
        for c in alpha:
            q = (closure([t for s in p[0] for k, t in A[2][s] if k is not None and c in k], A[2]), closure([t for s in p[1] for k, t in B[2][s] if k is not None and c in k], B[2]))
            if q not in seen and (q[0] or q[1]):
                if len(seen) > most:
                    raise Unsupported('size of the automaton')
                seen[q] = (p, c)
                todo.append(q)
    return one, two, len(seen)


# ---- the interval literals of IEEE 1788 ------------------------------------------------------------------
def literals():
    """-> (bracketed literals, uncertain literals)"""
    WS = star(('set', SPACE))
    D = ('set', DIGIT)
    H = ('set', frozenset(map(ord, '0123456789abcdefABCDEF')))
    sign = opt(chars('+-'))
    mantissa = lambda d: alt(cat(plus(d), opt(cat(chars('.'), star(d)))), cat(chars('.'), plus(d)))
    expo = cat(sign, plus(D))
    dec = cat(sign, mantissa(D), opt(cat(word('e'), expo)))
    hexa = cat(sign, '0x', mantissa(H), 'p', expo)
    rat = cat(sign, plus(D), WS, chars('/'), WS, star(chars('0')), chars('123456789'), star(D))
    num = alt(dec, hexa, rat)
    inf = cat('inf', opt(word('inity')))
    br = lambda x: cat(chars('['), WS, opt(x), WS, chars(']'))
    point = br(alt(num, 'empty', 'entire', 'nai'))
    pair = cat(chars('['), WS, opt(alt(num, cat(chars('-'), inf))), WS, chars(','), WS, opt(alt(num, cat(opt(chars('+')), inf))), WS, chars(']'))
    unc = cat(sign, mantissa(D), chars('?'), opt(alt(chars('?'), plus(D))), opt(chars('udUD')), opt(cat(word('e'), expo)))
    return alt(point, pair), unc
