"""The properties: which entries each one analyses, and how the results become a report."""
import os, sys
from runner import Unit, run
from check import TRUSTED, known_findings, matches
import build as B

PROPS = {}


class Report:
    def __init__(self):
        self.violations, self.notes, self.assumptions = [], [], []
        self.coverage = {}
        self.level = 'proof'
        self.summary = ''
        self.broken = None


def prop(pid):
    def d(f):
        PROPS[pid] = f
        return f
    return d


def analyse(pid, units, tier, seed, wd, a, rule, budget=None, level='proof', extra=None, scan=None, drivers=()):
    rep = Report()
    if a.only:
        units = [u for u in units if a.only in u.entry.name]
    names = [u.entry.name for u in units]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1][:5]
    kf = known_findings(pid)
    res, bad, tcomp, late = run(units, seed, tier, wd, budget=budget or (800 if tier == 'thorough' else 600), known=lambda v: any(matches(e, v) for e in kf))
    tot = dict(cells=0, proved=0, undec=0, splits=0, insts=0, samples=0)
    reasons, funcs, per, samples = {}, set(), {}, []
    partial = []
    for n in names:
        if n not in res:
            continue
        u, r = res[n]
        tot['cells'] += r.cells
        tot['proved'] += r.proved
        tot['undec'] += r.undecided
        tot['splits'] += r.splits
        tot['insts'] += r.insts
        tot['samples'] += r.samples
        funcs |= r.funcs
        for k, v in r.reasons.items():
            reasons[k] = reasons.get(k, 0) + v
        per[n] = [r.cells, r.proved, r.undecided]
        if r.undecided:
            partial.append(n)
        for v in r.violations:
            if v is not None:
                rep.violations.append(v)
        if r.proved and len(samples) < 4:
            samples.append(f"{n}: {r.cells} order types of the operands, {r.proved} discharged")
    for u, err in bad:
        if err.startswith('clang only: '):
            tot['cells'] += 1
            tot['undec'] += 1
            k = 'accepted by g++ but not by clang: ' + first_error(err)
            reasons[k] = reasons.get(k, 0) + 1
            continue
        if u.entry.extra.get('mustcompile', True):
            rep.violations.append(dict(entry=u.entry.name, function=u.entry.where, component='instantiation', why='does not compile: ' + first_error(err), at=first_loc(err)))
    rep.level = level
    cov = rep.coverage
    cov['obligations'] = tot['cells']
    cov['discharged'] = tot['proved']
    cov['checker_cmd'] = f'python3 engine/check.py {pid}'
    cov['trusted_base'] = TRUSTED
    cov['rule'] = rule
    cov['entries'] = len(names)
    cov['entries_fully_decided'] = sum(1 for n in names if n in res and not res[n][1].undecided and res[n][1].proved)
    cov['undecided_obligations'] = tot['undec']
    cov['undecided_reasons'] = dict(sorted(reasons.items(), key=lambda z: -z[1])[:12])
    cov['instructions_interpreted'] = tot['insts']
    lib = sorted(f for f in funcs if 'p1788' in f)
    cov['library_functions_analysed'] = len(lib)
    cov['case_splits'] = tot['splits']
    cov['term_evaluations_for_refutation'] = tot['samples']
    cov['entries_not_finished'] = [n for n in names if n not in res and not any(u.entry.name == n for u, _ in bad)]
    cov['samples'] = samples
    cov['per_entry'] = per
    cov['compile_s'] = round(tcomp, 1)
    if extra:
        cov.update(extra)
    if scan:
        scanned(rep, scan, drivers, wd)
    rep.assumptions = ['MPFR and libm functions meet their documented contracts', 'operands are valid interval objects unless the property is about invalid ones',
                       'undecided obligations (if any) are counted, never reported as violations']
    rep.summary = f"{tot['proved']}/{tot['cells']} obligations discharged over {len(names)} entries ({len(lib)} library functions), {tot['undec']} undecided, {len(rep.violations)} violations"
    if a.verbose:
        for n in names:
            if n in res:
                print(n, per[n], res[n][1].reasons or '')
    if partial and not rep.violations:
        rep.notes.append('not fully decided: ' + ', '.join(partial[:12]))
    if not rep.violations and not tot['proved']:
        rep.broken = 'no obligation could be discharged: ' + str(reasons)[:300]
    return rep


def scanned(rep, scan, drivers, wd):
    """module-wide scan over the modules of the entries and the given drivers"""
    import runner, multiprocessing as mp
    bcs = sorted(set(runner._bcs.values()))
    with mp.get_context('fork').Pool(8) as pool:
        jobs = [pool.apply_async(compile_driver, (src, wd, f'drv{i}')) for i, src in enumerate(drivers)]
        extra = [j.get() for j in jobs]
        for src, (bc, err) in zip(drivers, extra):
            if bc is None and err.startswith('clang only: '):
                rep.notes.append('driver accepted by g++ but not by clang: ' + first_error(err))
            elif bc is None:
                rep.violations.append(dict(entry='driver', function='', component='instantiation', why='does not compile: ' + first_error(err), at=first_loc(err)))
            else:
                bcs.append(bc)
        res = pool.map(scan, bcs, chunksize=1)
    fs, cov = EF.merge_scans(res)
    rep.violations += fs
    rep.coverage['scan'] = cov
    if not cov.get('functions_scanned'):
        rep.broken = 'the scan found no function of the library'


def compile_driver(src, wd, tag):
    import harness
    try:
        return harness.compile_bc(harness.PRE + src, wd, tag), None
    except harness.BuildError as e:
        return None, harness.gxx_rejects(harness.PRE + src, wd, tag) or 'clang only: ' + str(e)


def first_error(err):
    for l in err.splitlines():
        if 'error:' in l:
            return l.split('error:', 1)[1].strip()[:200]
    return err[:200]


def first_loc(err):
    import re
    for l in err.splitlines():
        m = re.search(r'(p1788/\S+?:\d+)', l)
        if m:
            return m.group(1)
    return None


T3 = 'fdl'


def elem_units(pid, ops, types=T3, dec=False, nai=False, form='static', intarg=False, cost=None):
    us = []
    for op, n in ops:
        for t in types:
            src, e = B.elem_entry(pid, op, n, t, [t] * n, dec, intarg=intarg, nai=nai, form=form)
            us.append(Unit(src, e, cost=(cost or {}).get(op, n)))
    return us


TRANS = ['exp', 'exp2', 'exp10', 'log', 'log2', 'log10', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh']


@prop('C01')
def c01(tier, seed, wd, a):
    return analyse('C01', elem_units('C01', B.ARITH), tier, seed, wd, a,
                   'every order type of the operand bounds: result bounds = exact range rounded outward once, to the destination format')


@prop('C02')
def c02(tier, seed, wd, a):
    return analyse('C02', elem_units('C02', [(o, 1) for o in TRANS]), tier, seed, wd, a, 'as C01 for the monotone transcendental functions, domain-restricted')


@prop('C03')
def c03(tier, seed, wd, a):
    us = elem_units('C03', [('pown', 1)], intarg=True) + elem_units('C03', [('pow', 2), ('atan2', 2)], cost={'pow': 20, 'atan2': 20})
    return analyse('C03', us, tier, seed, wd, a, 'as C01 for the power functions and the two-argument arctangent')


@prop('C05')
def c05(tier, seed, wd, a):
    return analyse('C05', elem_units('C05', B.EXACT), tier, seed, wd, a, 'as C01 for the functions that need no rounding')


import itertools
import ops as O


@prop('C06')
def c06(tier, seed, wd, a):
    us = []
    for t in T3:
        for dec in (False, True):
            for f in O.REL1:
                us += [O.bool_unit(f, [t], dec, form) for form in ('static', 'free')]
            for f in O.REL2:
                us += [O.bool_unit(f, [t, t], dec, form) for form in ('static', 'free')]
            us += [O.bool_unit('equal', [t, t], dec, form) for form in ('==', '!=')]
            for m in T3:
                us += O.member_unit(m, t, dec)
            us.append(O.isnai_unit(t)) if dec else None
    pairs = [('f', 'd'), ('l', 'd')] if tier != 'thorough' else [p for p in itertools.product(T3, T3) if p[0] != p[1]]
    for p in pairs:
        for dec in (False, True):
            us += [O.bool_unit(f, list(p), dec) for f in O.REL2]
    return analyse('C06', us, tier, seed, wd, a, 'every order type of the operand bounds: returned truth value = relation of the two sets (IEEE 1788 table 10.3)')


@prop('C07')
def c07(tier, seed, wd, a):
    us = []
    for t in T3:
        for dec in (False, True):
            us += [O.overlap_unit([t, t], dec, form) for form in ('static', 'free')]
    for p in itertools.product(T3, T3):
        if p[0] != p[1]:
            us += [O.overlap_unit(list(p), dec) for dec in (False, True)]
    return analyse('C07', us, tier, seed, wd, a, 'every order type of the operand bounds: returned state = the overlap state of the two sets')


def combos(tier, n, bare=False):
    """(destination, operand types) with at least two different types"""
    c = [(k[0], list(k[1:])) for k in itertools.product(T3, repeat=n + 1) if len(set(k)) > 1]
    if tier == 'thorough':
        return c
    pick = {1: [('f', ['d']), ('d', ['f']), ('d', ['l']), ('l', ['f'])],
            2: [('f', ['d', 'f']), ('f', ['f', 'd']), ('d', ['f', 'd']), ('f', ['d', 'd']), ('d', ['f', 'f']), ('d', ['l', 'f']), ('d', ['f', 'l']), ('l', ['d', 'd'])],
            3: [('f', ['d', 'f', 'f']), ('f', ['f', 'd', 'f']), ('f', ['f', 'f', 'd']), ('d', ['f', 'd', 'l']), ('d', ['f', 'f', 'f'])]}
    if bare and n < 3:
        return c
    return pick[n]


@prop('C08')
def c08(tier, seed, wd, a):
    us = []
    for f in ('intersection', 'convex_hull'):
        for t in T3:
            for dec in (False, True):
                us += [O.set_unit(f, t, [t, t], dec, form) for form in ('static', 'free')]
        for to, tys in combos(tier, 2):
            us += [O.set_unit(f, to, tys, dec) for dec in (False, True)]
    return analyse('C08', us, tier, seed, wd, a, 'every order type of the operand bounds: bounds of the set result rounded outward once; decorated result carries trv')


@prop('C09')
def c09(tier, seed, wd, a):
    us = []
    for t in T3:
        for dec in (False, True):
            for f in O.NUMF + ['mid_rad']:
                us.append(O.num_unit(f, t, t, dec))
            for f in O.NUMF:
                us.append(O.num_unit(f, t, t, dec, 'free'))
                us.append(O.sign_unit(f, t, t, dec))
    for to, (t,) in combos(tier, 1):
        for dec in (False, True):
            for f in O.NUMF + ['mid_rad']:
                us.append(O.num_unit(f, to, t, dec))
            for f in O.NUMF:
                us.append(O.sign_unit(f, to, t, dec))
    return analyse('C09', us, tier, seed, wd, a, 'every order type of the bounds: returned number = exact value of the functional rounded in the prescribed direction')


@prop('C10')
def c10(tier, seed, wd, a):
    us = []
    for f in ('cancel_plus', 'cancel_minus'):
        for t in T3:
            for dec in (False, True):
                us += [O.cancel_unit(f, t, [t, t], dec, form) for form in ('static', 'free')]
        for to, tys in combos(tier, 2):
            us += [O.cancel_unit(f, to, tys, dec) for dec in (False, True)]
    return analyse('C10', us, tier, seed, wd, a, 'every order type of the bounds; the width comparison is decided by the error-free-transformation rule')


@prop('C11')
def c11(tier, seed, wd, a):
    us = O.rev_units(tier, combos)
    return analyse('C11', us, tier, seed, wd, a, 'every order type of the bounds of constraint, argument and factor: preimage as at most two intervals with open and closed ends, met with the argument, rounded outwards once')


ELEM = B.ARITH + [(o, 1) for o in TRANS] + [('pow', 2), ('atan2', 2)] + B.EXACT
COST = {'pow': 20, 'atan2': 20, 'fma': 30, 'mul': 5, 'div': 5}


@prop('C13')
def c13(tier, seed, wd, a):
    us = elem_units('C13', ELEM, dec=True, nai=False, cost=COST) + elem_units('C13', [('pown', 1)], dec=True, intarg=True)
    us += trig_units(tier, T3, (True,), free=False, nai=False)
    return analyse('C13', us, tier, seed, wd, a, 'every order type of the decorated operands: result decoration = minimum of the operand decorations and the strongest decoration of the function on the box')


def mixed_units(pid, tier, dec, ops=None):
    us = []
    for op, n in ops or ELEM + [('pown', 1)]:
        for to, tys in combos(tier, n, not dec):
            src, e = B.elem_entry(pid, op, n, to, tys, dec, intarg=op == 'pown')
            if op == 'fma' and dec and tier != 'thorough':
                e.rootkinds = [k for k in e.rootkinds if 'ncom' not in k and ('E' in k or tys.count('f') == 2)]
            us.append(Unit(src, e, cost=COST.get(op, n)))
    return us


@prop('C16')
def c16(tier, seed, wd, a):
    us = mixed_units('C16', tier, False) + mixed_units('C16', tier, True) + trig_units(tier, '', (False, True), None)
    return analyse('C16', us, tier, seed, wd, a, 'every order type of operands of different formats: result = exact range rounded outward once to the destination format')


def only(units, pred):
    out = []
    for u in units:
        u.entry.rootkinds = [k for k in u.entry.rootkinds if pred(k)]
        if u.entry.rootkinds:
            out.append(u)
    return out


@prop('C14')
def c14(tier, seed, wd, a):
    us = elem_units('C14', ELEM, dec=True, nai=True) + elem_units('C14', [('pown', 1)], dec=True, nai=True, intarg=True)
    for op, n in ELEM + [('pown', 1)]:
        for to, tys in combos(tier, n)[:None if tier == 'thorough' else 2]:
            src, e = B.elem_entry('C14', op, n, to, tys, True, intarg=op == 'pown', nai=True)
            us.append(Unit(src, e, cost=n))
    for t in T3:
        for f in O.REL1:
            us.append(O.bool_unit(f, [t], True))
        for f in O.REL2:
            us.append(O.bool_unit(f, [t, t], True))
        us += [O.bool_unit('equal', [t, t], True, form) for form in ('==', '!=')]
        us += O.member_unit(t, t, True)
        us += [O.isnai_unit(t), O.isnai_unit(t, 'free'), O.overlap_unit([t, t], True)]
        for f in O.NUMF + ['mid_rad']:
            us.append(O.num_unit(f, t, t, True))
        for f in ('intersection', 'convex_hull'):
            us.append(O.set_unit(f, t, [t, t], True))
        for f in ('cancel_plus', 'cancel_minus'):
            us.append(O.cancel_unit(f, t, [t, t], True))
    for p in (('f', 'd'), ('d', 'l')):
        us += [O.bool_unit(f, list(p), True) for f in O.REL2] + [O.overlap_unit(list(p), True)]
        for f in ('intersection', 'convex_hull'):
            us.append(O.set_unit(f, 'd', list(p), True))
        for f in ('cancel_plus', 'cancel_minus'):
            us.append(O.cancel_unit(f, 'd', list(p), True))
        for f in O.NUMF + ['mid_rad']:
            us.append(O.num_unit(f, p[0], p[1], True))
    us += O.rev_units(tier, lambda t_, n: combos(t_, n)[:None if tier == 'thorough' else 2], T3, (True,), free=False)
    us += trig_units(tier, T3, (True,), free=False) + O.trigrev_units(decs=(True,))
    us = only(us, lambda k: 'I' in k)
    return analyse('C14', us, tier, seed, wd, a, 'every operand combination containing NaI: interval result NaI, relations false, numbers NaN, overlap undefined')


def ctor_units(tier, s0=0, cwd=0, light=False):
    us = []
    ts = T3 if tier == 'thorough' or not light else 'd'
    for t in ts:
        if not s0 and not cwd:
            us += O.const_units(t)
        for lt, ut in itertools.product(T3, T3):
            if light and tier != 'thorough' and (lt, ut) not in (('d', 'd'), ('d', 'l')):
                continue
            for dec in (False, True):
                us.append(O.nums_unit(t, lt, ut, dec, s0=s0, cwd=cwd))
            us.append(O.nums_unit(t, lt, ut, True, True, s0=s0, cwd=cwd))
        for s in T3:
            if light and tier != 'thorough' and s not in 'df':
                continue
            for sdec in (False, True):
                for ddec in (False, True):
                    us.append(O.conv_unit(t, s, sdec, ddec, s0=s0, cwd=cwd))
            us.append(O.conv_unit(t, s, False, True, True, s0=s0, cwd=cwd))
        us += [O.decpart_unit(t, f, s0=s0, cwd=cwd) for f in ('static', 'free')]
    return us


@prop('C17')
def c17(tier, seed, wd, a):
    us = ctor_units(tier)
    return analyse('C17', us, tier, seed, wd, a, 'every order type of the numbers / operand bounds, every decoration value: value, decoration and flags of the constructed interval')


def all_units(tier, types='d', dec=(False, True), pairs=(('f', 'd'), ('l', 'd')), nai=False, npick=2):
    """one unit per operation: every operation of the flavour, same-format and mixed-format"""
    us = []
    for d in dec:
        for op, n in ELEM + [('pown', 1)]:
            for t in types:
                src, e = B.elem_entry('', op, n, t, [t] * n, d, intarg=op == 'pown', nai=nai and d)
                us.append(Unit(src, e, cost=COST.get(op, n)))
            for to, tys in combos(tier, n)[:npick]:
                src, e = B.elem_entry('', op, n, to, tys, d, intarg=op == 'pown', nai=nai and d)
                us.append(Unit(src, e, cost=COST.get(op, n)))
        for t in types:
            us += [O.bool_unit(f, [t], d) for f in O.REL1] + [O.bool_unit(f, [t, t], d) for f in O.REL2]
            us += [O.bool_unit('equal', [t, t], d, form) for form in ('==', '!=')]
            us += O.member_unit(t, t, d)
            us.append(O.overlap_unit([t, t], d))
            us += [O.num_unit(f, t, t, d) for f in O.NUMF + ['mid_rad']]
            us += [O.set_unit(f, t, [t, t], d) for f in ('intersection', 'convex_hull')]
            us += [O.cancel_unit(f, t, [t, t], d) for f in ('cancel_plus', 'cancel_minus')]
            if d:
                us.append(O.isnai_unit(t))
        for p in pairs:
            us += [O.bool_unit(f, list(p), d) for f in O.REL2] + [O.overlap_unit(list(p), d)]
            us += [O.set_unit(f, 'd', list(p), d) for f in ('intersection', 'convex_hull')]
            us += [O.cancel_unit(f, 'd', list(p), d) for f in ('cancel_plus', 'cancel_minus')]
            us += [O.num_unit(f, p[0], p[1], d) for f in O.NUMF + ['mid_rad']]
            us += O.member_unit(p[0], p[1], d)
        us += O.rev_units(tier, lambda t_, n: combos(t_, n)[:npick], types, (d,), free=False, nai=nai)
        us += trig_units(tier, types, (d,), npick, free=False, nai=nai)
        us += O.trigrev_units(types, (d,), nai=nai, **(dict(mixed=()) if npick == 0 else {}))
    return us


@prop('C15')
def c15(tier, seed, wd, a):
    us = all_units(tier, T3, pairs=[p for p in itertools.product(T3, T3) if p[0] != p[1]], npick=8)
    us = [O.flagged(u, 'inv', negate=u.entry.name.endswith('_ne'), srange=(0, 0)) for u in us]
    inv = lambda k: any(x in O.INV_D or x in O.INV_B for x in k)
    us += only(ctor_units(tier), inv)
    return analyse('C15', us, tier, seed, wd, a, 'every operand combination with at least one invalid object: neutral result and the invalid-operand flag')


@prop('C18')
def c18(tier, seed, wd, a):
    us = all_units(tier, nai=True)
    us = [O.flagged(u, 'inv', negate=u.entry.name.endswith('_ne')) for u in only(all_units(tier, 'f', pairs=(), npick=1), lambda k: True)] + \
        [O.flagged(u, 'valid') for u in us if not u.entry.name.startswith(('d_sin_', 'd_cos_', 'd_tan_'))]      # (those: the flags depend on the order of the computed bounds)
    for u in us:        # decorated fma of three different boxes: the order types of one full decoration pattern
        if '_fma_' in u.entry.name and tier != 'thorough' and u.entry.operands[0].dec:
            u.entry.rootkinds = [k for k in u.entry.rootkinds if k.count('com') + k.count('ncom') < 3]
    us += ctor_units(tier, 'sym', light=True)
    return analyse('C18', us, tier, seed, wd, a, 'every operand combination and every flag word before the call: flag word after the call')


@prop('C19')
def c19(tier, seed, wd, a):
    us = O.exc_units()
    for cwd in (15, 8, 7, 1, 14) if tier != 'thorough' else range(1, 16):
        us += ctor_units(tier, 'sym', cwd, light=True)
    sample = lambda: [u for u in all_units(tier, 'd', pairs=(('f', 'd'),), npick=1) if u.entry.name.split('_')[1] in
                      ('add', 'sqrt', 'mul', 'equal', 'is', 'overlap', 'intersection', 'cancel', 'mid', 'inf', 'pown', 'neg')]
    us += [O.flagged(u, 'inv', cwd=c, negate=u.entry.name.endswith('_ne')) for c in (8, 7) for u in sample()]
    return analyse('C19', us, tier, seed, wd, a, 'every flag word, control word and signal: word after the call, returned word, exception class thrown')


@prop('C30')
def c30(tier, seed, wd, a):
    us = [v for u in all_units(tier, T3, pairs=(), npick=0, nai=True) for v in O.spelled(u)]
    for p in itertools.product(T3, repeat=2):       # relations between formats have free spellings too
        if p[0] != p[1]:
            for d in (False, True):
                us += [v for f in O.REL2 for v in O.spelled(O.bool_unit(f, list(p), d))] + O.spelled(O.overlap_unit(list(p), d))
    for u in us:
        if '_fma_' in u.entry.name and tier != 'thorough' and u.entry.operands[0].dec:
            u.entry.rootkinds = [k for k in u.entry.rootkinds if k.count('com') + k.count('ncom') < 3]
    return analyse('C30', us, tier, seed, wd, a, 'every order type of the operands, NaI and invalid objects included: the free function and the operator yield the value the static member yields')


# ---- effects ----------------------------------------------------------------------------------------
import effects as EF


def effect_units(tier, types='d'):
    us = all_units(tier, types, nai=True, npick=2)
    us = [O.flagged(u, 'valid') for u in us] + [O.flagged(u, 'inv', negate=False) for u in only(all_units(tier, 'f', pairs=(), npick=1), lambda k: True)]
    for u in us:
        if '_fma_' in u.entry.name and tier != 'thorough' and u.entry.operands[0].dec:
            u.entry.rootkinds = [k for k in u.entry.rootkinds if k.count('com') + k.count('ncom') < 3]
    return us + ctor_units(tier, 'sym', light=True)


@prop('C21')
def c21(tier, seed, wd, a):
    us = effect_units(tier) + red_units(tier)
    for u in us:
        u.entry.extra['judge'] = EF.judge_pure(u.entry.extra.get('base', 1 << 20))
    return analyse('C21', us, tier, seed, wd, a, 'every operation: no write to an operand or to static storage, value free of the flag word, the rounding mode and the MPFR exponent range before the call, rounding mode unchanged',
                   scan=EF.scan_purity, drivers=[EF.IO_DRIVER])


def red_units(tier, types=T3):
    return [O.red_unit(fn, t, n, mode, form) for fn in ('sum', 'sum_abs', 'sum_sqr', 'dot') for t in types
            for mode in (O.RMODES if tier == 'thorough' else ('downward', 'to_nearest')) for n in range(3) for form in (('iter', 'list') if n else ('iter',))]


@prop('C22')
def c22(tier, seed, wd, a):
    us = effect_units(tier) + red_units(tier) + ctor_units(tier, 'sym', 15, light=True)
    for u in us:
        u.entry.extra['judge'] = EF.judge_res
    return analyse('C22', us, tier, seed, wd, a, 'every path: each multiple-precision variable and heap object initialised before use and released exactly once',
                   scan=EF.scan_resources, drivers=[EF.IO_DRIVER])


LONG = tuple(range(4, 19)) + (31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257)


@prop('C28')
def c28(tier, seed, wd, a):
    us = []
    for fn in ('sum', 'sum_abs', 'sum_sqr', 'dot'):
        for t in T3:
            for mode in O.RMODES:
                for n in range((4 if fn == 'dot' else 6) if tier == 'thorough' else (3 if fn == 'dot' else 4)):
                    us.append(O.red_unit(fn, t, n, mode))
                    if n and n < 4:
                        us.append(O.red_unit(fn, t, n, mode, 'list'))
        for n in LONG:      # long vectors of one order type
            us += [O.red_unit(fn, t, n, mode, form, long=True) for t in T3 for mode in (O.RMODES if tier == 'thorough' else ('upward',)) for form in ('iter', 'list') if tier == 'thorough' or n < 20 or t == 'f']
    return analyse('C28', us, tier, seed, wd, a, 'vectors of bounded length, every order type of the elements: result = exact value rounded once in the given direction', level='other',
                   extra=dict(explanation='bounded in the number of elements, complete in their values: for every vector length up to the bound, direction, format and form, the result term extracted from the IR for each order type of the elements is compared with the exact value rounded once; longer vectors are not analysed'))


@prop('C20')
def c20(tier, seed, wd, a):
    return analyse('C20', O.thread_units(), tier, seed, wd, a, 'two threads, every order of first use: words seen in each thread after one of them acts; every static object written after its initialisation is thread-local',
                   scan=EF.scan_threads, drivers=[EF.IO_DRIVER])


# ---- programs of several translation units ------------------------------------------------------------
def headers():
    import harness, glob
    hs = sorted(os.path.relpath(h, harness.REPO) for h in glob.glob(os.path.join(harness.REPO, 'p1788', '**', '*.hpp'), recursive=True))
    return [h for h in hs if not h.endswith('_impl.hpp')]


def _syntax(job):
    name, src, wd, tag = job
    import harness, subprocess
    inc = os.path.join(wd, 'inc', 'p1788')
    os.makedirs(inc, exist_ok=True)
    v = os.path.join(inc, 'version.hpp')
    if not os.path.exists(v):
        open(v, 'a').close()
    cpp = os.path.join(wd, tag + '.cpp')
    with open(cpp, 'w') as f:
        f.write(src)
    p = subprocess.run(['g++', '-std=c++11', '-I' + harness.REPO, '-I' + os.path.join(wd, 'inc'), '-fsyntax-only', '-w', cpp], capture_output=True, text=True)
    os.unlink(cpp)
    return name, p.stderr[:4000] or 'error' if p.returncode else None


def _syntax_units(job):
    """g++ accepts the units; on failure, which ones it rejects"""
    units, wd, tag = job
    import harness
    src = harness.PRE + ''.join(dict.fromkeys(p for p, _, _ in units)) + 'extern "C" {\n' + ''.join(s for _, s, _ in units) + '}\n'
    n, err = _syntax(('', src, wd, tag))
    if err is None:
        return []
    if len(units) == 1:
        return [(units[0][2], err)]
    h = len(units) // 2
    return _syntax_units((units[:h], wd, tag + 'a')) + _syntax_units((units[h:], wd, tag + 'b'))


@prop('C29')
def c29(tier, seed, wd, a):
    import harness, multiprocessing as mp
    rep = Report()
    hs = headers()
    allh = ''.join(f'#include "{h}"\n' for h in hs if h != 'p1788/p1788.hpp')
    rev = ''.join(f'#include "{h}"\n' for h in reversed(hs) if h != 'p1788/p1788.hpp')
    jobs = [(h, f'#include "{h}"\n#include "{h}"\n', wd, f'h{i}') for i, h in enumerate(hs)]
    jobs += [('all headers', allh + allh, wd, 'hall'), ('all headers, reverse order', rev, wd, 'hrev'),
             ('all headers twice, instantiated', harness.PRE + EF.instantiation_driver() + allh, wd, 'hinst')]
    us = all_units(tier, T3, nai=True, npick=99)
    us += [u for u in ctor_units(tier, 'sym', light=True)] + red_units('thorough') + O.exc_units()
    for d in (False, True):       # every combination of result and operand formats
        for op, n in ELEM + [('pown', 1)]:
            for tys in itertools.product(T3, repeat=n + 1):
                if len(set(tys)) > 1:
                    src, e = B.elem_entry('', op, n, tys[0], list(tys[1:]), d, intarg=op == 'pown')
                    us.append(Unit(src, e))
        for tys in itertools.product(T3, repeat=3):
            us += [O.set_unit(f, tys[0], list(tys[1:]), d) for f in ('intersection', 'convex_hull')]
            us += [O.cancel_unit(f, tys[0], list(tys[1:]), d) for f in ('cancel_plus', 'cancel_minus')]
        for p in itertools.product(T3, repeat=2):
            us += [O.bool_unit(f, list(p), d) for f in O.REL2] + [O.overlap_unit(list(p), d)]
            us += [O.num_unit(f, p[0], p[1], d) for f in O.NUMF + ['mid_rad']] + O.member_unit(p[0], p[1], d)
    src = list({u.src: (u.pre, u.src, u.entry.where + ' [' + u.entry.name + ']') for u in us if u.entry.extra.get('mustcompile', True)}.values())
    src.sort(key=lambda x: x[0])
    per = 60
    ujobs = [(src[k:k + per], wd, f'u{k}') for k in range(0, len(src), per)]
    if a.only:
        ujobs = []
    done = 0
    with mp.get_context('fork').Pool(8) as pool:
        r1 = pool.map_async(_syntax, jobs, chunksize=1)
        r2 = pool.map_async(_syntax_units, ujobs, chunksize=1)
        drv = [harness.PRE, harness.PRE + EF.instantiation_driver(), harness.PRE + EF.IO_DRIVER]
        r3 = [pool.apply_async(compile_driver, (d[len(harness.PRE):], wd, f'drv{i}')) for i, d in enumerate(drv)]
        for name, err in r1.get():
            if err:
                rep.violations.append(dict(entry='header', function=name, component='does not compile', why='does not compile' + (' when included alone' if name.endswith('.hpp') else '') + ': ' + first_error(err), at=first_loc(err)))
            else:
                done += 1
        bad = [x for l in r2.get() for x in l]
        for where, err in bad:
            rep.violations.append(dict(entry='instantiation', function=where, component='does not compile', why='does not compile: ' + first_error(err), at=first_loc(err)))
        done += sum(len(j[0]) for j in ujobs) - len(bad)
        bcs = []
        for r in r3:
            bc, err = r.get()
            if bc is None:
                rep.notes.append('driver not accepted: ' + first_error(err))
            else:
                bcs.append(bc)
        res = pool.map(EF.scan_linkage, bcs, chunksize=1)
    fs, cov = EF.merge_scans(res)
    rep.violations += fs
    defs = cov.get('functions_scanned', 0) + cov.get('objects_scanned', 0)
    n = len(jobs) + len(src) + defs
    rep.coverage.update(obligations=n, discharged=done + defs - len(fs), checker_cmd='python3 engine/check.py C29', trusted_base=TRUSTED[:1] + ['g++ accepts what it accepts'],
                        rule='every public header alone and twice, all together in both orders; every operation for every format and combination; every definition in the headers can be repeated in another translation unit',
                        headers=hs, instantiations=len(src), scan=cov, samples=[s[2] for s in src[:4]])
    rep.assumptions = ['*_impl.hpp are parts of the headers that include them, not headers for users', 'operations listed as missing in TODO (pow_rev1, pow_rev2, atan2_rev1, atan2_rev2) are outside the property']
    rep.summary = f'{done + defs - len(fs)}/{n} obligations discharged: {len(hs)} headers, {len(src)} instantiations, {defs} definitions, {len(rep.violations)} violations'
    if not bcs or not defs:
        rep.broken = 'no module to scan'
    return rep


def trig_units(tier, types=T3, decs=(False, True), npick=9, free=True, nai=True):
    us = []
    for op in ('sin', 'cos', 'tan'):
        for d in decs:
            for t in types:
                us += [O.trig_unit(op, t, [t], d, f, nai) for f in (('static', 'free') if free else ('static',))]
            for to, tys in combos(tier, 1)[:npick]:
                us.append(O.trig_unit(op, to, tys, d, nai=nai))
    return us


@prop('C04')
def c04(tier, seed, wd, a):
    return analyse('C04', trig_units(tier), tier, seed, wd, a, 'every sign of the derivative at the bounds and every order of the width against pi and 2 pi (within two units in the last place of those thresholds nothing is required)')


@prop('C27')
def c27(tier, seed, wd, a):
    import text as X
    units = [X.manip_unit()] + X.settings_only(X.out_units(tier, True) + X.enum_units() + [X.decin_unit(1), X.decin_unit(0)] + X.read_units('quick'))
    return analyse('C27', units, tier, seed, wd, a,
                   'Every manipulator is interpreted on a stream whose settings are symbolic; it must change exactly one setting, the one of its group, to a value of its own, and write nothing. '
                   'Output and input operators are interpreted for every kind of operand and must leave every setting of the stream as it was, on every exit.')


@prop('C26')
def c26(tier, seed, wd, a):
    import text as X
    units = X.enum_units() + [X.decin_unit(1), X.decin_unit(0)]
    return analyse('C26', units, tier, seed, wd, a,
                   'operator<< of decorations and overlap states is interpreted for every enumerator over streams with symbolic settings, operator>> of decorations over symbolic characters; the text, '
                   'the decoration and the stream state must be those of the tables in the standard.')


@prop('C23')
def c23(tier, seed, wd, a):
    import text as X
    return analyse('C23', X.grammar_units(tier), tier, seed, wd, a,
                   'The regular expressions that operator>> of intervals matches are compared with the grammar of the interval literals as automata; the characters taken from the stream are followed with symbolic '
                   'characters; the conditions besides are interpreted over texts with symbolic digits. A text that is no literal must set failbit and leave the interval as it was.')


@prop('C24')
def c24(tier, seed, wd, a):
    import text as X
    return analyse('C24', X.read_units(tier), tier, seed, wd, a,
                   'operator>> of intervals is interpreted over texts with symbolic digits; the bounds must be the exact numbers written, rounded outward, and the decoration the one required; any other text '
                   'must set failbit and leave the interval as it was.')


@prop('C25')
def c25(tier, seed, wd, a):
    import text as X
    units = X.out_units(tier)
    return analyse('C25', units, tier, seed, wd, a,
                   'operator<< of intervals is interpreted for every kind of operand and combinations of the settings over streams with arbitrary earlier settings; the layout, the format of the conversions, '
                   'their rounding direction and the numbers converted must be those documented.')
