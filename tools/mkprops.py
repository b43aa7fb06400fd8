#!/usr/bin/env python3
"""The table of properties; writes properties.jsonl and MANIFEST.json (run from /verif)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FL = 'p1788/flavor/infsup/setbased/'
PF = FL + 'mpfr_bin_ieee754_flavor_'
CLS, EL, NUM, BOOL, SET = PF + 'class_impl.hpp', PF + 'elem_func_impl.hpp', PF + 'num_func_impl.hpp', PF + 'bool_func_impl.hpp', PF + 'set_op_impl.hpp'
OVL, CAN, REV, PAIR = PF + 'rec_overlap_impl.hpp', PF + 'cancel_func_impl.hpp', PF + 'rev_func_impl.hpp', PF + 'mul_rev_to_pair_func_impl.hpp'
IOI, UTL, VAL, SETUP, REC = PF + 'io_impl.hpp', PF + 'util_func_impl.hpp', PF + 'validation_func_impl.hpp', PF + 'setup_func_impl.hpp', PF + 'rec_bool_func_impl.hpp'
FLV = FL + 'mpfr_bin_ieee754_flavor.hpp'
BASE, IVH, DIH = 'p1788/infsup/base_interval.hpp', 'p1788/infsup/interval.hpp', 'p1788/infsup/decorated_interval.hpp'
FE = 'p1788/infsup/base_interval_elem_func_impl.hpp'
EXC = 'p1788/exception/exception.hpp'
DECO = 'p1788/decoration/decoration.hpp'
OVH = 'p1788/overlapping/overlapping.hpp'
IOM, UIO = 'p1788/io/io_manip.hpp', 'p1788/util/io.hpp'
RED = 'p1788/reduction/reduction.hpp'
MPV, MPI, MPU = 'p1788/util/mpfr_var.hpp', 'p1788/util/mpfr_var_impl.hpp', 'p1788/util/mpfr_util.hpp'

INP = 'inputs'
VN = ('Abstract interpretation of the compiler IR of every instantiation: bounds are kept as exact real terms under a finite partition into order types '
      '(sign / infinity / NaN class, relative order, parity facts), joins keep gated values, and every obligation compares the computed term with the standard\'s term. ')
TRUST = ('Trusts the clang front end, the transfer functions for IEEE 754, <cmath> and MPFR contracts, and the specification tables in engine/; '
         'no library code is executed, and a mismatch is reported only when evaluating the two extracted terms at a point also differs.')
T_AI = 'abstract interpretation of LLVM IR over bound order types (gated value numbering)'
T_TXT = 'abstract interpretation of LLVM IR with models of the standard streams and symbolic settings and characters'
IOTRUST = 'The C++ streams and strings are modelled by their documented behaviour. '
T_EFF = 'effect and typestate analysis over abstract interpretation of LLVM IR and interprocedural dataflow'
P = []


def p(id, title, statement, text, why, files, mech, claim=None, na=None, over=(INP,), state=None, level='proof'):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, claim=claim, na=na, state=state, level=level))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['id']
            a = dict(files=q['files'], mechanism=[dict(name=n, where=w) for n, w in q['mech']])
            if q['state']:
                a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in q['state']]
            f.write(json.dumps(dict(id=q['id'], title=q['title'], statement=q['statement'], quantifier=dict(over=q['over'], text=q['text']),
                                    why_tests_cant=q['why'], anchors=a)) + '\n')
    checks, na = [], []
    for q in P:
        if q['claim']:
            tech, note = q['claim']
            checks.append(dict(property=q['id'], quick_cmd=f"python3 engine/check.py {q['id']}", thorough_cmd=f"python3 engine/check.py {q['id']} --tier thorough",
                               technique=tech, level=q['level'], level_note=note))
        else:
            na.append(dict(property=q['id'], reason=q['na']))
    m = dict(version=1, setup_cmd='python3 engine/setup.py', checks=checks, not_applicable=na,
             notes='All checks read /repo (VERIF_REPO overrides) on every run; drivers are compiled to LLVM IR in a scratch directory and removed; nothing of the library is executed. properties.jsonl and this file are generated by tools/mkprops.py.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed,', len(na), 'not applicable')


main()
