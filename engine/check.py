"""check.py <property> [--tier quick|thorough]: decide one property from /repo's current source."""
import os, sys, time, json, tempfile, shutil, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = ['clang 18 front end and SROA (IR of the sources is what is analysed)',
           'the transfer functions of the interpreter (engine/interp.py, engine/models.py: IEEE 754, <cmath>, GNU MPFR and C++ runtime contracts)',
           'the specifications in engine/specs.py and engine/props.py, written from IEEE Std 1788-2015',
           'x86-64 Linux ABI: binary32, binary64 and x87 extended formats; MPFR functions correctly rounded as documented']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import props
    if a.prop not in props.PROPS:
        print('unknown property', a.prop)
        return 2
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix='verif_' + a.prop + '_')
    try:
        rep = props.PROPS[a.prop](a.tier, seed, wd, a)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    wall = time.time() - t0
    return finish(a.prop, a.tier, seed, rep, wall)


def known_findings(prop):
    kf = os.path.join(HERE, 'known_findings.json')
    return [e for e in json.load(open(kf))['findings'] if e['property'] == prop] if os.path.exists(kf) else []


def matches(e, v):
    return all(v.get(k) == x for k, x in e['match'].items())


def finish(prop, tier, seed, rep, wall):
    """rep: Report"""
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    known, viol = [], []
    entries = known_findings(prop)
    for v in rep.violations:
        m = [e for e in entries if matches(e, v)]
        (known if m else viol).append((v, m))
    cov = dict(rep.coverage)
    ev = dict(property=prop, tier=tier, seed=seed, level=rep.level, coverage=cov, assumptions=rep.assumptions,
              wall_s=round(wall, 2), violations=len(viol))
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for n in rep.notes:
        print('note:', n)
    print(f"{prop}: {rep.summary} [{wall:.1f} s]")
    seen = set()
    for v, m in known:
        w = m[0]['what']
        if w not in seen:
            seen.add(w)
            print(f'KNOWN-FINDING: property={prop} {w}')
    if viol:
        rp = os.path.join(evd, f'{prop}.violations.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, how='re-run: python3 engine/check.py ' + prop, violations=[v for v, _ in viol]), f, indent=1, default=str)
        for v, _ in viol[:5]:
            print('  ' + describe(v))
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    if rep.broken:
        print('check unable to decide:', rep.broken)
        return 2
    return 0


def describe(v):
    s = f"{v.get('function', '')} [{v.get('entry', '')}] {v.get('component', '')}"
    if v.get('at'):
        s += ' at ' + str(v['at'])
    if v.get('why'):
        s += ': ' + str(v['why'])
    if v.get('witness') is not None:
        s += f": for {v['witness']} the code yields {v['code_value']}, required {v['required_value']}"
    return s


if __name__ == '__main__':
    sys.exit(main())
