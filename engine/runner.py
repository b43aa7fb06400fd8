"""Compile the drivers of a property, analyse every entry in parallel, aggregate."""
import os, sys, time, json, itertools, tempfile, shutil, multiprocessing as mp, traceback
import harness, irload
from harness import PRE, compile_bc, gxx_rejects, BuildError, check_entry, Result

AFTER = 90
NPROC = int(os.environ.get('VERIF_PROCS', '8'))


class Unit:
    """one wrapper function and the entry analysed through it"""
    __slots__ = ('src', 'entry', 'pre', 'cost')

    def __init__(self, src, entry, pre='', cost=1):
        self.src, self.entry, self.pre, self.cost = src, entry, pre, cost


_mods = {}
_tasks = []
_units = []
_bcs = {}
_opt = {}


def load(bc):
    m = _mods.get(bc)
    if m is None:
        m = _mods[bc] = irload.Module(bc)
    return m


def _compile(job):
    idx, wd, tag = job
    src = PRE + ''.join(dict.fromkeys(_units[i].pre for i in idx)) + 'extern "C" {\n' + ''.join(_units[i].src for i in idx) + '}\n'
    try:
        return [(idx, compile_bc(src, wd, tag), None)]
    except BuildError as e:
        if len(idx) == 1:
            return [(idx, None, gxx_rejects(src, wd, tag) or 'clang only: ' + str(e))]
        h = len(idx) // 2
        return _compile((idx[:h], wd, tag + 'a')) + _compile((idx[h:], wd, tag + 'b'))


def _analyse(t):
    ui, kinds, shard = _tasks[t]
    u = _units[ui]
    e = u.entry
    r = None
    try:
        m = load(_bcs[ui])
        full = e.rootkinds
        e.rootkinds = kinds
        try:
            r = check_entry(e, m, _opt['seed'], maxcells=_opt['maxcells'], tlimit=_opt['tlimit'], nsamp=_opt.get('nsamp'), shard=shard)
        finally:
            e.rootkinds = full
    except RecursionError:
        r = Result()
        r.cells = r.undecided = 1
        r.reasons['engine recursion'] = 1
    except Exception as x:
        r = Result()
        r.cells = r.undecided = 1
        r.reasons['engine: ' + repr(x)[:120]] = 1
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    return ui, r


def run(units, seed, tier, workdir, budget=700, chunk=24, group=9, known=lambda v: False):
    """-> dict entry name -> (Unit, Result), uncompilable list"""
    global _units, _tasks, _bcs, _opt
    sys.setrecursionlimit(20000)
    _units = units
    _opt = dict(seed=seed, maxcells=60000 if tier == 'thorough' else 20000, tlimit=600 if tier == 'thorough' else 240)
    t0 = time.time()
    n = len(units)
    nch = max(1, min(64, (n + chunk - 1) // chunk))
    if n >= NPROC:
        nch = max(nch, NPROC)
    # units needing the same prelude go together
    order = sorted(range(n), key=lambda i: units[i].pre)
    jobs = []
    per = (n + nch - 1) // nch
    for k in range(0, n, per):
        jobs.append((order[k:k + per], workdir, f'c{k}'))
    bad = []
    with mp.get_context('fork').Pool(NPROC) as pool:
        for res in pool.imap_unordered(_compile, jobs):
            for idx, bc, err in res:
                if bc is None:
                    bad.append((units[idx[0]], err))
                else:
                    for i in idx:
                        _bcs[i] = bc
    tcomp = time.time() - t0
    _tasks = []
    for i, u in enumerate(units):
        if i not in _bcs:
            continue
        ks = u.entry.rootkinds
        g = group if u.cost < 10 else 1
        for k in range(0, len(ks), g):
            if u.cost >= 20:      # disjoint, exhaustive: sign of the lower bounds of the first two operands
                names = [o.name for o in u.entry.operands[:2]]
                for s in itertools.product('<=>', repeat=len(names)):
                    _tasks.append((i, ks[k:k + g], dict(zip(names, s))))
            else:
                _tasks.append((i, ks[k:k + g], None))
    rank = sorted(range(len(_tasks)), key=lambda t: -units[_tasks[t][0]].cost)
    results = {}
    late = nviol = 0
    with mp.get_context('fork').Pool(NPROC) as pool:
        it = pool.imap_unordered(_analyse, rank, chunksize=1)
        for _ in range(len(rank)):
            left = budget - (time.time() - t0)
            try:
                ui, r = it.next(timeout=max(0.1, left))
            except mp.TimeoutError:
                late = len(rank) - sum(1 for _ in ())
                break
            if ui in results:
                results[ui].merge(r)
            else:
                results[ui] = r
            n = sum(v is None or not known(v) for v in r.violations)
            if n and not nviol:      # broken: look for more of it, but not for long
                budget = min(budget, time.time() - t0 + AFTER)
            nviol += n
            if nviol >= 200:
                break
        pool.terminate()
    out = {}
    for ui, r in results.items():
        out[units[ui].entry.name] = (units[ui], r)
    return out, bad, tcomp, late
