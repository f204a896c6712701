"""P19: results do not depend on the number of threads."""
import copy
import ctypes
import os
import threading

import numpy as np

from checks import p10
from qmon import gen, sysutil, work
from qmon.mon import Inconclusive

RULE = ('A case counts when the same live system was solved with several numbers of threads (or next to other systems in '
        'other threads) and its kernel, state and currents were compared with those of one thread, or when its parallel '
        'sections ran under the thread sanitizer with real teams of threads.')
ASSUMPTIONS = ['numpy, scipy and LAPACK are not part of what is checked for data races',
               'stores of one flag value by several threads, read only after the section, are not counted as a race']
RACE = ['RTD', 'RTD', 'Pauli', 'Redfield', 'RTD', '1vN', 'Lindblad', 'elph-Pauli', 'RTD', 'elph-Redfield', '2vN',
        'elph-Lindblad', 'RTD', 'elph-1vN', 'RTD']
COUNT = ['RTD', 'Redfield', 'RTD', 'Pauli', '1vN', 'RTD', 'Lindblad', 'elph-Redfield', 'RTD', 'elph-Pauli', 'RTD', 'elph-1vN',
         'elph-Lindblad', '2vN', 'RTD']
REQUIRED = {'quick': {'variant:tsan': 250, 'team': 2000, 'variant:plain': 400, 'check:current': 2500, 'check:kern': 1500,
                      'python-threads': 60, 'rtd-team': 400, 'count-changed': 1000, 'variant:bounds': 100},
            'thorough': {'variant:tsan': 3000, 'variant:plain': 5000}}
BUDGET = {'quick': 500, 'thorough': 7200}
CASE_TIMEOUT = 300
ENVS = [dict(OMP_NUM_THREADS='1'), dict(OMP_NUM_THREADS='2'), dict(OMP_NUM_THREADS='5'),
        dict(OMP_NUM_THREADS='8', OMP_DYNAMIC='TRUE'), dict(OMP_NUM_THREADS='6', OMP_THREAD_LIMIT='3'),
        dict(OMP_NUM_THREADS='4', OMP_SCHEDULE='dynamic,1', GOMP_SPINCOUNT='0')]


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for k in range(420 if q else 4000):
        out.append(dict(kind='race', name=RACE[k % len(RACE)], seed=seed*100003+k, _variant='tsan', _nproc=6))
    for k in range(840 if q else 9000):
        env = ENVS[k % len(ENVS)]
        kind = 'python' if k % 9 == 8 else 'count'
        out.append(dict(kind=kind, name=COUNT[(k//len(ENVS)) % len(COUNT)], seed=seed*100003+50000+k, _env=env, _nproc=4))
    for k in range(150 if q else 1500):
        out.append(dict(kind='count', name=COUNT[k % len(COUNT)], seed=seed*100003+80000+k, _variant='bounds', _nproc=4))
    return out


_lib = {}


def lib():
    """Whoever makes the teams in this process: the shim of the sanitizer build or libgomp."""
    if not _lib:
        if os.environ.get('QMON_VARIANT') == 'tsan':
            L = ctypes.CDLL(os.path.join(os.environ['QMON_BUILD'], 'libgompshim.so'))
            L.qmon_last_order.restype = ctypes.c_uint64
            L.qmon_regions.restype = L.qmon_big_regions.restype = ctypes.c_long
            L.qmon_seed.argtypes = [ctypes.c_ulonglong, ctypes.c_int]
        else:
            L = ctypes.CDLL('libgomp.so.1')
        _lib['L'] = L
    return _lib['L']


def set_threads(n):
    lib().omp_set_num_threads(int(n))


def draw(rng, name, real):
    base = name.replace('elph-', '')
    gkw = {}
    if base == 'RTD':
        gkw = dict(n=int(rng.choice([1, 2, 2, 3])), nl=int(rng.choice([1, 2, 2, 3])))
        if gkw['n'] == 3:
            gkw['nl'] = int(rng.choice([1, 2]))
        if real:
            gkw['cplx'] = False
    return work.draw(rng, name, py=False, itype=1 if base == 'RTD' else 0 if base == '2vN' else int(rng.choice([1, 2, 3])),
                     sym=False, nmax=4, **gkw)


def solved(w, s, **kw):
    with sysutil.quiet(), np.errstate(all='ignore'):
        w.solve(s, **kw)
    o = sysutil.obs(s)
    if work.base_of(w.kt) != '2vN':
        o['kern'] = np.array(s.kern)
    return o, bool(s.success)


def tolerance(w, s, kern):
    gap = max(sysutil.kern_gap(s), 1e-15) if kern else 1e-2
    return gap, w.tol(gap)*10


def same(mon, w, s, a, b, tol, what):
    gam, es = sysutil.scales(s, w.spec)
    if 'kern' in a and 'kern' in b:
        K = a['kern']
        mon.close('kern', b['kern'], K, rtol=0, atol=1e-12*np.max(np.abs(K)), what=what)
    amp = max(1.0, float(np.max(np.abs(a['phi0'])))) if len(a['phi0']) else 1.0
    mon.close('phi0', b['phi0'], a['phi0'], rtol=0, atol=tol*amp, what=what)
    mon.close('current', b['current'], a['current'], rtol=0, atol=tol*gam*amp, what=what)
    for k in ('energy', 'heat'):
        fin = np.isfinite(a[k])
        mon.true('finite', bool(np.all(np.isfinite(b[k]) == fin)), what)
        if np.any(fin):
            D = np.max(np.abs(s.dlst)) if w.itype == 1 else 0.0
            mon.close(k, b[k][fin], a[k][fin], rtol=0, atol=tol*amp*(es+1e-2*gam*D), what=what)


def change(rng, w, s, live):
    """Some change of the parameters between solves."""
    meth, arg, what = p10.one_op(rng, live, w.spec, None)
    if meth == 'dband':
        s.dband = arg
    else:
        getattr(s, meth)(**arg)
    return what


def run_case(case, mon):
    rng = gen.rng_of('p19', case['seed'])
    variant = os.environ.get('QMON_VARIANT', 'plain')
    mon.ev('variant:'+variant)
    if case['kind'] == 'python':
        return python(case, mon, rng)
    race = variant == 'tsan'
    if race:
        lib().qmon_seed(case['seed'], int(rng.choice([0, 20, 100])))
    w = draw(rng, case['name'], real=race and rng.random() < 0.7)
    base = work.base_of(w.kt)
    live = p10.Live(w.spec)
    if w.indexing in ('sz', 'ssq'):
        live.rule = w.indexing
    first = int(rng.choice([1, 2, 3, 4, 7]))
    set_threads(first)
    s = w.build()
    s.make_kern_copy = True
    free = base in ('Pauli', 'Redfield', '1vN', 'Lindblad') and w.spec.n <= 2 and rng.random() < 0.3
    solved(w, s)
    for step in range(2 if race else 3):
        if step and base != '2vN':
            change(rng, w, s, live)
        set_threads(1)
        a, ok = solved(w, s)
        gap, tol = tolerance(w, s, 'kern' in a)
        counts = [int(x) for x in rng.choice([2, 3, 4, 5, 6, 8, 11, 16], size=2 if race else 3, replace=False)]
        last = 1
        for n in counts:
            set_threads(n)
            mon.ev('count-changed')
            if race:
                r0 = lib().qmon_big_regions()
            b, ok2 = solved(w, s)
            if race:
                k = lib().qmon_big_regions()-r0
                mon.ev('team', k)
                if k:
                    mon.key('order', case['name'], n, lib().qmon_last_order() % 1000003)
                if base == 'RTD':
                    mon.ev('rtd-team', k)
            mon.true('success', ok == ok2, '%s %d threads' % (w.name, n))
            if ok and ok2 and gap > 1e-7:
                same(mon, w, s, a, b, tol, '%s: 1 and %d threads' % (w.name, n))
            elif 'kern' in a:
                mon.close('kern', b['kern'], a['kern'], rtol=0, atol=1e-11*np.max(np.abs(a['kern'])), what=w.name)
            mon.key(w.name, w.spec.n, w.spec.nl, n, variant)
            last = n
        if free and ok and gap > 1e-4:
            applied(mon, w, s, rng, counts)
    # an object made with many threads from the start
    set_threads(8)
    f = copy.copy(w)
    f.spec = p10.final_spec(w.spec, live)
    t = f.build()
    t.make_kern_copy = True
    c, ok3 = solved(f, t)
    if ok and ok3 and gap > 1e-7 and base not in ('Pauli', 'RTD') or base in ('Pauli', 'RTD') and sysutil.min_split(t) > 1e-4 and ok:
        gam = sysutil.gamma_scale(t)
        mon.close('fresh', c['current'], a['current'], rtol=0, atol=max(tol, 1e-8)*10*gam/min(1.0, max(gap, 1e-7)*1e5), what=w.name)


def applied(mon, w, s, rng, counts):
    """The matrix-free application of the generator."""
    s.mfreeq = True
    out = []
    with sysutil.quiet(), np.errstate(all='ignore'):
        for n in [1]+counts:
            set_threads(n)
            s.solve()
            x = np.linspace(-1, 1, len(s.phi0))
            out.append(np.array(s.appr.generate_vec(x)))
    s.mfreeq = False
    for n, y in zip(counts, out[1:]):
        mon.close('applied', y, out[0], rtol=0, atol=1e-11*max(np.max(np.abs(out[0])), 1e-30), what='%s %d' % (w.name, n))


def python(case, mon, rng):
    """Independent systems solved in Python threads at the same time."""
    ws = []
    for _ in range(int(rng.integers(2, 6))):
        w = draw(rng, str(rng.choice([case['name'], 'RTD', 'Redfield', 'Lindblad', 'Pauli', '1vN'])), real=False)
        ws.append(w)
    refs, systems = [], []
    set_threads(1)
    for w in ws:
        s = w.build()
        s.make_kern_copy = True
        refs.append(solved(w, s))
        s = w.build()
        s.make_kern_copy = True
        systems.append(s)
    n = int(rng.choice([1, 2, 3]))
    got = [[] for _ in ws]
    start = threading.Barrier(len(ws))

    def go(i):
        try:
            set_threads(n)
            start.wait(60)
            for _ in range(3):
                with np.errstate(all='ignore'):
                    ws_solve(ws[i], systems[i])
                s = systems[i]
                o = sysutil.obs(s)
                if work.base_of(ws[i].kt) != '2vN':
                    o['kern'] = np.array(s.kern)
                got[i].append((o, bool(s.success)))
        except Exception as e:
            got[i].append(e)
    ths = [threading.Thread(target=go, args=(i,)) for i in range(len(ws))]
    with sysutil.quiet():
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    mon.ev('python-threads')
    for w, s, (a, ok), g in zip(ws, systems, refs, got):
        for r in g:
            if isinstance(r, Exception):
                mon.bad('exception-in-thread', '%s %r' % (w.name, r))
                continue
            b, ok2 = r
            mon.true('success', ok == ok2, w.name)
            gap, tol = tolerance(w, s, 'kern' in b)
            if ok and ok2 and gap > 1e-7:
                same(mon, w, s, a, b, tol, '%s in a Python thread' % w.name)
        mon.key('python', w.name, len(ws), n)


def ws_solve(w, s):
    s.solve(**w.sv)
