"""P18: the native extensions never touch memory they do not own."""
import contextlib
import copy
import ctypes
import gc
import os

import numpy as np

from checks import p10
from qmon import gen, sysutil, work
from qmon.mon import Inconclusive

RULE = ('A case counts when a random history of operations on a live system ran to its end with the extensions compiled '
        'under address/undefined-behaviour sanitizers or with every index checked, or ran twice with different contents '
        'of fresh memory and gave the same results, or ran with an allocator that checks the ends of every block.')
ASSUMPTIONS = ['uninitialised locals are made visible by filling them with a pattern (gcc -ftrivial-auto-var-init)',
               'scipy, numpy and LAPACK themselves are trusted']
NAMES = ['Pauli', '1vN', 'Redfield', 'Lindblad', 'elph-Pauli', 'elph-Lindblad', 'RTD', 'elph-Redfield', 'elph-1vN',
         'RTD', '2vN', 'Lindblad', '1vN', 'RTD']
REQUIRED = {'quick': {'variant:asan': 1200, 'variant:bounds': 1200, 'variant:plain': 1200, 'variant:heap': 600, 'solve': 10000, 'op': 10000,
                      'matrix-free': 600, 'norm-row': 400, 'restricted': 1000, 'switched': 250, 'poisoned-arrays': 15000,
                      'check:same': 900, 'check:python': 60, 'functions': 200, 'threads': 300},
            'thorough': {'variant:asan': 12000, 'variant:bounds': 12000}}
BUDGET = {'quick': 420, 'thorough': 7200}
CASE_TIMEOUT = 400
HEAP = '/lib/x86_64-linux-gnu/libc_malloc_debug.so.0'
FAMILY = {'Pauli': ['Pauli', 'Lindblad', 'Redfield', '1vN'], 'RTD': ['RTD', 'Pauli']}


def cases(tier, seed):
    num = 1440 if tier == 'quick' else 15000
    out = []
    for v, m in (('asan', num), ('bounds', num), ('plain', num)):
        for k in range(m):
            kind = 'functions' if k % 12 == 11 else NAMES[k % len(NAMES)]
            c = dict(kind=kind, seed=seed*100003+k, deep=tier != 'quick')
            if v != 'plain':
                c['_variant'] = v
            out.append(c)
    if os.path.exists(HEAP):
        # the allocator checks the ends of every block, also of those written by LAPACK
        for k in range(num//2):
            out.append(dict(kind=NAMES[k % len(NAMES)], seed=seed*100003+50000+k, deep=tier != 'quick', heap=True,
                            _env={'LD_PRELOAD': HEAP, 'MALLOC_CHECK_': '3'}))
    return out


# -- contents of fresh memory ----------------------------------------------------------------------

@contextlib.contextmanager
def poison(which, mon):
    """Fresh arrays and fresh blocks of memory hold rubbish."""
    empty, empty_like = np.empty, np.empty_like
    libc = ctypes.CDLL(None)
    fl, it = ((np.nan, -(2**40)-7), (1.3e270, 2**41+5))[which]

    def fill(a):
        try:
            if a.dtype.kind in 'fc':
                a[...] = fl
            elif a.dtype.kind in 'iu':
                a[...] = it if a.dtype.itemsize == 8 else 113
            elif a.dtype.kind == 'b':
                a[...] = bool(which)
            mon.ev('poisoned-arrays')
        except Exception:
            pass
        return a

    def new_empty(*a, **k):
        return fill(empty(*a, **k))

    def new_empty_like(*a, **k):
        return fill(empty_like(*a, **k))
    np.empty, np.empty_like = new_empty, new_empty_like
    libc.mallopt(-6, 0x5a if which else 0xc3)
    try:
        yield
    finally:
        np.empty, np.empty_like = empty, empty_like
        libc.mallopt(-6, 0)


# -- histories -------------------------------------------------------------------------------------

_gomp = []


def threads(n):
    """The number of OpenMP threads, as threadpoolctl would change it."""
    if not _gomp:
        _gomp.append(ctypes.CDLL('libgomp.so.1'))
    _gomp[0].omp_set_num_threads(n)


def observe(s, out):
    for name in ('current', 'energy_current', 'heat_current', 'phi0', 'phi1', 'Ea', 'Tba', 'tleads_array'):
        try:
            x = getattr(s, name)
        except AttributeError:
            continue
        if x is not None:
            out.append((name, np.array(x)))
    out.append(('success', np.array(bool(s.success))))


def accessors(s, rng, out):
    n = s.si.nmany
    if s.phi0 is None or len(s.phi0) == 0 or not hasattr(s, 'get_phi0'):
        return
    for _ in range(4):
        b, bp = int(rng.integers(n)), int(rng.integers(n))
        try:
            out.append(('get_phi0', np.array(s.get_phi0(b, bp))))
        except AttributeError:
            pass


def history(rng, w, mon, count=True):
    """Runs operations; returns what was seen."""
    spec, base = w.spec, work.base_of(w.kt)
    threads(2)
    ev = mon.ev if count else (lambda *a: None)
    out = []
    live = p10.Live(spec)
    if not spec.symmetry and w.indexing in ('sz', 'ssq'):
        live.rule = w.indexing
    s = w.build()
    heavy = base in ('RTD', '2vN')
    nops = int(rng.integers(2, 5 if heavy else 9))
    restricted = False
    fresh = False

    def solve(**kw):
        if s.norm_row < 0:
            # such a row is only good for the present size
            try:
                with sysutil.quiet(), np.errstate(all='ignore'):
                    w.solve(s, **kw)
            except ValueError:
                ev('refused-row')
            s.norm_row = 0
        with sysutil.quiet(), np.errstate(all='ignore'):
            w.solve(s, **kw)
        ev('solve')
        observe(s, out)
    if rng.random() < 0.8:
        solve()
    ops = ['param', 'param', 'norm_row', 'symq', 'solmethod', 'restrict', 'restrict', 'restore', 'switch', 'itype',
           'mfree', 'partial', 'array', 'copy', 'sort', 'access', 'fock', 'threads', 'phi0_init', 'offdiag']
    done = []
    for _ in range(nops):
        op = str(rng.choice(ops))
        E = np.array(s.Ea, dtype=float) if s.Ea is not None else None
        done.append(op)
        if op in ('restrict', 'restore', 'fock', 'switch', 'sort'):
            fresh = False
        if op == 'param' and not (base == '2vN' and restricted):
            meth, arg, what = p10.one_op(rng, live, spec, mon)
            if base == '2vN' and ('D' in what or what.startswith('dband')):
                live.D[:, 0], live.D[:, 1] = -live.D[0, 1], live.D[0, 1]
                meth, arg = 'change', dict(dlst=float(live.D[0, 1]))
            if meth == 'dband':
                s.dband = arg
            else:
                getattr(s, meth)(**arg)
        elif op == 'norm_row' and base != '2vN':
            # row of a population
            m = s.si.npauli
            r = int(rng.integers(0, m))
            if rng.random() < 0.3 and s.phi0 is not None:
                r -= len(s.phi0)
            s.norm_row = r
            ev('norm-row')
        elif op == 'symq' and base != '2vN':
            s.symq = not s.symq
        elif op == 'solmethod' and base != '2vN':
            s.solmethod = str(rng.choice(['solve', 'lsqr']))
        elif op == 'restrict' and E is not None and base != '2vN':
            if rng.random() < 0.4:
                s.remove_coherences(float(rng.choice([0.0, 1e-6, 0.5, 3.0])))
            else:
                c = work.states_window(rng, E)
                if c is not None:
                    s.remove_states(c)
                    restricted = True
            s.norm_row = 0
            ev('restricted')
        elif op == 'restore':
            s.use_all_states()
            restricted = False
        elif op == 'fock' and w.indexing != 'ssq' and spec.n > 1 and not spec.symmetry and base not in ('RTD', '2vN') \
                and not restricted:
            dim = 2**spec.n
            with sysutil.quiet():
                s.remove_fock_states([int(x) for x in rng.choice(dim, size=int(rng.integers(1, dim//2+1)), replace=False)])
            s.norm_row = 0
            restricted = True
            s.phi0_init = None
            if s.mfreeq:
                run_free(s, w, out, ev)
            else:
                solve()
            ev('restricted')
        elif op == 'switch' and base not in ('2vN',) and w.indexing in (None, 'charge') and not spec.symmetry and s.indexing == 'charge':
            fam = FAMILY.get(base, FAMILY['Pauli'])
            new = str(rng.choice(fam))
            s.kerntype = ('py' if rng.random() < 0.15 and spec.n < 3 else '')+new
            if new == 'RTD':
                s.itype = 1
            s.norm_row = 0
            ev('switched')
        elif op == 'itype' and not heavy:
            s.itype = int(rng.choice([1, 2, 3]))
        elif op == 'mfree' and not heavy and spec.n <= (2 if w.elph else 3):
            s.mfreeq = not s.mfreeq
            s.symq = True
        elif op == 'partial':
            if s.Ea is not None and done.count('param') == 0 and not restricted:
                with sysutil.quiet(), np.errstate(all='ignore'):
                    s.solve(masterq=False)
                    if base != '2vN':
                        s.solve(qdq=False, currentq=False)
        elif op == 'array':
            # whole arrays put in the place of others, also of other types and layouts
            nl = s.si.nleads
            how = int(rng.integers(5))
            if how == 0:
                s.leads.mulst = np.array([float(x) for x in s.leads.mulst], dtype=rng.choice(['f8', 'f4']))
            elif how == 1:
                s.leads.tlst = [float(x) for x in s.leads.tlst]
            elif how == 2:
                big = np.ones(2*len(s.leads.mulst))
                big[::2] = s.leads.mulst
                s.leads.mulst = big[::2]
            elif how == 3 and s.leads.Tba is not None:
                s.leads.Tba = np.asfortranarray(np.array(s.leads.Tba))
            elif how == 4:
                s.leads.dlst = np.array(s.leads.dlst).T.copy().T
            gc.collect()
        elif op == 'copy':
            s.make_kern_copy = not s.make_kern_copy
        elif op == 'sort' and E is not None and base != '2vN':
            s.sort_eigenstates([0, 1, 2][:int(rng.integers(1, 4))] if w.indexing == 'ssq' else None)
        elif op == 'access' and fresh:
            accessors(s, rng, out)
        elif op == 'threads':
            threads(int(rng.choice([1, 2, 3, 5, 8, 12])))
            ev('threads')
        elif op == 'phi0_init' and not heavy:
            if s.phi0 is not None and s.success:
                s.phi0_init = np.array(s.phi0)
        elif op == 'offdiag' and base == 'RTD':
            s.off_diag_corrections = not s.off_diag_corrections
        ev('op')
        if rng.random() < 0.6:
            fresh = True
            if s.mfreeq:
                run_free(s, w, out, ev)
            else:
                if s.phi0_init is not None:
                    s.phi0_init = None
                solve()
    if s.mfreeq:
        run_free(s, w, out, ev)
    s.phi0_init = None
    s.mfreeq = False
    solve()
    accessors(s, rng, out)
    if rng.random() < 0.3:
        k = s.kern
        appr = s.appr
        out.append(('kern', np.array(k)))
        s = None
        gc.collect()
        out.append(('kern', np.array(k)))
        observe(appr, out)
        return out, None, live, done
    return out, s, live, done


def run_free(s, w, out, ev):
    """Matrix-free solution; phi0_init of another length is not accepted."""
    n = None
    if s.phi0_init is not None:
        n = len(s.phi0_init)
    s.norm_row = max(0, s.norm_row)
    try:
        with sysutil.quiet(), np.errstate(all='ignore'):
            s.solve()
    except ValueError as e:
        if n is None:
            raise
        s.phi0_init = None
        ev('refused-start')
        return
    ev('matrix-free')
    out.append(('free-size', np.array(len(s.phi0))))


def run_case(case, mon):
    variant = os.environ.get('QMON_VARIANT', 'plain')
    if case.get('heap'):
        variant = 'heap'
    mon.ev('variant:'+variant)
    if case['kind'] == 'functions':
        functions(gen.rng_of('p18', case['seed']), mon, variant)
        return
    base = case['kind'].replace('elph-', '')

    def go(which, count):
        rng = gen.rng_of('p18', case['seed'])
        w = work.draw(rng, case['kind'], py=False, itype=None if base in ('RTD', '2vN') else int(rng.choice([1, 2, 3])),
                      sym=None, nmax=3, phfuncs=None)
        w.opts.pop('itype_ph', None)
        if w.elph:
            w.opts['itype_ph'] = 2
            w.itype = 2 if w.itype == 1 else w.itype
        with poison(which, mon):
            return (w,)+history(rng, w, mon, count)
    w, a, s, live, done = go(0, True)
    mon.key(w.name, variant, w.indexing, '+'.join(done[:3]))
    mon.key(w.name, w.spec.n, w.spec.nl, w.sym, variant)
    if variant == 'plain':
        _, b, _, _, _ = go(1, False)
        mon.true('same', len(a) == len(b), 'different number of results')
        for i, ((n1, x), (n2, y)) in enumerate(zip(a, b)):
            if not (n1 == n2 and x.shape == y.shape and alike(x, y)):
                mon.bad('memory-contents', '%s of step %d depends on the contents of fresh memory: %r %r (%r)' % (
                    n1, i, x.ravel()[:6], y.ravel()[:6], done), sig=n1)
                break
    elif s is not None and 'switch' not in done and not (base in ('RTD', '2vN') and w.spec.n > 1):
        python(mon, w, s, live, done)


def alike(x, y):
    if np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc'):
        return True
    if x.dtype.kind not in 'fc':
        return False
    fin = np.isfinite(x)
    if np.any(fin != np.isfinite(y)):
        return False
    # rounding may depend on the alignment of arrays
    return bool(np.all(np.abs(x[fin]-y[fin]) <= 1e-7*np.max(np.abs(x[fin]), initial=0.0)))


def python(mon, w, s, live, done):
    """The same final system with the pure Python approach (values of uninitialised locals would show here)."""
    if set(done) & {'restrict', 'fock', 'array', 'sort', 'itype'} or not s.success:
        return
    w2 = copy.copy(w)
    w2.spec = p10.final_spec(w.spec, live)
    f = w2.build(kerntype='py'+w.kt)
    w2.solve(f, qdq=True)
    gap = sysutil.kern_gap(f)
    if not f.success or not gap > 1e-4:
        return
    if sysutil.min_split(f) < 1e-4:
        return
    if w.elph:
        phs = 1e6*np.max(np.abs(np.array(f.baths.Vbbp)))**2*np.max(live.Tph)
        if 1e-13*phs/sysutil.gamma_scale(f) > 1e-8:
            return
    if base_off(s, f):
        return
    gam = sysutil.gamma_scale(f)
    mon.close('python', np.array(s.current), np.array(f.current), rtol=0, atol=1e-5*gam, what=done)


def base_off(s, f):
    return work.base_of(s.kerntype) == 'RTD' and not s.off_diag_corrections


# -- functions -------------------------------------------------------------------------------------

def functions(rng, mon, variant):
    from qmeq.specfunc import c_specfunc as cs
    from qmeq.specfunc import specfunc as ps
    mon.ev('functions')
    for _ in range(20):
        x = float(rng.choice([0.0, 1e-300, -1e-300, 1e-9, -1e-9, 1.0, -1.0, 700.0, -700.0, 710.0, -710.0, 1e5, -1e5, 1e308, -1e308]))
        x = x*float(rng.uniform(0.5, 1.0))
        y = float(rng.normal()*10**rng.uniform(-9, 4))
        D = float(10**rng.uniform(0, 5))
        got = [cs.c_fermi_func(x), cs.c_diff_fermi(x), cs.c_phi(y, D, -D), cs.c_delta_phi(y, y+1, D, -D), cs.c_diff_phi(y),
               cs.c_diff2_phi(y), cs.c_func_pauli(y, 0.3, 0.7, -D, D, int(rng.choice([0, 1, 2])))]
        it = int(rng.choice([1, 2, 3]))
        got.append(cs.c_func_1vN(y, 0.3, 0.7, -D, D, it, 1000))
        mon.true('finite', np.isfinite(got[0]) and np.isfinite(got[1]), lambda: 'fermi %r' % x)
        b = cs.c_BW_Ozaki(float(10**rng.uniform(0.5, 3)))
        e = rng.normal(size=3)*3
        for f in (cs.c_integralD, cs.c_integralX):
            for im in (False, True):
                T1, T2 = rng.uniform(0.5, 2, 2)
                f(int(rng.choice([-1, 1])), int(rng.choice([-1, 1])), float(e[0]), float(e[1]), float(e[2]), float(T1),
                  float(T2), 0.2, -0.1, D, b, im)
    mon.key('functions', variant)
