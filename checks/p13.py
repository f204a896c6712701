"""P13: equivalent inputs give equal systems; inputs and instances stay isolated; solving again repeats exactly."""
import copy

import numpy as np

from qmon import gen, sysutil, work
from qmon.mon import Inconclusive

RULE = ('A case counts when two descriptions of one system in different containers (or as many-body matrices) were '
        'solved and compared, when snapshots of all caller containers and of bystander systems were compared after a '
        'history of operations, or when a solve was repeated and compared bit by bit.')
ASSUMPTIONS = ['unique stationary state for comparisons between different containers (gap > 1e-8)']
KINDS = ['forms', 'isolation', 'repeat', 'manybody', 'forms', 'defaults', 'isolation', 'manybody', 'repeat', 'mutate']
NAMES = ['Pauli', 'Lindblad', 'Redfield', '1vN', 'elph-Pauli', 'elph-Lindblad', 'elph-Redfield', 'elph-1vN', 'RTD', '2vN',
         'Pauli', '1vN', 'Lindblad']
REQUIRED = {'quick': {'check:form-current': 400, 'check:snapshot': 1500, 'check:bystander': 300, 'check:repeat': 500,
                      'check:mb-current': 350, 'check:defaults': 150, 'check:mutated-caller': 150, 'form:coulomb-array': 20,
                      'form:hsingle-full': 20, 'form:velph-array': 30, 'form:approach-class': 60, 'form:approach-class-live': 15},
            'thorough': {'check:form-current': 6000}}
BUDGET = {'quick': 400, 'thorough': 5400}


def cases(tier, seed):
    num = 4800 if tier == 'quick' else 40000
    return [dict(kind=KINDS[k % len(KINDS)], seed=seed*100003+k) for k in range(num)]


# ------------------------------------------------------------------ containers
def restyle(rng, w, kw, mon):
    """The same keyword arguments in other containers."""
    spec = w.spec
    sym = bool(spec.symmetry)
    n, nl = (spec.n//2, spec.nl//2) if sym else (spec.n, spec.nl)
    cplx = 'complex' in spec.tags
    dt = complex if cplx else float
    kw = dict(kw)

    def form(options, name):
        f = str(rng.choice(options))
        mon.ev('form:%s-%s' % (name, f))
        return f

    hs = kw['hsingle']
    f = form(['dict', 'list', 'array', 'full', 'lower', 'tuples'], 'hsingle')
    if f == 'list':
        kw['hsingle'] = [[i, j, x] for (i, j), x in hs.items()]
    elif f == 'tuples':
        kw['hsingle'] = [(i, j, x) for (i, j), x in hs.items()]
    elif f == 'array':
        a = np.zeros((n, n), dtype=dt)
        for (i, j), x in hs.items():
            a[i, j] = x
            a[j, i] = np.conj(x)
        kw['hsingle'] = a
    elif f == 'full' and not sym:
        d = {}
        for (i, j), x in hs.items():
            d[(i, j)] = x
            if i != j:
                d[(j, i)] = np.conj(x)
        kw['hsingle'] = d
        kw['herm_hs'] = False
    elif f == 'lower':
        kw['hsingle'] = {((j, i) if i != j else (i, j)): (np.conj(x) if i != j else x) for (i, j), x in hs.items()}
    U = kw['coulomb']
    f = form(['dict', 'list', 'array'], 'coulomb')
    if f == 'list' or (f == 'array' and not U):
        kw['coulomb'] = [[*k, x] for k, x in U.items()]
    elif f == 'array':
        kw['coulomb'] = np.array([[*k, x] for k, x in U.items()])
    t = kw['tleads']
    f = form(['dict', 'list', 'array'], 'tleads')
    if f == 'list':
        kw['tleads'] = [[*k, x] for k, x in t.items()]
    elif f == 'array':
        a = np.zeros((nl, n), dtype=dt)
        for k, x in t.items():
            a[k] = x
        kw['tleads'] = a
    for p in ('mulst', 'tlst'):
        d = kw[p]
        f = form(['dict', 'list', 'array'], p)
        if f == 'list':
            kw[p] = [d[l] for l in range(nl)]
        elif f == 'array':
            kw[p] = np.array([d[l] for l in range(nl)])
        if len(set(d.values())) == 1 and rng.random() < 0.5:
            kw[p] = float(d[0])
            mon.ev('form:scalar')
    if work.base_of(w.kt) != '2vN':
        D = spec.explicit().D_arr()[:nl]
        if np.isscalar(spec.D):
            f = form(['scalar', 'dict', 'list', 'pairs', 'array'], 'dband')
            kw['dband'] = {'scalar': spec.D, 'dict': {l: spec.D for l in range(nl)}, 'list': [spec.D]*nl,
                           'pairs': [[-spec.D, spec.D]]*nl, 'array': np.array([[-spec.D, spec.D]]*nl)}[f]
        else:
            f = form(['dict', 'pairs', 'array'], 'dband')
            kw['dband'] = {'dict': {l: list(D[l]) for l in range(nl)}, 'pairs': [list(d) for d in D], 'array': D.copy()}[f]
    if w.elph:
        e = spec.elph
        nb = e['nb']
        v = kw['velph']
        f = form(['dict', 'list', 'array'], 'velph')
        if f == 'list':
            kw['velph'] = [[*k, x] for k, x in v.items()]
        elif f == 'array':
            a = np.zeros((nb, n, n), dtype=dt)
            for k, x in v.items():
                a[k] = x
            kw['velph'] = a
        f = form(['dict', 'list', 'array'], 'tlst_ph')
        T = [e['T'][b] for b in range(nb)]
        kw['tlst_ph'] = {'dict': dict(e['T']), 'list': T, 'array': np.array(T)}[f]
        f = form(['dict', 'list', 'array'], 'dband_ph')
        D = [list(e['D'][b]) for b in range(nb)]
        kw['dband_ph'] = {'dict': {b: D[b] for b in range(nb)}, 'list': D, 'array': np.array(D)}[f]
    if rng.random() < 0.3 and not sym:
        kw['mtype_qd'] = complex
        kw['mtype_leads'] = complex
    return kw


def builder(w):
    import qmeq
    return qmeq.BuilderElPh if w.elph else qmeq.Builder


def args_of(w):
    kw = w.spec.kwargs()
    kw.update(w.opts)
    kw.update(kerntype=w.kt, itype=w.itype, indexing=w.indexing)
    if w.elph:
        f = w.spec.elph.get('f')
        kw['bath_func'] = None if f is None else [sysutil.wrap_bath(x) for x in f]
    return kw


def scales(w, s):
    ex = w.spec.explicit()
    gam = sysutil.gamma_scale(s)
    es = gam*(np.ptp(np.array(s.Ea, dtype=float))+np.max(np.abs(ex.mu_arr()))+np.max(ex.T_arr()))
    if w.itype in (0, 1):
        es += gam*np.max(np.abs(ex.D_arr()))*1e-2
    return gam, es


def same(mon, kind, w, s, f, what=None, states=True, factor=1.0):
    """Two systems that must be equal up to the conditioning of the problem."""
    base = work.base_of(w.kt)
    gap = sysutil.kern_gap(f)
    if base == '2vN':
        gap *= 1e-2
    if not gap > 1e-8:
        raise Inconclusive('stationary state not unique')
    split = sysutil.min_split(f)
    if base in ('Pauli', 'RTD') and split < 1e-5:
        raise Inconclusive('nearly degenerate levels')
    if w.elph and len(f.si.statesdm) and hasattr(f.qd, 'vecslst') and sysutil.phonon_split(f) < 1e-5:
        raise Inconclusive('levels that phonons connect are nearly degenerate')
    if s.success != f.success:
        mon.bad(kind + '-success', '%s' % what)
        return
    if not f.success:
        raise Inconclusive('solver failed')
    a, b = sysutil.obs(s), sysutil.obs(f)
    gam, es = scales(w, f)
    amp = max(1.0, float(np.max(np.abs(b['phi0']))))
    tol = w.tol(gap)*amp*3*factor
    if base in ('Pauli', 'RTD') and split < np.inf:
        tol += 1e-12/split
    if base == 'RTD':
        tol += 1e-7*amp
    if w.elph:
        phs = 1e6*2*np.pi*np.max(np.abs(np.array(f.baths.Vbbp)))**2*np.max(f.baths.tlst_ph)
        tol += 1e-13*phs/gam*amp
    mon.close(kind + '-energies', np.sort(np.array(s.Ea)), np.sort(np.array(f.Ea)), rtol=0,
              atol=1e-11*max(1.0, np.max(np.abs(np.array(f.Ea)))), what=what)
    mon.close(kind + '-current', a['current'], b['current'], rtol=0, atol=tol*gam, what=what)
    fin = np.isfinite(b['energy'])
    mon.true(kind + '-nan', bool(np.all(np.isfinite(a['energy']) == fin)), lambda: '%s' % what)
    mon.close(kind + '-energy', a['energy'][fin], b['energy'][fin], rtol=0, atol=tol*es, what=what)
    mon.close(kind + '-heat', a['heat'][fin], b['heat'][fin], rtol=0, atol=tol*es, what=what)
    if states:
        mon.close(kind + '-state', sysutil.fock_rho(s), sysutil.fock_rho(f), rtol=0, atol=tol, what=what)


def draw(rng, **kw):
    name = str(rng.choice(NAMES))
    base = name.replace('elph-', '')
    return work.draw(rng, name, degenerate=False if base in ('Pauli', 'RTD') else None, **kw)


def forms(case, mon, rng):
    w = draw(rng, sym=None)
    kw = args_of(w)
    C = builder(w)
    f = C(**kw)
    if not w.kt.startswith('py'):
        f.make_kern_copy = True
    w.solve(f)
    kw2 = restyle(rng, w, kw, mon)
    if rng.random() < 0.3:
        # the approach itself (or one derived from it) in place of its name
        kw2['kerntype'] = type(f.appr)
        if rng.random() < 0.4:
            kw2['kerntype'] = type('Own', (type(f.appr),), {})
        mon.ev('form:approach-class')
    s = C(**kw2)
    if rng.random() < 0.1:
        s.kerntype = type(f.appr)
        mon.ev('form:approach-class-live')
    w.solve(s)
    mon.true('form-approach', s.kerntype == f.kerntype and s.itype == f.itype and s.indexing == f.indexing,
             lambda: '%r %r %r for %r' % (s.kerntype, s.itype, s.indexing, w.key()))
    same(mon, 'form', w, s, f, what=lambda: str({k: type(v).__name__ for k, v in kw2.items()}))
    # the parameters the object shows agree as well
    mon.true('form-mu', np.allclose(s.mulst, f.mulst, rtol=0, atol=0) and np.allclose(s.tlst, f.tlst, rtol=0, atol=0)
             and np.allclose(s.dlst, f.dlst, rtol=0, atol=0), lambda: str(kw2))
    mon.true('form-tleads', {k: v for k, v in s.tleads.items() if v != 0} == {k: v for k, v in f.tleads.items() if v != 0},
             lambda: '%s %s' % (s.tleads, f.tleads))
    mon.close('form-tarray', np.array(s.tleads_array), np.array(f.tleads_array), rtol=0, atol=0)
    mon.key(*(w.key()+tuple(sorted(type(v).__name__ for v in kw2.values()))))


# ------------------------------------------------------------------ many-body matrices
def manybody(case, mon, rng):
    import qmeq
    w = draw(rng, sym=False, indexing=str(rng.choice(['charge', 'Lin'])))
    base = work.base_of(w.kt)
    spec = w.spec
    if base == 'RTD':
        w.indexing = 'charge'
    f = w.build()
    if not w.kt.startswith('py'):
        f.make_kern_copy = True
    w.solve(f)
    N = f.si.nmany
    Ea, Tba = np.array(f.Ea, dtype=float), np.array(f.Tba)
    q = sysutil.charges(f)
    perm = rng.permutation(N) if rng.random() < 0.6 else np.arange(N)
    inv = np.argsort(perm)
    real = np.max(np.abs(Tba.imag)) == 0
    Ea2, q2, T2 = Ea[perm], q[perm]+int(rng.integers(0, 3)), Tba[:, perm][:, :, perm]
    if real and rng.random() < 0.5:
        T2 = T2.real.copy()
    kw = dict(Ea=Ea2 if rng.random() < 0.5 else list(Ea2), Na=[int(x) for x in q2] if rng.random() < 0.5 else np.array(q2),
              Tba=T2, mulst=dict(spec.mu), tlst=dict(spec.T), kerntype=w.kt, itype=w.itype, symq=w.opts['symq'])
    kw['dband'] = spec.kwargs()['dband']
    if base == '2vN':
        kw['kpnt'] = w.opts['kpnt']
    if w.elph:
        e = spec.elph
        kw.update(Vbbp=np.array(f.Vbbp)[:, perm][:, :, perm], tlst_ph=dict(e['T']), dband_ph=dict(e['D']),
                  itype_ph=w.opts['itype_ph'], bath_func=None if e.get('f') is None else [sysutil.wrap_bath(x) for x in e['f']])
        C = qmeq.BuilderManyBodyElPh
    else:
        C = qmeq.BuilderManyBody
    keep = copy.deepcopy({k: v for k, v in kw.items() if k != 'bath_func'})
    s = C(**kw)
    if base == 'RTD':
        s.leads.tleads_array = np.array(f.tleads_array)
        s.si.nsingle = f.si.nsingle
    w.solve(s, qdq=False)
    gap = sysutil.kern_gap(f)*(1e-2 if base == '2vN' else 1)
    if not gap > 1e-8:
        raise Inconclusive('stationary state not unique')
    same(mon, 'mb', w, s, f, what='%s perm %s' % (w.name, list(perm)), states=False)
    # element by element: the same state in permuted labels
    ra = sysutil.rho_full(f)
    rb = sysutil.rho_full(s)
    amp = max(1.0, np.max(np.abs(ra)))
    tol = w.tol(gap)*amp*3+(1e-7 if base == 'RTD' else 0)
    if w.elph:
        phs = 1e6*2*np.pi*np.max(np.abs(np.array(f.baths.Vbbp)))**2*np.max(f.baths.tlst_ph)
        tol += 1e-13*phs/sysutil.gamma_scale(f)*amp
    mon.close('mb-state', rb, ra[np.ix_(perm, perm)], rtol=0, atol=tol, what='%s perm %s' % (w.name, list(perm)))
    check_snap(mon, keep, kw, 'many-body build')
    # phi1 in permuted labels
    if base in work.COH and s.phi1 is not None:
        bad = 0.0
        for l in range(spec.nl):
            for b in range(N):
                for c in range(N):
                    if q[c] == q[b]+1:
                        bad = max(bad, abs(s.get_phi1(l, int(inv[c]), int(inv[b]))-f.get_phi1(l, c, b)))
        mon.small('mb-phi1', bad, tol*max(1.0, np.max(np.abs(np.array(f.phi1))))*10)
    mon.key(*(w.key()+('mb', not np.all(perm == np.arange(N)))))


# ------------------------------------------------------------------ isolation
def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)
    return a == b or a is b


def again(x, y):
    """A repeated solve: identical (rounding of a differently aligned vector operation is tolerated)."""
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if np.array_equal(x, y, equal_nan=True):
        return True
    fin = np.isfinite(x)
    return bool(np.array_equal(fin, np.isfinite(y)) and np.max(np.abs(x[fin]-y[fin])) <= 1e-12*np.max(np.abs(x[fin])))


def check_snap(mon, keep, kw, what):
    bad = [k for k in keep if not equal(keep[k], kw[k])]
    mon.true('snapshot', not bad, lambda: '%s: caller container(s) %s modified: %s -> %s' % (
        what, bad, [keep[k] for k in bad], [kw[k] for k in bad]))


def params(s, elph):
    out = dict(hs=copy.deepcopy(s.hsingle), U=copy.deepcopy(s.coulomb), t=copy.deepcopy(s.tleads), mu=np.array(s.mulst),
               T=np.array(s.tlst), D=np.array(s.dlst), ta=np.array(s.tleads_array), Tba=np.array(s.Tba),
               statesdm=copy.deepcopy(list(s.si.statesdm)))
    if elph:
        out.update(v=copy.deepcopy(s.velph), Tph=np.array(s.tlst_ph), Dph=np.array(s.dlst_ph))
    return out


def operate(rng, w, s, mon, keeps):
    """A random operation with fresh caller containers; every container is registered for the snapshot test."""
    spec = w.spec
    sym = bool(spec.symmetry)
    n, nl = (spec.n//2, spec.nl//2) if sym else (spec.n, spec.nl)
    T0 = float(np.mean(list(spec.T.values())))
    r = int(rng.integers(9 if w.elph else 7))
    form = str(rng.choice(['dict', 'list', 'array']))
    meth = str(rng.choice(['add', 'change']))
    if r == 0:
        i = int(rng.integers(n))
        x = gen.r3(rng.uniform(-1, 1)*T0)
        arg = {'hsingle': {'dict': {(i, i): x}, 'list': [[i, i, x]], 'array': np.diag([x]*n)}[form]}
    elif r == 1:
        l, i = int(rng.integers(nl)), int(rng.integers(n))
        x = gen.r3(0.1*np.sqrt(T0)*rng.uniform(0.5, 1))
        arg = {'tleads': {'dict': {(l, i): x}, 'list': [[l, i, x]], 'array': np.full((nl, n), x)}[form]}
    elif r == 2:
        x = gen.r3(rng.uniform(-1, 1)*T0)
        arg = {'mulst': {'dict': {0: x}, 'list': [x]*nl, 'array': np.array([x]*nl)}[form]}
    elif r == 3:
        x = gen.r3(rng.uniform(0.1, 0.5)*T0)
        arg = {'tlst': {'dict': {0: x}, 'list': [x]*nl, 'array': np.array([x]*nl)}[form]}
        meth = 'add'
    elif r == 4 and n > 1:
        x = gen.r3(rng.uniform(0.5, 3)*T0)
        arg = {'coulomb': {(0, 1, 1, 0): x} if form == 'dict' else [[0, 1, 1, 0, x]]}
    elif r == 5 and work.base_of(w.kt) != '2vN':
        x = gen.r3(rng.uniform(50, 80)*T0)
        arg = {'dlst': {'dict': {l: [-x, x] for l in range(nl)}, 'list': [[-x, x] for l in range(nl)],
                        'array': np.array([[-x, x]]*nl)}[form]}
        meth = 'change'
    elif r == 7:
        nb = spec.elph['nb']
        x = gen.r3(0.05*np.sqrt(T0))
        a = np.zeros((nb, n, n))
        a[0, 0, 0] = x
        arg = {'velph': {'dict': {(0, 0, 0): x}, 'list': [[0, 0, 0, x]], 'array': a}[form]}
        meth = 'add'
    elif r == 8:
        nb = spec.elph['nb']
        x = gen.r3(T0*rng.uniform(0.5, 1.5))
        arg = {'tlst_ph': {'dict': {0: x}, 'list': [x]*nb, 'array': np.array([x]*nb)}[form]}
        meth = 'change'
    else:
        w.solve(s)
        return 'solve'
    keep = copy.deepcopy(arg)
    getattr(s, meth)(**arg)
    keeps.append((keep, arg, '%s %s' % (meth, list(arg))))
    return '%s:%s' % (meth, list(arg)[0])


def isolation(case, mon, rng):
    w = draw(rng, sym=None)
    C = builder(w)
    kw = args_of(w)
    kw = restyle(rng, w, kw, mon)
    keep = copy.deepcopy({k: v for k, v in kw.items() if k != 'bath_func'})
    s = C(**kw)                      # the system that is worked on
    o = C(**kw)                      # a bystander built from the very same containers
    check_snap(mon, keep, kw, 'building')
    w.solve(o)
    po, ro = params(o, w.elph), sysutil.obs(o)
    so = o.success
    keeps = [(keep, kw, 'building')]
    hist = []
    for _ in range(int(rng.integers(2, 7))):
        hist.append(operate(rng, w, s, mon, keeps))
    if w.spec.n > 1 and rng.random() < 0.3 and work.base_of(w.kt) not in ('RTD', '2vN') and w.indexing != 'ssq':
        if rng.random() < 0.5:
            w.diag(s)
            cut = work.states_window(rng, np.array(s.Ea))
            if cut is not None:
                s.remove_states(cut)
                hist.append('remove_states')
        else:
            drop = [int(rng.integers(2**w.spec.n))]
            dk = list(drop)
            with sysutil.quiet():
                s.remove_fock_states(drop)
            mon.true('snapshot', dk == drop, 'remove_fock_states changed its argument')
            hist.append('fock')
    w.solve(s)
    for k, a, what in keeps:
        check_snap(mon, k, a, '%s after %s' % (what, hist))
    # the bystander: same parameters, same reported results, and the same answer when solved again
    pn = params(o, w.elph)
    mon.true('bystander', all(equal(po[k], pn[k]) for k in po), lambda: '%s: %s' % (hist, [k for k in po if not equal(po[k], pn[k])]))
    rn = sysutil.obs(o)
    mon.true('bystander-results', all(again(ro[k], rn[k]) for k in ro), lambda: str(hist))
    w.solve(o)
    rn = sysutil.obs(o)
    mon.true('bystander-solve', o.success == so and all(again(ro[k], rn[k]) for k in ro),
             lambda: '%s %s %s' % (hist, ro, rn))
    # and a third one from the same containers starts from the original input
    t = C(**kw)
    w.solve(t)
    rt = sysutil.obs(t)
    mon.true('bystander-fresh', all(again(ro[k], rt[k]) for k in ro), lambda: '%s %s %s' % (hist, ro, rt))
    mon.key(*(w.key()+tuple(hist[:3])))


def scramble(x, rng):
    """Overwrite a caller container in place."""
    if isinstance(x, dict):
        for k in list(x):
            x[k] = [77.0, 99.0] if isinstance(x[k], list) else (x[k]*0+13.5)
        x.clear()
    elif isinstance(x, list):
        for k in range(len(x)):
            if isinstance(x[k], list):
                x[k][-1] = 13.5
            elif not isinstance(x[k], tuple):
                x[k] = 13.5
        x.clear()
    elif isinstance(x, np.ndarray):
        x[...] = 13.5


def mutate(case, mon, rng):
    """What the caller does to its containers after handing them over has no effect on the system."""
    w = draw(rng, sym=None)
    C = builder(w)
    kw = restyle(rng, w, args_of(w), mon)
    bf = kw.pop('bath_func', None)
    ex = {'bath_func': bf} if w.elph else {}
    ref_s = C(**copy.deepcopy(kw), **ex)
    w.solve(ref_s)
    s = C(**kw, **ex)
    if rng.random() < 0.5:
        w.solve(s)
    p0 = params(s, w.elph)
    for k in ('hsingle', 'coulomb', 'tleads', 'mulst', 'tlst', 'dband', 'velph', 'tlst_ph', 'dband_ph'):
        if k in kw:
            scramble(kw[k], rng)
    p1 = params(s, w.elph)
    mon.true('mutated-caller', all(equal(p0[k], p1[k]) for k in p0), lambda: str([k for k in p0 if not equal(p0[k], p1[k])]))
    w.solve(s)
    a, b = sysutil.obs(s), sysutil.obs(ref_s)
    mon.true('mutated-solve', all(again(a[k], b[k]) for k in a), lambda: '%s %s' % (a, b))
    # the same for containers given to change
    T0 = float(np.mean(list(w.spec.T.values())))
    n = w.spec.n//2 if w.spec.symmetry else w.spec.n
    nl = w.spec.nl//2 if w.spec.symmetry else w.spec.nl
    args = dict(mulst=np.linspace(0, 1, nl)*T0, tlst=np.full(nl, T0), hsingle={(i, i): 0.1*T0*i+0.05 for i in range(n)},
                tleads={(l, i): 0.1*np.sqrt(T0) for l in range(nl) for i in range(n)})
    s.change(**args)
    q0 = params(s, w.elph)
    for k in args:
        scramble(args[k], rng)
    q1 = params(s, w.elph)
    mon.true('mutated-caller', all(equal(q0[k], q1[k]) for k in q0), lambda: 'change: %s' % [k for k in q0 if not equal(q0[k], q1[k])])
    mon.key(*(w.key()+('mutate',)))


# ------------------------------------------------------------------ defaults
def defaults(case, mon, rng):
    import qmeq
    C = [qmeq.Builder, qmeq.BuilderElPh][int(rng.integers(2))]
    kt = str(rng.choice(['Pauli', 'pyPauli', '1vN', 'py1vN', 'Lindblad', 'pyRedfield']))
    n, nl = int(rng.integers(1, 3)), 2
    kw = dict(nsingle=n, nleads=nl, kerntype=kt, itype=2)
    if C is qmeq.BuilderElPh:
        kw.update(nbaths=1, itype_ph=2)

    def fill(s, x):
        s.add(hsingle={(i, i): x+i for i in range(n)}, coulomb={(0, 1, 1, 0): 2.0} if n > 1 else {},
              tleads={(l, i): 0.1*(1+l) for l in range(nl) for i in range(n)}, mulst={0: 0.5*x, 1: -0.5}, tlst={0: 1.0, 1: 1.1},
              dlst={0: [-60.0, 60.0], 1: [-60.0, 60.0]})
        if C is qmeq.BuilderElPh:
            s.add(velph={(0, 0, 0): 0.1*x}, tlst_ph={0: 1.0}, dlst_ph={0: [1e-3, 50.0]})
    a = C(**kw)
    fill(a, 1.0)
    with sysutil.quiet():
        a.solve()
    ra = sysutil.obs(a)
    b = C(**kw)
    empty = not b.hsingle and not b.coulomb and not b.tleads and np.all(b.mulst == 0)
    empty = empty and (C is qmeq.Builder or not b.velph)
    mon.true('defaults', empty, lambda: '%s %s %s' % (b.hsingle, b.tleads, b.mulst))
    fill(b, 1.0)
    with sysutil.quiet():
        b.solve()
    rb = sysutil.obs(b)
    mon.true('defaults-solve', all(again(ra[k], rb[k]) for k in ra), lambda: '%s %s' % (ra, rb))
    c = C(**kw)
    fill(c, 2.0)
    with sysutil.quiet():
        c.solve()
        a.solve()
    rn = sysutil.obs(a)
    mon.true('defaults-solve', all(again(ra[k], rn[k]) for k in ra), lambda: '%s %s' % (ra, rn))
    mon.key(kt, n, C.__name__)


# ------------------------------------------------------------------ repetition
def repeat(case, mon, rng):
    w = draw(rng, sym=None)
    w2 = draw(rng, sym=None)
    s, o = w.build(), w2.build()
    w.solve(s)
    a, p1 = sysutil.obs(s), s.phi1
    p1 = None if p1 is None else np.array(p1, dtype=object if isinstance(p1, list) else None)
    Ea, Tb = np.array(s.Ea), np.array(s.Tba)
    succ = s.success
    for k in range(int(rng.integers(1, 4))):
        if rng.random() < 0.6:
            w2.solve(o)
        kw = {}
        if work.base_of(w.kt) != '2vN' and rng.random() < 0.3:
            kw['qdq'] = False
        w.solve(s, **kw)
        b = sysutil.obs(s)
        mon.true('repeat', s.success == succ and all(again(a[x], b[x]) for x in a) and
                 np.array_equal(Ea, np.array(s.Ea)) and np.array_equal(Tb, np.array(s.Tba)), lambda: '%s round %d %s: %s %s' % (w.name, k, kw, a, b))
        if p1 is not None and p1.dtype != object:
            mon.true('repeat-phi1', again(p1, np.array(s.phi1)), w.name)
    f = w.build()
    w.solve(f)
    b = sysutil.obs(f)
    mon.true('repeat-fresh', all(again(a[x], b[x]) for x in a), lambda: '%s: %s %s' % (w.name, a, b))
    mon.key(*(w.key()+(w2.name,)))


def run_case(case, mon):
    rng = gen.rng_of('p13', case['seed'])
    globals()[case['kind']](case, mon, rng)
