"""P12: restricted state spaces solve the restricted master equation; restoring and switching approaches is exact."""
import copy

import numpy as np

from qmon import gen, ref, sysutil, work
from qmon.mon import Inconclusive

RULE = ('A case counts when a system with removed states, Fock states or coherences was solved and compared with the '
        'independent master equation on the kept elements, when a restriction was undone and compared with the first '
        'solution, or when a live system was switched between approaches and compared with a fresh build.')
ASSUMPTIONS = ['unique stationary state on the kept elements', 'remove_coherences is the last restriction applied '
               '(removing states renumbers all elements)', 'approaches without coherences: no degenerate levels']
FIRST = ['Pauli', 'Lindblad', 'Redfield', '1vN', 'elph-Pauli', 'elph-Lindblad', 'elph-Redfield', 'elph-1vN']
KINDS = ['reduce', 'fock', 'reduce', 'restore', 'switch', 'fock', 'reduce', 'switch', 'restore', 'manybody', 'switch', 'mbswitch']
REQUIRED = {'quick': {'check:rho': 1400, 'check:current': 2000, 'check:restore': 600, 'check:switch': 900,
                      'removed-states': 700, 'removed-coherences': 250, 'removed-fock': 300, 'chosen-states': 200, 'switched': 1000,
                      'restriction-matters': 500, 'many-body-switched': 350},
            'thorough': {'check:rho': 12000}}
BUDGET = {'quick': 400, 'thorough': 5400}


def cases(tier, seed):
    num = 7500 if tier == 'quick' else 36000
    return [dict(kind=KINDS[k % len(KINDS)], seed=seed*100003+k) for k in range(num)]


def sub_model(m, keep, mask=None):
    """The master equation on a subset of the eigenstates."""
    keep = np.asarray(keep, dtype=int)
    T = m.T[:, keep][:, :, keep]
    V = None if m.V is None else m.V[:, keep][:, :, keep]
    mk = m.mask[np.ix_(keep, keep)]
    if mask is not None:
        mk = mk & mask[np.ix_(keep, keep)]
    return ref.Model(m.E[keep], m.q[keep], T, m.mu, m.temp, m.D, m.itype, mask=mk, V=V, ph=m.ph)


def noise_of(w, gap, L):
    P = 0.0
    if w.elph:
        e = w.spec.elph
        for b in range(e['nb']):
            x0 = max(e['D'][b][0]/e['T'][b], 1e-6)
            vm = max([abs(v) for kk, v in e['v'].items() if kk[0] == b]+[0.0])
            dos = e['f'][b](x0*e['T'][b]) if e.get('f') else 1.0
            P += 2*np.pi*(w.spec.n*vm)**2*dos/x0
    lmax = float(np.max(np.abs(L))) or 1.0
    return 1e-12/gap + 2e-15*P/(gap*lmax)


def against(mon, w, s, model, kept, tag, own=False):
    """Solved system s against the reference model living on the labels kept."""
    base = work.base_of(w.kt)
    rho, cur, ecur, L, gap = sysutil.reference(model, w.kt)
    if not gap > 1e-7:
        raise Inconclusive('stationary state not unique')
    noise = noise_of(w, gap, L)
    if noise > 1e-4:
        raise Inconclusive('ill conditioned')
    tol = (1e-10 if w.itype != 0 or base in ('Pauli', 'Lindblad') else 3e-5)+noise
    if w.opts.get('itype_ph') == 0 and w.elph:
        tol += 1e-4
    ex = w.spec.explicit()
    gam = sysutil.gamma_scale(s)
    es = gam*(np.ptp(model.E)+np.max(np.abs(ex.mu_arr()))+np.max(ex.T_arr()))
    if w.itype in (0, 1) and base in ('Redfield', '1vN'):
        es += gam*np.max(np.abs(ex.D_arr()))*1e-2
    mon.true('success', bool(s.success), tag)
    if own:
        tol += 1e-12/own
        mon.close('own-populations', np.sort(np.diag(sysutil.rho_full(s)).real[kept_states(s)]), np.sort(np.diag(rho).real),
                  rtol=0, atol=3*tol, what=tag)
    else:
        got = sysutil.rho_full(s)
        full = np.zeros_like(got)
        full[np.ix_(kept, kept)] = rho
        mon.close('rho', got, full, rtol=0, atol=tol, what=tag)
    mon.close('current', np.array(s.current), cur, rtol=0, atol=tol*gam, what=tag)
    mon.close('energy', np.array(s.energy_current), ecur, rtol=0, atol=tol*es, what=tag)
    mon.close('heat', np.array(s.heat_current), ecur-cur*ex.mu_arr(), rtol=0, atol=tol*es, what=tag)
    return cur, gam


def kept_states(s):
    return sorted(int(b) for c in range(s.si.ncharge) for b in s.si.statesdm[c])


def restriction(rng, w, s, mon, E, sofar):
    """Applies one restriction to s; returns (kept labels or None, coherence mask or None, description)."""
    base = work.base_of(w.kt)
    r = rng.random()
    if r < 0.65 or base not in work.COH:
        cut = work.states_window(rng, E)
        if rng.random() < 0.1:
            cut = float(np.ptp(E)*3+1)
        if cut is None:
            return None
        s.remove_states(cut)
        mon.ev('removed-states')
        return [i for i in range(len(E)) if E[i]-np.min(E) < cut], None, ('states', cut)
    return None


def choose(rng, w, s, mon, E):
    """An arbitrary choice of considered states, listed in any order."""
    lst = []
    for c in range(s.si.ncharge):
        q = [int(b) for b in s.si.chargelst[c]]
        q = [q[i] for i in rng.permutation(len(q))] if rng.random() < 0.7 else q
        lst.append([b for b in q if rng.random() < 0.85])
    kept = sorted(b for q in lst for b in q)
    if len(kept) < 2:
        return None
    s.si.set_statesdm([list(q) for q in lst])
    if w.elph:
        s.si_elph.set_statesdm([list(q) for q in lst])
    mon.ev('chosen-states')
    return kept, None, ('chosen', lst)


def coherences(rng, w, s, mon, E, kept):
    d = sorted(abs(E[a]-E[b]) for a in kept for b in kept if a < b)
    cuts = [0.0 if not d else 0.5*d[0]]+[0.5*(x+y) for x, y in zip(d[:-1], d[1:])]+[2*max(d+[1.0])]
    scale = max(1.0, max(d+[0.0]))
    cuts = [c for c in cuts if all(abs(c-x) > 1e-8*scale for x in d)]
    if not cuts:
        return None
    cut = float(rng.choice(cuts))
    s.remove_coherences(cut)
    mon.ev('removed-coherences')
    return np.abs(E[:, None]-E[None, :]) <= cut, ('coherences', cut)


def run_case(case, mon):
    rng = gen.rng_of('p12', case['seed'])
    {'reduce': reduce, 'fock': fock, 'restore': restore, 'switch': switch, 'manybody': manybody,
     'mbswitch': mbswitch}[case['kind']](case, mon, rng)


# ------------------------------------------------------------------ restricted spaces
def reduce(case, mon, rng):
    w = work.draw(rng, names=FIRST, sym=False, n=None)
    if w.spec.n == 1:
        w = work.draw(rng, names=FIRST, sym=False, n=2, spinful=False)
    base = work.base_of(w.kt)
    s = w.build()
    w.diag(s)
    E = np.array(s.Ea, dtype=float)
    if rng.random() < 0.4:
        w.solve(s)
    hist = []
    kept = list(range(len(E)))
    before = None
    for _ in range(int(rng.integers(1, 3))):
        pick = rng.random() < 0.3 and s.si.indexing != 'ssq'
        r = choose(rng, w, s, mon, E) if pick else restriction(rng, w, s, mon, E, kept)
        if r is None:
            continue
        kept = r[0]
        hist.append(r[2])
        if rng.random() < 0.3:
            w.solve(s)
            hist.append('solve')
    mask = None
    if base in work.COH and rng.random() < (0.6 if hist else 1.0):
        r = coherences(rng, w, s, mon, E, kept)
        if r is not None:
            mask, d = r
            hist.append(d)
            if rng.random() < 0.3:
                # a second, tighter removal
                tighter = d[1]*0.5
                if all(abs(abs(E[a]-E[b])-tighter) > 1e-8 for a in kept for b in kept):
                    s.remove_coherences(tighter)
                    mask = np.abs(E[:, None]-E[None, :]) <= tighter
                    hist.append(('coherences', tighter))
                    mon.ev('removed-coherences')
    if not hist:
        raise Inconclusive('nothing to remove')
    w.solve(s, **({'qdq': False} if rng.random() < 0.5 else {}))
    mon.true('kept-states', kept_states(s) == sorted(kept), lambda: '%s %s %s' % (hist, kept_states(s), kept))
    full = model_all(s, w.spec, w.itype,
                            ph=sysutil.spec_ph(w.spec.explicit(), w.opts['itype_ph']) if w.elph else None)
    m = sub_model(full, kept, mask)
    cur, gam = against(mon, w, s, m, kept, '%s %s' % (w.name, hist))
    rf = sysutil.reference(full, w.kt)
    if np.max(np.abs(rf[1]-cur)) > 1e-6*gam:
        mon.ev('restriction-matters')
    for b in range(len(E)):
        if b not in kept:
            mon.true('removed-zero', all(s.get_phi0(b, x) == 0 for x in range(len(E))), lambda: 'state %d' % b)
    mon.key(*(w.key()+(len(kept), len(hist), mask is not None)))


def model_all(system, spec, itype, mask=None, ph=None):
    """sysutil.model_of with charges of removed states included."""
    ex = spec.explicit()
    si = system.si
    q = np.zeros(si.nmany, dtype=int)
    for c in range(si.ncharge):
        for b in si.chargelst[c]:
            q[b] = c
    V = np.array(system.baths.Vbbp, dtype=complex) if ph is not None else None
    if mask is None:
        mask = q[:, None] == q[None, :]
    return ref.Model(np.array(system.Ea, dtype=float), q, np.array(system.Tba, dtype=complex), ex.mu_arr(), ex.T_arr(),
                     ex.D_arr(), itype, mask=mask, V=V, ph=ph)


def fock(case, mon, rng):
    """Fock states removed: everything projected on the kept configurations, from the input alone."""
    w = work.draw(rng, names=FIRST, sym=False, spinful=False, n=int(rng.integers(2, 4)), degenerate=False)
    base = work.base_of(w.kt)
    spec = w.spec
    ex = spec.explicit()
    n = ex.n
    s = w.build()
    if rng.random() < 0.4:
        w.solve(s)
    dim = 2**n
    num = int(rng.integers(1, dim//2+1))
    drop = [int(x) for x in rng.choice(dim, size=num, replace=False)]
    parts = [drop]
    if num > 1 and rng.random() < 0.3:
        parts = [drop[:1], drop[1:]]
    for p in parts:
        with sysutil.quiet():
            s.remove_fock_states(p)
        mon.ev('removed-fock')
        if rng.random() < 0.3:
            w.solve(s)
    keepF = [k for k in range(dim) if k not in drop]
    H = ref.hamiltonian(n, ex.hs, ex.U)
    T = ref.tunnelling(n, ex.nl, ex.t)
    V = ref.elph_matrix(n, ex.elph['nb'], ex.elph['v']) if w.elph else None
    N = ref.number_op(n)
    Es, Xs, qs = [], [], []
    split = np.inf
    for c in range(n+1):
        idx = [k for k in keepF if N[k] == c]
        if not idx:
            continue
        e, v = np.linalg.eigh(H[np.ix_(idx, idx)])
        if len(e) > 1:
            split = min(split, np.min(np.diff(e)))
        for k in range(len(idx)):
            x = np.zeros(dim, dtype=complex)
            x[idx] = v[:, k]
            Es.append(e[k]); Xs.append(x); qs.append(c)
    X = np.array(Xs).T
    Te = np.array([X.conj().T @ t @ X for t in T])
    Ve = None if V is None else np.array([X.conj().T @ v @ X for v in V])
    w.solve(s)
    mon.close('fock-energies', np.sort(np.array(s.Ea, dtype=float)), np.sort(Es), rtol=0, atol=1e-11*max(1.0, np.max(np.abs(Es))),
              what='drop %s' % drop)
    if split < 1e-4*np.max(ex.T_arr()):
        raise Inconclusive('nearly degenerate levels')
    m = ref.Model(Es, qs, Te, ex.mu_arr(), ex.T_arr(), ex.D_arr(), w.itype, V=Ve,
                  ph=sysutil.spec_ph(ex, w.opts['itype_ph']) if w.elph else None)
    cut = work.states_window(rng, np.array(Es)) if rng.random() < 0.35 else None
    if cut is not None:
        s.remove_states(cut)
        mon.ev('removed-states')
        w.solve(s)
        m = sub_model(m, [i for i in range(len(Es)) if Es[i]-min(Es) < cut])
    against(mon, w, s, m, None, '%s drop %s cut %s' % (w.name, drop, cut), own=split if split < np.inf else 1.0)
    mon.key(*(w.key()+('fock', len(drop))))


def restore(case, mon, rng):
    names = FIRST+['RTD', '2vN']
    w = work.draw(rng, names=names, sym=None, degenerate=False)
    base = work.base_of(w.kt)
    s = w.build()
    w.solve(s)
    if not s.success:
        raise Inconclusive('solver failed')
    a = sysutil.obs(s)
    ra = sysutil.rho_full(s)
    E = np.array(s.Ea, dtype=float)
    hist = []
    for _ in range(int(rng.integers(1, 4))):
        r = restriction(rng, w, s, mon, E, None)
        if r is not None:
            hist.append(r[2])
        if base in work.COH and rng.random() < 0.4:
            kept = r[0] if r is not None else kept_states(s)
            c = coherences(rng, w, s, mon, E, kept)
            if c is not None:
                hist.append(c[1])
        if rng.random() < 0.6:
            try:
                w.solve(s)
            except Exception as e:
                # the restricted problem itself may be unsolvable; what matters here is the way back
                if base not in ('2vN', 'RTD'):
                    raise
                mon.note('restricted %s: %r' % (w.kt, e))
            hist.append('solve')
            if rng.random() < 0.5 and s.success:
                mon.ev('restricted-solve')
        if rng.random() < 0.3:
            s.use_all_states()
            hist.append('all')
    if not hist:
        raise Inconclusive('nothing to remove')
    s.use_all_states()
    kw = {}
    if base != '2vN' and rng.random() < 0.4:
        kw['qdq'] = False
    w.solve(s, **kw)
    f = w.build()
    if not w.kt.startswith('py'):
        f.make_kern_copy = True
    w.solve(f)
    gap = sysutil.kern_gap(f)*(1e-2 if base == '2vN' else 1)
    if not gap > 1e-9:
        raise Inconclusive('stationary state not unique')
    tol = 1e-12+1e-15/gap
    b = sysutil.obs(s)
    gam = sysutil.gamma_scale(s)
    es = gam*(np.ptp(E)+np.max(np.abs(w.spec.explicit().mu_arr()))+np.max(w.spec.explicit().T_arr()))
    if w.elph:
        tol *= 100
    mon.ev('check:restore')
    if b['phi0'].shape != a['phi0'].shape:
        mon.bad('restore-shape', '%s %s' % (w.name, hist))
        return
    sysutil.compare(mon, 'restored', b, a, gam, es, tol*max(1.0, np.max(np.abs(a['phi0']))), nan_ok=True)
    mon.close('restored-rho', sysutil.rho_full(s), ra, rtol=0, atol=tol*max(1.0, np.max(np.abs(ra))), what=hist)
    mon.key(*(w.key()+('restore', len(hist))))


# ------------------------------------------------------------------ switching approaches
def switch(case, mon, rng):
    elph = rng.random() < 0.3
    if elph:
        pool = ['Pauli', 'Lindblad', 'Redfield', '1vN']
        names = ['elph-'+x for x in pool]
    else:
        pool = ['Pauli', 'Lindblad', 'Redfield', '1vN', 'RTD', '2vN']
        names = pool
    final = str(rng.choice(names))
    base = final.replace('elph-', '')
    second = rng.random() < 0.4 and not elph or base in ('RTD', '2vN')
    kw = {}
    if second:
        kw = dict(indexing='charge', sym=False, itype=1, spinful=False)
        kw['n'] = int(rng.integers(1, 3))
        kw['nl'] = 2
    else:
        pool = [p for p in pool if p not in ('RTD', '2vN')]
    w = work.draw(rng, final, degenerate=False, **kw)
    w.opts['symq'] = True
    if second and base != '2vN':
        # everything the 2vN approach asks for is there from the start
        w.opts['kpnt'] = 32
        if not np.isscalar(w.spec.D):
            w.spec.D = 60.0*w.spec.T[0]
    if second:
        w.itype = 1
    seq = [str(rng.choice(['', 'py'] if p not in ('2vN', 'RTD') else ['', '', 'py']))+p
           for p in rng.choice(pool, size=int(rng.integers(1, 4)))]
    if second and rng.random() < 0.5:
        seq.insert(int(rng.integers(0, len(seq)+1)), str(rng.choice(['2vN', 'RTD'])))
    seq.append(w.kt)
    # without the matrix of the generator until the last solution
    mfree = not second and w.spec.n <= (1 if elph else 2) and rng.random() < 0.4
    s = w.build(kerntype=seq[0], **(dict(mfreeq=True, solmethod='krylov') if mfree else {}))
    E = None
    cut = None
    drop = None
    hist = [seq[0]]
    if w.spec.n > 1 and rng.random() < (0.35 if second else 0.2) and w.indexing != 'ssq' and not w.sym:
        drop = [int(x) for x in rng.choice(2**w.spec.n, size=1)]
    for k, kt in enumerate(seq):
        if k:
            s.kerntype = kt
            mon.ev('switched')
            hist.append(kt)
        mon.true('named', s.kerntype == kt, lambda: '%r after %r' % (s.kerntype, hist))
        if drop is not None and k == len(seq)//2:
            with sysutil.quiet():
                s.remove_fock_states(drop)
            mon.ev('removed-fock')
            hist.append('fock')
        if cut is None and w.spec.n > 1 and rng.random() < 0.25 and (drop is None or k >= len(seq)//2):
            w.diag(s)
            c = work.states_window(rng, np.array(s.Ea))
            if c is not None:
                s.remove_states(c)
                mon.ev('removed-states')
                cut = c
                hist.append(('states', c))
        if k < len(seq)-1 and rng.random() < 0.7:
            sv = {'niter': 2} if work.base_of(kt) == '2vN' else {}
            hist.append('solve')
            with sysutil.quiet(), np.errstate(all='ignore'):
                try:
                    s.solve(**sv)
                except Exception as e:
                    if cut is None:
                        raise
                    mon.note('restricted %s: %r' % (kt, e))
            if mfree:
                mon.ev('mfree')
    if mfree:
        with sysutil.quiet():
            s.mfreeq = False
            s.solmethod = None
    w.solve(s)
    f = w.build()
    if not w.kt.startswith('py'):
        f.make_kern_copy = True
    if drop is not None:
        with sysutil.quiet():
            f.remove_fock_states(drop)
    if cut is not None:
        w.diag(f)
        f.remove_states(cut)
    w.solve(f)
    gap = sysutil.kern_gap(f)*(1e-2 if base == '2vN' else 1)
    if not gap > 1e-9:
        raise Inconclusive('stationary state not unique')
    if s.success != f.success:
        mon.bad('switch-success', str(hist))
        return
    if not f.success:
        raise Inconclusive('solver failed')
    tol = 1e-12+1e-15/gap
    if w.elph:
        tol *= 100
    a, b = sysutil.obs(s), sysutil.obs(f)
    gam = sysutil.gamma_scale(f)
    ex = w.spec.explicit()
    es = gam*(np.ptp(np.array(f.Ea))+np.max(np.abs(ex.mu_arr()))+np.max(ex.T_arr()))
    mon.ev('check:switch')
    if a['phi0'].shape != b['phi0'].shape:
        mon.bad('switch-shape', '%s: %s instead of %s' % (hist, a['phi0'].shape, b['phi0'].shape))
        return
    sysutil.compare(mon, 'switched', a, b, gam, es, tol*max(1.0, np.max(np.abs(b['phi0']))), nan_ok=True)
    mon.close('switched-rho', sysutil.rho_full(s), sysutil.rho_full(f), rtol=0, atol=tol*max(1.0, np.max(np.abs(b['phi0']))),
              what=hist)
    pa, pb = s.phi1, f.phi1
    if pb is not None and pa is not None and np.size(pb) and base in work.COH+('2vN',) and np.asarray(pb).dtype != object:
        mon.close('switched-phi1', np.array(pa), np.array(pb), rtol=0, atol=10*tol*max(1.0, np.max(np.abs(np.array(pb)))), what=hist)
    mon.key(*(w.key()+tuple(seq)))


# ------------------------------------------------------------------ many-body input
def manybody(case, mon, rng):
    import qmeq
    w = work.draw(rng, names=['Pauli', 'Lindblad', 'Redfield', '1vN', 'elph-Pauli', 'elph-Lindblad'], sym=False,
                  spinful=False, n=int(rng.integers(2, 4)), indexing='charge', degenerate=False)
    spec = w.spec
    own = sysutil.own_model(spec, w.itype, ph=sysutil.spec_ph(spec, w.opts['itype_ph']) if w.elph else None)
    if own.min_split < 1e-4*spec.T[0]:
        raise Inconclusive('nearly degenerate levels')
    N = len(own.E)
    perm = rng.permutation(N) if rng.random() < 0.5 else np.arange(N)
    shift = int(rng.integers(0, 3))
    Ea, Na = own.E[perm], own.q[perm]+shift
    Tba = own.T[:, perm][:, :, perm]
    kw = dict(Ea=Ea, Na=list(Na), Tba=Tba, mulst=dict(spec.mu), tlst=dict(spec.T), dband=spec.D_arr(), kerntype=w.kt,
              itype=w.itype, symq=w.opts['symq'])
    kw['dband'] = {l: list(spec.D_arr()[l]) for l in range(spec.nl)}
    if w.elph:
        e = spec.elph
        kw.update(Vbbp=own.V[:, perm][:, :, perm], tlst_ph=dict(e['T']), dband_ph=dict(e['D']), itype_ph=w.opts['itype_ph'],
                  bath_func=None if e.get('f') is None else [sysutil.wrap_bath(f) for f in e['f']])
        s = qmeq.BuilderManyBodyElPh(**kw)
    else:
        s = qmeq.BuilderManyBody(**kw)
    if rng.random() < 0.4:
        w.solve(s, qdq=False)
    order = np.arange(N)
    m = ref.Model(Ea, Na-Na.min(), Tba, spec.mu_arr(), spec.T_arr(), spec.D_arr(), w.itype, V=kw.get('Vbbp'),
                  ph=sysutil.spec_ph(spec, w.opts['itype_ph']) if w.elph else None)
    kept, mask, hist = list(range(N)), None, []
    if rng.random() < 0.85:
        cut = work.states_window(rng, Ea)
        if cut is not None:
            s.remove_states(cut)
            mon.ev('removed-states')
            kept = [i for i in range(N) if Ea[i]-np.min(Ea) < cut]
            hist.append(cut)
    if work.base_of(w.kt) in work.COH and rng.random() < 0.5:
        c = coherences(rng, w, s, mon, Ea, kept)
        if c is not None:
            mask = c[0]
            hist.append(c[1])
    w.solve(s, qdq=False)
    against(mon, w, s, sub_model(m, kept, mask), kept, 'many-body %s %s' % (w.name, hist))
    if rng.random() < 0.4:
        s.use_all_states()
        w.solve(s, qdq=False)
        against(mon, w, s, m, list(range(N)), 'many-body restored %s' % w.name)
    mon.key(*(w.key()+('mb', len(kept))))


def mbswitch(case, mon, rng):
    """Approaches exchanged on a system that is given by its many-body states."""
    import qmeq
    elph = rng.random() < 0.3
    pool = ['Pauli', 'Lindblad', 'Redfield', '1vN'] + ([] if elph else ['2vN', 'RTD', '2vN'])
    final = str(rng.choice(pool))
    nl = {} if elph else dict(nl=2)
    w = work.draw(rng, ('elph-' if elph else '')+('Pauli' if not elph else final), sym=False, spinful=False, n=int(rng.integers(1, 3)),
                  indexing='charge', degenerate=False, itype=int(rng.choice([1, 2, 3])), **nl)
    spec = w.spec
    own = sysutil.own_model(spec, w.itype, ph=sysutil.spec_ph(spec, w.opts['itype_ph']) if elph else None)
    if own.min_split < 1e-3*spec.T[0]:
        raise Inconclusive('nearly degenerate levels')
    if not np.isscalar(spec.D):
        spec.D = 60.0*spec.T[0]
    N = len(own.E)
    perm = rng.permutation(N) if rng.random() < 0.5 else np.arange(N)
    kw = dict(Ea=own.E[perm], Na=list(own.q[perm]+int(rng.integers(0, 3))), Tba=own.T[:, perm][:, :, perm], mulst=dict(spec.mu),
              tlst=dict(spec.T), dband={l: list(spec.D_arr()[l]) for l in range(spec.nl)})
    if elph:
        e = spec.elph
        kw.update(Vbbp=own.V[:, perm][:, :, perm], tlst_ph=dict(e['T']), dband_ph=dict(e['D']), itype_ph=w.opts['itype_ph'],
                  bath_func=None if e.get('f') is None else [sysutil.wrap_bath(f) for f in e['f']])
        make = qmeq.Builder.many_body_elph if rng.random() < 0.5 else qmeq.BuilderManyBodyElPh
    else:
        kw['kpnt'] = 32
        make = qmeq.Builder.many_body if rng.random() < 0.5 else qmeq.BuilderManyBody
    seq = [str(rng.choice(['', 'py']))+str(rng.choice(pool)) for _ in range(int(rng.integers(1, 4)))]
    seq.append(str(rng.choice(['', 'py']))+final)

    def run(s, kt):
        with sysutil.quiet(), np.errstate(all='ignore'):
            s.solve(qdq=False, **(dict(niter=2) if kt.endswith('2vN') else {}))

    it = int(rng.choice([1, 2, 3])) if final not in ('RTD', '2vN') else 1
    s = make(kerntype=seq[0], itype=1, **kw)
    cut, hist = None, [seq[0]]
    for k, kt in enumerate(seq):
        if k:
            s.kerntype = kt
            mon.ev('switched')
            mon.ev('many-body-switched')
            hist.append(kt)
        mon.true('named', s.kerntype == kt, lambda: '%r after %r' % (s.kerntype, hist))
        if cut is None and rng.random() < 0.3:
            cut = work.states_window(rng, own.E)
            if cut is not None:
                s.remove_states(cut)
                mon.ev('removed-states')
                hist.append(cut)
        if k < len(seq)-1 and rng.random() < 0.7:
            run(s, kt)
            hist.append('solve')
    s.itype = it
    run(s, seq[-1])
    f = make(kerntype=seq[-1], itype=1, **kw)
    f.itype = it
    if not seq[-1].startswith('py'):
        f.make_kern_copy = True
    if cut is not None:
        f.remove_states(cut)
    run(f, seq[-1])
    gap = sysutil.kern_gap(f)*(1e-2 if final == '2vN' else 1)
    if not gap > 1e-9:
        raise Inconclusive('stationary state not unique')
    if s.success != f.success:
        mon.bad('switch-success', str(hist))
        return
    if not f.success:
        raise Inconclusive('solver failed')
    tol = (1e-12+1e-15/gap)*(100 if elph else 1)
    a, b = sysutil.obs(s), sysutil.obs(f)
    if a['phi0'].shape != b['phi0'].shape:
        mon.bad('switch-shape', '%s: %s instead of %s' % (hist, a['phi0'].shape, b['phi0'].shape))
        return
    gam = sysutil.gamma_scale(f)
    es = gam*(np.ptp(own.E)+np.max(np.abs(spec.mu_arr()))+np.max(spec.T_arr())+np.max(np.abs(spec.D_arr()))*1e-2)
    sysutil.compare(mon, 'switched', a, b, gam, es, tol*max(1.0, np.max(np.abs(b['phi0']))), nan_ok=True)
    mon.close('switched-rho', sysutil.rho_full(s), sysutil.rho_full(f), rtol=0, atol=tol*max(1.0, np.max(np.abs(b['phi0']))), what=hist)
    mon.key('mbswitch', elph, final, it, tuple(seq), cut is None)
