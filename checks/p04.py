"""P04: equilibrium, second law, Onsager reciprocity, single-reservoir limit."""
import numpy as np

from qmon import gen, sysutil, work
from qmon.mon import Inconclusive

RULE = ('A case counts when the solved system gave the quantity the law constrains: equilibrium currents and '
        'populations, entropy production at bias, the linear response matrix, or the one-reservoir state.')
ASSUMPTIONS = ['stationary state unique (generator gap > 1e-9)', 'equilibrium constants: exact for the rate equation '
               'and for Redfield/1vN without principal parts; others within 10 times the next order in coupling/T']
PLAN = ['eq-Pauli', 'eq-Redfield', 'eq-1vN', 'eq-Lindblad', 'eq-RTD', 'eq-elph-Pauli', 'eq-elph-Lindblad', 'entropy',
        'entropy-elph', 'onsager', 'limit', 'limit-coh', 'scaling', 'entropy', 'eq-elph-1vN', 'eq-elph-Redfield', 'onsager-elph',
        'eq-single', 'eq-2vN']
REQUIRED = {'quick': {'check:eq-exact': 700, 'check:entropy': 400, 'check:onsager': 200, 'check:limit': 200,
                      'check:eq-next-order': 300, 'check:eq-populations': 400, 'check:onsager-psd': 200},
            'thorough': {'check:entropy': 6000}}
BUDGET = {'quick': 400, 'thorough': 5400}


def cases(tier, seed):
    num = 6650 if tier == 'quick' else 38000
    return [dict(kind=PLAN[k % len(PLAN)], seed=seed*100003+k) for k in range(num)]


def get_gap(s, py):
    K = np.array(s.kern)
    n = K.shape[1]
    body = K[:-1] if K.shape[0] > n else np.delete(K, s.norm_row, 0)
    if n == 1:
        return 1.0
    v = np.linalg.svd(body, compute_uv=False)
    return v[n-2]/max(v[0], 1e-300)


def solved(w, mon, check=True):
    s = w.build()
    if not w.kt.startswith('py'):
        s.make_kern_copy = True
    w.solve(s)
    mon.ev('solve')
    gap = get_gap(s, w.kt.startswith('py'))
    if gap < 1e-9:
        raise Inconclusive('stationary state not unique')
    if not s.success:
        raise Inconclusive('failed')
    return s, gap


def pops(s):
    return np.array([s.get_phi0(b, b).real for b in range(s.si.nmany)])


def run_case(case, mon):
    rng = gen.rng_of('p04', case['seed'])
    kind = case['kind']
    if kind.startswith('eq-'):
        return equilibrium(rng, kind[3:], mon)
    if kind.startswith('entropy'):
        return entropy(rng, kind.endswith('elph'), mon)
    if kind.startswith('onsager'):
        return onsager(rng, kind.endswith('elph'), mon)
    if kind.startswith('limit'):
        return limit(rng, kind.endswith('coh'), mon)
    return scaling(rng, mon)


def too_close(s, gam, ex, exact_ok=False):
    """Levels closer than their broadening: coherences are of leading order (RTD does not keep them at all)."""
    if 'spinful' in ex.tags and ex.n == 2:
        return
    E = np.array(s.Ea)
    for c in range(s.si.ncharge):
        e = np.sort(E[list(s.si.statesdm[c])])
        d = np.diff(e)
        if exact_ok:
            d = d[d > 1e-9]
        if len(d) and np.min(d) < 4*gam*ex.n*ex.nl:
            raise Inconclusive('levels closer than their broadening')


def phonon_equilibrium(w):
    e = w.spec.elph
    for b in e['T']:
        e['T'][b] = w.spec.T[0]


def equilibrium(rng, name, mon):
    if name == 'single':
        name = str(rng.choice(['Pauli', 'Lindblad', '1vN', 'Redfield', 'RTD']))
        w = work.draw(rng, name, n=1, spinful=False, equilibrium=True)
    else:
        spinful = False if name.endswith('RTD') and rng.random() < 0.7 else None
        w = work.draw(rng, name, equilibrium=True, spinful=spinful, cplx=False if name == 'RTD' else None,
                      **(dict(degenerate=False) if name == 'RTD' else {}))
    if w.elph:
        phonon_equilibrium(w)
    base = work.base_of(w.kt)
    if base == '2vN':
        w.opts['kpnt'] = 513
        w.sv['niter'] = 5
        if w.spec.n > 1:
            w.kt = '2vN'
    s, gap = solved(w, mon)
    ex = w.spec.explicit()
    mu, T = ex.mu_arr()[0], ex.T_arr()[0]
    gam, es = sysutil.scales(s, w.spec)
    q = sysutil.charges(s)
    gc = sysutil.gc_populations(np.array(s.Ea), q, mu, T)
    p = pops(s)
    I, E, Q = np.array(s.current), np.array(s.energy_current), np.array(s.heat_current)
    ratio = gam*ex.n*ex.nl/T
    deg = ex.n == 1 and not w.elph
    exact = base == 'Pauli' or (base in ('Redfield', '1vN', 'Lindblad') and deg) or \
        (base in ('Redfield', '1vN') and w.itype in (2, 3) and not w.elph) or \
        (base in ('Redfield', '1vN') and w.itype in (2, 3) and w.opts.get('itype_ph') == 2)
    tol = (1e-12+1e-14/gap)
    if w.elph:
        tol += 1e-14*1e6*2*np.pi*np.max(np.abs(np.array(s.baths.Vbbp)))**2*T/gam
    if deg and base in ('1vN', 'Redfield') and w.itype == 0:
        tol += 1e-9
    mon.key('eq', *w.key())
    if exact:
        # band edges: the density of states jumps, amplitudes at the edge are exponentially small
        mon.small('eq-exact', I, tol*gam, what='%s current' % w.name)
        if not (deg and base in ('Redfield', '1vN') and w.itype in (0, 1)):
            mon.small('eq-exact', E, tol*es, what='%s energy' % w.name)
            mon.small('eq-exact', Q, tol*es, what='%s heat' % w.name)
        mon.close('eq-populations', p, gc, rtol=0, atol=tol+1e-12, what=w.name)
        if base in work.COH:
            R = sysutil.rho_full(s)
            mon.small('eq-coherences', R-np.diag(np.diag(R)), tol+1e-12, what=w.name)
        return
    if base == 'RTD':
        too_close(s, gam, ex)
        mon.close('eq-populations', p, gc, rtol=0, atol=20*ratio, what='RTD')
        mon.small('eq-next-order', I, 3*gam*ratio**2+1e-9*gam, what='RTD current')
        if np.all(np.isfinite(E)):
            mon.small('eq-next-order', E, 3*es*ratio**2+1e-9*es, what='RTD energy')
        return
    if base == '2vN':
        dI = np.max(np.abs(np.array(s.iters[-1].current)-np.array(s.iters[-2].current)))
        if dI > 1e-5*gam:
            raise Inconclusive('2vN iteration not converged')
        mon.small('eq-2vN', I, 1e-2*gam, what='2vN current')
        mon.small('eq-2vN', E, 3e-2*es, what='2vN energy')
        mon.close('eq-populations', p, gc, rtol=0, atol=20*ratio+1e-3, what='2vN')
        return
    fac = 1.0
    if w.elph:
        # phonon-induced broadening enters the same way
        V = np.max(np.abs(np.array(s.baths.Vbbp)))**2
        fac = 1+V*10/gam
    wide = np.log(10+np.max(np.abs(ex.D_arr()))/T)
    mon.small('eq-next-order', I, 3*gam*ratio*wide*fac+tol*gam, what=w.name)
    mon.small('eq-next-order', E, 3*es*ratio*wide*fac*2+tol*es, what=w.name)


def entropy(rng, elph, mon):
    w = work.draw(rng, 'elph-Pauli' if elph else 'Pauli')
    if elph:
        Tp = gen.r3(w.spec.T[0]*rng.uniform(0.4, 2))
        for b in w.spec.elph['T']:
            w.spec.elph['T'][b] = Tp
    s, gap = solved(w, mon)
    ex = w.spec.explicit()
    gam, es = sysutil.scales(s, w.spec)
    Q = np.array(s.heat_current)
    sig = -np.sum(Q/ex.T_arr())
    if elph:
        sig -= -np.sum(np.array(s.energy_current))/Tp
    tol = (1e-12+1e-14/gap)*es/min(ex.T_arr())
    if elph:
        tol += 1e-13*1e6*2*np.pi*np.max(np.abs(np.array(s.baths.Vbbp)))**2
    mon.true('entropy', sig >= -tol, lambda: 'entropy production %.3e (tol %.1e) heat %r' % (sig, tol, Q))
    if sig > 1e3*tol:
        mon.ev('entropy-positive')
    p = pops(s)
    mon.true('population-range', np.min(p) >= -1e-12 and np.max(p) <= 1+1e-12, lambda: '%r' % p)
    mon.key('entropy', *w.key())


def onsager(rng, elph, mon):
    nl = int(rng.choice([2, 2, 3]))
    w = work.draw(rng, 'elph-Pauli' if elph else 'Pauli', equilibrium=True, spinful=False, nl=nl, py=False)
    if elph:
        phonon_equilibrium(w)
    sp = w.spec
    mu0, T0 = sp.mu[0], sp.T[0]
    s, gap = solved(w, mon)
    if gap < 1e-6:
        raise Inconclusive('slow relaxation')
    gam, es = sysutil.scales(s, sp)
    d = 1e-4
    n2 = 2*nl

    def flux(k, sign):
        m = dict(sp.mu)
        T = dict(sp.T)
        l = k % nl
        # affinities: d(mu/T) at fixed T is dmu/T; -d(1/T) with mu/T fixed shifts heat
        if k < nl:
            m[l] = mu0+sign*d*T0
        else:
            T[l] = T0/(1-sign*d)
        s.change(mulst=m, tlst=T)
        w.solve(s)
        return np.concatenate([np.array(s.current), np.array(s.heat_current)/T0])
    L = np.zeros((n2, n2))
    for k in range(n2):
        L[:, k] = (flux(k, 1)-flux(k, -1))/(2*d)
    mon.ev('solve', 4*nl)
    sc = np.max(np.abs(L))
    tol = 1e-5*sc+1e-9*(gam+es/T0)*(1+1e-7/gap)
    if elph:
        tol += 1e-14/d*1e6*2*np.pi*np.max(np.abs(np.array(s.baths.Vbbp)))**2*(1+T0)
    mon.small('onsager', L-L.T, tol, what='%r' % L)
    ev = np.linalg.eigvalsh(0.5*(L+L.T))
    mon.true('onsager-psd', ev[0] >= -tol, lambda: '%r' % ev)
    mon.key('onsager', *w.key())


def limit(rng, coh, mon):
    """Only one reservoir is coupled: its grand canonical state, nothing flows."""
    name = str(rng.choice(['Redfield', '1vN'])) if coh else 'Pauli'
    w = work.draw(rng, name, spinful=False, nl=int(rng.integers(2, 4)), full_t=True,
                  itype=int(rng.choice([2, 3])) if coh else None)
    sp = w.spec
    k = int(rng.integers(sp.nl))
    t0 = {i: sp.t[(k, i)] for i in range(sp.n) if (k, i) in sp.t}
    sp.t = {(k, i): v for i, v in t0.items()}
    if rng.random() < 0.5:
        for l in range(sp.nl):
            if l != k:
                sp.t[(l, 0)] = 0.0
    s, gap = solved(w, mon)
    gam, es = sysutil.scales(s, sp)
    gc = sysutil.gc_populations(np.array(s.Ea), sysutil.charges(s), sp.mu[k], sp.T[k])
    tol = 1e-12+1e-14/gap
    mon.close('limit', pops(s), gc, rtol=0, atol=10*tol, what=w.name)
    mon.small('limit-current', np.array(s.current), tol*gam)
    mon.small('limit-energy', np.array(s.energy_current), tol*es)
    others = [l for l in range(sp.nl) if l != k]
    mon.true('limit-uncoupled', np.all(np.array(s.current)[others] == 0) and np.all(np.array(s.energy_current)[others] == 0),
             lambda: '%r' % s.current)
    # weakly coupling the others moves populations only in proportion
    mon.key('limit', *w.key())


def scaling(rng, mon):
    """Approximate approaches: the equilibrium currents vanish one order faster than the coupling."""
    name = str(rng.choice(['Lindblad', 'Redfield', '1vN', 'RTD']))
    w = work.draw(rng, name, equilibrium=True, spinful=False, n=2, gamma=0.1, cplx=False if name == 'RTD' else None,
                  itype=int(rng.choice([0, 1, 2])), full_t=True,
                  **(dict(degenerate=False) if name == 'RTD' else {}))
    base = work.base_of(w.kt)
    vals = []
    for f in (1.0, 0.25):
        t0 = dict(w.spec.t)
        w.spec.t = {k: v*np.sqrt(f) for k, v in t0.items()}
        s, gap = solved(w, mon)
        gam, es = sysutil.scales(s, w.spec)
        w.spec.t = t0
        if gap < 1e-5:
            raise Inconclusive('slow relaxation')
        too_close(s, gam, w.spec, exact_ok=base != 'RTD')
        vals.append(np.max(np.abs(np.array(s.current)))/gam)
    order = 2 if base == 'RTD' else 1
    floor = 1e-9
    mon.true('scaling', vals[1] <= 3*vals[0]*0.25**order + floor*100 or vals[1] < 1e-7, lambda: '%s %r' % (w.name, vals))
    mon.key('scaling', *w.key())
